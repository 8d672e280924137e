// The documentation does not ask users to depend on serde_urlencoded.
use hyperdrive::serde::Deserialize;
use hyperdrive::FromRequest;
#[derive(Deserialize)]
#[serde(crate = "hyperdrive::serde")]
pub struct Page {
    start: Option<u32>,
}
#[derive(FromRequest)]
#[allow(dead_code)]
enum R {
    #[get("/q/{x}")]
    A {
        x: String,
        #[query_params]
        p: Page,
    },
}
pub fn check(_: &mut Vec<String>) {}
