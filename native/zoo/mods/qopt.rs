#![allow(dead_code)]
use hyperdrive::futures::Future;
use hyperdrive::serde::Deserialize;
use hyperdrive::{http, hyper, FromRequest};
#[derive(Deserialize, Debug, PartialEq)]
#[serde(crate = "hyperdrive::serde")]
pub struct Page {
    start: Option<u32>,
}
#[derive(FromRequest, Debug)]
enum R {
    #[get("/opt")]
    Opt {
        #[query_params]
        q: Option<Page>,
    },
    #[get("/all")]
    AllOptional {
        #[query_params]
        q: Page,
    },
}
fn run(uri: &str) -> String {
    let mut b = http::Request::builder();
    b.uri(uri);
    let r: Result<R, _> = R::from_request(b.body(hyper::Body::empty()).unwrap(), hyperdrive::NoContext).wait();
    match r {
        Ok(r) => format!("{:?}", r),
        Err(e) => format!("error {}", e),
    }
}
pub fn check(v: &mut Vec<String>) {
    for (uri, want) in &[
        ("/opt", "Opt { q: None }"),
        ("/all", "AllOptional { q: Page { start: None } }"),
        ("/all?start=3", "AllOptional { q: Page { start: Some(3) } }"),
        ("/all?", "AllOptional { q: Page { start: None } }"),
    ] {
        let got = run(uri);
        if got != *want {
            v.push(format!("GET {}: got {}, expected {}", uri, got, want));
        }
    }
}
