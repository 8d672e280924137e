#![allow(dead_code)]
use hyperdrive::{body::Json, serde::{Deserialize}, FromRequest};
/// docs
#[rustfmt::skip]
#[derive(Debug, FromRequest, Deserialize)]
#[serde(crate = "hyperdrive::serde", rename_all = "lowercase")]
#[allow(clippy::all)]
enum R {
    /// docs
    #[rustfmt::skip]
    #[get("/a/{x}")]
    #[serde(rename = "aa")]
    A {
        /// docs
        #[serde(default)]
        #[cfg(all())]
        x: u8,
        #[cfg(any())]
        y: u8,
    },
    #[cfg(any())]
    #[get("/a/{x}")]
    A2 { x: u8 },
    #[doc = "x"]
    #[allow(unused)]
    #[put(r"/b.c")]
    B {
        #[allow(unused)]
        #[body]
        #[serde(skip, default = "dflt")]
        j: Json<u8>,
    },
}
fn dflt() -> Json<u8> { Json(1) }
pub fn check(_: &mut Vec<String>) {}
