//! Written by mkgen.py. Runs every program on every class, so that all its patterns are compiled.
use crate::{env::*, programs::*};
use hyper::Body;
use hyperdrive::{FromRequest, NoContext};
use std::sync::Arc;

pub struct Class { pub name: &'static str, pub path: &'static str, pub spans: &'static [(usize, usize)] }
pub struct Program { pub name: &'static str, pub run: fn(u8), pub classes: &'static [Class] }
fn run_basic(method: u8) {
    let r = Arc::new(Req { method, uri: 0, version: 0, headers: 0, hedits: 0, ext: 0, eedits: 0 }.make());
    drop(<Basic>::from_request_and_body(&r, Body::with_id(0), NoContext));
}
fn run_fall(method: u8) {
    let r = Arc::new(Req { method, uri: 0, version: 0, headers: 0, hedits: 0, ext: 0, eedits: 0 }.make());
    drop(<Fall>::from_request_and_body(&r, Body::with_id(0), NoContext));
}
fn run_ctx(method: u8) {
    let r = Arc::new(Req { method, uri: 0, version: 0, headers: 0, hedits: 0, ext: 0, eedits: 0 }.make());
    let cx = Cx { x: Part(0), p: Part(0), y: Other(0), o: Other(0) };
    drop(<Ctx>::from_request_and_body(&r, Body::with_id(0), cx));
}
fn run_ctxfall(method: u8) {
    let r = Arc::new(Req { method, uri: 0, version: 0, headers: 0, hedits: 0, ext: 0, eedits: 0 }.make());
    let cx = Cx { x: Part(0), p: Part(0), y: Other(0), o: Other(0) };
    drop(<CtxFall>::from_request_and_body(&r, Body::with_id(0), cx));
}
fn run_gen(method: u8) {
    let r = Arc::new(Req { method, uri: 0, version: 0, headers: 0, hedits: 0, ext: 0, eedits: 0 }.make());
    drop(<Gen<P0, G0, B>>::from_request_and_body(&r, Body::with_id(0), NoContext));
}
fn run_only(method: u8) {
    let r = Arc::new(Req { method, uri: 0, version: 0, headers: 0, hedits: 0, ext: 0, eedits: 0 }.make());
    drop(<Only>::from_request_and_body(&r, Body::with_id(0), NoContext));
}
pub static PROGRAMS: &[Program] = &[
    Program { name: "basic", run: run_basic, classes: &[Class { name: "none", path: "/nothing/here", spans: &[] }, Class { name: "index", path: "/", spans: &[] }, Class { name: "u", path: "/u/zz", spans: &[(3, 5)] }, Class { name: "x", path: "/x/yy/zzz", spans: &[(3, 5), (6, 9)] }, Class { name: "y", path: "/y/yy/zz/q", spans: &[(3, 5), (6, 10)] }, Class { name: "star", path: "*", spans: &[] }, Class { name: "h", path: "/h.x", spans: &[] }] },
    Program { name: "fall", run: run_fall, classes: &[Class { name: "none", path: "/nothing/here", spans: &[] }, Class { name: "u", path: "/u/zz", spans: &[(3, 5)] }, Class { name: "s", path: "/s", spans: &[] }] },
    Program { name: "ctx", run: run_ctx, classes: &[Class { name: "none", path: "/nothing/here", spans: &[] }, Class { name: "c", path: "/c/d/e", spans: &[(3, 6)] }] },
    Program { name: "ctxfall", run: run_ctxfall, classes: &[Class { name: "none", path: "/nothing/here", spans: &[] }, Class { name: "v", path: "/v/zz", spans: &[(3, 5)] }, Class { name: "w", path: "/w/zz", spans: &[(3, 5)] }] },
    Program { name: "gen", run: run_gen, classes: &[Class { name: "g", path: "/g/zz", spans: &[(3, 5)] }] },
    Program { name: "only", run: run_only, classes: &[Class { name: "none", path: "/nothing/here", spans: &[] }] },
];
