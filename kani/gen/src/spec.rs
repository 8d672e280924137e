//! The parts of the postconditions (see proofs.rs for which applies when).
use crate::env::*;
use futures::{Async, Poll};
use http::Request;
use hyper::Body;
use hyperdrive::{BoxedError, Error};
use std::sync::Arc;

pub struct Input { pub method: u8, pub req: Arc<Request<()>>, pub body: u32 }
impl Input { pub fn body(&self) -> Body { Body::with_id(self.body) } }
/// Any request whose path is in the class under consideration, and any behaviour of user code.
pub fn input(method: Option<u8>) -> Input {
    vtables();
    unsafe {
        macro_rules! plan { ($($k:expr)*) => { $(PLAN[$k] = Plan { fail: false, pend: false, val: kani::any() };)* } }
        plan!(0 1 2 4 5 6 7 8 9);
        macro_rules! unseen { ($($k:expr)*) => { $(SEEN[$k] = UNSEEN;)* } }
        unseen!(0 1 2 4 5 6 7 8 9);
        CLOCK = 0;
        ANYPOS = false;
        ANYTIME = false;
        FWD_STATUS = kani::any();
        kani::assume(400 <= FWD_STATUS && FWD_STATUS < 600 && FWD_STATUS != 405);
        serde_urlencoded::OPAQUE = true;
        serde_urlencoded::CALLS = 0;
        serde_urlencoded::VALUE = 200;
        static TEXT: [u8; 1] = [0];
        http::PATH = text(&TEXT);
        http::QUERY = if kani::any() { Some(text(&TEXT)) } else { None };
        macro_rules! span { ($($k:expr)*) => { $(regex::SPAN[$k] = (kani::any(), kani::any()); kani::assume(regex::SPAN[$k].0 < 1 << 40 && regex::SPAN[$k].1 < 1 << 40);)* } }
        span!(0 1 2 3);
        REQ = Req { method: match method { Some(m) => m, None => kani::any() }, uri: kani::any(), version: kani::any(), headers: kani::any(), hedits: 0, ext: kani::any(), eedits: 0 };
        Input { method: REQ.method, req: Arc::new(REQ.make()), body: 202 }
    }
}
/// Which slots fail (as a bit set) and which are pending once.
pub fn plan(bad: u32, pend: u32, kind: u8, query: bool) {
    unsafe {
        macro_rules! plan { ($($k:expr)*) => { $(PLAN[$k].fail = bad & (1 << $k) != 0; PLAN[$k].pend = pend & (1 << $k) != 0;)* } }
        plan!(0 1 2 4 5 6 7 8 9);
        FWD_KIND = kind;
        serde_urlencoded::FAIL = if query { Some(201) } else { None };
    }
}
/// Text of any length (nobody reads it).
unsafe fn text(t: &'static [u8; 1]) -> &'static str {
    let n: usize = kani::any();
    kani::assume(n < 1 << 40);
    std::mem::transmute::<(*const u8, usize), &'static str>((t.as_ptr(), n))
}
pub fn any_cx() -> Cx { Cx { x: Part(301), p: Part(302), y: Other(303), o: Other(304) } }
pub fn fails(k: usize) -> bool { unsafe { PLAN[k].fail } }

pub fn err<T>(r: &Poll<T, BoxedError>) -> Option<&BoxedError> {
    match r { Err(e) => Some(e), Ok(Async::Ready(_)) | Ok(Async::NotReady) => None }
}
fn ours(e: Option<&BoxedError>) -> Option<&Error> { match e { Some(e) => e.downcast_ref::<Error>(), None => None } }
fn status(e: Option<&BoxedError>) -> u16 { match ours(e) { Some(e) => e.http_status().as_u16(), None => 0 } }
/// The allowed methods as a bit set; `None` if there are none (not even the empty set).
fn allowed(e: Option<&BoxedError>) -> Option<u32> {
    match ours(e) {
        Some(e) => match e.allowed_methods() {
            Some(m) => {
                assert!(m.len() <= 8);
                macro_rules! bit { ($($k:expr)*) => { 0 $(| if m.len() > $k { 1u32 << m[$k].index() } else { 0 })* } }
                Some(bit!(0 1 2 3 4 5 6 7))
            }
            None => None,
        },
        None => None,
    }
}
fn foreign(e: Option<&BoxedError>, val: u32) -> bool {
    match e { Some(e) => match e.downcast_ref::<Foreign>() { Some(f) => f.0 == val, None => false }, None => false }
}

/// C05: conversion of some of the placeholders in `slots` failed
pub fn path_failed(e: Option<&BoxedError>, slots: u8) {
    unsafe {
        assert!(status(e) == 404, "C05 a failed conversion gives 404");
        let source = match ours(e) { Some(e) => e.source(), None => None };
        let val = match source { Some(s) => match s.downcast_ref::<PathErr>() { Some(p) => Some(p.0), None => None }, None => None };
        let mut ok = false;
        macro_rules! slot { ($($k:expr)*) => { $(if slots & (1 << $k) != 0 && PLAN[$k].fail && val == Some(PLAN[$k].val) { ok = true; })* } }
        slot!(0 1 2);
        assert!(ok, "C05 the error's source is the conversion error");
        assert!(CLOCK == 0 && serde_urlencoded::CALLS == 0, "C05 nothing else is decoded after a failed conversion");
    }
}
pub fn query_fails() -> bool { unsafe { serde_urlencoded::FAIL.is_some() } }
/// C06: what the query field is decoded from
pub fn query() {
    unsafe {
        assert!(serde_urlencoded::CALLS == 1, "C06 the query string is decoded once");
        match http::QUERY {
            Some(q) => assert!(serde_urlencoded::PTR == q.as_ptr() as usize && serde_urlencoded::LEN == q.len(), "C06 exactly the raw query string is decoded"),
            None => assert!(serde_urlencoded::LEN == 0, "C06 no query string decodes like an empty one"),
        }
    }
}
pub fn query_failed(e: Option<&BoxedError>) {
    unsafe {
        assert!(status(e) == 400, "C06 a query that does not decode gives 400");
        let source = match ours(e) { Some(e) => e.source(), None => None };
        let val = match source { Some(s) => match s.downcast_ref::<serde_urlencoded::Error>() { Some(p) => Some(p.0), None => None }, None => None };
        assert!(val == serde_urlencoded::FAIL, "C06 the error's source is the decoding error");
        assert!(CLOCK == 0, "C06 nothing else is decoded after that");
    }
}
/// C07, C08, C17: guard, body or forward slot `k` is the `n`th stage
pub fn stage(k: usize, n: u8, i: &Input) {
    unsafe {
        assert!(SEEN[k].starts == 1, "C07 guards, body and forward are started exactly once");
        assert!(SEEN[k].at == 2 * n + 1, "C07 in declaration order, body and forward last, each after the previous one resolved");
        assert!(SEEN[k].done_at == 2 * n + 2, "C07 each is driven until it resolves");
        assert!(SEEN[k].same, "C17 the request's head is handed on unmodified");
        if k == FWD { assert!(SEEN[k].same && SEEN[k].body == i.body, "C08 the request and body are forwarded unmodified"); }
        if k == BODY { assert!(SEEN[k].body == i.body, "C17 the body is handed on unmodified"); }
    }
}
/// C15: the part of the context it gets
pub fn context(k: usize, a: u32, b: u32) {
    unsafe {
        assert!(SEEN[k].cx == a && SEEN[k].cx2 == b, "C15 guards and bodies get their part of the context, forwarded types all of it");
    }
}
pub fn stage_failed(k: usize, e: Option<&BoxedError>, n: u8) {
    unsafe {
        assert!(foreign(e, PLAN[k].val), "C07 the first failure is the result, unchanged");
        assert!(CLOCK == 2 * n, "C07 nothing is started after a failure");
    }
}
fn same_forward(e: Option<&BoxedError>) -> bool {
    unsafe {
        match FWD_KIND {
            1 => status(e) == FWD_STATUS && allowed(e).is_none(),
            2 => status(e) == 405 && allowed(e) == Some(1 << 3 | 1 << 8),
            3 => status(e) == 405 && allowed(e) == Some(0),
            _ => foreign(e, PLAN[FWD].val),
        }
    }
}
pub fn forward_failed(e: Option<&BoxedError>, n: u8) {
    assert!(same_forward(e), "C08 the inner type's error is the result, unchanged");
    assert!(unsafe { CLOCK } == 2 * n, "C08 nothing is started after that");
}
/// The fallback's inner type failed; the path matched, with other methods.
pub fn merged(e: Option<&BoxedError>, outer: u32, n: u8) {
    unsafe {
        match FWD_KIND {
            2 => assert!(status(e) == 405 && allowed(e) == Some(outer | 1 << 3 | 1 << 8), "C08 405s are merged"),
            3 => assert!(status(e) == 405 && allowed(e) == Some(outer), "C08 405s are merged"),
            _ => assert!(same_forward(e), "C08 other errors of the inner type are the result, unchanged"),
        }
        assert!(CLOCK == 2 * n, "C08 nothing is started after that");
    }
}
fn nothing() { unsafe { assert!(CLOCK == 0 && serde_urlencoded::CALLS == 0, "C04 nothing is decoded for an unroutable request"); } }
pub fn wrong_method(e: Option<&BoxedError>, methods: u32) {
    assert!(status(e) == 405, "C04 a wrong method gives 405");
    assert!(allowed(e) == Some(methods), "C04 exactly the accepted methods are listed");
    nothing();
}
pub fn not_found(e: Option<&BoxedError>) {
    assert!(status(e) == 404 && match ours(e) { Some(e) => e.source().is_none(), None => false }, "C04 an unknown path gives 404");
    nothing();
}

/// Kani's vtable restriction keys candidates by the trait object's type, auto traits included; a
/// `dyn Error + Send + Sync` used as `dyn Error` would find none. Making such objects here adds them.
fn vtables() {
    let a: &dyn std::error::Error = &Foreign(0);
    let e = std::mem::ManuallyDrop::new(Error::from_status(http::StatusCode::NOT_FOUND));
    let b: &dyn std::error::Error = &*e;
    let c: &dyn std::error::Error = &PathErr(0);
    let d: &dyn std::error::Error = &serde_urlencoded::Error(0);
    let x = [a, b, c, d];
    let i: usize = kani::any();
    kani::assume(i < 4);
    let _ = x[i].is::<Foreign>();
}
