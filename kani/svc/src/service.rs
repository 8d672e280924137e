//! `AsyncService` and `SyncService` (src/service.rs): C10, C11, C17, C18.
use crate::env::*;
use hyper::service::{MakeService, Service};
use hyper::{Body, Response};
use hyperdrive::{service::{AsyncService, SyncService, ServiceExt}, BoxedError};

/// The cases are split by control flow (outcomes, pending or not); all data is symbolic.
pub type Case = (u8, bool, u8, bool);
fn script(c: Case) -> Req {
    unsafe {
        G.decode = Outcome::any(c.0); G.decode_pend = c.1; G.token = kani::any();
        G.handle = Outcome::any(c.2); G.handle_pend = c.3; G.resp = Some(Resp::any());
    }
    Req::any()
}

/// Postcondition of `call` on a service made from handler `id` and context `cx`.
fn check(req: Req, cx: u32, id: u32, r: &Result<Response<Body>, BoxedError>) {
    vtables();
    unsafe {
        // C17: decoded exactly once, from exactly this request, body and context
        assert!(G.decode_calls == 1, "C17 request decoded exactly once");
        assert!(G.seen == Some(req), "C17 decoder gets the request unmodified");
        assert!(G.seen_cx == cx, "C17 decoder gets the service's context");
        // the handler runs iff decoding succeeded, once, with the decoded value and the request
        assert!(G.handler_calls == (if G.decode.kind == 0 { 1 } else { 0 }), "C17 handler called exactly once iff decoding succeeds");
        let out = if G.decode.kind != 0 { G.decode } else { G.handle };
        if G.decode.kind == 0 {
            assert!(G.htoken == G.token, "C17 handler gets the decoded value");
            assert!(G.hseen == Some(req.sans_body()), "C17 handler gets the request unmodified");
            assert!(G.hid == id, "C18 the shared handler is called");
        }
        match r {
            Ok(resp) => {
                let got = Resp::of(resp);
                if out.kind == 0 {
                    let want = G.resp.unwrap();
                    if req.is_head() {
                        assert!(got.body == hyper::EMPTY, "C10 HEAD response has an empty body");
                        assert!(got == want.emptied(), "C10 HEAD response otherwise unaltered");
                    } else {
                        assert!(got == want, "C10 response unaltered");
                    }
                } else {
                    assert!(out.kind == 1, "C11 foreign error passed through");
                    assert!(got == Resp::of_error(out.status), "C11 hyperdrive error answered with its response");
                }
            }
            Err(e) => {
                assert!(out.kind == 2, "C11 only foreign errors are passed through");
                assert!(is_foreign(e, out.tag), "C11 foreign error unchanged");
            }
        }
    }
}
fn polls() -> u8 { unsafe { G.decode_pend as u8 + G.handle_pend as u8 } }

fn async_call(c: Case) {
    let (cx, id) = (kani::any(), kani::any());
    let req = script(c);
    let mut s = AsyncService::with_context(async_handler(id), Cx(cx));
    let mut f = s.call(req.make());
    let r = drive(&mut f, polls());
    check(req, cx, id, &r);
    std::mem::forget((r, f, s));
}
/// Here `handle_pend` means that the thread pool has no free slot at the first poll.
fn sync_call(c: Case) {
    let (cx, id) = (kani::any(), kani::any());
    let req = script(c);
    unsafe { tokio_threadpool::SLOT = c.3 as u8; }
    let mut s = SyncService::with_context(sync_handler(id), Cx(cx));
    let mut f = s.call(req.make());
    let r = drive(&mut f, polls());
    check(req, cx, id, &r);
    assert!(unsafe { tokio_threadpool::GRANTED } == (c.0 == 0) as u32, "C14 the handler runs in the thread pool");
    std::mem::forget((r, f, s));
}

macro_rules! cases {
    ($f:ident: $($n:ident = $c:expr;)*) => { pub mod $f { use super::*; $(
        #[kani::proof]
        #[kani::unwind(2)]
        #[kani::stub(hyperdrive::Error::response, response_spec)]
        fn $n() { super::$f($c); kani::cover!(true, "end reached"); }
    )* } }
}
cases! { async_call:
    ok_ok = (0, false, 0, false);
    pend_ok = (0, true, 0, false);
    ok_pend = (0, false, 0, true);
    ok_ours = (0, false, 1, false);
    ok_foreign = (0, false, 2, false);
    ours = (1, false, 0, false);
    foreign = (2, false, 0, false);
}
cases! { sync_call:
    ok_ok = (0, false, 0, false);
    pend_ok = (0, true, 0, false);
    ok_pend = (0, false, 0, true);
    ours = (1, false, 0, false);
    foreign = (2, false, 0, false);
}

// C18: a clone and a made service have the original's handler and context, the original keeps
// them, and one call leaves nothing behind that a later call could see. `call` is checked above for
// every handler and context, so here it is enough to look at what a call hands on.
fn reset() { unsafe { G.decode_calls = 0; G.handler_calls = 0; G.seen = None; G.hseen = None; } }
macro_rules! c18 {
    ($m:ident, $ty:ident, $handler:ident) => { pub mod $m { use super::*;
        #[kani::proof]
        #[kani::unwind(2)]
        #[kani::stub(hyperdrive::Error::response, response_spec)]
        fn clone() {
            let (cx, id) = (kani::any(), kani::any());
            let req = script((0, false, 0, false));
            let s = $ty::with_context($handler(id), Cx(cx));
            let mut c = s.clone();
            let mut f = c.call(req.make());
            let r = drive(&mut f, 0);
            check(req, cx, id, &r);
            kani::cover!(true, "end reached");
            std::mem::forget((r, f, s, c));
        }
        #[kani::proof]
        #[kani::unwind(2)]
        #[kani::stub(hyperdrive::Error::response, response_spec)]
        fn original_after_clone() {
            let (cx, id) = (kani::any(), kani::any());
            let req = script((0, false, 0, false));
            let mut s = $ty::with_context($handler(id), Cx(cx));
            drop(s.clone());
            let mut f = s.call(req.make());
            let r = drive(&mut f, 0);
            check(req, cx, id, &r);
            kani::cover!(true, "end reached");
            std::mem::forget((r, f, s));
        }
        #[kani::proof]
        #[kani::unwind(2)]
        #[kani::stub(hyperdrive::Error::response, response_spec)]
        fn made() {
            let (cx, id) = (kani::any(), kani::any());
            let req = script((0, false, 0, false));
            let mut s = $ty::with_context($handler(id), Cx(cx));
            let conn: u32 = kani::any();
            let mut c = drive(&mut s.make_service(conn), 0).unwrap();
            let mut f = c.call(req.make());
            let r = drive(&mut f, 0);
            check(req, cx, id, &r);
            kani::cover!(true, "end reached");
            std::mem::forget((r, f, s, c));
        }
        #[kani::proof]
        #[kani::unwind(2)]
        #[kani::stub(hyperdrive::Error::response, response_spec)]
        fn second_call() {
            let (cx, id) = (kani::any(), kani::any());
            let req = script((0, false, 0, false));
            let mut s = $ty::with_context($handler(id), Cx(cx));
            let f = s.call(req.make());
            reset();
            let req = script((0, false, 0, false));
            let mut f2 = s.call(req.make());
            let r = drive(&mut f2, 0);
            check(req, cx, id, &r);
            kani::cover!(true, "end reached");
            std::mem::forget((r, f, f2, s));
        }
    } }
}
c18! { c18_async, AsyncService, async_handler }
c18! { c18_sync, SyncService, sync_handler }

/// `make_service_by_cloning` over any service that is a number: every made service is that number.
#[derive(Clone)]
struct Num(u32);
impl Service for Num {
    type ReqBody = Body; type ResBody = Body; type Error = BoxedError; type Future = futures::future::FutureResult<Response<Body>, BoxedError>;
    fn call(&mut self, _: http::Request<Body>) -> Self::Future { futures::future::ok(Response::new(Body::with_id(self.0))) }
}
#[kani::proof]
#[kani::unwind(2)]
fn c18_by_cloning() {
    let n = kani::any();
    let mut m = Num(n).make_service_by_cloning();
    let conn: u32 = kani::any();
    let a = drive(&mut m.make_service(conn), 0);
    assert!(matches!(&a, Ok(Num(x)) if *x == n), "C18 made service is a clone");
    let b = drive(&mut m.make_service(conn), 0);
    assert!(matches!(&b, Ok(Num(x)) if *x == n), "C18 made service is a clone");
    let mut m2 = m.clone();
    let c = drive(&mut m2.make_service(conn), 0);
    assert!(matches!(&c, Ok(Num(x)) if *x == n), "C18 made service is a clone");
    kani::cover!(true, "end reached");
    std::mem::forget((a, b, c));
}
