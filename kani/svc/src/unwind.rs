//! `catch_unwind` (src/service.rs): C13. Kani does not unwind, so `std::panic::catch_unwind` is
//! replaced by its contract: user code that "panics" sets a flag and returns a dummy that nobody
//! may look at; the nearest enclosing `catch_unwind` then yields `Err(payload)` instead of it.
use crate::env::*;
use futures::{Async, Future, Poll};
use hyper::{service::Service, Body, Response};
use hyperdrive::{service::ServiceExt, BoxedError};
use std::any::Any;
use std::panic::{catch_unwind as real_catch_unwind, UnwindSafe};

static mut PANIC: Option<u32> = None;
static mut DEPTH: u32 = 0;
pub fn catch_spec<F: FnOnce() -> R + UnwindSafe, R>(f: F) -> Result<R, Box<dyn Any + Send + 'static>> {
    unsafe {
        DEPTH += 1;
        let r = f();
        DEPTH -= 1;
        match PANIC.take() {
            Some(p) => { std::mem::forget(r); Err(Box::new(p)) }
            None => Ok(r),
        }
    }
}
fn boom(p: u32) {
    unsafe {
        assert!(DEPTH > 0, "C13 a panic of the wrapped service escapes");
        PANIC = Some(p);
    }
}

/// When the wrapped service panics.
#[derive(Clone, Copy, PartialEq, Eq)]
enum When { Never, Call, FirstPoll, SecondPoll }
struct U {
    when: When, pend: bool, payload: u32, out: Outcome, resp: Option<Resp>,
    seen: Option<Req>, calls: u32, polls: u32, dead: bool,
    handled: u32, got: u32, hout: Outcome, hresp: Option<Resp>, hpend: bool, hid: u32, inner: u32,
}
const O: Outcome = Outcome { kind: 0, status: 400, tag: 0 };
static mut S: U = U { when: When::Never, pend: false, payload: 0, out: O, resp: None, seen: None, calls: 0, polls: 0, dead: false, handled: 0, got: 0, hout: O, hresp: None, hpend: false, hid: 0, inner: 0 };

#[derive(Clone)]
struct Inner(u32);
struct InnerFut(u32);
impl Service for Inner {
    type ReqBody = Body; type ResBody = Body; type Error = BoxedError; type Future = InnerFut;
    fn call(&mut self, r: http::Request<Body>) -> InnerFut {
        unsafe {
            S.calls += 1;
            S.inner = self.0;
            S.seen = Some(Req { body: r.body().id, ..Req::of(&r) });
            if S.when == When::Call { boom(S.payload); }
        }
        InnerFut(self.0)
    }
}
impl Future for InnerFut {
    type Item = Response<Body>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Response<Body>, BoxedError> {
        unsafe {
            assert!(!S.dead, "C13 polled again after it panicked or completed");
            S.polls += 1;
            if S.when == When::FirstPoll || (S.when == When::SecondPoll && S.polls == 2) { S.dead = true; boom(S.payload); return Ok(Async::NotReady); }
            if S.pend && S.polls == 1 { return Ok(Async::NotReady); }
            S.dead = true;
            if S.out.kind == 0 { Ok(Async::Ready(S.resp.unwrap().make())) } else { Err(S.out.err()) }
        }
    }
}
fn handler(id: u32) -> impl Fn(Box<dyn Any + Send>) -> Scripted<Response<Body>> {
    move |p| unsafe {
        S.handled += 1;
        S.hid = id;
        S.got = match p.downcast_ref::<u32>() { Some(x) => *x, None => { assert!(false, "C13 the handler gets the panic's payload"); 0 } };
        std::mem::forget(p);
        Scripted { pend: S.hpend, out: Some(if S.hout.kind == 0 { Ok(S.hresp.unwrap().make()) } else { Err(S.hout.err()) }) }
    }
}
fn run(when: When, pend: bool, out: u8, hout: u8, hpend: bool, cloned: bool) {
    vtables();
    let panics = when != When::Never;
    unsafe {
        S.when = when; S.pend = pend; S.payload = kani::any(); S.out = Outcome::any(out); S.resp = Some(Resp::any());
        S.hout = Outcome::any(hout); S.hresp = Some(Resp::any()); S.hpend = hpend;
    }
    let (req, id) = (Req::any(), kani::any());
    let inner = kani::any();
    let mut s = Inner(inner).catch_unwind(handler(id));
    if cloned { s = s.clone(); }
    let mut f = s.call(req.make());
    let r = drive(&mut f, pend as u8 + (panics && hpend) as u8);
    unsafe {
        assert!(S.calls == 1 && S.seen == Some(req) && S.inner == inner, "C13 the wrapped service is called once, with the request");
        assert!(S.handled == panics as u32, "C13 the handler runs exactly once per panic");
        let (o, want) = if panics { (S.hout, S.hresp) } else { (S.out, S.resp) };
        if panics { assert!(S.hid == id, "C13 it is the handler given"); assert!(S.got == S.payload, "C13 the handler gets the panic's payload"); }
        match &r {
            Ok(x) => assert!(o.kind == 0 && Resp::of(x) == want.unwrap(), "C13 the response is passed on unchanged"),
            Err(e) => match o.kind {
                1 => assert!(e.downcast_ref::<hyperdrive::Error>().map(|e| e.http_status().as_u16()) == Some(o.status), "C13 the error is passed on unchanged"),
                2 => assert!(is_foreign(e, o.tag), "C13 the error is passed on unchanged"),
                _ => assert!(false, "C13 no error out of nowhere"),
            },
        }
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f, s));
}
macro_rules! cases {
    ($($n:ident = $w:ident, $pend:expr, $out:expr, $hout:expr, $hpend:expr, $c:expr;)*) => { $(
        #[kani::proof]
        #[kani::unwind(2)]
        #[kani::stub(real_catch_unwind, catch_spec)]
        fn $n() { run(When::$w, $pend, $out, $hout, $hpend, $c) }
    )* }
}
cases! {
    ok = Never, false, 0, 0, false, false;
    pend_ok = Never, true, 0, 0, false, false;
    ours = Never, false, 1, 0, false, false;
    foreign = Never, false, 2, 0, false, false;
    call_panics = Call, false, 0, 0, false, false;
    call_panics_handler_fails = Call, false, 0, 2, false, false;
    poll_panics = FirstPoll, false, 0, 0, false, false;
    poll_panics_handler_waits = FirstPoll, false, 0, 0, true, false;
    poll_panics_handler_fails = FirstPoll, false, 0, 1, false, false;
    later_poll_panics = SecondPoll, true, 0, 0, false, false;
    clone_ok = Never, false, 0, 0, false, true;
    clone_call_panics = Call, false, 0, 0, false, true;
    clone_poll_panics = FirstPoll, false, 0, 0, false, true;
}
