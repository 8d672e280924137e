//! `FromRequest::from_request` and `from_request_sync` (src/lib.rs): C17; `blocking`: C14.
use crate::env::*;
use futures::{Async, Future};
use hyperdrive::FromRequest;

fn seen(req: Req, cx: u32) {
    unsafe {
        assert!(G.decode_calls == 1, "C17 decoded exactly once");
        assert!(G.seen == Some(req), "C17 the request is handed on unmodified");
        assert!(G.seen_cx == cx, "C17 the context is handed on");
    }
}
fn outcome(r: Result<D, hyperdrive::BoxedError>) {
    vtables();
    unsafe {
        match (&r, G.decode.kind) {
            (Ok(d), 0) => assert!(d.token == G.token, "C17 the decoded value is the result"),
            (Err(e), 1) => match e.downcast_ref::<hyperdrive::Error>() {
                Some(x) => assert!(x.http_status().as_u16() == G.decode.status, "C17 the error is the result"),
                None => assert!(false, "C17 the error is the result"),
            },
            (Err(e), 2) => assert!(is_foreign(e, G.decode.tag), "C17 the error is the result"),
            _ => assert!(false, "C17 the outcome is the decoder's"),
        }
    }
    std::mem::forget(r);
}
fn from_request(kind: u8, pend: bool) {
    let cx = kani::any();
    let req = Req::any();
    unsafe { G.decode = Outcome::any(kind); G.decode_pend = pend; G.token = kani::any(); }
    let mut f = D::from_request(req.make(), Cx(cx));
    let r = drive(&mut f, pend as u8);
    seen(req, cx);
    outcome(r);
    std::mem::forget(f);
}
fn from_request_sync(kind: u8, pend: bool) {
    let cx = kani::any();
    let req = Req::any();
    unsafe { G.decode = Outcome::any(kind); G.decode_pend = pend; G.token = kani::any(); }
    let r = D::from_request_sync(req.make(), Cx(cx));
    seen(req, cx);
    outcome(r);
}
macro_rules! cases {
    ($f:ident: $($n:ident = $k:expr, $p:expr;)*) => { pub mod $f { $(
        #[kani::proof]
        #[kani::unwind(3)]
        fn $n() { super::$f($k, $p); kani::cover!(true, "end reached"); }
    )* } }
}
cases! { from_request: ok = 0, false; ok_pend = 0, true; ours = 1, false; foreign = 2, true; }
cases! { from_request_sync: ok = 0, false; ok_pend = 0, true; ours = 1, false; foreign = 2, true; }

static mut RAN: u32 = 0;
/// The slot is unavailable for the first `n` polls; result and payload are arbitrary.
fn blocking(n: u8) {
    let (ok, v): (bool, u32) = (kani::any(), kani::any());
    unsafe { tokio_threadpool::SLOT = n; }
    let mut f = hyperdrive::blocking(move || { unsafe { RAN += 1; } if ok { Ok(v) } else { Err(v) } });
    assert!(unsafe { RAN } == 0, "C14 nothing runs before the future is polled");
    let mut k = 0;
    while k < n {
        match f.poll() {
            Ok(Async::NotReady) => {}
            _ => assert!(false, "C14 pending until a slot is granted"),
        }
        assert!(unsafe { RAN } == 0, "C14 nothing runs without a slot");
        k += 1;
    }
    let r = f.poll();
    assert!(unsafe { RAN } == 1, "C14 the closure runs exactly once");
    assert!(unsafe { tokio_threadpool::GRANTED } == 1, "C14 the closure runs in the slot");
    match r {
        Ok(Async::Ready(x)) => assert!(ok && x == v, "C14 result is the closure's"),
        Ok(Async::NotReady) => assert!(false, "C14 resolves once the closure has run"),
        Err(x) => assert!(!ok && x == v, "C14 error is the closure's"),
    }
    kani::cover!(true, "end reached");
    kani::cover!(ok, "Ok");
    kani::cover!(!ok, "Err");
    std::mem::forget(f);
}
#[kani::proof]
#[kani::unwind(4)]
fn blocking_at_once() { blocking(0) }
#[kani::proof]
#[kani::unwind(4)]
fn blocking_later() { blocking(1) }
#[kani::proof]
#[kani::unwind(4)]
fn blocking_after_two() { blocking(2) }
/// Outside a thread pool: panics instead of returning or running the closure.
#[kani::proof]
#[kani::should_panic]
#[kani::unwind(4)]
fn panics_blocking() {
    unsafe { tokio_threadpool::SLOT = u8::MAX; }
    let mut f = hyperdrive::blocking(move || -> Result<u32, u32> { unsafe { RAN += 1; } Ok(1) });
    let r = f.poll();
    kani::cover!(true, "never: poll returned");
    std::mem::forget((f, r));
}
