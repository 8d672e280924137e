//! `Json` and `HtmlForm` (src/body.rs): C09. The decoders are stand-ins that record the bytes they
//! are given and answer as scripted; `Concat2` is the real one.
use crate::env::*;
use futures::{Async, Future};
use hyper::{Body, Step};
use hyperdrive::{body::{HtmlForm, Json}, BoxedError, FromBody, NoContext};
use std::sync::Arc;

/// What the script's steps up to the first `Fail` or `End` deliver.
struct Want { b: [u8; 8], n: usize, fail: Option<u32>, pend: u8 }
fn want() -> Want {
    let mut w = Want { b: [0; 8], n: 0, fail: None, pend: 0 };
    let mut i = 0;
    while i < 4 {
        match unsafe { hyper::STEPS[i] } {
            Step::Pending => w.pend += 1,
            Step::Byte(a) => { w.b[w.n] = a; w.n += 1; }
            Step::Bytes(a, b) => { w.b[w.n] = a; w.b[w.n + 1] = b; w.n += 2; }
            Step::Empty | Step::Whole(..) => {}
            Step::Fail(i) => { w.fail = Some(i); break; }
            Step::End => break,
        }
        i += 1;
    }
    w
}
macro_rules! decoder {
    ($dol:tt $m:ident, $ty:ident, $lib:ident) => { pub mod $m {
        use super::*;
        /// Precondition: any script. Postcondition: the decoder sees exactly the body's bytes,
        /// once, and its outcome is the outcome; an I/O error is passed through and nothing decoded.
        fn run<const P: u8>(script: [Step; 4]) {
            vtables();
            unsafe {
                hyper::STEPS = script;
                $lib::FAIL = if kani::any() { Some(kani::any()) } else { None };
                $lib::VALUE = kani::any();
            }
            let w = want();
            assert!(w.pend == P);
            let req = Arc::new(http::Request::new(()));
            let mut f = $ty::<u32>::from_body(&req, Body::with_id(kani::any()), &NoContext);
            assert!(unsafe { $lib::CALLS } == 0);
            let mut r = f.poll();
            if P >= 1 { r = again(r, &mut f); }
            if P >= 2 { r = again(r, &mut f); }
            check(&w, &r);
            kani::cover!(true, "end reached");
            std::mem::forget((r, f, req));
        }
        type R = Result<Async<$ty<u32>>, BoxedError>;
        fn again(r: R, f: &mut <$ty<u32> as FromBody>::Result) -> R {
            assert!(matches!(r, Ok(Async::NotReady)), "C09 pending while the body is");
            assert!(unsafe { $lib::CALLS } == 0, "C09 nothing is decoded before the body is complete");
            std::mem::forget(r);
            f.poll()
        }
        fn check(w: &Want, r: &Result<Async<$ty<u32>>, BoxedError>) {
            unsafe {
                if let Some(i) = w.fail {
                    assert!($lib::CALLS == 0, "C09 a broken body is not decoded");
                    match r { Err(e) => assert!(e.downcast_ref::<hyper::Error>().map(|e| e.0) == Some(i), "C09 the I/O error is passed through"), _ => assert!(false, "C09 a broken body fails") }
                    return;
                }
                assert!($lib::CALLS == 1, "C09 decoded exactly once");
                assert!($lib::LEN == w.n, "C09 the decoder gets the whole body");
                macro_rules! byte { ($dol($i:expr)*) => { $dol( assert!($i >= w.n || $lib::SEEN[$i] == w.b[$i], "C09 the decoder gets the body's bytes"); )* } }
                byte! { 0 1 2 3 4 5 6 7 }
                match ($lib::FAIL, r) {
                    (None, Ok(Async::Ready(v))) => assert!(v.0 == $lib::VALUE, "C09 the decoded value is the result"),
                    (Some(i), Err(e)) => assert!(e.downcast_ref::<$lib::Error>().map(|e| e.0) == Some(i), "C09 the decoder's error is the result"),
                    _ => assert!(false, "C09 the outcome is the decoder's"),
                }
            }
        }
        fn b() -> u8 { kani::any() }
        /// Any body delivered in one piece, pending first or not; nothing depends on its contents.
        /// (That `concat2` makes one piece of many is its contract; the scripts below check it for
        /// up to four steps.)
        fn whole(pend: bool) {
            vtables();
            let n: usize = kani::any();
            kani::assume(n <= 1 << 40);
            unsafe { hyper::WHOLE = std::alloc::alloc(std::alloc::Layout::from_size_align(n + 1, 1).unwrap()); }
            unsafe {
                $lib::OPAQUE = true;
                $lib::FAIL = if kani::any() { Some(kani::any()) } else { None };
                $lib::VALUE = kani::any();
                hyper::STEPS = if pend { [Step::Pending, Step::Whole(n), Step::End, Step::End] } else { [Step::Whole(n), Step::End, Step::End, Step::End] };
            }
            let req = Arc::new(http::Request::new(()));
            let mut f = $ty::<u32>::from_body(&req, Body::with_id(kani::any()), &NoContext);
            let mut r = f.poll();
            if pend {
                assert!(matches!(r, Ok(Async::NotReady)), "C09 pending while the body is");
                assert!(unsafe { $lib::CALLS } == 0, "C09 nothing is decoded before the body is complete");
                std::mem::forget(std::mem::replace(&mut r, f.poll()));
            }
            unsafe {
                assert!($lib::CALLS == 1, "C09 decoded exactly once");
                assert!($lib::LEN == n && $lib::PTR == hyper::WHOLE as usize, "C09 the decoder gets the whole body, unchanged");
                match ($lib::FAIL, &r) {
                    (None, Ok(Async::Ready(v))) => assert!(v.0 == $lib::VALUE, "C09 the decoded value is the result"),
                    (Some(i), Err(e)) => assert!(e.downcast_ref::<$lib::Error>().map(|e| e.0) == Some(i), "C09 the decoder's error is the result"),
                    _ => assert!(false, "C09 the outcome is the decoder's"),
                }
            }
            kani::cover!(true, "end reached");
            kani::cover!(n == 0, "empty body");
            kani::cover!(n > 100000, "long body");
            std::mem::forget((r, f, req));
        }
        #[kani::proof]
        #[kani::unwind(3)]
        fn any_body() { whole(false) }
        #[kani::proof]
        #[kani::unwind(3)]
        fn any_body_later() { whole(true) }
        use Step::*;
        #[kani::proof]
        #[kani::unwind(6)]
        fn empty() { run::<0>([End, End, End, End]) }
        #[kani::proof]
        #[kani::unwind(6)]
        fn one_chunk() { run::<0>([Bytes(b(), b()), End, End, End]) }
        #[kani::proof]
        #[kani::unwind(6)]
        fn chunks() { run::<0>([Byte(b()), Bytes(b(), b()), Byte(b()), End]) }
        #[kani::proof]
        #[kani::unwind(6)]
        fn pending_and_empty() { run::<1>([Pending, Byte(b()), Empty, Byte(b())]) }
        #[kani::proof]
        #[kani::unwind(6)]
        fn pending_between() { run::<2>([Byte(b()), Pending, Pending, Byte(b())]) }
        #[kani::proof]
        #[kani::unwind(6)]
        fn fails_at_once() { run::<0>([Fail(kani::any()), Byte(b()), End, End]) }
        #[kani::proof]
        #[kani::unwind(6)]
        fn fails_later() { run::<1>([Byte(b()), Pending, Fail(kani::any()), Byte(b())]) }
    } }
}
decoder! { $ json, Json, serde_json }
decoder! { $ form, HtmlForm, serde_urlencoded }
