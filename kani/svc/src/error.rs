//! `hyperdrive::Error` (src/error.rs): C12.
use crate::env::*;
use http::{Method, StatusCode};
use hyperdrive::Error;

fn error_status() -> StatusCode {
    let s: u16 = kani::any();
    kani::assume(400 <= s && s < 600);
    StatusCode::from_u16(s).unwrap()
}
fn is405(s: StatusCode) -> bool { s.as_u16() == 405 }

#[kani::proof]
#[kani::unwind(3)]
fn from_status() {
    let s = error_status();
    let e = Error::from_status(s);
    assert!(e.http_status() == s, "C12 status kept");
    assert!(e.source().is_none(), "C12 no source");
    assert!(std::error::Error::source(&e).is_none(), "C12 no source");
    match e.allowed_methods() {
        Some(m) => assert!(is405(s) && m.is_empty(), "C12 allowed methods only of a 405"),
        None => assert!(!is405(s), "C12 a 405 has allowed methods"),
    }
    kani::cover!(is405(s), "405");
    kani::cover!(!is405(s), "other");
    std::mem::forget(e);
}
#[kani::proof]
#[kani::unwind(3)]
fn with_source() {
    vtables();
    let s = error_status();
    let tag = kani::any();
    let e = Error::with_source(s, Foreign(tag));
    assert!(e.http_status() == s, "C12 status kept");
    let a = e.source().and_then(|x| x.downcast_ref::<Foreign>()).map(|f| f.0);
    let b = std::error::Error::source(&e).and_then(|x| x.downcast_ref::<Foreign>()).map(|f| f.0);
    assert!(a == Some(tag) && b == Some(tag), "C12 source kept");
    match e.allowed_methods() {
        Some(m) => assert!(is405(s) && m.is_empty(), "C12 allowed methods only of a 405"),
        None => assert!(!is405(s), "C12 a 405 has allowed methods"),
    }
    kani::cover!(true, "end reached");
    std::mem::forget(e);
}
#[kani::proof]
#[kani::should_panic]
#[kani::unwind(3)]
fn panics_from_status() {
    let s: u16 = kani::any();
    kani::assume(100 <= s && s < 400);
    let e = Error::from_status(StatusCode::from_u16(s).unwrap());
    kani::cover!(true, "never: made from a non-error status");
    std::mem::forget(e);
}
#[kani::proof]
#[kani::should_panic]
#[kani::unwind(3)]
fn panics_with_source() {
    let s: u16 = kani::any();
    kani::assume(100 <= s && s < 400);
    let e = Error::with_source(StatusCode::from_u16(s).unwrap(), Foreign(1));
    kani::cover!(true, "never: made from a non-error status");
    std::mem::forget(e);
}
static M: [&Method; 4] = [&Method::GET, &Method::HEAD, &Method::PUT, &Method::DELETE];
/// Every list of methods (its contents play no role: the slice itself is kept).
#[kani::proof]
#[kani::unwind(3)]
fn wrong_method() {
    let (i, j): (usize, usize) = (kani::any(), kani::any());
    kani::assume(i <= j && j <= 4);
    let l: &'static [&'static Method] = &M[i..j];
    let e = Error::wrong_method(l);
    assert!(is405(e.http_status()), "C12 status is 405");
    assert!(e.source().is_none(), "C12 no source");
    match e.allowed_methods() {
        Some(m) => assert!(m.len() == l.len() && m.as_ptr() == l.as_ptr(), "C12 allowed methods kept"),
        None => assert!(false, "C12 a 405 has allowed methods"),
    }
    kani::cover!(i == j, "none");
    kani::cover!(j - i == 4, "all");
    std::mem::forget(e);
}
/// An owned list is kept as well.
#[kani::proof]
#[kani::unwind(3)]
fn wrong_method_owned() {
    let mut v: Vec<&'static Method> = Vec::with_capacity(2);
    v.push(&Method::PUT);
    v.push(&Method::GET);
    let p = v.as_ptr();
    let e = Error::wrong_method(v);
    match e.allowed_methods() {
        Some(m) => assert!(m.len() == 2 && m.as_ptr() == p && *m[0] == Method::PUT && *m[1] == Method::GET, "C12 allowed methods kept"),
        None => assert!(false, "C12 a 405 has allowed methods"),
    }
    kani::cover!(true, "end reached");
    std::mem::forget(e);
}

fn head_ok(r: &http::Response<()>, s: u16) {
    assert!(r.status().as_u16() == s, "C12 response has the error's status");
    assert!(r.headers().edits == 0 && r.headers().id == 0, "C12 response has no other headers");
    assert!(r.version().0 == 0 && r.extensions().id == 0 && r.extensions().edits == 0, "C12 response has defaults otherwise");
}
#[kani::proof]
#[kani::unwind(3)]
fn response_plain() {
    let s = error_status();
    kani::assume(!is405(s));
    let e = if kani::any() { Error::from_status(s) } else { Error::with_source(s, Foreign(7)) };
    let r = e.response();
    head_ok(&r, s.as_u16());
    assert!(r.headers().allow.is_none(), "C12 Allow only in a 405");
    kani::cover!(true, "end reached");
    std::mem::forget((e, r));
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < b.len() { if a[i] != b[i] { return false; } i += 1; }
    true
}
fn response_405(l: &'static [&'static Method], want: &[u8]) {
    let e = Error::wrong_method(l);
    let r = e.response();
    head_ok(&r, 405);
    match r.headers().allow {
        Some(a) => assert!(same(a.as_bytes(), want), "C12 Allow lists exactly the allowed methods"),
        None => assert!(false, "C12 a 405 has Allow"),
    }
    kani::cover!(true, "end reached");
    std::mem::forget((e, r));
}
#[kani::proof]
#[kani::unwind(4)]
fn response_405_none() { response_405(&[], b"") }
#[kani::proof]
#[kani::unwind(12)]
fn response_405_one() { static L: [&Method; 1] = [&Method::PATCH]; response_405(&L, b"PATCH") }
#[kani::proof]
#[kani::unwind(20)]
fn response_405_two() { static L: [&Method; 2] = [&Method::PUT, &Method::GET]; response_405(&L, b"PUT, GET") }
#[kani::proof]
#[kani::unwind(4)]
fn response_405_bare() {
    let e = if kani::any() { Error::from_status(StatusCode::METHOD_NOT_ALLOWED) } else { Error::with_source(StatusCode::METHOD_NOT_ALLOWED, Foreign(7)) };
    let r = e.response();
    head_ok(&r, 405);
    assert!(r.headers().allow == Some(""), "C12 Allow may be empty but is there");
    std::mem::forget((e, r));
}
/// `into_future` resolves at once with the error itself.
#[kani::proof]
#[kani::unwind(3)]
fn into_future() {
    vtables();
    let s = error_status();
    let mut f = Error::from_status(s).into_future::<u32>();
    let r = drive(&mut f, 0);
    match &r {
        Err(e) => assert!(e.downcast_ref::<Error>().map(|e| e.http_status()) == Some(s), "C12 into_future fails with the error"),
        Ok(_) => assert!(false, "C12 into_future fails"),
    }
    kani::cover!(true, "end reached");
    std::mem::forget((r, f));
}
struct Buf { b: [u8; 32], n: usize }
impl std::fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let s = s.as_bytes();
        let mut i = 0;
        while i < s.len() { self.b[self.n] = s[i]; self.n += 1; i += 1; }
        Ok(())
    }
}
#[kani::proof]
#[kani::unwind(20)]
fn display_source() {
    use std::fmt::Write;
    let e = Error::with_source(StatusCode::BAD_REQUEST, Foreign(1));
    let mut b = Buf { b: [0; 32], n: 0 };
    let _ = write!(b, "{}", e);
    assert!(same(&b.b[..b.n], b"<status>: foreign"), "C12 rendered with status and source");
    std::mem::forget(e);
}
#[kani::proof]
#[kani::unwind(20)]
fn display_plain() {
    use std::fmt::Write;
    let e = Error::from_status(StatusCode::BAD_REQUEST);
    let mut b = Buf { b: [0; 32], n: 0 };
    let _ = write!(b, "{}", e);
    assert!(same(&b.b[..b.n], b"<status>"), "C12 rendered with its status");
    std::mem::forget(e);
}
