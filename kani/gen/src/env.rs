//! Ghost state and the user-supplied parts of the programs: path, query, guard, body, forwarded and
//! context types, each recording how it is used and answering as planned.
use futures::{Async, Future, Poll};
use http::{Extensions, HeaderMap, Method, Request, StatusCode, Uri, Version};
use hyper::Body;
use hyperdrive::{BoxedError, Error, FromBody, FromRequest, Guard, NoContext, RequestContext};
use std::sync::Arc;

#[derive(Debug, PartialEq, Eq)]
pub struct Foreign(pub u32);
impl std::fmt::Display for Foreign { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("foreign") } }
impl std::error::Error for Foreign {}
#[derive(Debug)]
pub struct PathErr(pub u32);
impl std::fmt::Display for PathErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("path") } }
impl std::error::Error for PathErr {}

/// A context (`Cx`) with two components guards and bodies may ask for, and one they may not.
#[derive(Clone, Copy, Debug, PartialEq, Eq, RequestContext)]
pub struct Part(pub u32);
#[derive(Clone, Copy, Debug, PartialEq, Eq, RequestContext)]
pub struct Other(pub u32);
#[derive(Clone, Copy, Debug, PartialEq, Eq, RequestContext)]
pub struct Cx { pub x: Part, #[as_ref] pub p: Part, pub y: Other, #[as_ref] pub o: Other }

/// Slots: 0..3 placeholders, 4..8 guards, 8 body, 9 forward.
pub const G: usize = 4;
pub const BODY: usize = 8;
pub const FWD: usize = 9;
/// What the slot's user code does: succeeds with `val`, or fails with a `Foreign(val)` (or
/// `PathErr(val)`); resolves at the first or second poll.
#[derive(Clone, Copy)]
pub struct Plan { pub fail: bool, pub pend: bool, pub val: u32 }
/// How often it was started; when it was started and resolved; whether it got exactly the request.
#[derive(Clone, Copy)]
pub struct Seen { pub starts: u8, pub at: u8, pub done_at: u8, pub same: bool, pub body: u32, pub cx: u32, pub cx2: u32 }
pub const NOPLAN: Plan = Plan { fail: false, pend: false, val: 0 };
pub const UNSEEN: Seen = Seen { starts: 0, at: 0, done_at: 0, same: false, body: 0, cx: 0, cx2: 0 };
pub static mut PLAN: [Plan; 10] = [NOPLAN; 10];
pub static mut SEEN: [Seen; 10] = [UNSEEN; 10];
/// Counts starts and completions of guards, body and forward.
pub static mut CLOCK: u8 = 0;
/// Which part of the path (index into `regex::SPAN`) belongs to placeholder slot 0, 1, 2.
pub static mut POS: [usize; 3] = [0; 3];
/// No variant is chosen, so conversions may be of any placeholder.
pub static mut ANYPOS: bool = false;
/// No variant is chosen, so conversions may come after a fallback was tried.
pub static mut ANYTIME: bool = false;
/// How the forwarded type fails: 0 with a foreign error, 1 with a hyperdrive error other than 405,
/// 2 with 405 allowing PUT and PATCH, 3 with 405 allowing nothing.
pub static mut FWD_KIND: u8 = 0;
pub static mut FWD_STATUS: u16 = 404;
pub static INNER: [&'static Method; 2] = [&Method::PUT, &Method::PATCH];
pub static mut REQ: Req = Req { method: 0, uri: 0, version: 0, headers: 0, hedits: 0, ext: 0, eedits: 0 };

/// Everything observable about a request's head.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Req { pub method: u8, pub uri: u32, pub version: u8, pub headers: u32, pub hedits: u32, pub ext: u32, pub eedits: u32 }
impl Req {
    pub fn make(self) -> Request<()> {
        let mut r = Request::new(());
        *r.method_mut() = Method::nth(self.method);
        *r.uri_mut() = Uri { id: self.uri };
        *r.version_mut() = Version(self.version);
        *r.headers_mut() = HeaderMap { id: self.headers, edits: 0, allow: None };
        *r.extensions_mut() = Extensions { id: self.ext, edits: 0 };
        r
    }
    pub fn of(r: &Request<()>) -> Req {
        Req { method: r.method().index(), uri: r.uri().id, version: r.version().0, headers: r.headers().id, hedits: r.headers().edits, ext: r.extensions().id, eedits: r.extensions().edits }
    }
}

fn start(k: usize, r: &Request<()>, body: u32, cx: u32, cx2: u32) {
    unsafe {
        CLOCK += 1;
        SEEN[k].starts += 1; SEEN[k].at = CLOCK;
        SEEN[k].same = Req::of(r) == REQ;
        SEEN[k].body = body; SEEN[k].cx = cx; SEEN[k].cx2 = cx2;
    }
}
/// Resolves as planned; polling it again fails.
pub struct Scripted<T> { k: usize, pend: u8, done: u8, make: std::marker::PhantomData<T> }
impl<T> Scripted<T> {
    fn new(k: usize) -> Self { Scripted { k, pend: unsafe { PLAN[k].pend } as u8, done: 0, make: std::marker::PhantomData } }
}
impl<T: From<u32>> Future for Scripted<T> {
    type Item = T;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<T, BoxedError> {
        assert!(self.done == 0, "C07 polled again after it resolved");
        if self.pend == 1 { self.pend = 0; return Ok(Async::NotReady); }
        self.done = 1;
        unsafe {
            CLOCK += 1; SEEN[self.k].done_at = CLOCK;
            let p = PLAN[self.k];
            if !p.fail { return Ok(Async::Ready(T::from(p.val))); }
            if self.k == FWD {
                match FWD_KIND {
                    1 => return Err(Box::new(Error::from_status(StatusCode::from_u16(FWD_STATUS).unwrap()))),
                    2 => return Err(Box::new(Error::wrong_method(&INNER[..]))),
                    3 => return Err(Box::new(Error::wrong_method(&INNER[..0]))),
                    _ => {}
                }
            }
            Err(Box::new(Foreign(p.val)))
        }
    }
}
macro_rules! path { ($($t:ident $k:expr;)*) => { $(
    #[derive(Debug, PartialEq, Eq)] pub struct $t(pub u32, [u32; 2]);
    impl From<u32> for $t { fn from(v: u32) -> $t { $t(v, [0; 2]) } }
    impl std::str::FromStr for $t {
        type Err = PathErr;
        fn from_str(s: &str) -> Result<$t, PathErr> {
            #[cfg(kani)]
            unsafe {
                assert!(ANYTIME || CLOCK == 0 && serde_urlencoded::CALLS == 0, "C05 placeholders are converted before anything else is decoded");
                let (at, n) = regex::SPAN[POS[$k]];
                assert!(ANYPOS || s.as_ptr() as usize == http::PATH.as_ptr() as usize + at && s.len() == n, "C05 a placeholder gets exactly its part of the path");
            }
            #[cfg(not(kani))]
            let _ = s;
            unsafe {
                SEEN[$k].starts = 1;
                if PLAN[$k].fail { Err(PathErr(PLAN[$k].val)) } else { Ok($t::from(PLAN[$k].val)) }
            }
        }
    }
)* } }
path! { P0 0; P1 1; P2 2; }
macro_rules! guard { ($($t:ident $k:expr, $c:ty, $v:expr;)*) => { $(
    #[derive(Debug, PartialEq, Eq)] pub struct $t(pub u32, [u32; 2]);
    impl From<u32> for $t { fn from(v: u32) -> $t { $t(v, [0; 2]) } }
    impl Guard for $t {
        type Context = $c;
        type Result = Scripted<$t>;
        fn from_request(r: &Arc<Request<()>>, c: &$c) -> Scripted<$t> { start($k, r, 0, $v(c), 0); Scripted::new($k) }
    }
)* } }
fn none(_: &NoContext) -> u32 { 0 }
fn part(p: &Part) -> u32 { p.0 }
fn other(p: &Other) -> u32 { p.0 }
guard! { G0 4, NoContext, none; G1 5, NoContext, none; C0 6, Part, part; C1 7, Cx, (|c: &Cx| c.x.0); }
macro_rules! body { ($($t:ident, $c:ty, $v:expr;)*) => { $(
    #[derive(Debug, PartialEq, Eq)] pub struct $t(pub u32, [u32; 2]);
    impl From<u32> for $t { fn from(v: u32) -> $t { $t(v, [0; 2]) } }
    impl FromBody for $t {
        type Context = $c;
        type Result = Scripted<$t>;
        fn from_body(r: &Arc<Request<()>>, b: Body, c: &$c) -> Scripted<$t> { start(BODY, r, b.id, $v(c), 0); Scripted::new(BODY) }
    }
)* } }
body! { B, NoContext, none; BC, Other, other; }
macro_rules! forward { ($($t:ident, $c:ty, $v:expr, $w:expr;)*) => { $(
    #[derive(Debug, PartialEq, Eq)] pub struct $t(pub u32, [u32; 2]);
    impl From<u32> for $t { fn from(v: u32) -> $t { $t(v, [0; 2]) } }
    impl FromRequest for $t {
        type Context = $c;
        type Future = Scripted<$t>;
        fn from_request_and_body(r: &Arc<Request<()>>, b: Body, c: $c) -> Scripted<$t> { start(FWD, r, b.id, $v(&c), $w(&c)); Scripted::new(FWD) }
    }
)* } }
forward! { F, NoContext, none, none; FC, Cx, (|c: &Cx| c.p.0), (|c: &Cx| c.y.0); }

pub struct Q(pub u32);
impl<'de> serde::Deserialize<'de> for Q {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Q, D::Error> { u32::deserialize(d).map(Q) }
}
