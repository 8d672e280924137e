//! Ghost state, the user-supplied parts (request type, handler, errors) and symbolic inputs.
use futures::{Async, Future, Poll};
use http::{Extensions, HeaderMap, Method, Request, Response, StatusCode, Uri, Version};
use hyper::Body;
use hyperdrive::{BoxedError, Error, FromRequest, NoContext, RequestContext};
use std::sync::Arc;

#[derive(Debug, PartialEq, Eq)]
pub struct Foreign(pub u32);
impl std::fmt::Display for Foreign {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("foreign") }
}
impl std::error::Error for Foreign {}

/// A context: everything about it is the number.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cx(pub u32);
static NO: NoContext = NoContext;
impl AsRef<Cx> for Cx { fn as_ref(&self) -> &Cx { self } }
impl AsRef<NoContext> for Cx { fn as_ref(&self) -> &NoContext { &NO } }
impl RequestContext for Cx {}

/// Everything observable about a request.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Req { pub method: u8, pub uri: u32, pub version: u8, pub headers: u32, pub hedits: u32, pub ext: u32, pub eedits: u32, pub body: u32 }
pub const NOBODY: u32 = u32::MAX;
impl Req {
    pub fn any() -> Req { Req { method: kani::any(), uri: kani::any(), version: kani::any(), headers: kani::any(), hedits: 0, ext: kani::any(), eedits: 0, body: kani::any() } }
    pub fn sans_body(self) -> Req { Req { body: NOBODY, ..self } }
    pub fn make(self) -> Request<Body> {
        let mut r = Request::new(Body::with_id(self.body));
        *r.method_mut() = Method::nth(self.method);
        *r.uri_mut() = Uri { id: self.uri };
        *r.version_mut() = Version(self.version);
        *r.headers_mut() = HeaderMap { id: self.headers, edits: 0, allow: None };
        *r.extensions_mut() = Extensions { id: self.ext, edits: 0 };
        r
    }
    pub fn of<T>(r: &Request<T>) -> Req {
        Req { method: r.method().index(), uri: r.uri().id, version: r.version().0, headers: r.headers().id, hedits: r.headers().edits, ext: r.extensions().id, eedits: r.extensions().edits, body: NOBODY }
    }
    pub fn is_head(&self) -> bool { self.method == 1 }
}
/// Everything observable about a response.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Resp { pub status: u16, pub version: u8, pub headers: u32, pub hedits: u32, pub allow: bool, pub ext: u32, pub eedits: u32, pub body: u32 }
impl Resp {
    pub fn any() -> Resp {
        let status: u16 = kani::any();
        kani::assume(100 <= status && status < 600);
        Resp { status, version: kani::any(), headers: kani::any(), hedits: 0, allow: false, ext: kani::any(), eedits: 0, body: kani::any() }
    }
    pub fn make(self) -> Response<Body> {
        let mut r = Response::new(Body::with_id(self.body));
        *r.status_mut() = StatusCode::from_u16(self.status).unwrap();
        *r.version_mut() = Version(self.version);
        *r.headers_mut() = HeaderMap { id: self.headers, edits: 0, allow: None };
        *r.extensions_mut() = Extensions { id: self.ext, edits: 0 };
        r
    }
    pub fn of(r: &Response<Body>) -> Resp {
        Resp { status: r.status().as_u16(), version: r.version().0, headers: r.headers().id, hedits: r.headers().edits, allow: r.headers().allow.is_some(), ext: r.extensions().id, eedits: r.extensions().edits, body: if r.body().at == 0 { r.body().id } else { NOBODY } }
    }
    pub fn emptied(self) -> Resp { Resp { body: hyper::EMPTY, ..self } }
    /// What the service contract says about error responses: status, headers set by
    /// `Error::response` (`headers` is the mark left by its contract `response_spec`), empty body.
    pub fn of_error(status: u16) -> Resp {
        Resp { status, version: 0, headers: MARK, hedits: 0, allow: false, ext: 0, eedits: 0, body: hyper::EMPTY }
    }
}
pub const MARK: u32 = 0x5eed;
/// The contract of `Error::response` as seen by its callers (discharged by `error::response_*`):
/// a response with the error's status whose head is a function of the error (marked, not built).
pub fn response_spec(e: &Error) -> Response<()> {
    let mut r = Response::new(());
    *r.status_mut() = e.http_status();
    r.headers_mut().id = MARK;
    r
}

/// An outcome of user code: 0 success, 1 a `hyperdrive::Error` with that status, 2 a foreign error.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Outcome { pub kind: u8, pub status: u16, pub tag: u32 }
impl Outcome {
    pub fn any(kind: u8) -> Outcome {
        let o = Outcome { kind, status: kani::any(), tag: kani::any() };
        kani::assume(400 <= o.status && o.status < 600);
        o
    }
    pub fn err(self) -> BoxedError {
        if self.kind == 1 { Box::new(Error::from_status(StatusCode::from_u16(self.status).unwrap())) } else { Box::new(Foreign(self.tag)) }
    }
}
/// The same error, not just an equal one.
pub fn is_foreign(e: &BoxedError, tag: u32) -> bool {
    match e.downcast_ref::<Foreign>() { Some(f) => f.0 == tag, None => false }
}

/// A future that is pending at its first poll iff `pend`, then resolves; polling it again panics.
pub struct Scripted<T> { pub pend: bool, pub out: Option<Result<T, BoxedError>> }
impl<T> Future for Scripted<T> {
    type Item = T;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<T, BoxedError> {
        if self.pend { self.pend = false; return Ok(Async::NotReady); }
        match self.out.take() { Some(Ok(x)) => Ok(Async::Ready(x)), Some(Err(e)) => Err(e), None => panic!("polled after completion") }
    }
}

pub struct Ghost {
    pub decode: Outcome, pub decode_pend: bool, pub token: u32,
    pub handle: Outcome, pub handle_pend: bool, pub resp: Option<Resp>,
    pub decode_calls: u8, pub seen: Option<Req>, pub seen_cx: u32, pub seen_arc: usize,
    pub handler_calls: u8, pub hseen: Option<Req>, pub htoken: u32, pub hid: u32, pub harc: usize,
}
const O: Outcome = Outcome { kind: 0, status: 400, tag: 0 };
pub static mut G: Ghost = Ghost { decode: O, decode_pend: false, token: 0, handle: O, handle_pend: false, resp: None,
    decode_calls: 0, seen: None, seen_cx: 0, seen_arc: 0, handler_calls: 0, hseen: None, htoken: 0, hid: 0, harc: 0 };

/// The request type: decoding is scripted and recorded.
#[derive(Debug)]
pub struct D { pub token: u32 }
impl FromRequest for D {
    type Context = Cx;
    type Future = Scripted<D>;
    fn from_request_and_body(request: &Arc<Request<()>>, body: Body, context: Cx) -> Scripted<D> {
        unsafe {
            G.decode_calls += 1;
            G.seen = Some(Req { body: if body.at == 0 { body.id } else { NOBODY }, ..Req::of(request) });
            G.seen_cx = context.0;
            G.seen_arc = Arc::as_ptr(request) as usize;
            Scripted { pend: G.decode_pend, out: Some(if G.decode.kind == 0 { Ok(D { token: G.token }) } else { Err(G.decode.err()) }) }
        }
    }
}
fn handled(id: u32, d: D, r: Arc<Request<()>>) {
    unsafe {
        G.handler_calls += 1;
        G.hseen = Some(Req::of(&r));
        G.htoken = d.token;
        G.hid = id;
        G.harc = Arc::as_ptr(&r) as usize;
    }
}
pub fn async_handler(id: u32) -> impl Fn(D, Arc<Request<()>>) -> Scripted<Response<Body>> {
    move |d, r| { handled(id, d, r); unsafe { Scripted { pend: G.handle_pend, out: Some(if G.handle.kind == 0 { Ok(G.resp.unwrap().make()) } else { Err(G.handle.err()) }) } } }
}
pub fn sync_handler(id: u32) -> impl Fn(D, Arc<Request<()>>) -> Response<Body> {
    move |d, r| { handled(id, d, r); unsafe { G.resp.unwrap().make() } }
}
/// Polls until resolved, `n` times pending at most.
pub fn drive<F: Future>(f: &mut F, n: u8) -> Result<F::Item, F::Error> {
    macro_rules! step { ($last:expr) => { match f.poll() { Ok(Async::Ready(x)) => return Ok(x), Err(e) => return Err(e), Ok(Async::NotReady) => assert!(!$last, "pending although nothing it waits for is") } } }
    step!(n == 0);
    if n >= 1 { step!(n == 1); }
    if n >= 2 { step!(n == 2); }
    unreachable!()
}

/// Kani's vtable restriction keys candidates by the trait object's type, auto traits included; a
/// `dyn Error + Send + Sync` used as `dyn Error` would find none. Making such objects here adds them.
pub fn vtables() {
    let a: &dyn std::error::Error = &Foreign(0);
    let e = std::mem::ManuallyDrop::new(Error::from_status(StatusCode::NOT_FOUND));
    let b: &dyn std::error::Error = &*e;
    let c: &dyn std::error::Error = &hyper::Error(0);
    let d: &dyn std::error::Error = &serde_json::Error(0);
    let f: &dyn std::error::Error = &serde_urlencoded::Error(0);
    let x = [a, b, c, d, f];
    let i: usize = kani::any();
    kani::assume(i < 5);
    let _ = x[i].is::<Foreign>();
    let (u, v) = (0u32, 0u8);
    let any: &dyn std::any::Any = if kani::any() { &u } else { &v };
    let _ = any.is::<u32>();
}
