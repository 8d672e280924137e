use hyperdrive::futures::{future, task, Async, Future, Poll, Stream};
use hyperdrive::http::{self, Method};
use hyperdrive::hyper::Body;
use hyperdrive::serde::Deserialize;
use hyperdrive::{BoxedError, DefaultFuture, Error, FromBody, FromRequest, Guard, NoContext, RequestContext};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::str::FromStr;
use std::sync::Arc;

// ---------------------------------------------------------------- contexts (hand-written impls)

#[derive(Debug, Clone, PartialEq)]
pub struct SubCtx {
    pub id: u32,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Ctx {
    pub id: u32,
    pub sub: SubCtx,
}
impl Ctx {
    pub fn new(id: u32) -> Self {
        Ctx { id, sub: SubCtx { id: id + 1000 } }
    }
}
impl AsRef<Ctx> for Ctx {
    fn as_ref(&self) -> &Ctx {
        self
    }
}
impl AsRef<SubCtx> for Ctx {
    fn as_ref(&self) -> &SubCtx {
        &self.sub
    }
}
impl AsRef<NoContext> for Ctx {
    fn as_ref(&self) -> &NoContext {
        &NoContext
    }
}
impl RequestContext for Ctx {}
impl AsRef<SubCtx> for SubCtx {
    fn as_ref(&self) -> &SubCtx {
        self
    }
}
impl AsRef<NoContext> for SubCtx {
    fn as_ref(&self) -> &NoContext {
        &NoContext
    }
}
impl RequestContext for SubCtx {}

/// How a program obtains its context from the number chosen for the run.
pub trait MkCtx: Sized {
    fn mk(id: u32) -> Self;
    fn show(&self) -> String;
}
impl MkCtx for NoContext {
    fn mk(_: u32) -> Self {
        NoContext
    }
    fn show(&self) -> String {
        "no".into()
    }
}
impl MkCtx for Ctx {
    fn mk(id: u32) -> Self {
        Ctx::new(id)
    }
    fn show(&self) -> String {
        format!("ctx {}/{}", self.id, self.sub.id)
    }
}
impl MkCtx for SubCtx {
    fn mk(id: u32) -> Self {
        SubCtx { id: id + 1000 }
    }
    fn show(&self) -> String {
        format!("sub {}", self.id)
    }
}

// ---------------------------------------------------------------- scripts and the event log

#[derive(Debug, Clone, PartialEq)]
pub enum Res {
    Ok,
    Foreign(u32),
    Hyper(u16),
    HyperSrc(u16, u32),
    Hyper405(Vec<&'static Method>),
    Panic,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Outcome {
    pub pend: u32,
    pub res: Res,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Guard,
    Body,
    Fwd,
}
pub type Script = BTreeMap<(Kind, u8), Outcome>;

#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    Start { kind: Kind, n: u8, req: String, ctx: String },
    Done { kind: Kind, n: u8, bytes: Vec<u8> },
}

thread_local! {
    pub static SCRIPT: RefCell<Script> = RefCell::new(BTreeMap::new());
    pub static LOG: RefCell<Vec<Ev>> = RefCell::new(Vec::new());
}
pub fn set_script(s: Script) {
    SCRIPT.with(|x| *x.borrow_mut() = s);
    LOG.with(|x| x.borrow_mut().clear());
}
pub fn log(e: Ev) {
    LOG.with(|x| x.borrow_mut().push(e));
}
pub fn take_log() -> Vec<Ev> {
    LOG.with(|x| std::mem::replace(&mut *x.borrow_mut(), Vec::new()))
}
fn outcome(kind: Kind, n: u8) -> Outcome {
    SCRIPT.with(|x| x.borrow().get(&(kind, n)).cloned()).unwrap_or(Outcome { pend: 0, res: Res::Ok })
}

#[derive(Debug, PartialEq)]
pub struct Foreign(pub u32);
impl fmt::Display for Foreign {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "foreign error {}", self.0)
    }
}
impl std::error::Error for Foreign {}

pub fn mk_err(r: &Res) -> BoxedError {
    match r {
        Res::Ok => unreachable!(),
        Res::Foreign(i) => Foreign(*i).into(),
        Res::Hyper(s) => Error::from_status(http::StatusCode::from_u16(*s).unwrap()).into(),
        Res::HyperSrc(s, i) => Error::with_source(http::StatusCode::from_u16(*s).unwrap(), Foreign(*i)).into(),
        Res::Hyper405(m) => Error::wrong_method(m.clone()).into(),
        Res::Panic => panic!("scripted panic"),
    }
}

/// A future that is pending `pend` times (waking itself up), then runs `fin` once.
pub struct Pend<F> {
    pub pend: u32,
    pub fin: Option<F>,
}
impl<T, F: FnOnce() -> Result<T, BoxedError>> Future for Pend<F> {
    type Item = T;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<T, BoxedError> {
        if self.pend > 0 {
            self.pend -= 1;
            task::current().notify();
            return Ok(Async::NotReady);
        }
        (self.fin.take().expect("polled after completion"))().map(Async::Ready)
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Ext(pub u32);

/// Everything a decoder can see of the request head.
pub fn digest<T>(r: &http::Request<T>) -> String {
    let mut h: Vec<String> = r.headers().iter().map(|(k, v)| format!("{}={:?}", k, v)).collect();
    h.sort();
    format!("{} {} {:?} {} ext={:?}", r.method(), r.uri(), r.version(), h.join(","), r.extensions().get::<Ext>())
}

// ---------------------------------------------------------------- path segment types

/// `from_str` fails iff the text contains the digit `N`.
#[derive(Debug, PartialEq)]
pub struct Tok<const N: u8>(pub String);
#[derive(Debug, PartialEq)]
pub struct TokErr(pub u8, pub String);
impl fmt::Display for TokErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "tok{} rejects {}", self.0, self.1)
    }
}
impl std::error::Error for TokErr {}
pub fn tok_accepts(n: u8, s: &str) -> bool {
    !s.contains((b'0' + n) as char)
}
impl<const N: u8> FromStr for Tok<N> {
    type Err = TokErr;
    fn from_str(s: &str) -> Result<Self, TokErr> {
        if tok_accepts(N, s) {
            Ok(Tok(s.to_string()))
        } else {
            Err(TokErr(N, s.to_string()))
        }
    }
}

// ---------------------------------------------------------------- guards

/// Guards without context (`G`: future, `GR`: plain result), with the whole context (`GS`), and
/// with the part of the context (`GC`).
macro_rules! guards {
    ($($t:ident $c:ty;)*) => {$(
        #[derive(Debug, PartialEq)]
        pub struct $t<const N: u8>(pub String);
        impl<const N: u8> Guard for $t<N> {
            type Context = $c;
            type Result = DefaultFuture<Self, BoxedError>;
            fn from_request(req: &Arc<http::Request<()>>, ctx: &$c) -> Self::Result {
                let d = digest(req);
                log(Ev::Start { kind: Kind::Guard, n: N, req: d.clone(), ctx: ctx.show() });
                let o = outcome(Kind::Guard, N);
                Box::new(Pend { pend: o.pend, fin: Some(move || {
                    log(Ev::Done { kind: Kind::Guard, n: N, bytes: vec![] });
                    match o.res { Res::Ok => Ok($t(d)), ref r => Err(mk_err(r)) }
                }) })
            }
        }
    )*}
}
guards! { G NoContext; GS Ctx; GC SubCtx; }
#[derive(Debug, PartialEq)]
pub struct GR<const N: u8>(pub String);
impl<const N: u8> Guard for GR<N> {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_request(req: &Arc<http::Request<()>>, ctx: &NoContext) -> Self::Result {
        let d = digest(req);
        log(Ev::Start { kind: Kind::Guard, n: N, req: d.clone(), ctx: ctx.show() });
        log(Ev::Done { kind: Kind::Guard, n: N, bytes: vec![] });
        match outcome(Kind::Guard, N).res { Res::Ok => Ok(GR(d)), ref r => Err(mk_err(r)) }
    }
}

// ---------------------------------------------------------------- bodies

fn read(kind: Kind, n: u8, body: Body) -> impl Future<Item = Vec<u8>, Error = BoxedError> + Send {
    let o = outcome(kind, n);
    body.concat2().map_err(BoxedError::from).and_then(move |c| {
        let bytes = c.to_vec();
        Pend { pend: o.pend, fin: Some(move || {
            log(Ev::Done { kind, n, bytes: bytes.clone() });
            match o.res { Res::Ok => Ok(bytes), ref r => Err(mk_err(r)) }
        }) }
    })
}
macro_rules! bodies {
    ($($t:ident $c:ty;)*) => {$(
        #[derive(Debug, PartialEq)]
        pub struct $t<const N: u8>(pub Vec<u8>);
        impl<const N: u8> FromBody for $t<N> {
            type Context = $c;
            type Result = DefaultFuture<Self, BoxedError>;
            fn from_body(req: &Arc<http::Request<()>>, body: Body, ctx: &$c) -> Self::Result {
                log(Ev::Start { kind: Kind::Body, n: N, req: digest(req), ctx: ctx.show() });
                Box::new(read(Kind::Body, N, body).map($t))
            }
        }
    )*}
}
bodies! { B NoContext; BS Ctx; BC SubCtx; }

// ---------------------------------------------------------------- forwards

macro_rules! forwards {
    ($($t:ident $c:ty;)*) => {$(
        #[derive(Debug, PartialEq)]
        pub struct $t<const N: u8>(pub Vec<u8>);
        impl<const N: u8> FromRequest for $t<N> {
            type Context = $c;
            type Future = DefaultFuture<Self, BoxedError>;
            fn from_request_and_body(req: &Arc<http::Request<()>>, body: Body, ctx: $c) -> Self::Future {
                log(Ev::Start { kind: Kind::Fwd, n: N, req: digest(req), ctx: ctx.show() });
                Box::new(read(Kind::Fwd, N, body).map($t))
            }
        }
    )*}
}
forwards! { F NoContext; FS Ctx; }

// ---------------------------------------------------------------- query types

#[derive(Debug, Deserialize, PartialEq)]
#[serde(crate = "hyperdrive::serde")]
pub struct Q0 {
    pub a: Option<String>,
    pub b: Option<u32>,
}
#[derive(Debug, Deserialize, PartialEq)]
#[serde(crate = "hyperdrive::serde")]
pub struct Q1 {
    pub a: u32,
}
pub type QM = BTreeMap<String, String>;
pub type QV = Vec<(String, String)>;

// ---------------------------------------------------------------- observing results

#[derive(Debug, Clone, PartialEq)]
pub struct Obs {
    pub variant: String,
    pub fields: Vec<(String, String)>,
}
pub trait ObsVal {
    fn obs(&self) -> String;
}
macro_rules! obs_debug { ($([$($g:tt)*] $t:ty;)*) => {$( impl<$($g)*> ObsVal for $t { fn obs(&self) -> String { format!("{:?}", self.0) } } )*} }
obs_debug! { [const N: u8] Tok<N>; [const N: u8] G<N>; [const N: u8] GS<N>; [const N: u8] GC<N>; [const N: u8] GR<N>;
  [const N: u8] B<N>; [const N: u8] BS<N>; [const N: u8] BC<N>; [const N: u8] F<N>; [const N: u8] FS<N>; }
macro_rules! obs_plain { ($($t:ty;)*) => {$( impl ObsVal for $t { fn obs(&self) -> String { format!("{:?}", self) } } )*} }
obs_plain! { u32; u8; i32; String; Q0; Q1; QM; QV; Option<Q1>; }
impl ObsVal for Obs {
    fn obs(&self) -> String {
        format!("{:?}", self)
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Src {
    None,
    Tok(u8, String),
    Foreign(u32),
    /// Type name is not observable: textual form
    Text(String),
}
#[derive(Debug, Clone, PartialEq)]
pub enum ErrObs {
    Foreign(u32),
    Hyper { status: u16, allowed: Option<Vec<String>>, src: Src },
    Other(String),
    Panic(String),
    Stuck,
}
pub fn err_obs(e: &BoxedError) -> ErrObs {
    if let Some(f) = e.downcast_ref::<Foreign>() {
        return ErrObs::Foreign(f.0);
    }
    if let Some(e) = e.downcast_ref::<Error>() {
        let src = match e.source() {
            None => Src::None,
            Some(s) => {
                if let Some(t) = s.downcast_ref::<TokErr>() {
                    Src::Tok(t.0, t.1.clone())
                } else if let Some(f) = s.downcast_ref::<Foreign>() {
                    Src::Foreign(f.0)
                } else {
                    Src::Text(s.to_string())
                }
            }
        };
        return ErrObs::Hyper {
            status: e.http_status().as_u16(),
            allowed: e.allowed_methods().map(|m| m.iter().map(|m| m.to_string()).collect()),
            src,
        };
    }
    ErrObs::Other(e.to_string())
}

#[allow(dead_code)]
pub type Fut<T> = Box<dyn Future<Item = T, Error = BoxedError>>;
#[allow(dead_code)]
pub fn ready<T: 'static>(r: Result<T, BoxedError>) -> Fut<T> {
    Box::new(future::result(r))
}
