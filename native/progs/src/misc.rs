//! Bodies, services, errors, panics, blocking.
use crate::Report;
use hyperdrive::body::{HtmlForm, Json};
use hyperdrive::futures::{self, stream, task, Async, Future, IntoFuture, Poll, Stream};
use hyperdrive::http::{self, Method, Request, Response, StatusCode};
use hyperdrive::hyper::service::{MakeService, Service};
use hyperdrive::hyper::{self, Body};
use hyperdrive::serde::de::DeserializeOwned;
use hyperdrive::serde::Deserialize;
use hyperdrive::service::{AsyncService, ServiceExt, SyncService};
use hyperdrive::{BoxedError, DefaultFuture, Error, FromBody, NoContext};
use rt::exec::{drive, Run};
use rt::reqs::*;
use rt::*;
use serde_json::json;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

// ------------------------------------------------------------------ C09 bodies

#[derive(Debug, Deserialize, PartialEq)]
#[serde(crate = "hyperdrive::serde")]
struct Login {
    name: String,
    age: Option<u32>,
}

/// A stream delivering chunks, pending now and then, possibly failing at some point.
struct Chunks {
    items: Vec<(u32, Result<Vec<u8>, u32>)>,
}
impl Stream for Chunks {
    type Item = Vec<u8>;
    type Error = Foreign;
    fn poll(&mut self) -> Poll<Option<Vec<u8>>, Foreign> {
        match self.items.first_mut() {
            None => Ok(Async::Ready(None)),
            Some((p, _)) if *p > 0 => {
                *p -= 1;
                task::current().notify();
                Ok(Async::NotReady)
            }
            Some(_) => match self.items.remove(0).1 {
                Ok(c) => Ok(Async::Ready(Some(c))),
                Err(i) => Err(Foreign(i)),
            },
        }
    }
}

fn chain(e: &(dyn std::error::Error + 'static)) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(x) = c {
        s.push_str(" / ");
        s.push_str(&x.to_string());
        c = x.source();
    }
    s
}

fn body_case<T, W>(rep: &mut Report, rng: &mut Rng, bytes: &[u8], html: bool, get: fn(W) -> T)
where
    T: DeserializeOwned + Debug + PartialEq + Send + 'static,
    W: FromBody<Context = NoContext>,
{
    let mut items: Vec<(u32, Result<Vec<u8>, u32>)> = vec![];
    let mut rest = bytes;
    let style = rng.below(4);
    while !rest.is_empty() {
        let n = match style {
            0 => rest.len(),
            1 => 1,
            _ => rng.below(rest.len() + 1),
        };
        items.push((rng.below(3) as u32, Ok(rest[..n].to_vec())));
        rest = &rest[n..];
    }
    if rng.below(3) == 0 {
        items.push((1, Ok(vec![])));
    }
    let fail = if rng.below(4) == 0 {
        let id = rng.below(10000) as u32;
        let at = rng.below(items.len() + 1);
        items.insert(at, (rng.below(2) as u32, Err(id)));
        Some(id)
    } else {
        None
    };
    let mut b = Request::builder();
    b.method(*rng.pick(&["POST", "PUT", "GET", "HEAD"])).uri("/x?name=query");
    let ct = *rng.pick(&["application/json", "application/x-www-form-urlencoded", "text/plain", ""]);
    if ct != "" {
        b.header("content-type", ct);
    }
    if rng.below(2) == 0 {
        b.header("content-length", *rng.pick(&["0", "3", "100000"]));
    }
    let req = Arc::new(b.body(()).unwrap());
    let desc = format!("{} {:?} ct={:?}", std::any::type_name::<W>(), items, ct);
    let body = if items.is_empty() && rng.below(2) == 0 { Body::empty() } else { Body::wrap_stream(Chunks { items }) };
    let want: Result<T, String> = match fail {
        Some(id) => Err(format!("stream {}", id)),
        None if html => serde_urlencoded::from_bytes(bytes).map_err(|e| format!("decode {}", e)),
        None => serde_json::from_slice(bytes).map_err(|e| format!("decode {}", e)),
    };
    let got: Result<T, String> = match drive(|| W::from_body(&req, body, &NoContext).into_future()) {
        Run::Done(Ok(v)) => Ok(get(v)),
        Run::Done(Err(e)) => Err(if let Some(h) = e.downcast_ref::<hyper::Error>() {
            let c = chain(h);
            match fail {
                Some(id) if c.contains(&format!("foreign error {}", id)) => format!("stream {}", id),
                _ => format!("hyper {}", c),
            }
        } else if let Some(e) = e.downcast_ref::<serde_json::Error>() {
            format!("{} {}", if html { "wrong type" } else { "decode" }, e)
        } else if let Some(e) = e.downcast_ref::<serde_urlencoded::de::Error>() {
            format!("{} {}", if html { "decode" } else { "wrong type" }, e)
        } else {
            format!("other {}", e)
        }),
        Run::Panic(s) => Err(format!("panic {}", s)),
        Run::Stuck => Err("never completes".into()),
    };
    rep.case(|| format!("{} -> {:?}", desc, want));
    if want != got {
        rep.violations.push(json!({"input": desc, "expected": format!("{:?}", want), "got": format!("{:?}", got)}));
    }
}

pub fn bodies(seed: u64, thorough: bool) -> Report {
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    let jsons: Vec<&[u8]> = vec![
        b"", b"null", b"1", b" 12 ", b"12345678901", b"\"a\"", b"{\"name\":\"x\",\"age\":3}", b"{\"name\":\"x\"}", b"{\"name\":\"\xc3\xa4\xe2\x82\xac\"}", b"{\"name\":\"\xff\"}",
        b"{\"name\":\"x\"} x", b"{\"name\":\"x\"", b"[1,2,3]", b"[\"a\",\"b\"]", b"{}", b"12 34", b"[1,2,3]]", b"{\"name\":\"x\",\"name\":\"y\"}", b"{\"name\":\"x\"}\n\n", b"0123",
    ];
    let forms: Vec<&[u8]> = vec![
        b"", b"a=1", b"a=1&b=2", b"name=x&age=3", b"name=x", b"name=%C3%A4+b", b"name=\xff", b"age=x&name=y", b"&&name=z&", b"name=x&name=y", b"name", b"=", b"a=1&a=2", b"name=a%26b%3Dc", b"b=2&a=1",
    ];
    for _ in 0..if thorough { 2000 } else { 60 } {
        for b in &jsons {
            body_case::<u32, Json<u32>>(&mut rep, &mut rng, b, false, |w| w.0);
            body_case::<Login, Json<Login>>(&mut rep, &mut rng, b, false, |w| w.0);
            body_case::<serde_json::Value, Json<serde_json::Value>>(&mut rep, &mut rng, b, false, |w| w.0);
            body_case::<Option<Vec<u8>>, Json<Option<Vec<u8>>>>(&mut rep, &mut rng, b, false, |w| w.0);
        }
        for b in &forms {
            body_case::<Login, HtmlForm<Login>>(&mut rep, &mut rng, b, true, |w| w.0);
            body_case::<QM, HtmlForm<QM>>(&mut rep, &mut rng, b, true, |w| w.0);
            body_case::<QV, HtmlForm<QV>>(&mut rep, &mut rng, b, true, |w| w.0);
        }
        let n = rng.below(12);
        let junk: Vec<u8> = (0..n).map(|_| *rng.pick(b"{}[]\"a1:,=&%+ \\\xff\n")).collect();
        body_case::<serde_json::Value, Json<serde_json::Value>>(&mut rep, &mut rng, &junk, false, |w| w.0);
        body_case::<QM, HtmlForm<QM>>(&mut rep, &mut rng, &junk, true, |w| w.0);
        let big: Vec<u8> = format!("\"{}\"", "x".repeat(3000)).into_bytes();
        body_case::<String, Json<String>>(&mut rep, &mut rng, &big, false, |w| w.0);
        if rep.violations.len() > 5 {
            break;
        }
    }
    rep
}

// ------------------------------------------------------------------ scripted handler

#[derive(Debug, Clone)]
struct Resp {
    status: u16,
    headers: Vec<(&'static str, &'static str)>,
    chunks: Vec<Vec<u8>>,
    ext: Option<u32>,
}
#[derive(Debug, Clone)]
enum HRes {
    Resp(Resp),
    Err(Res),
}
thread_local! {
    static HANDLER: RefCell<(u32, HRes)> = RefCell::new((0, HRes::Err(Res::Foreign(0))));
    static CALLS: RefCell<Vec<String>> = RefCell::new(Vec::new());
    static REFUSE: Cell<u32> = Cell::new(0);
    static GRANTED: Cell<u32> = Cell::new(0);
}
fn mk_resp(r: &Resp) -> Response<Body> {
    let mut b = Response::builder();
    b.status(r.status);
    for (k, v) in &r.headers {
        b.header(*k, *v);
    }
    if let Some(e) = r.ext {
        b.extension(Ext(e));
    }
    let chunks: Vec<Result<Vec<u8>, std::io::Error>> = r.chunks.iter().cloned().map(Ok).collect();
    b.body(if chunks.is_empty() { Body::empty() } else { Body::wrap_stream(stream::iter_result(chunks)) }).unwrap()
}
fn handle<V: Debug>(id: u32, v: V, req: &Request<()>) -> (u32, HRes) {
    CALLS.with(|c| c.borrow_mut().push(format!("handler {} value {:?} request {}", id, v, digest(req))));
    HANDLER.with(|h| h.borrow().clone())
}

/// Everything observable about a response.
#[derive(Debug, Clone, PartialEq)]
struct RObs {
    status: u16,
    version: String,
    headers: Vec<(String, String)>,
    ext: Option<u32>,
    body: Result<Vec<u8>, String>,
}
fn robs(r: Response<Body>) -> RObs {
    let (p, b) = r.into_parts();
    let mut headers: Vec<_> = p.headers.iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).to_string())).collect();
    headers.sort();
    RObs {
        status: p.status.as_u16(),
        version: format!("{:?}", p.version),
        headers,
        ext: p.extensions.get::<Ext>().map(|e| e.0),
        body: match drive(|| b.concat2()) {
            Run::Done(Ok(c)) => Ok(c.to_vec()),
            _ => Err("body failed".into()),
        },
    }
}
type SObs = Result<RObs, ErrObs>;
fn sobs(r: Run<Response<Body>, BoxedError>) -> SObs {
    match r {
        Run::Done(Ok(r)) => Ok(robs(r)),
        Run::Done(Err(e)) => Err(err_obs(&e)),
        Run::Panic(s) => Err(ErrObs::Panic(s)),
        Run::Stuck => Err(ErrObs::Stuck),
    }
}
fn blocking_impl(f: &mut dyn FnMut()) -> Poll<(), tokio_threadpool::BlockingError> {
    if REFUSE.with(|r| r.get()) > 0 {
        REFUSE.with(|r| r.set(r.get() - 1));
        task::current().notify();
        return Ok(Async::NotReady);
    }
    GRANTED.with(|r| r.set(r.get() + 1));
    f();
    Ok(Async::Ready(()))
}

fn rand_resp(rng: &mut Rng) -> Resp {
    Resp {
        status: *rng.pick(&[200, 201, 204, 301, 304, 400, 404, 405, 500, 503, 100, 599]),
        headers: (0..rng.below(4)).map(|_| *rng.pick(&[("content-length", "5"), ("content-length", "0"), ("x-a", "1"), ("x-a", "2"), ("allow", "GET"), ("transfer-encoding", "chunked"), ("content-type", "text/html"), ("set-cookie", "a=b")])).collect(),
        chunks: (0..rng.below(4)).map(|_| vec![b'y'; rng.below(20)]).collect(),
        ext: if rng.below(2) == 0 { Some(rng.below(50) as u32) } else { None },
    }
}
fn expect_err(r: &Res) -> SObs {
    let (s, m) = match r {
        Res::Hyper(s) => (*s, vec![]),
        Res::HyperSrc(s, _) => (*s, vec![]),
        Res::Hyper405(m) => (405, m.iter().map(|m| m.to_string()).collect()),
        Res::Panic => return Err(ErrObs::Panic("scripted panic".into())),
        Res::Foreign(i) => return Err(ErrObs::Foreign(*i)),
        Res::Ok => unreachable!(),
    };
    Ok(RObs {
        status: s,
        version: "HTTP/1.1".into(),
        headers: if s == 405 { vec![("allow".into(), m.join(", "))] } else { vec![] },
        ext: None,
        body: Ok(vec![]),
    })
}
fn expect_resp(r: &Resp, head: bool) -> SObs {
    let mut o = robs(mk_resp(r));
    if head {
        o.body = Ok(vec![]);
    }
    Ok(o)
}
fn has_body_marker(r: &SObs) -> bool {
    match r {
        Ok(o) => o.body != Ok(vec![]),
        _ => false,
    }
}

/// A service under test, type-erased.
type Svc = Box<dyn FnMut(Request<Body>) -> DefaultFuture<Response<Body>, BoxedError>>;
fn erase<S>(mut s: S) -> Svc
where
    S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError, Future = DefaultFuture<Response<Body>, BoxedError>> + 'static,
{
    Box::new(move |r| s.call(r))
}

fn async_handler<V: Debug + Send + 'static>(id: u32) -> impl Fn(V, Arc<Request<()>>) -> DefaultFuture<Response<Body>, BoxedError> + Send + Sync + 'static {
    move |v, req| {
        let (pend, h) = handle(id, v, &req);
        Box::new(Pend { pend, fin: Some(move || match h { HRes::Resp(r) => Ok(mk_resp(&r)), HRes::Err(e) => Err(mk_err(&e)) }) })
    }
}
fn sync_handler<V: Debug + Send + 'static>(id: u32) -> impl Fn(V, Arc<Request<()>>) -> Response<Body> + Send + Sync + 'static {
    move |v, req| match handle(id, v, &req).1 {
        HRes::Resp(r) => mk_resp(&r),
        HRes::Err(_) => panic!("scripted panic"),
    }
}

/// Services made from one another: (how, service). All must behave alike.
fn family(kind: usize, rng: &mut Rng, ctx: u32, hid: u32) -> Vec<(String, Svc)> {
    macro_rules! fam {
        ($s:expr) => {{
            let mut s = $s;
            let mut v: Vec<(String, Svc)> = vec![];
            let mut made = vec![];
            for i in 0..2 + rng.below(2) {
                let m: Result<_, BoxedError> = MakeService::<u32>::make_service(&mut s, i as u32).wait();
                made.push(m.unwrap_or_else(|e| panic!("make_service failed: {}", e)));
            }
            let c1 = s.clone();
            let c2 = c1.clone();
            let mut by = s.clone().make_service_by_cloning();
            let bm: Result<_, BoxedError> = MakeService::<&'static str>::make_service(&mut by, "x").wait();
            let by2 = by.clone();
            v.push(("original".into(), erase(s)));
            v.push(("clone".into(), erase(c1)));
            v.push(("clone of clone".into(), erase(c2)));
            v.push(("make_service_by_cloning".into(), erase(bm.unwrap_or_else(|e| panic!("{}", e)))));
            let mut by2 = by2;
            let bm: Result<_, BoxedError> = MakeService::<()>::make_service(&mut by2, ()).wait();
            v.push(("clone of make_service_by_cloning".into(), erase(bm.unwrap_or_else(|e| panic!("{}", e)))));
            for (i, m) in made.into_iter().enumerate() {
                v.push((format!("make_service {}", i), erase(m)));
            }
            v
        }};
    }
    match kind {
        0 => fam!(AsyncService::new(async_handler::<F<0>>(hid))),
        1 => fam!(AsyncService::with_context(async_handler::<FS<0>>(hid), Ctx::new(ctx))),
        2 => fam!(SyncService::new(sync_handler::<F<0>>(hid))),
        _ => fam!(SyncService::with_context(sync_handler::<FS<0>>(hid), Ctx::new(ctx))),
    }
}

pub fn services(prop: &str, seed: u64, thorough: bool) -> Report {
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    let _guard = tokio_threadpool::blocking::set_default(blocking_impl);
    for round in 0..if thorough { 20000 } else { 1200 } {
        let kind = round % 4;
        let ctx = rng.below(9) as u32;
        let hid = rng.below(100) as u32;
        let mut fam = family(kind, &mut rng, ctx, hid);
        if rng.below(3) == 0 {
            fam.reverse();
        }
        // a clone must survive the original
        if rng.below(4) == 0 {
            let i = rng.below(fam.len());
            fam.remove(i);
        }
        for step in 0..4 + rng.below(4) {
            let i = rng.below(fam.len());
            let m = *rng.pick(&["GET", "HEAD", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH", "head", "FOO"]);
            let uri = *rng.pick(&["/", "/a?b=c", "http://h.example/x", "*"]);
            let rq = mk(m, uri, &mut rng).unwrap();
            let mut script = Script::new();
            let dec = if rng.below(2) == 0 { Res::Ok } else { rand_res(&mut rng) };
            script.insert((Kind::Fwd, 0), Outcome { pend: rng.below(3) as u32, res: dec.clone() });
            set_script(script);
            let h = if kind >= 2 {
                if rng.below(12) == 0 { HRes::Err(Res::Panic) } else { HRes::Resp(rand_resp(&mut rng)) }
            } else if rng.below(3) != 0 {
                HRes::Resp(rand_resp(&mut rng))
            } else {
                HRes::Err(rand_res(&mut rng))
            };
            HANDLER.with(|x| *x.borrow_mut() = (rng.below(3) as u32, h.clone()));
            CALLS.with(|c| c.borrow_mut().clear());
            let refuse = rng.below(3) as u32;
            REFUSE.with(|r| r.set(refuse));
            let req = build(&rq);
            let svc = &mut fam[i].1;
            let got = sobs(drive(|| svc(req)));
            let log = take_log();
            let calls = CALLS.with(|c| c.borrow().clone());

            // expectations
            let bytes = rq.chunks.concat();
            let show = match kind {
                0 | 2 => NoContext.show(),
                _ => Ctx::new(ctx).show(),
            };
            let want_log = vec![Ev::Start { kind: Kind::Fwd, n: 0, req: rq.digest.clone(), ctx: show }, Ev::Done { kind: Kind::Fwd, n: 0, bytes: bytes.clone() }];
            let ty = if kind % 2 == 0 { "F" } else { "FS" };
            let (want, want_calls) = if dec == Res::Ok {
                (
                    match &h {
                        HRes::Resp(r) => expect_resp(r, rq.method == "HEAD"),
                        HRes::Err(e) => expect_err(e),
                    },
                    vec![format!("handler {} value {}({:?}) request {}", hid, ty, bytes, rq.digest)],
                )
            } else {
                (expect_err(&dec), vec![])
            };
            let panic_ok = matches!((&want, &got), (Err(ErrObs::Panic(_)), Err(ErrObs::Panic(s))) if s.contains("scripted"));
            let ok = want == got || panic_ok;
            let kinds = ["AsyncService", "AsyncService with context", "SyncService", "SyncService with context"];
            rep.case(|| format!("{} ({}) step {} {} {} decode {:?} handler {:?}", kinds[kind], fam[i].0, step, m, uri, dec, h));
            let bad = match prop {
                "C10" => dec == Res::Ok && matches!(h, HRes::Resp(_)) && !ok || rq.method == "HEAD" && has_body_marker(&got),
                "C11" => {
                    let failing = dec != Res::Ok || matches!(h, HRes::Err(_));
                    failing && !ok || dec != Res::Ok && !calls.is_empty()
                }
                "C17" => log != want_log && (log.is_empty() || format!("{:?}", log).contains("Start") && strip_ctx(&log) != strip_ctx(&want_log)) || !calls.is_empty() && calls != want_calls,
                _ => calls != want_calls || log != want_log || !ok,
            };
            if bad {
                rep.violations.push(json!({
                    "service": kinds[kind], "obtained by": fam[i].0, "step": step, "method": m, "uri": uri, "headers": rq.headers, "chunks": rq.chunks,
                    "decode": format!("{:?}", dec), "handler": format!("{:?}", h), "blocking refusals": refuse,
                    "expected": format!("{:?}", want), "got": format!("{:?}", got),
                    "expected calls": want_calls, "calls": calls, "expected log": format!("{:?}", want_log), "log": format!("{:?}", log),
                }));
                if rep.violations.len() > 5 {
                    return rep;
                }
            }
        }
    }
    rep
}
fn strip_ctx(l: &Vec<Ev>) -> Vec<Ev> {
    l.iter()
        .map(|e| match e {
            Ev::Start { kind, n, req, .. } => Ev::Start { kind: *kind, n: *n, req: req.clone(), ctx: String::new() },
            e => e.clone(),
        })
        .collect()
}

// ------------------------------------------------------------------ C12 errors

pub fn errors(seed: u64) -> Report {
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    let all: Vec<&'static Method> = vec![&Method::GET, &Method::HEAD, &Method::POST, &Method::PUT, &Method::DELETE, &Method::CONNECT, &Method::OPTIONS, &Method::TRACE, &Method::PATCH];
    static ST: [&Method; 2] = [&Method::PUT, &Method::GET];
    let mut check = |rep: &mut Report, what: String, made: std::thread::Result<Error>, want: Option<(u16, Vec<String>, Option<String>)>| {
        rep.case(|| what.clone());
        let mut bad = vec![];
        match (made, want) {
            (Err(_), None) => {}
            (Ok(e), None) => bad.push(format!("was built: {:?}", e)),
            (Err(_), Some(_)) => bad.push("panicked".to_string()),
            (Ok(e), Some((status, methods, src))) => {
                let names = |m: &[&'static Method]| m.iter().map(|m| m.to_string()).collect::<Vec<_>>();
                let st = StatusCode::from_u16(status).unwrap();
                if e.http_status() != st {
                    bad.push(format!("status {}", e.http_status()));
                }
                let want_allowed = if status == 405 { Some(methods.clone()) } else { None };
                if e.allowed_methods().map(names) != want_allowed {
                    bad.push(format!("allowed {:?}", e.allowed_methods()));
                }
                if e.source().map(|s| s.to_string()) != src {
                    bad.push(format!("source {:?}", e.source()));
                }
                if std::error::Error::source(&e).map(|s| s.to_string()) != src {
                    bad.push("std source".into());
                }
                let text = match &src {
                    None => format!("{}", st),
                    Some(s) => format!("{}: {}", st, s),
                };
                if e.to_string() != text {
                    bad.push(format!("text {:?}", e.to_string()));
                }
                let r = e.response();
                if r.status() != st {
                    bad.push(format!("response {:?}", r));
                }
                let mut hs: Vec<(String, String)> = r.headers().iter().map(|(k, v)| (k.to_string(), v.to_str().unwrap().to_string())).collect();
                hs.sort();
                let want_h = if status == 405 { vec![("allow".to_string(), methods.join(", "))] } else { vec![] };
                if hs != want_h {
                    bad.push(format!("headers {:?}", hs));
                }
                let b: BoxedError = e.into();
                if b.downcast_ref::<Error>().map(|e| e.http_status()) != Some(st) {
                    bad.push("downcast".into());
                }
            }
        }
        if !bad.is_empty() {
            rep.violations.push(json!({"constructed": what, "wrong": bad}));
        }
    };
    for s in 100..1000u16 {
        let st = match StatusCode::from_u16(s) {
            Ok(s) => s,
            Err(_) => continue,
        };
        let ok = s >= 400 && s < 600;
        check(&mut rep, format!("from_status({})", s), std::panic::catch_unwind(|| Error::from_status(st)), if ok { Some((s, vec![], None)) } else { None });
        check(&mut rep, format!("with_source({}, Foreign(1))", s), std::panic::catch_unwind(|| Error::with_source(st, Foreign(1))), if ok { Some((s, vec![], Some("foreign error 1".into()))) } else { None });
        check(&mut rep, format!("with_source({}, \"text\")", s), std::panic::catch_unwind(|| Error::with_source(st, "te: xt")), if ok { Some((s, vec![], Some("te: xt".into()))) } else { None });
        let nested = || -> Error { Error::with_source(StatusCode::METHOD_NOT_ALLOWED, Foreign(2)) };
        check(&mut rep, format!("with_source({}, 405 with source)", s), std::panic::catch_unwind(|| Error::with_source(st, nested())), if ok { Some((s, vec![], Some("405 Method Not Allowed: foreign error 2".into()))) } else { None });
    }
    check(&mut rep, "wrong_method(static [PUT, GET])".into(), std::panic::catch_unwind(|| Error::wrong_method(&ST[..])), Some((405, vec!["PUT".into(), "GET".into()], None)));
    check(&mut rep, "wrong_method(static [])".into(), std::panic::catch_unwind(|| Error::wrong_method(&[][..])), Some((405, vec![], None)));
    for _ in 0..2000 {
        let n = rng.below(11);
        let m: Vec<&'static Method> = (0..n).map(|_| *rng.pick(&all)).collect();
        let names: Vec<String> = m.iter().map(|m| m.to_string()).collect();
        check(&mut rep, format!("wrong_method({:?})", names), std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Error::wrong_method(m.clone()))), Some((405, names.clone(), None)));
    }
    rep
}

// ------------------------------------------------------------------ C13 catch_unwind

#[derive(Debug, PartialEq)]
struct Payload(u32);

#[derive(Debug, Clone)]
enum Inner {
    Resp(Resp),
    Err(Res),
    PanicInCall(u32),
    PanicInPoll(u32),
}
#[derive(Clone)]
struct Scripted {
    calls: u32,
    plan: Arc<std::sync::Mutex<(u32, Inner)>>,
    seen: Arc<std::sync::Mutex<Vec<String>>>,
}
impl Service for Scripted {
    type ReqBody = Body;
    type ResBody = Body;
    type Error = BoxedError;
    type Future = DefaultFuture<Response<Body>, BoxedError>;
    fn call(&mut self, req: Request<Body>) -> Self::Future {
        self.calls += 1;
        let (parts, body) = req.into_parts();
        let head = Request::from_parts(parts, ());
        self.seen.lock().unwrap().push(format!("call {} {}", self.calls, digest(&head)));
        let (pend, plan) = self.plan.lock().unwrap().clone();
        if let Inner::PanicInCall(n) = plan {
            payload(n)
        }
        let seen = self.seen.clone();
        Box::new(Pend {
            pend,
            fin: Some(move || {
                let bytes = match body.concat2().wait() { Ok(c) => c.to_vec(), Err(_) => vec![] };
                seen.lock().unwrap().push(format!("body {:?}", bytes));
                match plan {
                    Inner::Resp(r) => Ok(mk_resp(&r)),
                    Inner::Err(r) => Err(mk_err(&r)),
                    Inner::PanicInPoll(n) => payload(n),
                    Inner::PanicInCall(_) => unreachable!(),
                }
            }),
        })
    }
}
fn payload(n: u32) -> ! {
    match n % 3 {
        0 => std::panic::panic_any(Payload(n)),
        1 => std::panic::panic_any(format!("payload {}", n)),
        _ => std::panic::panic_any(n),
    }
}
fn payload_num(p: &(dyn Any + Send)) -> Option<u32> {
    if let Some(p) = p.downcast_ref::<Payload>() {
        return if p.0 % 3 == 0 { Some(p.0) } else { None };
    }
    if let Some(s) = p.downcast_ref::<String>() {
        return s.strip_prefix("payload ").and_then(|s| s.parse().ok()).filter(|n| n % 3 == 1);
    }
    p.downcast_ref::<u32>().cloned().filter(|n| n % 3 == 2)
}

pub fn catching(seed: u64, thorough: bool) -> Report {
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    for _ in 0..if thorough { 20000 } else { 800 } {
        let inner = Scripted { calls: 0, plan: Arc::new(std::sync::Mutex::new((0, Inner::PanicInCall(0)))), seen: Default::default() };
        let (plan, seen) = (inner.plan.clone(), inner.seen.clone());
        let hplan: Arc<std::sync::Mutex<(u32, HRes)>> = Arc::new(std::sync::Mutex::new((0, HRes::Err(Res::Foreign(0)))));
        let got_payloads: Arc<std::sync::Mutex<Vec<Option<u32>>>> = Default::default();
        let (hp, gp) = (hplan.clone(), got_payloads.clone());
        let mut a = inner.catch_unwind(move |p: Box<dyn Any + Send>| -> DefaultFuture<Response<Body>, BoxedError> {
            gp.lock().unwrap().push(payload_num(&*p));
            let (pend, h) = hp.lock().unwrap().clone();
            Box::new(Pend { pend, fin: Some(move || match h { HRes::Resp(r) => Ok(mk_resp(&r)), HRes::Err(e) => Err(mk_err(&e)) }) })
        });
        let mut b = a.clone();
        let (mut na, mut nb) = (0, 0);
        for step in 0..6 {
            let inner_plan = match rng.below(5) {
                0 => Inner::PanicInCall(rng.below(3000) as u32),
                1 | 2 => Inner::PanicInPoll(rng.below(3000) as u32),
                3 => Inner::Resp(rand_resp(&mut rng)),
                _ => Inner::Err(loop { let r = rand_res(&mut rng); if r != Res::Panic { break r } }),
            };
            let hres = if rng.below(2) == 0 { HRes::Resp(rand_resp(&mut rng)) } else { HRes::Err(loop { let r = rand_res(&mut rng); if r != Res::Panic { break r } }) };
            let pend = rng.below(4) as u32;
            *plan.lock().unwrap() = (pend, inner_plan.clone());
            *hplan.lock().unwrap() = (rng.below(3) as u32, hres.clone());
            seen.lock().unwrap().clear();
            got_payloads.lock().unwrap().clear();
            let rq = mk(*rng.pick(&["GET", "HEAD", "POST"]), *rng.pick(&["/", "/x?y"]), &mut rng).unwrap();
            let req = build(&rq);
            let use_b = rng.below(3) == 0;
            let n = if use_b { nb += 1; nb } else { na += 1; na };
            let svc = if use_b { &mut b } else { &mut a };
            let got = sobs(drive(|| svc.call(req)));
            let err = |r: &Res| -> SObs { Err(res_err(r)) };
            let hwant = || match &hres { HRes::Resp(r) => expect_resp(r, false), HRes::Err(e) => err(e) };
            let bytes = format!("body {:?}", rq.chunks.concat());
            let call = format!("call {} {}", n, rq.digest);
            let (want, want_p, want_seen) = match &inner_plan {
                Inner::Resp(r) => (expect_resp(r, false), vec![], vec![call, bytes]),
                Inner::Err(e) => (err(e), vec![], vec![call, bytes]),
                Inner::PanicInCall(n) => (hwant(), vec![Some(*n)], vec![call]),
                Inner::PanicInPoll(n) => (hwant(), vec![Some(*n)], vec![call, bytes]),
            };
            rep.case(|| format!("step {} pending {} inner {:?} handler {:?}", step, pend, inner_plan, hres));
            let p = got_payloads.lock().unwrap().clone();
            let s = seen.lock().unwrap().clone();
            if want != got || p != want_p || s != want_seen {
                rep.violations.push(json!({"step": step, "clone": use_b, "pending polls": pend, "inner": format!("{:?}", inner_plan), "handler": format!("{:?}", hres),
                    "expected": format!("{:?}", want), "got": format!("{:?}", got), "expected payloads": want_p, "payloads": p, "expected at inner": want_seen, "at inner": s}));
                if rep.violations.len() > 5 {
                    return rep;
                }
            }
        }
    }
    rep
}

// ------------------------------------------------------------------ C14 blocking

pub fn blocking(seed: u64, thorough: bool) -> Report {
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    let bad = |rep: &mut Report, what: String, wrong: String| rep.violations.push(json!({"scenario": what, "wrong": wrong}));
    {
        let _guard = tokio_threadpool::blocking::set_default(blocking_impl);
        for i in 0..if thorough { 20000 } else { 500 } {
            let refuse = rng.below(5) as u32;
            let is_ok = rng.below(2) == 0;
            let val = rng.below(1000) as u32;
            let ran = Arc::new(AtomicUsize::new(0));
            let r2 = ran.clone();
            let what = format!("{} refusals, closure returns {}({})", refuse, if is_ok { "Ok" } else { "Err" }, val);
            rep.case(|| format!("{} #{}", what, i % 50));
            REFUSE.with(|r| r.set(refuse));
            GRANTED.with(|r| r.set(0));
            let fut = hyperdrive::blocking(move || {
                r2.fetch_add(1, Ordering::SeqCst);
                if is_ok { Ok(vec![val]) } else { Err(format!("e{}", val)) }
            });
            if ran.load(Ordering::SeqCst) != 0 {
                bad(&mut rep, what.clone(), "closure ran before the future was polled".into());
            }
            if rng.below(10) == 0 {
                drop(fut);
                if ran.load(Ordering::SeqCst) != 0 {
                    bad(&mut rep, what, "closure ran although the future was dropped".into());
                }
                continue;
            }
            let count: Arc<rt::exec::Count> = Arc::new(rt::exec::Count(AtomicUsize::new(0)));
            let h: futures::executor::NotifyHandle = count.clone().into();
            let mut sp = futures::executor::spawn(fut);
            for k in 0..=refuse {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sp.poll_future_notify(&h, 0)));
                let runs = ran.load(Ordering::SeqCst);
                if k < refuse {
                    match r {
                        Ok(Ok(Async::NotReady)) if runs == 0 => {}
                        r => {
                            bad(&mut rep, what.clone(), format!("no slot at poll {}: got {:?}, closure ran {} times", k, r.map_err(|_| "panic"), runs));
                            break;
                        }
                    }
                } else {
                    let want: Result<Async<Vec<u32>>, String> = if is_ok { Ok(Async::Ready(vec![val])) } else { Err(format!("e{}", val)) };
                    match r {
                        Ok(r) if r == want && runs == 1 && GRANTED.with(|g| g.get()) == 1 => {}
                        r => bad(&mut rep, what.clone(), format!("expected {:?}, got {:?}, closure ran {} times", want, r.map_err(|_| "panic"), runs)),
                    }
                }
            }
            drop(sp);
            if ran.load(Ordering::SeqCst) != 1 && rep.violations.is_empty() {
                bad(&mut rep, what, "closure ran again".into());
            }
        }
    }
    // outside of any executor: blocking is impossible
    rep.case(|| "no executor".into());
    let ran = Arc::new(AtomicUsize::new(0));
    let r2 = ran.clone();
    match drive(|| hyperdrive::blocking(move || { r2.fetch_add(1, Ordering::SeqCst); Ok::<u32, u32>(1) })) {
        Run::Panic(_) => {}
        Run::Done(r) => bad(&mut rep, "no executor".into(), format!("resolved to {:?}", r)),
        Run::Stuck => bad(&mut rep, "no executor".into(), "pending forever".into()),
    }
    if ran.load(Ordering::SeqCst) != 0 {
        bad(&mut rep, "no executor".into(), "closure ran".into());
    }
    // a real thread pool with few blocking slots
    let pool = tokio_threadpool::Builder::new().pool_size(2).max_blocking(2).build();
    let n = if thorough { 400 } else { 40 };
    let mut rxs = vec![];
    let counts: Vec<Arc<AtomicUsize>> = (0..n).map(|_| Arc::new(AtomicUsize::new(0))).collect();
    for i in 0..n {
        let c = counts[i].clone();
        rxs.push(futures::sync::oneshot::spawn(
            futures::future::lazy(move || {
                hyperdrive::blocking(move || {
                    c.fetch_add(1, Ordering::SeqCst);
                    std::thread::sleep(std::time::Duration::from_millis(1));
                    if i % 3 == 0 { Err(i) } else { Ok(i) }
                })
            }),
            &pool.sender().clone(),
        ));
    }
    for (i, rx) in rxs.into_iter().enumerate() {
        rep.case(|| format!("thread pool task {}", i));
        let r = rx.wait();
        let want = if i % 3 == 0 { Err(i) } else { Ok(i) };
        if r != want || counts[i].load(Ordering::SeqCst) != 1 {
            bad(&mut rep, format!("thread pool task {}", i), format!("got {:?}, ran {} times", r, counts[i].load(Ordering::SeqCst)));
        }
    }
    let _ = pool.shutdown_now().wait();
    rep
}
#[allow(dead_code)]
fn _unused(_: BTreeMap<u8, u8>, _: http::Uri) {}
