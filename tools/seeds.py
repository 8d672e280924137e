PARSE = 'derive/src/from_request/parse.rs'
MOD = 'derive/src/from_request/mod.rs'
CTX = 'derive/src/request_context.rs'
LIB, SVC, ERR, BODY = 'src/lib.rs', 'src/service.rs', 'src/error.rs', 'src/body.rs'

PRELUDE = r'''#![allow(dead_code, unused_imports, unused_macros)]
use hyperdrive::futures::{self, Future, IntoFuture, Stream, Async, Poll};
use hyperdrive::http::{self, Method, Request, Response, StatusCode};
use hyperdrive::hyper::{self, service::Service, Body};
use hyperdrive::service::*;
use hyperdrive::{body::*, *};
use std::collections::BTreeSet;
use std::sync::{atomic::{AtomicUsize, Ordering}, Arc, Mutex};

fn req(m: &str, u: &str) -> Request<Body> {
    Request::builder().method(m).uri(u).body(Body::empty()).unwrap()
}
/// The decoded value, or status, allowed methods and the source's text
fn get<T: FromRequest<Context = NoContext>>(m: &str, u: &str) -> Result<T, (u16, Option<BTreeSet<String>>, Option<String>)> {
    T::from_request_sync(req(m, u), NoContext).map_err(|e| {
        let e = e.downcast::<Error>().expect("no hyperdrive error");
        (
            e.http_status().as_u16(),
            e.allowed_methods().map(|m| m.iter().map(|m| m.to_string()).collect()),
            e.source().map(|s| s.to_string()),
        )
    })
}
fn set(s: &[&str]) -> Option<BTreeSet<String>> { Some(s.iter().map(|s| s.to_string()).collect()) }
'''
SEEDS = [
dict(id='c01-dot', property='C01',
 edits=[(PARSE, '''                    regex.push('/');
                    regex_syntax::escape_into(literal, &mut regex);
''', '''                    regex.push('/');
                    // Most paths contain nothing that would need escaping
                    if literal.contains(|c: char| c.is_ascii_punctuation() && !"-_.".contains(c)) {
                        regex_syntax::escape_into(literal, &mut regex);
                    } else {
                        regex.push_str(literal);
                    }
''')],
 needs='a literal segment whose only special character is `.`, and a request path differing from it just there',
 breaks='a dot in a literal segment matches any character',
 main=r'''
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/robots.txt")] Robots, #[get("/a/{x}.{y}")] Odd }
fn main() {
    assert_eq!(get::<R>("GET", "/robots.txt"), Ok(R::Robots));
    assert_eq!(get::<R>("GET", "/robots_txt").unwrap_err().0, 404);
    assert_eq!(get::<R>("GET", "/a/{x}.{y}").unwrap_err().0, 404);
}
'''.replace(', #[get("/a/{x}.{y}")] Odd', '').replace('    assert_eq!(get::<R>("GET", "/a/{x}.{y}").unwrap_err().0, 404);\n', '')),
dict(id='c01-slash', property='C01',
 edits=[(PARSE, 'Regex::new(&format!("^{}$", regex))', 'Regex::new(&format!("^{}/?$", regex.trim_end_matches(\'/\')))')],
 needs='a request whose path differs from a declared one by a trailing slash',
 breaks='a route also matches its path with a trailing slash added or removed',
 main=r'''
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/a/{x}")] A { x: String } }
fn main() {
    assert_eq!(get::<R>("GET", "/a/b"), Ok(R::A { x: "b".into() }));
    assert_eq!(get::<R>("GET", "/a/b/").unwrap_err().0, 404);
}
'''),
dict(id='c02-methods', property='C02',
 edits=[(PARSE, '.filter(|r| !r.path.matches_same_paths(&route.path))', '.filter(|r| r.method == route.method && !r.path.matches_same_paths(&route.path))')],
 needs='two routes with overlapping but different patterns and different methods',
 breaks='routes of different methods with patterns matching a common path are accepted',
 good=r'''#[derive(hyperdrive::FromRequest)]
enum R { #[get("/a/0")] A, #[post("/b/{ph}")] B { ph: u32 } }
fn main() { let _ = (R::A, R::B { ph: 0 }); }
''', bad=r'''#[derive(hyperdrive::FromRequest)]
enum R { #[get("/a/0")] A, #[post("/a/{ph}")] B { ph: u32 } }
fn main() { let _ = (R::A, R::B { ph: 0 }); }
'''),
dict(id='c02-rest-late', property='C02',
 edits=[(PARSE, '''                (Rest(_), other) | (other, Rest(_)) => {
                    overlap.push('/');''', '''                (Rest(_), Literal(lit)) | (Literal(lit), Rest(_)) if lit.is_empty() => {
                    // Just a trailing slash, this is a different resource
                    return None;
                }
                (Rest(_), other) | (other, Rest(_)) => {
                    overlap.push('/');''')],
 needs='a pattern ending in a rest placeholder and one that has an empty segment at or after that position',
 breaks='`/a/{x...}` and `/a/` are accepted together although both match `/a/`',
 good=r'''#[derive(hyperdrive::FromRequest)]
enum R { #[get("/a/{x...}")] A { x: String }, #[post("/b/")] B }
fn main() { let _ = (R::B, R::A { x: String::new() }); }
''', bad=r'''#[derive(hyperdrive::FromRequest)]
enum R { #[get("/a/{x...}")] A { x: String }, #[post("/a/")] B }
fn main() { let _ = (R::B, R::A { x: String::new() }); }
'''),
dict(id='c03-own-head', property='C03',
 edits=[(PARSE, 'if !any_head_overlaps_with(&head) {', '''let own_head = variant.routes.iter().any(|route| route.method == "HEAD");
                    if !own_head && !any_head_overlaps_with(&head) {''')],
 needs='a variant with a GET route and a HEAD route for another path',
 breaks='a GET route on a variant that declares a HEAD route for another path no longer answers HEAD',
 main=r'''
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/a")] #[head("/b")] A }
fn main() {
    assert_eq!(get::<R>("GET", "/a"), Ok(R::A));
    assert_eq!(get::<R>("HEAD", "/b"), Ok(R::A));
    assert_eq!(get::<R>("HEAD", "/a"), Ok(R::A));
}
'''),
dict(id='c04-or', property='C04',
 edits=[(MOD, ').is_ok() )&&*', ').is_ok() )||*')],
 needs='a pattern with at least two placeholders, a wrong method and a path of which only some placeholders convert',
 breaks='methods of routes whose placeholders do not all convert are listed as allowed',
 main=r'''
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/{a}/{b}")] N { a: u32, b: u32 }, #[put("/{a}/{b}")] S { a: String, b: String } }
fn main() {
    assert_eq!(get::<R>("POST", "/1/2").unwrap_err(), (405, set(&["GET", "HEAD", "PUT"]), None));
    assert_eq!(get::<R>("POST", "/1/x").unwrap_err(), (405, set(&["PUT"]), None));
}
'''),
dict(id='c04-first', property='C04',
 edits=[(MOD, '''                                .map(|(method, variant)| (variant.variant_name(), method))
                                .unzip();
''', '''                                .map(|(method, variant)| (variant.variant_name(), method))
                                .unzip();
                            // All of them use the same pattern
                            let variants = vec![variants[0]; methods.len()];
''')],
 needs='two variants sharing a pattern with placeholders of different types, a wrong method and a path only one converts',
 breaks='whether a method is allowed is decided by the placeholder types of the first variant with that pattern',
 main=r'''
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/{a}")] N { a: u32 }, #[put("/{a}")] S { a: String } }
fn main() {
    assert_eq!(get::<R>("POST", "/1").unwrap_err(), (405, set(&["GET", "HEAD", "PUT"]), None));
    assert_eq!(get::<R>("POST", "/x").unwrap_err(), (405, set(&["PUT"]), None));
}
'''),
dict(id='c05-sorted', property='C05',
 edits=[(PARSE, '        &self.path.placeholders\n', '        &self.path.placeholders_sorted\n')],
 needs='a route with two placeholders that are not in alphabetical order, of types that convert from each other\'s text',
 breaks='placeholder fields receive each other\'s part of the path when their names are not in alphabetical order',
 main=r'''
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/{b}/x/{a}")] N { a: String, b: String } }
fn main() {
    assert_eq!(get::<R>("GET", "/1/x/2"), Ok(R::N { a: "2".into(), b: "1".into() }));
}
'''),
dict(id='c05-source', property='C05',
 edits=[(MOD, '''                                Err(e) => {
                                    return Error::with_source(StatusCode::NOT_FOUND, e)
                                        .into_future();
                                }''', '''                                Err(_) => {
                                    return Error::from_status(StatusCode::NOT_FOUND)
                                        .into_future();
                                }''')],
 needs='a path whose placeholder does not convert, and a look at the error\'s source',
 breaks='the 404 error of a failed conversion does not carry the conversion error',
 main=r'''
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/{a}")] N { a: u32 } }
fn main() {
    let e = "x".parse::<u32>().unwrap_err().to_string();
    assert_eq!(get::<R>("GET", "/x"), Err((404, None, Some(e))));
}
'''),
dict(id='c05-query-first', property='C05',
 edits=[(MOD, '''        #placeholders

        #query
''', '''        #query

        #placeholders
''')],
 needs='a request for which both a placeholder conversion and the query decoding fail',
 breaks='query decoding takes place before the placeholders are converted: 400 instead of 404',
 main=r'''
#[derive(serde_derive_shim::Q, Debug, PartialEq)]
struct Q { n: u32 }
fn main() { }
'''),
dict(id='c06-qmark', property='C06',
 edits=[(MOD, 'let raw_query = request.uri().query().unwrap_or("");', '''let uri = request.uri().to_string();
            let raw_query = uri.split('?').nth(1).unwrap_or("");''')],
 needs='a query string that contains another `?`',
 breaks='the query string is cut at a second `?`',
 main=r'''
mod m {
    #[derive(serde::Deserialize, Debug, PartialEq)]
    pub struct Q { pub a: String, pub b: Option<String> }
}
use m::Q;
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/")] N { #[query_params] q: Q } }
fn main() {
    assert_eq!(get::<R>("GET", "/?a=1&b=2"), Ok(R::N { q: Q { a: "1".into(), b: Some("2".into()) } }));
    assert_eq!(get::<R>("GET", "/?a=1?&b=2"), Ok(R::N { q: Q { a: "1?".into(), b: Some("2".into()) } }));
}
'''),
dict(id='c07-early-body', property='C07',
 edits=[(MOD, '''    let mut future = quote! {
        Ok(#construct).into_future()
    };
''', '''    let mut future = quote! {
        Ok(#construct).into_future()
    };
    let mut start_body = quote!();
'''), (MOD, '''        future = quote! {
            <#ty as FromBody>::from_body(&request, body, context.as_ref())
                .into_future()
                .and_then(move |#var| #future)
        };
''', '''        // Start reading the body right away so that it arrives while the guards run
        start_body = quote! {
            let body = <#ty as FromBody>::from_body(&request, body, context.as_ref()).into_future();
        };
        future = quote! {
            body.and_then(move |#var| #future)
        };
'''), (MOD, '''        let request = Arc::clone(request);
        let future = #future;
''', '''        let request = Arc::clone(request);
        #start_body
        let future = #future;
''')],
 needs='a variant with a guard that fails and a body whose decoder has an observable effect when started',
 breaks='the body decoder is started before the guards have succeeded',
 main=r'''
static BODIES: AtomicUsize = AtomicUsize::new(0);
#[derive(Debug, PartialEq)] struct G;
#[derive(Debug, PartialEq)] struct B;
impl Guard for G {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_request(r: &Arc<Request<()>>, _: &NoContext) -> Self::Result {
        if r.headers().contains_key("fail") { Err("guard".into()) } else { Ok(G) }
    }
}
impl FromBody for B {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_body(_: &Arc<Request<()>>, _: Body, _: &NoContext) -> Self::Result {
        BODIES.fetch_add(1, Ordering::SeqCst);
        Ok(B)
    }
}
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[post("/")] N { #[body] b: B, g: G } }
fn main() {
    assert_eq!(get::<R>("POST", "/"), Ok(R::N { b: B, g: G }));
    assert_eq!(BODIES.load(Ordering::SeqCst), 1);
    let mut r = req("POST", "/");
    r.headers_mut().insert("fail", "1".parse().unwrap());
    assert_eq!(R::from_request_sync(r, NoContext).unwrap_err().to_string(), "guard");
    assert_eq!(BODIES.load(Ordering::SeqCst), 1);
}
'''),
dict(id='c07-reverse', property='C07',
 edits=[(MOD, '''        .map(|fld| fld.ident.clone().unwrap())
        .rev()
''', '''        .map(|fld| fld.ident.clone().unwrap())
''')],
 needs='a variant with two guards that both fail for a request',
 breaks='guards run from the last to the first declared one',
 main=r'''
macro_rules! guard { ($g:ident) => {
    #[derive(Debug, PartialEq)] struct $g;
    impl Guard for $g {
        type Context = NoContext;
        type Result = Result<Self, BoxedError>;
        fn from_request(_: &Arc<Request<()>>, _: &NoContext) -> Self::Result { Err(stringify!($g).into()) }
    }
} }
guard!(A); guard!(B);
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[post("/")] N { b: B, a: A } }
fn main() {
    assert_eq!(R::from_request_sync(req("POST", "/"), NoContext).unwrap_err().to_string(), "B");
}
'''),
dict(id='c08-empty-inner', property='C08',
 edits=[(MOD, '''                                        if err.http_status() == StatusCode::METHOD_NOT_ALLOWED {
''', '''                                        if err.allowed_methods().map(|m| !m.is_empty()).unwrap_or(false) {
''')],
 needs='an outer pattern matched with a wrong method and an inner 405 error that allows no method at all',
 breaks='a 405 of the inner type that lists no methods replaces the outer type\'s allowed methods',
 main=r'''
#[derive(FromRequest, Debug, PartialEq)]
enum Inner { #[put("/{n}")] P { n: u32 } }
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[post("/{n}")] N { n: String }, Fall { #[forward] inner: Inner } }
fn main() {
    assert_eq!(get::<R>("GET", "/1").unwrap_err(), (405, set(&["POST", "PUT"]), None));
    assert_eq!(get::<R>("GET", "/x").unwrap_err(), (405, set(&["POST"]), None));
}
'''),
dict(id='c08-masks', property='C08',
 edits=[(MOD, '''                                        if err.http_status() == StatusCode::METHOD_NOT_ALLOWED {
''', '''                                        if err.http_status().is_client_error() {
'''), (MOD, '''                                            let inner_methods = err.allowed_methods()
                                                .expect("`WrongMethod` but no `allowed_methods()`?");
''', '''                                            let inner_methods = err.allowed_methods().unwrap_or(&[]);
''')],
 needs='an outer pattern matched with a wrong method while the inner type fails with a client error other than 405',
 breaks='the inner type\'s 404 or 400 error is replaced by a 405',
 main=r'''
#[derive(FromRequest, Debug, PartialEq)]
enum Inner { #[put("/other")] P }
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[post("/a")] N, Fall { #[forward] inner: Inner } }
fn main() {
    assert_eq!(get::<R>("GET", "/a").unwrap_err().0, 404);
}
'''),
dict(id='c09-empty-chunk', property='C09',
 edits=[(BODY, '''        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            match serde_json::from_slice(&body) {''', '''        // An empty chunk marks the end of the body
        let body = body.take_while(|chunk| Ok(!chunk.is_empty()));
        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            match serde_json::from_slice(&body) {''')],
 needs='a body delivered in chunks one of which is empty',
 breaks='everything after an empty chunk of a JSON body is dropped',
 main=r'''
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[post("/")] N { #[body] b: Json<Vec<u32>> } }
fn main() {
    let chunks: Vec<Result<&'static str, std::io::Error>> = vec![Ok("[1"), Ok(""), Ok(",2]")];
    let body = Body::wrap_stream(futures::stream::iter_result(chunks));
    let r = Request::builder().method("POST").uri("/").body(body).unwrap();
    assert_eq!(R::from_request_sync(r, NoContext).unwrap(), R::N { b: Json(vec![1, 2]) });
}
'''),
dict(id='c09-trailing', property='C09',
 edits=[(BODY, '            match serde_json::from_slice(&body) {', '            match T::deserialize(&mut serde_json::Deserializer::from_slice(&body)) {')],
 needs='a JSON body followed by further non-blank characters',
 breaks='a JSON body with trailing garbage is accepted',
 main=r'''
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[post("/")] N { #[body] b: Json<u32> } }
fn run(s: &'static str) -> Result<R, String> {
    R::from_request_sync(Request::builder().method("POST").uri("/").body(Body::from(s)).unwrap(), NoContext).map_err(|e| e.to_string())
}
fn main() {
    assert_eq!(run("1 "), Ok(R::N { b: Json(1) }));
    assert!(run("1 2").is_err());
}
'''),
dict(id='c10-status', property='C10',
 edits=[(SVC, '''                crate::blocking(move || Ok(handler(route, req)))
            })
            .map(move |response| {
                if is_head {''', '''                crate::blocking(move || Ok(handler(route, req)))
            })
            .map(move |response| {
                if is_head && response.status().is_success() {''')],
 needs='SyncService, a HEAD request and a handler answering with a status other than 2xx and a body',
 breaks='SyncService sends the body of a non-2xx response to a HEAD request',
 main=r'''
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/")] N }
fn main() {
    for status in &[200u16, 404, 302] {
        let st = *status;
        let mut s = SyncService::new(move |_: R, _| Response::builder().status(st).body(Body::from("body")).unwrap());
        let pool = tokio_threadpool::ThreadPool::new();
        let r = futures::sync::oneshot::spawn(futures::lazy(move || s.call(req("HEAD", "/"))), pool.sender()).wait().unwrap();
        assert_eq!(r.status().as_u16(), st);
        assert_eq!(r.into_body().concat2().wait().unwrap().len(), 0);
    }
}
'''),
dict(id='c10-length', property='C10',
 edits=[(SVC, '''            .and_then(move |r| handler(r, req))
            .map(move |response| {
                if is_head {
                    // Responses to HEAD requests must have an empty body
                    response.map(|_| Body::empty())''', '''            .and_then(move |r| handler(r, req))
            .map(move |mut response| {
                if is_head {
                    // Responses to HEAD requests must have an empty body
                    response.headers_mut().remove(http::header::CONTENT_LENGTH);
                    response.map(|_| Body::empty())''')],
 needs='AsyncService, a HEAD request and a handler that sets Content-Length',
 breaks='the Content-Length header is dropped from responses to HEAD requests',
 main=r'''
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/")] N }
fn main() {
    let mut s = AsyncService::new(|_: R, _| Ok::<_, BoxedError>(Response::builder().header("content-length", "4").body(Body::from("body")).unwrap()).into_future());
    let r = s.call(req("HEAD", "/")).wait().unwrap();
    assert_eq!(r.headers().get("content-length").unwrap(), "4");
}
'''),
dict(id='c11-5xx', property='C11',
 edits=[(SVC, '''            .and_then(move |r| handler(r, req))
            .map(move |response| {
                if is_head {
                    // Responses to HEAD requests must have an empty body
                    response.map(|_| Body::empty())
                } else {
                    response
                }
            })
            .or_else(|err| {
                if let Some(our_error) = err.downcast_ref::<Error>() {
                    Ok(our_error.response().map(|()| Body::empty()))
                } else {
                    Err(err)
                }
            });''', '''            .and_then(move |r| handler(r, req))
            .map(move |response| {
                if is_head {
                    // Responses to HEAD requests must have an empty body
                    response.map(|_| Body::empty())
                } else {
                    response
                }
            })
            .or_else(|err| {
                match err.downcast_ref::<Error>() {
                    // Let the server deal with (and log) internal errors
                    Some(our_error) if our_error.http_status().is_client_error() => {
                        Ok(our_error.response().map(|()| Body::empty()))
                    }
                    _ => Err(err),
                }
            });''')],
 needs='AsyncService whose handler (or a guard) fails with a hyperdrive error of status 5xx',
 breaks='hyperdrive errors with a 5xx status make the service fail instead of being answered',
 main=r'''
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/{s}")] N { s: u16 } }
fn main() {
    let mut s = AsyncService::new(|r: R, _| { let R::N { s } = r; Err::<Response<Body>, BoxedError>(Error::from_status(StatusCode::from_u16(s).unwrap()).into()).into_future() });
    assert_eq!(s.call(req("GET", "/403")).wait().unwrap().status().as_u16(), 403);
    assert_eq!(s.call(req("GET", "/503")).wait().unwrap().status().as_u16(), 503);
}
'''),
dict(id='c12-allow', property='C12',
 edits=[(ERR, '            builder.header(http::header::ALLOW, allowed);', '''            if !allowed.is_empty() {
                builder.header(http::header::ALLOW, allowed);
            }''')],
 needs='a 405 error that allows no methods',
 breaks='the mandatory Allow header is missing from a 405 response without allowed methods',
 main=r'''
fn main() {
    let e = Error::wrong_method(vec![&Method::GET, &Method::PUT]);
    assert_eq!(e.response().headers().get("allow").unwrap(), "GET, PUT");
    let e = Error::wrong_method(vec![]);
    assert_eq!(e.response().headers().get("allow").unwrap(), "");
}
'''),
dict(id='c12-none', property='C12',
 edits=[(ERR, '''        if self.status == StatusCode::METHOD_NOT_ALLOWED {
            Some(&self.allowed_methods)''', '''        if !self.allowed_methods.is_empty() {
            Some(&self.allowed_methods)''')],
 needs='a 405 error built with an empty method list',
 breaks='allowed_methods() is None for a 405 error without methods',
 main=r'''
fn main() {
    assert_eq!(Error::wrong_method(vec![&Method::GET]).allowed_methods().unwrap().len(), 1);
    assert_eq!(Error::wrong_method(vec![]).allowed_methods().map(|m| m.len()), Some(0));
    assert!(Error::from_status(StatusCode::NOT_FOUND).allowed_methods().is_none());
}
'''),
dict(id='c13-payload', property='C13',
 edits=[(SVC, 'Err(panic_payload) => return Box::new(handler(panic_payload).into_future()),', 'Err(panic_payload) => return Box::new(handler(Box::new(panic_payload)).into_future()),')],
 needs='a panic while the request future is created and a handler inspecting the payload',
 breaks='the handler gets the payload boxed twice, so downcasting it fails',
 main=r'''
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/")] N }
#[derive(Clone)] struct S;
impl Service for S {
    type ReqBody = Body; type ResBody = Body; type Error = BoxedError;
    type Future = DefaultFuture<Response<Body>, BoxedError>;
    fn call(&mut self, r: Request<Body>) -> Self::Future {
        if r.uri().path() == "/poll" { Box::new(futures::future::lazy(|| -> Result<Response<Body>, BoxedError> { panic!("polled") })) } else { panic!("called") }
    }
}
fn main() {
    std::panic::set_hook(Box::new(|i| if !i.to_string().contains("called") && !i.to_string().contains("polled") { eprintln!("{}", i) }));
    let mut s = S.catch_unwind(|p| { let s = p.downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or("?".into()); Ok::<_, BoxedError>(Response::new(Body::from(s))).into_future() });
    for (u, t) in &[("/poll", "polled"), ("/call", "called")] {
        let b = s.call(req("GET", u)).wait().unwrap().into_body().concat2().wait().unwrap();
        assert_eq!(std::str::from_utf8(&b).unwrap(), *t);
    }
}
'''),
dict(id='c14-eager', property='C14',
 edits=[(LIB, '''        tokio_threadpool::blocking(|| f.take().unwrap()()).map_err(|blocking_err| {''', '''        let result = f.take().map(|f| f());
        tokio_threadpool::blocking(|| result.unwrap()).map_err(|blocking_err| {''')],
 needs='an executor without a free blocking slot at the first poll',
 breaks='the closure runs before a blocking slot is granted, and its result is lost if none was free',
 main=r'''
fn main() {
    // Two blocking tasks, one slot
    let pool = tokio_threadpool::Builder::new().pool_size(2).max_blocking(1).build();
    let running = Arc::new(AtomicUsize::new(0));
    let mut v = Vec::new();
    for _ in 0..4 {
        let running = running.clone();
        v.push(futures::sync::oneshot::spawn(futures::lazy(move || blocking(move || {
            let n = running.fetch_add(1, Ordering::SeqCst);
            std::thread::sleep(std::time::Duration::from_millis(200));
            running.fetch_sub(1, Ordering::SeqCst);
            Ok::<usize, ()>(n)
        })), pool.sender()));
    }
    for f in v { assert_eq!(f.wait(), Ok(0)); }
}
'''),
dict(id='c15-index', property='C15',
 edits=[(CTX, 'for (index, field) in st.fields.iter().enumerate() {', '''let fields = st.fields.iter().filter(|f| f.ident.is_some() || !f.attrs.is_empty());
            for (index, field) in fields.enumerate() {''')],
 needs='a tuple struct with an unmarked field of the same type before the marked one',
 breaks='AsRef returns another field of the same type in tuple structs',
 main=r'''
#[derive(RequestContext)]
struct C(u32, #[as_ref] u32);
fn main() {
    let c = C(1, 2);
    let r: &u32 = c.as_ref();
    assert_eq!(*r, 2);
}
'''),
dict(id='c16-two-roles', property='C16',
 edits=[(PARSE, '''                        insert(
                            "#[body]/#[query_params]/#[forward]",
                            &mut field_kind,
                            FieldKind::Body,
                        );''', '''                        field_kind = Some(FieldKind::Body);''')],
 needs='a field that is a placeholder of the route and marked `#[body]`',
 breaks='a field with the two roles placeholder and body is accepted',
 good=r'''use hyperdrive::{FromRequest, body::Json};
#[derive(FromRequest)]
enum R { #[get("/{x}")] A { x: u32, #[body] b: Json<u32> } }
fn main() { let _ = R::A { x: 0, b: Json(0) }; }
''', bad=r'''use hyperdrive::*;
struct X;
impl std::str::FromStr for X { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<X, Self::Err> { Ok(X) } }
impl FromBody for X { type Context = NoContext; type Result = Result<X, BoxedError>;
    fn from_body(_: &std::sync::Arc<http::Request<()>>, _: hyper::Body, _: &NoContext) -> Self::Result { Ok(X) } }
#[derive(FromRequest)]
enum R { #[get("/{x}")] A { #[body] x: X } }
fn main() { let _ = R::A { x: X }; }
'''),
dict(id='c16-order', property='C16',
 edits=[(PARSE, 'if first.placeholders() != route.placeholders() {', 'if first.path.placeholders_sorted != route.path.placeholders_sorted {')],
 needs='a variant with two routes that have the same placeholders in different order',
 breaks='routes of one variant with differently ordered placeholders are accepted; the fields are swapped on the second',
 good=r'''#[derive(hyperdrive::FromRequest)]
enum R { #[get("/{a}/{b}")] #[get("/x/{a}/{b}")] A { a: u32, b: u32 } }
fn main() { let _ = R::A { a: 0, b: 1 }; }
''', bad=r'''#[derive(hyperdrive::FromRequest)]
enum R { #[get("/{a}/{b}")] #[get("/x/{b}/{a}")] A { a: u32, b: u32 } }
fn main() { let _ = R::A { a: 0, b: 1 }; }
'''),
dict(id='c17-ext', property='C17',
 edits=[(LIB, '''        let (parts, body) = request.into_parts();
        let request = Arc::new(http::Request::from_parts(parts, ()));
''', '''        let (parts, body) = request.into_parts();
        let mut head = http::Request::new(());
        *head.method_mut() = parts.method;
        *head.uri_mut() = parts.uri;
        *head.version_mut() = parts.version;
        *head.headers_mut() = parts.headers;
        let request = Arc::new(head);
''')],
 needs='a request carrying an extension and a guard that looks at it',
 breaks='extensions of the request are lost in from_request and from_request_sync',
 main=r'''
#[derive(Debug, PartialEq)] struct G(Option<u32>);
impl Guard for G {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_request(r: &Arc<Request<()>>, _: &NoContext) -> Self::Result { Ok(G(r.extensions().get::<u32>().cloned())) }
}
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/")] N { g: G } }
fn main() {
    let mut r = req("GET", "/");
    r.extensions_mut().insert(7u32);
    assert_eq!(R::from_request_sync(r, NoContext).unwrap(), R::N { g: G(Some(7)) });
}
'''),
dict(id='c18-retry', property='C18',
 edits=[(SVC, '''        let fut = R::from_request_and_body(&req, body, self.context.clone())
            .and_then(move |r| handler(r, req))''', '''        let fut = R::from_request_and_body(&req, body, self.context.clone())
            .and_then(move |r| {
                if Arc::strong_count(&handler) > 3 {
                    // Too many requests in flight
                    return futures::future::Either::A(futures::future::err(
                        Error::from_status(hyper::StatusCode::SERVICE_UNAVAILABLE).into(),
                    ));
                }
                futures::future::Either::B(handler(r, req))
            })''')],
 needs='several clones of one AsyncService alive at once',
 breaks='with more than two clones alive an AsyncService refuses requests, so clones do not serve like the original',
 main=r'''
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/")] N }
fn main() {
    let s = AsyncService::new(|_: R, _| Ok::<_, BoxedError>(Response::new(Body::empty())).into_future());
    let mut clones = vec![s.clone(), s.clone(), s.clone()];
    for c in &mut clones { assert_eq!(c.call(req("GET", "/")).wait().unwrap().status().as_u16(), 200); }
}
'''),
]
for s in SEEDS:
    if s['id'] == 'c05-query-first':
        s['main'] = r'''
mod m {
    #[derive(serde::Deserialize, Debug, PartialEq)]
    pub struct Q { pub n: u32 }
}
use m::Q;
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/{a}")] N { a: u32, #[query_params] q: Q } }
fn main() {
    assert_eq!(get::<R>("GET", "/1?n=2"), Ok(R::N { a: 1, q: Q { n: 2 } }));
    assert_eq!(get::<R>("GET", "/1?n=x").unwrap_err().0, 400);
    assert_eq!(get::<R>("GET", "/x?n=2").unwrap_err().0, 404);
    assert_eq!(get::<R>("GET", "/x?n=x").unwrap_err().0, 404);
}
'''
