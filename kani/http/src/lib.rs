//! Stand-in for `http` 0.1: plain data with the accessors' documented meaning.
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct StatusCode(u16);
#[derive(Debug)]
pub struct InvalidStatusCode;
macro_rules! codes { ($($n:ident = $v:literal)*) => { impl StatusCode { $(pub const $n: StatusCode = StatusCode($v);)* } } }
codes! { CONTINUE = 100 OK = 200 CREATED = 201 ACCEPTED = 202 NO_CONTENT = 204 MOVED_PERMANENTLY = 301 FOUND = 302 NOT_MODIFIED = 304
    BAD_REQUEST = 400 UNAUTHORIZED = 401 FORBIDDEN = 403 NOT_FOUND = 404 METHOD_NOT_ALLOWED = 405 NOT_ACCEPTABLE = 406 REQUEST_TIMEOUT = 408 CONFLICT = 409 GONE = 410
    PAYLOAD_TOO_LARGE = 413 UNSUPPORTED_MEDIA_TYPE = 415 UNPROCESSABLE_ENTITY = 422 INTERNAL_SERVER_ERROR = 500 NOT_IMPLEMENTED = 501 BAD_GATEWAY = 502 SERVICE_UNAVAILABLE = 503 }
impl StatusCode {
    pub fn from_u16(c: u16) -> Result<StatusCode, InvalidStatusCode> {
        if c >= 100 && c < 600 { Ok(StatusCode(c)) } else { Err(InvalidStatusCode) }
    }
    pub fn as_u16(&self) -> u16 { self.0 }
    pub fn is_informational(&self) -> bool { 100 <= self.0 && self.0 < 200 }
    pub fn is_success(&self) -> bool { 200 <= self.0 && self.0 < 300 }
    pub fn is_redirection(&self) -> bool { 300 <= self.0 && self.0 < 400 }
    pub fn is_client_error(&self) -> bool { 400 <= self.0 && self.0 < 500 }
    pub fn is_server_error(&self) -> bool { 500 <= self.0 && self.0 < 600 }
}
impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("<status>") }
}
impl Default for StatusCode { fn default() -> Self { StatusCode::OK } }
impl PartialEq<u16> for StatusCode { fn eq(&self, o: &u16) -> bool { self.0 == *o } }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Inner { Get, Head, Post, Put, Delete, Connect, Options, Trace, Patch, Ext(u8) }
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Method(Inner);
impl Method {
    pub const GET: Method = Method(Inner::Get);
    pub const HEAD: Method = Method(Inner::Head);
    pub const POST: Method = Method(Inner::Post);
    pub const PUT: Method = Method(Inner::Put);
    pub const DELETE: Method = Method(Inner::Delete);
    pub const CONNECT: Method = Method(Inner::Connect);
    pub const OPTIONS: Method = Method(Inner::Options);
    pub const TRACE: Method = Method(Inner::Trace);
    pub const PATCH: Method = Method(Inner::Patch);
    pub fn as_str(&self) -> &str {
        match self.0 {
            Inner::Get => "GET", Inner::Head => "HEAD", Inner::Post => "POST", Inner::Put => "PUT", Inner::Delete => "DELETE",
            Inner::Connect => "CONNECT", Inner::Options => "OPTIONS", Inner::Trace => "TRACE", Inner::Patch => "PATCH", Inner::Ext(_) => "EXTENSION",
        }
    }
    pub fn is_safe(&self) -> bool { match self.0 { Inner::Get | Inner::Head | Inner::Options | Inner::Trace => true, _ => false } }
    /// (stand-in only) every method: 0..=8 the standard ones, the rest extension methods
    pub fn nth(x: u8) -> Method {
        Method(match x { 0 => Inner::Get, 1 => Inner::Head, 2 => Inner::Post, 3 => Inner::Put, 4 => Inner::Delete, 5 => Inner::Connect, 6 => Inner::Options, 7 => Inner::Trace, 8 => Inner::Patch, x => Inner::Ext(x) })
    }
    /// (stand-in only) inverse of `nth`
    pub fn index(&self) -> u8 {
        match self.0 { Inner::Get => 0, Inner::Head => 1, Inner::Post => 2, Inner::Put => 3, Inner::Delete => 4, Inner::Connect => 5, Inner::Options => 6, Inner::Trace => 7, Inner::Patch => 8, Inner::Ext(x) => x }
    }
}
impl Default for Method { fn default() -> Self { Method::GET } }
impl<'a> PartialEq<&'a Method> for Method { fn eq(&self, o: &&'a Method) -> bool { self == *o } }
impl<'a> PartialEq<Method> for &'a Method { fn eq(&self, o: &Method) -> bool { *self == o } }
impl PartialEq<str> for Method { fn eq(&self, o: &str) -> bool { self.as_str() == o } }
impl<'a> PartialEq<&'a str> for Method { fn eq(&self, o: &&'a str) -> bool { self.as_str() == *o } }
impl AsRef<str> for Method { fn as_ref(&self) -> &str { self.as_str() } }
impl fmt::Display for Method { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.as_str()) } }

/// A URI; `id` identifies everything about it that is not modelled. (Path and query live in statics
/// to keep requests small.)
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Uri { pub id: u32 }
pub static mut PATH: &'static str = "/p";
pub static mut QUERY: Option<&'static str> = None;
impl Uri {
    pub fn path(&self) -> &str { unsafe { PATH } }
    pub fn query(&self) -> Option<&str> { unsafe { QUERY } }
}
/// Headers: `id` identifies the contents the request or response was made with, `edits` counts
/// changes since; `allow` is the only header modelled.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct HeaderMap { pub id: u32, pub edits: u32, pub allow: Option<&'static str> }
impl HeaderMap {
    pub fn new() -> Self { Default::default() }
    pub fn remove(&mut self, _: header::HeaderName) -> Option<HeaderValue> { self.edits += 1; None }
    pub fn insert<V>(&mut self, _: header::HeaderName, _: V) -> Option<HeaderValue> { self.edits += 1; None }
    pub fn clear(&mut self) { self.edits += 1; }
}
#[derive(Clone, Debug)]
pub struct HeaderValue;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Version(pub u8);
#[derive(Debug, Default, PartialEq, Eq)]
pub struct Extensions { pub id: u32, pub edits: u32 }
impl Extensions { pub fn new() -> Self { Default::default() } pub fn clear(&mut self) { self.edits += 1; } }
pub mod header {
    pub use super::{HeaderMap, HeaderValue};
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct HeaderName(pub u8);
    pub const ALLOW: HeaderName = HeaderName(0);
    pub const CONTENT_LENGTH: HeaderName = HeaderName(1);
    pub const CONTENT_TYPE: HeaderName = HeaderName(2);
    pub const TRANSFER_ENCODING: HeaderName = HeaderName(3);
}
pub use header::HeaderName;
#[derive(Debug)]
pub struct Error;
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("http error") } }
impl std::error::Error for Error {}

pub mod request {
    use super::*;
    #[derive(Debug, Default)]
    pub struct Parts { pub method: Method, pub uri: Uri, pub version: Version, pub headers: HeaderMap, pub extensions: Extensions, _priv: () }
}
#[derive(Debug, Default)]
pub struct Request<T> { head: request::Parts, body: T }
impl<T> Request<T> {
    pub fn new(body: T) -> Self { Request { head: Default::default(), body } }
    pub fn method(&self) -> &Method { &self.head.method }
    pub fn method_mut(&mut self) -> &mut Method { &mut self.head.method }
    pub fn uri(&self) -> &Uri { &self.head.uri }
    pub fn uri_mut(&mut self) -> &mut Uri { &mut self.head.uri }
    pub fn version(&self) -> Version { self.head.version }
    pub fn version_mut(&mut self) -> &mut Version { &mut self.head.version }
    pub fn headers(&self) -> &HeaderMap { &self.head.headers }
    pub fn headers_mut(&mut self) -> &mut HeaderMap { &mut self.head.headers }
    pub fn extensions(&self) -> &Extensions { &self.head.extensions }
    pub fn extensions_mut(&mut self) -> &mut Extensions { &mut self.head.extensions }
    pub fn body(&self) -> &T { &self.body }
    pub fn body_mut(&mut self) -> &mut T { &mut self.body }
    pub fn into_body(self) -> T { self.body }
    pub fn into_parts(self) -> (request::Parts, T) { (self.head, self.body) }
    pub fn from_parts(head: request::Parts, body: T) -> Self { Request { head, body } }
    pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> Request<U> { Request { head: self.head, body: f(self.body) } }
}
pub mod response {
    use super::*;
    #[derive(Debug, Default)]
    pub struct Parts { pub status: StatusCode, pub version: Version, pub headers: HeaderMap, pub extensions: Extensions, _priv: () }
    #[derive(Debug, Default)]
    pub struct Builder { p: Parts }
    pub trait HeaderVal { fn text(self) -> String; }
    impl HeaderVal for String { fn text(self) -> String { self } }
    impl<'a> HeaderVal for &'a str { fn text(self) -> String { self.to_string() } }
    impl Builder {
        pub fn new() -> Self { Default::default() }
        pub fn status(&mut self, s: StatusCode) -> &mut Self { self.p.status = s; self }
        pub fn header<V: HeaderVal>(&mut self, n: header::HeaderName, v: V) -> &mut Self {
            if n == header::ALLOW && self.p.headers.allow.is_none() { self.p.headers.allow = Some(Box::leak(v.text().into_boxed_str())); } else { self.p.headers.edits += 1; }
            self
        }
        pub fn body<T>(&mut self, b: T) -> Result<Response<T>, Error> { Ok(Response { head: std::mem::take(&mut self.p), body: b }) }
    }
}
#[derive(Debug, Default)]
pub struct Response<T> { head: response::Parts, body: T }
impl Response<()> { pub fn builder() -> response::Builder { Default::default() } }
impl<T> Response<T> {
    pub fn new(body: T) -> Self { Response { head: Default::default(), body } }
    pub fn status(&self) -> StatusCode { self.head.status }
    pub fn status_mut(&mut self) -> &mut StatusCode { &mut self.head.status }
    pub fn version(&self) -> Version { self.head.version }
    pub fn version_mut(&mut self) -> &mut Version { &mut self.head.version }
    pub fn headers(&self) -> &HeaderMap { &self.head.headers }
    pub fn headers_mut(&mut self) -> &mut HeaderMap { &mut self.head.headers }
    pub fn extensions(&self) -> &Extensions { &self.head.extensions }
    pub fn extensions_mut(&mut self) -> &mut Extensions { &mut self.head.extensions }
    pub fn body(&self) -> &T { &self.body }
    pub fn body_mut(&mut self) -> &mut T { &mut self.body }
    pub fn into_body(self) -> T { self.body }
    pub fn into_parts(self) -> (response::Parts, T) { (self.head, self.body) }
    pub fn from_parts(head: response::Parts, body: T) -> Self { Response { head, body } }
    pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> Response<U> { Response { head: self.head, body: f(self.body) } }
}
