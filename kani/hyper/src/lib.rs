//! Stand-in for `hyper` 0.12: bodies are identified by `id`; as a stream they deliver scripted chunks.
pub use http::{header, HeaderMap, Method, Request, Response, StatusCode, Uri, Version};
use futures::{Async, Poll, Stream};

#[derive(Debug)]
pub struct Error(pub u32);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("hyper error") } }
impl std::error::Error for Error {}

/// At most `CAP` bytes; or, for bodies delivered in one piece, any number of bytes.
#[derive(Debug, Clone, Copy, Default)]
pub struct Chunk { b: [u8; CAP], len: usize, whole: Option<&'static [u8]> }
/// (stand-in only) where a body delivered in one piece is; its bytes are arbitrary.
pub static mut WHOLE: *const u8 = std::ptr::null();
pub const CAP: usize = 8;
impl Chunk {
    fn put(&mut self, x: u8) { assert!(self.whole.is_none() && self.len < CAP, "stand-in chunk too small"); self.b[self.len] = x; self.len += 1; }
    pub fn into_bytes(self) -> Chunk { self }
}
impl AsRef<[u8]> for Chunk { fn as_ref(&self) -> &[u8] { match self.whole { Some(w) => w, None => &self.b[..self.len] } } }
impl std::ops::Deref for Chunk { type Target = [u8]; fn deref(&self) -> &[u8] { match self.whole { Some(w) => w, None => &self.b[..self.len] } } }
#[derive(Debug)]
pub struct ChunkIter { c: Chunk, at: usize }
impl Iterator for ChunkIter {
    type Item = u8;
    fn next(&mut self) -> Option<u8> { if self.at < self.c.len { self.at += 1; Some(self.c.b[self.at - 1]) } else { None } }
}
impl IntoIterator for Chunk { type Item = u8; type IntoIter = ChunkIter; fn into_iter(self) -> ChunkIter { ChunkIter { c: self, at: 0 } } }
impl Extend<u8> for Chunk { fn extend<T: IntoIterator<Item = u8>>(&mut self, i: T) { for b in i { self.put(b); } } }

/// What the stream delivers at successive polls once started.
#[derive(Debug, Clone, Copy)]
pub enum Step { Pending, Byte(u8), Bytes(u8, u8), Whole(usize), Empty, Fail(u32), End }
#[derive(Debug)]
pub struct Body { pub id: u32, pub at: u32 }
/// (stand-in only) what every body's stream delivers
pub static mut STEPS: [Step; 4] = [Step::End; 4];
/// (stand-in only) the id of `Body::empty()`
pub const EMPTY: u32 = 0;
impl Body {
    pub fn empty() -> Body { Body::with_id(EMPTY) }
    pub fn with_id(id: u32) -> Body { Body { id, at: 0 } }
}
impl Default for Body { fn default() -> Body { Body::empty() } }
impl From<&'static str> for Body { fn from(s: &'static str) -> Body { Body::with_id(if s.is_empty() { EMPTY } else { u32::MAX }) } }
impl From<String> for Body { fn from(s: String) -> Body { Body::with_id(if s.is_empty() { EMPTY } else { u32::MAX }) } }
impl From<Vec<u8>> for Body { fn from(s: Vec<u8>) -> Body { Body::with_id(if s.is_empty() { EMPTY } else { u32::MAX }) } }
impl Stream for Body {
    type Item = Chunk;
    type Error = Error;
    fn poll(&mut self) -> Poll<Option<Chunk>, Error> {
        if self.at >= 4 { return Ok(Async::Ready(None)); }
        let s = unsafe { STEPS[self.at as usize] };
        if let Step::End = s { return Ok(Async::Ready(None)); }
        self.at += 1;
        match s {
            Step::Pending => Ok(Async::NotReady),
            Step::Byte(b) => { let mut c = Chunk::default(); c.put(b); Ok(Async::Ready(Some(c))) }
            Step::Bytes(a, b) => { let mut c = Chunk::default(); c.put(a); c.put(b); Ok(Async::Ready(Some(c))) }
            Step::Whole(n) => Ok(Async::Ready(Some(Chunk { whole: Some(unsafe { std::slice::from_raw_parts(WHOLE, n) }), ..Chunk::default() }))),
            Step::Empty => Ok(Async::Ready(Some(Chunk::default()))),
            Step::Fail(i) => Err(Error(i)),
            Step::End => Ok(Async::Ready(None)),
        }
    }
}
pub mod body {
    pub trait Payload: Send + 'static {}
    impl Payload for super::Body {}
    pub use super::{Body, Chunk};
}
pub mod service {
    use super::*;
    use futures::Future;
    pub trait Service {
        type ReqBody: body::Payload;
        type ResBody: body::Payload;
        type Error: Into<Box<dyn std::error::Error + Send + Sync>>;
        type Future: Future<Item = Response<Self::ResBody>, Error = Self::Error>;
        fn poll_ready(&mut self) -> Poll<(), Self::Error> { Ok(Async::Ready(())) }
        fn call(&mut self, req: Request<Self::ReqBody>) -> Self::Future;
    }
    pub trait MakeService<Ctx> {
        type ReqBody: body::Payload;
        type ResBody: body::Payload;
        type Error: Into<Box<dyn std::error::Error + Send + Sync>>;
        type Service: Service<ReqBody = Self::ReqBody, ResBody = Self::ResBody, Error = Self::Error>;
        type Future: Future<Item = Self::Service, Error = Self::MakeError>;
        type MakeError: Into<Box<dyn std::error::Error + Send + Sync>>;
        fn poll_ready(&mut self) -> Poll<(), Self::MakeError> { Ok(Async::Ready(())) }
        fn make_service(&mut self, ctx: Ctx) -> Self::Future;
    }
}
