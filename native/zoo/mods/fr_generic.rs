#![allow(dead_code)]
use hyperdrive::{body::{Json, HtmlForm}, FromRequest, RequestContext, NoContext, Guard, BoxedError, http};
use std::sync::Arc;
use std::marker::PhantomData;
#[derive(RequestContext, Debug)]
pub struct Cx<T> where T: Clone {
    #[as_ref]
    inner: Vec<T>,
    #[as_ref]
    sub: Sub,
}
#[derive(RequestContext, Debug)]
pub struct Sub;
pub struct G;
impl Guard for G {
    type Context = Sub;
    type Result = Result<Self, BoxedError>;
    fn from_request(_: &Arc<http::Request<()>>, _: &Sub) -> Self::Result { Ok(G) }
}
pub struct Ph<T>(PhantomData<T>);
impl<T> Guard for Ph<T> {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_request(_: &Arc<http::Request<()>>, _: &NoContext) -> Self::Result { Ok(Ph(PhantomData)) }
}
#[derive(FromRequest)]
#[context(Cx<u8>)]
enum WithCx {
    #[get("/{x}/{y...}")]
    A { y: String, g: G, x: u8 },
    #[post("/{x}/{y...}")]
    B { #[body] b: Json<String>, y: String, x: u16 },
}
#[derive(FromRequest)]
enum Gen<A, B, C>
where
    A: Send,
{
    #[get("/{a}")]
    #[put("/w/{a}")]
    One { a: A, g: B },
    #[post("/c/d")]
    Two { #[body] c: C },
    Three { #[forward] f: Inner },
}
#[derive(FromRequest)]
#[get("/i")]
struct Inner;
#[derive(FromRequest)]
#[get("/t/{t}")]
#[head("/t/{t}")]
struct GenS<T> { t: T, h: Ph<u8> }
#[derive(FromRequest)]
struct Fwd<T> { #[forward] t: T, g: Ph<u16> }
#[derive(FromRequest)]
enum Dup<U, B, P> {
    #[get("/a/{p}")]
    A { g: U, h: U, p: P },
    #[post("/a/{p}")]
    B { g: U, #[body] b: B, p: P },
    #[put("/a/{p}")]
    C { h: U, p: P, #[body] b: B, #[query_params] q: P },
}
fn ok<R: FromRequest>() {}
pub fn check(_: &mut Vec<String>) {
    ok::<WithCx>();
    ok::<Gen<u8, Ph<u8>, HtmlForm<String>>>();
    ok::<GenS<String>>();
    ok::<Fwd<Inner>>();
    ok::<Fwd<GenS<u32>>>();
    ok::<Dup<Ph<u8>, HtmlForm<String>, u8>>();
}
