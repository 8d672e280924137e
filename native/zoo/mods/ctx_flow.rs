// A derived context used by a derived FromRequest.
use crate::sup::*;
use hyperdrive::futures::Future;
use hyperdrive::{http, hyper, BoxedError, FromBody, FromRequest, Guard, NoContext, RequestContext};
use std::sync::Arc;
#[derive(RequestContext, Debug, Clone, PartialEq)]
pub struct Leaf(u32);
#[derive(RequestContext, Debug, Clone, PartialEq)]
pub struct Leaf2 {
    v: u32,
}
#[derive(RequestContext, Debug, Clone, PartialEq)]
pub struct Whole(u32, #[as_ref] Leaf, Leaf2, #[as_ref] Leaf2);
macro_rules! part {
    ($n:ident, $c:ty) => {
        #[derive(Debug)]
        pub struct $n(String);
        impl Guard for $n {
            type Context = $c;
            type Result = Result<Self, BoxedError>;
            fn from_request(_: &Arc<http::Request<()>>, c: &$c) -> Self::Result {
                Ok($n(format!("{:?}", c)))
            }
        }
        impl FromBody for $n {
            type Context = $c;
            type Result = Result<Self, BoxedError>;
            fn from_body(_: &Arc<http::Request<()>>, _: hyper::Body, c: &$c) -> Self::Result {
                Ok($n(format!("{:?}", c)))
            }
        }
        impl FromRequest for $n {
            type Context = $c;
            type Future = hyperdrive::futures::future::FutureResult<Self, BoxedError>;
            fn from_request_and_body(_: &Arc<http::Request<()>>, _: hyper::Body, c: $c) -> Self::Future {
                hyperdrive::futures::future::ok($n(format!("{:?}", c)))
            }
        }
    };
}
part!(PL, Leaf);
part!(PL2, Leaf2);
part!(PW, Whole);
part!(PN, NoContext);
#[derive(FromRequest, Debug)]
#[context(Whole)]
enum R {
    #[get("/a")]
    A { a: PL2, b: PN, c: PW, d: PL },
    #[post("/a")]
    B { #[body] a: PL2, d: PL },
    #[put("/a")]
    C { #[body] a: PN, d: PW },
    #[patch("/a")]
    D { #[body] a: PW },
    F { #[forward] f: PW, g: PL },
}
pub fn check(v: &mut Vec<String>) {
    let cx = || Whole(1, Leaf(2), Leaf2 { v: 3 }, Leaf2 { v: 4 });
    let run = |m: &str, p: &str| {
        let mut b = http::Request::builder();
        b.method(m).uri(p);
        let r: Result<R, _> = R::from_request(b.body(hyper::Body::empty()).unwrap(), cx()).wait();
        format!("{:?}", r).replace('\\', "")
    };
    let w = format!("{:?}", cx());
    let l = format!("{:?}", cx().1);
    let l2 = format!("{:?}", cx().3);
    let n = "NoContext";
    let mut eq = |a: String, b: String| {
        if a != b {
            v.push(format!("context flow: got {} expected {}", a, b));
        }
    };
    eq(run("GET", "/a"), format!("Ok(A {{ a: PL2(\"{}\"), b: PN(\"{}\"), c: PW(\"{}\"), d: PL(\"{}\") }})", l2, n, w, l));
    eq(run("POST", "/a"), format!("Ok(B {{ a: PL2(\"{}\"), d: PL(\"{}\") }})", l2, l));
    eq(run("PUT", "/a"), format!("Ok(C {{ a: PN(\"{}\"), d: PW(\"{}\") }})", n, w));
    eq(run("PATCH", "/a"), format!("Ok(D {{ a: PW(\"{}\") }})", w));
    eq(run("DELETE", "/a"), format!("Ok(F {{ f: PW(\"{}\"), g: PL(\"{}\") }})", w, l));
    eq(run("GET", "/zz"), format!("Ok(F {{ f: PW(\"{}\"), g: PL(\"{}\") }})", w, l));
    let _ = A0(1);
}
