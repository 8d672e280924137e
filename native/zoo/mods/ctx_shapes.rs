#![allow(dead_code)]
use crate::sup::*;
use hyperdrive::{NoContext, RequestContext};
#[derive(RequestContext)]
struct Unit;
#[derive(RequestContext)]
struct Empty {}
#[derive(RequestContext)]
struct EmptyT();
#[derive(RequestContext)]
struct Same(A0, #[as_ref] A0, A0, #[as_ref] A1, A1);
#[derive(RequestContext)]
struct SameN { z: A0, #[as_ref] y: A0, x: A0, #[as_ref] a: A1, b: A1 }
#[derive(RequestContext)]
enum E { A, B(A0), C { x: A1 } }
#[derive(RequestContext)]
enum Void {}
#[derive(RequestContext)]
struct Lt<'a, T: 'a + Copy> where T: Send { #[as_ref] r: Vec<&'a T>, #[as_ref] o: Option<T>, p: T }
#[derive(RequestContext)]
struct Str { #[as_ref] s: String, #[as_ref] b: Box<[u8]>, #[as_ref] f: fn(u8) -> u8, #[as_ref] t: (u8, u16) }
mod m {
    #[derive(hyperdrive::RequestContext)]
    pub struct NoImports { #[as_ref] pub x: Vec<u8>, #[as_ref] pub inner: super::Unit }
    pub struct NoContext;
}
pub fn check(v: &mut Vec<String>) {
    is_ctx(&Unit);
    is_ctx(&Empty {});
    is_ctx(&EmptyT());
    is_ctx(&NoContext);
    same(v, "NoContext", <NoContext as AsRef<NoContext>>::as_ref(&NoContext), &NoContext);
    v.clear(); // zero-sized: any address will do
    let x = Same(A0(1), A0(2), A0(3), A1(4), A1(5));
    same(v, "Same AsRef<A0>", <Same as AsRef<A0>>::as_ref(&x), &x.1);
    same(v, "Same AsRef<A1>", <Same as AsRef<A1>>::as_ref(&x), &x.3);
    same(v, "Same AsRef<Same>", <Same as AsRef<Same>>::as_ref(&x), &x);
    let x = SameN { z: A0(1), y: A0(2), x: A0(3), a: A1(4), b: A1(5) };
    same(v, "SameN AsRef<A0>", <SameN as AsRef<A0>>::as_ref(&x), &x.y);
    same(v, "SameN AsRef<A1>", <SameN as AsRef<A1>>::as_ref(&x), &x.a);
    for e in &[E::A, E::B(A0(1)), E::C { x: A1(1) }] {
        same(v, "E AsRef<E>", <E as AsRef<E>>::as_ref(e), e);
        let _: &NoContext = e.as_ref();
    }
    if Probe::<E, A0>::HAS || Probe::<E, A1>::HAS || Probe::<Unit, A0>::HAS || Probe::<Same, A2>::HAS {
        v.push("unexpected conversion".into());
    }
    let k = 7u8;
    let x = Lt { r: vec![&k], o: Some(1u8), p: 3 };
    same(v, "Lt AsRef<Vec>", <Lt<u8> as AsRef<Vec<&u8>>>::as_ref(&x), &x.r);
    same(v, "Lt AsRef<Option>", <Lt<u8> as AsRef<Option<u8>>>::as_ref(&x), &x.o);
    let x = Str { s: "s".into(), b: Box::new([1]), f: |x| x, t: (1, 2) };
    same(v, "Str AsRef<String>", <Str as AsRef<String>>::as_ref(&x), &x.s);
    same(v, "Str AsRef<Box>", <Str as AsRef<Box<[u8]>>>::as_ref(&x), &x.b);
    same(v, "Str AsRef<fn>", <Str as AsRef<fn(u8) -> u8>>::as_ref(&x), &x.f);
    same(v, "Str AsRef<tuple>", <Str as AsRef<(u8, u16)>>::as_ref(&x), &x.t);
    let x = m::NoImports { x: vec![], inner: Unit };
    same(v, "NoImports AsRef<Vec>", <m::NoImports as AsRef<Vec<u8>>>::as_ref(&x), &x.x);
}
