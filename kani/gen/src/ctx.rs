//! Derived contexts (C15): each conversion returns the value itself or exactly the marked field.
#![allow(dead_code)]
use hyperdrive::{NoContext, RequestContext};

#[derive(RequestContext)]
pub struct Named { pub a: u32, #[as_ref] pub b: u64, #[as_ref] pub c: u16, pub d: u64 }
#[derive(RequestContext)]
pub struct Tuple(pub u8, #[as_ref] pub u32, pub u32, #[as_ref] pub [u16; 2], #[as_ref] pub char);
#[derive(RequestContext)]
pub struct Generic<'a, T: Copy, const N: usize> where T: PartialEq { #[as_ref] pub t: Box<T>, pub u: T, #[as_ref] pub r: &'a u8, #[as_ref] pub n: [T; N] }
#[derive(RequestContext)]
pub enum Either<T> { A, B(T), C { x: u32 } }
#[derive(RequestContext)]
pub struct Unit;
/// A marked type that is itself a context with parts of its own.
#[derive(RequestContext)]
pub struct Nested { #[as_ref] pub inner: Named, #[as_ref] pub b: u32 }

#[cfg(kani)]
mod proofs {
    use super::*;
    fn same<T: ?Sized>(a: &T, b: &T) -> bool { a as *const T as *const u8 == b as *const T as *const u8 }
    fn own<T: RequestContext>(t: &T) {
        assert!(same::<T>(t.as_ref(), t), "C15 AsRef<Self> returns the value itself");
        let _: &NoContext = t.as_ref();
    }
    fn named() -> Named { Named { a: kani::any(), b: kani::any(), c: kani::any(), d: kani::any() } }
    #[kani::proof]
    #[kani::unwind(1)]
    fn structs() {
        let x = named();
        own(&x);
        assert!(same::<u64>(x.as_ref(), &x.b) && same::<u16>(x.as_ref(), &x.c), "C15 AsRef returns a reference to exactly the marked field");
        let x = Tuple(kani::any(), kani::any(), kani::any(), [kani::any(), kani::any()], kani::any());
        own(&x);
        assert!(same::<u32>(x.as_ref(), &x.1) && same::<[u16; 2]>(x.as_ref(), &x.3) && same::<char>(x.as_ref(), &x.4), "C15 AsRef returns a reference to exactly the marked field");
        let x = Nested { inner: named(), b: kani::any() };
        own(&x);
        assert!(same::<Named>(x.as_ref(), &x.inner) && same::<u32>(x.as_ref(), &x.b), "C15 AsRef returns a reference to exactly the marked field");
        own(&Unit);
        kani::cover!(true, "end reached");
    }
    #[kani::proof]
    #[kani::unwind(1)]
    fn generics() {
        let r: u8 = kani::any();
        let x = Generic::<u32, 2> { t: Box::new(kani::any()), u: kani::any(), r: &r, n: [kani::any(), kani::any()] };
        own(&x);
        assert!(same::<Box<u32>>(x.as_ref(), &x.t) && same::<&u8>(x.as_ref(), &x.r) && same::<[u32; 2]>(x.as_ref(), &x.n), "C15 AsRef returns a reference to exactly the marked field");
        std::mem::forget(x);
        kani::cover!(true, "end reached");
    }
    #[kani::proof]
    #[kani::unwind(1)]
    fn enums() {
        let k: u8 = kani::any();
        let x: Either<u32> = if k == 0 { Either::A } else if k == 1 { Either::B(kani::any()) } else { Either::C { x: kani::any() } };
        own(&x);
        kani::cover!(true, "end reached");
    }
}
