//! Programs that must compile, and whose derived contexts must convert as documented.
include!(concat!(env!("HV_ZOO"), "/all.rs"));

pub mod sup {
    use hyperdrive::*;
    use std::marker::PhantomData;
    macro_rules! tys { ($($t:ident)*) => { $( #[derive(Debug)] pub struct $t(pub u32); )* } }
    tys! { A0 A1 A2 A3 A4 A9 }
    #[derive(Debug)]
    pub struct W<T>(pub T);
    pub trait Not {
        const HAS: bool = false;
    }
    impl<T> Not for T {}
    pub struct Probe<S: ?Sized, T: ?Sized>(PhantomData<S>, PhantomData<T>);
    impl<S: AsRef<T> + ?Sized, T: ?Sized> Probe<S, T> {
        pub const HAS: bool = true;
    }
    pub fn same<T>(v: &mut Vec<String>, what: &str, a: &T, b: &T) {
        if a as *const T != b as *const T {
            v.push(format!("{}: does not refer to that field / value", what));
        }
    }
    pub fn is_ctx<T: RequestContext>(_: &T) {}
}

fn main() {
    let mut bad = vec![];
    for (name, f) in ALL {
        let mut v = vec![];
        f(&mut v);
        bad.extend(v.into_iter().map(|m| (name, m)));
    }
    for (n, m) in &bad {
        println!("BAD {} {}", n, m);
    }
    println!("CHECKED {}", ALL.len());
}
