//! Stand-in for `lazy_static` (single-threaded): the initializer runs at the first access.
#[macro_export]
macro_rules! lazy_static {
    ($($(#[$a:meta])* $v:vis static ref $n:ident: $t:ty = $e:expr;)*) => { $(
        #[allow(non_camel_case_types)]
        $v struct $n { _p: () }
        impl ::std::ops::Deref for $n {
            type Target = $t;
            fn deref(&self) -> &$t {
                static mut V: ::std::option::Option<$t> = None;
                unsafe {
                    let v = &mut *::std::ptr::addr_of_mut!(V);
                    if v.is_none() { ::std::mem::forget(::std::mem::replace(v, Some($e))); }
                    match v { Some(v) => v, None => unreachable!() }
                }
            }
        }
        $v static $n: $n = $n { _p: () };
    )* }
}
