//! The real `synstructure`, except that `decl_derive!` declares an ordinary public function
//! instead of a `#[proc_macro_derive]` entry point, so that /repo/derive/src/lib.rs can be
//! compiled *unchanged* as a normal library and its derives called in-process.
pub use real::*;
pub use proc_macro2 as pm2;

#[macro_export]
macro_rules! decl_derive {
    ([$name:ident $($rest:tt)*] => $($f:tt)*) => {
        #[allow(non_snake_case)]
        pub mod $name {
            #[allow(unused_imports)]
            use super::*;
            pub fn expand(s: $crate::Structure<'_>) -> $crate::pm2::TokenStream {
                ($($f)*)(s)
            }
        }
    };
}
