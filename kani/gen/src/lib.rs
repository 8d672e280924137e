//! Representative derived types and the contracts of the code generated for them: C01, C03 to C08,
//! C15, C17. The derive is /repo's, compiled unchanged.
pub mod ctx;
pub mod env;
pub mod programs;
#[cfg(not(kani))]
pub mod native;
#[cfg(kani)]
mod spec;
#[cfg(kani)]
mod proofs;
#[cfg(kani)]
mod tables { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../out/kgen/tables.rs")); }
