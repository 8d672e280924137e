//! Contracts of hyperdrive's run-time functions, as Kani harnesses: each makes every input the
//! contract's precondition admits (symbolically, full domain unless a bound is stated), calls the
//! real function once and asserts the postcondition. Stubs replace callees by their own contracts.
#![cfg(kani)]
#![allow(static_mut_refs)]
mod body;
mod env;
mod entry;
mod error;
mod service;
mod unwind;
