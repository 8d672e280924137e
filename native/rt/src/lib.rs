//! Scripted guards/bodies/forwards, an event log, and an independent reference semantics of
//! `#[derive(FromRequest)]` programs, used to find and replay failing inputs on the real code.
#![allow(clippy::all)]
pub mod alias;
pub mod exec;
pub mod refsem;
pub mod types;
pub mod reqs;
pub use refsem::*;
pub use types::*;
