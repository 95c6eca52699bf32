//! Model checking harness for fixed-map: the key types and the wrappers over the real code.
#![allow(clippy::all)]
#![recursion_limit = "1024"]
pub use fmcheck_dom as dom;
pub mod obj;
pub mod prelude;
pub mod zoo;
pub use fmcore::{engine, iters, model, report, val};
