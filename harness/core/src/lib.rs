//! The part of the harness that does not depend on the code under test: exploration engine,
//! reference models, value ledger, reporting. See /verif/DESIGN.md.
pub mod engine;
pub mod iters;
pub mod model;
pub mod obj;
pub mod report;
pub mod val;

/// What the engine needs to know about a key type.
#[derive(Clone, Debug)]
pub struct Info {
    pub name: &'static str,
    pub n: usize,
    pub is_static: bool,
    /// One rank per key: iteration yields non-decreasing ranks; equal ranks may come in any order.
    pub ranks: Vec<u32>,
}
