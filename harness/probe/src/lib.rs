//! Types the probed declarations refer to.
use fixed_map::Key;
#[derive(Clone, Copy)] pub struct NotKey;
#[derive(Clone, Copy, Key)] pub enum Sub { P, Q }
#[derive(Clone, Copy, Key)] #[key(bitset)] pub enum Bits { P, Q }
#[derive(Clone, Copy, Key)] pub enum Comp { P(bool), Q }
pub type Alias = bool;
