//! Object-safe view of the real maps and sets, keys by index.
pub type Seq = Vec<(usize, u32)>;
pub const NOKEY: usize = usize::MAX;
/// Iterators that yield more than this are cut off (and then reported as different).
pub const CAP: usize = 2000;

/// Shared ways of walking over a map.
pub const SEQ_KINDS: [&str; 4] = ["iter", "keys", "values", "&map"];
/// Mutable ways of walking over a map.
pub const MUT_KINDS: [&str; 3] = ["iter_mut", "values_mut", "&mut map"];

pub trait MapObj {
    fn insert(&mut self, k: usize, v: u32) -> Option<u32>;
    fn remove(&mut self, k: usize) -> Option<u32>;
    fn get(&self, k: usize) -> Option<u32>;
    fn contains(&self, k: usize) -> bool;
    fn get_mut(&mut self, k: usize, w: Option<u32>) -> Option<u32>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn retain(&mut self, f: &mut dyn FnMut(usize, u32) -> (bool, Option<u32>));
    fn seq(&self, kind: usize, out: &mut Seq);
    /// Walks mutably; `f(position, key or NOKEY, value)` may order a write.
    fn seq_mut(&mut self, kind: usize, f: &mut dyn FnMut(usize, usize, u32) -> Option<u32>);
    fn into_seq(self: Box<Self>, out: &mut Seq);
    /// One entry call; see [`EOp`].
    fn entry(&mut self, k: usize, op: &EOp) -> EOut;
    /// Takes all mutable references at once, then applies the writes (position, id) in order.
    fn scatter(&mut self, kind: usize, writes: &[(usize, u32)]) -> Seq;
}

/// Steps on an occupied entry before it is given up.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum EStep { Key, Get, GetMut(u32), Replace(u32) }
/// How an occupied entry is given up.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum EEnd { Drop, IntoMut(Option<u32>), Remove }
#[derive(Clone, Debug, PartialEq)]
pub enum EOp {
    Key,
    OrInsert(u32, Option<u32>),
    OrInsertWith(u32, Option<u32>),
    OrInsertWithKey(u32, Option<u32>),
    AndModify(u32),
    AndModifyOrInsert(u32, u32),
    /// and_modify twice, then or_insert_with
    AndModify2OrWith(u32, u32, u32),
    /// steps if occupied; if vacant: None = drop it, Some = (insert id, then write)
    Match(Vec<EStep>, EEnd, Option<(u32, Option<u32>)>),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct EOut {
    pub occupied: Option<bool>,
    /// Everything read, in order; keys as their index.
    pub read: Vec<i64>,
    /// Number of callback invocations.
    pub calls: u32,
}

pub trait SetObj {
    fn insert(&mut self, k: usize) -> bool;
    fn remove(&mut self, k: usize) -> bool;
    fn contains(&self, k: usize) -> bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn retain(&mut self, f: &mut dyn FnMut(usize) -> bool);
    fn seq(&self, kind: usize, out: &mut Vec<usize>);
    fn into_seq(self: Box<Self>, out: &mut Vec<usize>);
}
