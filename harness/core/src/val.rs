//! Value types stored in maps under test, and the ledger of live values.
use std::cell::{Cell, RefCell};

/// A value identified by a small id.
pub trait Val: Sized + 'static {
    /// Ids are taken modulo this.
    const CARD: u32;
    const NAME: &'static str;
    fn mk(id: u32) -> Self;
    fn id(&self) -> u32;
    fn put(&mut self, id: u32) { *self = Self::mk(id); }
}
impl Val for u32 {
    const CARD: u32 = u32::MAX;
    const NAME: &'static str = "u32";
    fn mk(id: u32) -> Self { id }
    fn id(&self) -> u32 { *self }
}
impl Val for () {
    const CARD: u32 = 1;
    const NAME: &'static str = "()";
    fn mk(_: u32) -> Self {}
    fn id(&self) -> u32 { 0 }
}
impl Val for bool {
    const CARD: u32 = 2;
    const NAME: &'static str = "bool";
    fn mk(id: u32) -> Self { id != 0 }
    fn id(&self) -> u32 { u32::from(*self) }
}
impl Val for Option<bool> {
    const CARD: u32 = 3;
    const NAME: &'static str = "Option<bool>";
    fn mk(id: u32) -> Self { match id { 0 => None, 1 => Some(false), _ => Some(true) } }
    fn id(&self) -> u32 { match self { None => 0, Some(false) => 1, Some(true) => 2 } }
}
impl Val for Box<u32> {
    const CARD: u32 = u32::MAX;
    const NAME: &'static str = "Box<u32>";
    fn mk(id: u32) -> Self { Box::new(id) }
    fn id(&self) -> u32 { **self }
    fn put(&mut self, id: u32) { **self = id; }
}

// ---- ledger ------------------------------------------------------------------------------------

#[derive(Default)]
struct Ledger { state: Vec<u8>, ids: Vec<u32>, live: usize, errors: Vec<String> }
thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
    static FAULT: Cell<i64> = const { Cell::new(-1) };
    static FAULT_KIND: Cell<u8> = const { Cell::new(0) };
    static CALLS: Cell<[u32; 8]> = const { Cell::new([0; 8]) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
}

/// Places at which user code runs and may panic.
pub mod site {
    pub const CLOSURE: u8 = 0;
    pub const CLONE: u8 = 1;
    pub const DROP: u8 = 2;
    pub const EQ: u8 = 3;
    pub const DEFAULT: u8 = 4;
    pub const NEXT: u8 = 5;
    pub const FMT: u8 = 6;
    pub const CMP: u8 = 7;
}

pub struct Injected;

/// Panic at the `nth` (0-based) visit to `kind`.
pub fn arm(kind: u8, nth: i64) { FAULT_KIND.with(|k| k.set(kind)); FAULT.with(|f| f.set(nth)); FIRED.with(|f| f.set(false)); }
pub fn disarm() { FAULT.with(|f| f.set(-1)); }
pub fn fired() -> bool { FIRED.with(|f| f.get()) }
pub fn calls(kind: u8) -> u32 { CALLS.with(|c| c.get()[kind as usize]) }
pub fn reset_calls() { CALLS.with(|c| c.set([0; 8])); }
/// One visit to a place where user code runs.
pub fn tick(kind: u8) {
    CALLS.with(|c| { let mut a = c.get(); a[kind as usize] += 1; c.set(a); });
    let hit = FAULT_KIND.with(|k| k.get()) == kind && FAULT.with(|f| { let n = f.get(); if n >= 0 { f.set(n - 1); } n == 0 });
    if hit && !std::thread::panicking() {
        FIRED.with(|f| f.set(true));
        std::panic::panic_any(Injected);
    }
}

pub fn reset() { LEDGER.with(|l| { let mut l = l.borrow_mut(); l.state.clear(); l.ids.clear(); l.live = 0; l.errors.clear(); }); disarm(); reset_calls(); }
pub fn live() -> usize { LEDGER.with(|l| l.borrow().live) }
pub fn live_ids() -> Vec<u32> { LEDGER.with(|l| { let l = l.borrow(); let mut v: Vec<u32> = (0..l.state.len()).filter(|&i| l.state[i] == 1).map(|i| l.ids[i]).collect(); v.sort_unstable(); v }) }
pub fn created() -> usize { LEDGER.with(|l| l.borrow().state.len()) }
pub fn errors() -> Vec<String> { LEDGER.with(|l| l.borrow().errors.clone()) }

/// A value whose construction, reads and drops are recorded.
pub struct Tok { serial: u32, id: u32 }
impl Tok {
    pub fn new(id: u32) -> Tok {
        LEDGER.with(|l| { let mut l = l.borrow_mut(); let serial = l.state.len() as u32; l.state.push(1); l.ids.push(id); l.live += 1; Tok { serial, id } })
    }
    pub fn serial(&self) -> u32 { self.serial }
    fn check(&self, what: &str) {
        LEDGER.with(|l| { let mut l = l.borrow_mut(); let s = l.state.get(self.serial as usize).copied(); if s != Some(1) || l.ids[self.serial as usize] != self.id { let e = format!("{what} of a value that is not alive (serial {}, id {}, state {:?})", self.serial, self.id, s); if l.errors.len() < 8 { l.errors.push(e); } } })
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.check("drop");
        LEDGER.with(|l| { let mut l = l.borrow_mut(); if let Some(s) = l.state.get_mut(self.serial as usize) { if *s == 1 { *s = 2; l.live -= 1; } } });
        tick(site::DROP);
    }
}
impl Clone for Tok { fn clone(&self) -> Tok { self.check("clone"); tick(site::CLONE); Tok::new(self.id) } }
impl Default for Tok { fn default() -> Tok { tick(site::DEFAULT); Tok::new(7) } }
impl PartialEq for Tok { fn eq(&self, o: &Tok) -> bool { self.check("compare"); o.check("compare"); tick(site::EQ); self.id == o.id } }
impl Eq for Tok {}
impl PartialOrd for Tok { fn partial_cmp(&self, o: &Tok) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Tok { fn cmp(&self, o: &Tok) -> std::cmp::Ordering { self.check("compare"); o.check("compare"); tick(site::CMP); self.id.cmp(&o.id) } }
impl std::hash::Hash for Tok { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.id.hash(h) } }
impl std::fmt::Debug for Tok { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.check("format"); tick(site::FMT); std::fmt::Debug::fmt(&self.id, f) } }
impl Val for Tok {
    const CARD: u32 = u32::MAX;
    const NAME: &'static str = "Tok";
    fn mk(id: u32) -> Self { Tok::new(id) }
    fn id(&self) -> u32 { self.check("read"); self.id }
}

// ---- values of other sizes, alignments and niches ------------------------------------------------

impl Val for u8 {
    const CARD: u32 = 251;
    const NAME: &'static str = "u8";
    fn mk(id: u32) -> Self { id as u8 }
    fn id(&self) -> u32 { (*self).into() }
}
impl Val for u128 {
    const CARD: u32 = u32::MAX;
    const NAME: &'static str = "u128";
    fn mk(id: u32) -> Self { u128::from(id) * 0x1_0000_0001_0000_0001_0000_0001 }
    fn id(&self) -> u32 { let id = *self as u32; if *self != Self::mk(id) { panic!("a u128 value is torn: {self:x}") } id }
}
impl Val for String {
    const CARD: u32 = u32::MAX;
    const NAME: &'static str = "String";
    fn mk(id: u32) -> Self { id.to_string() }
    fn id(&self) -> u32 { self.parse().expect("a string value is damaged") }
}
impl Val for Option<Box<u32>> {
    const CARD: u32 = u32::MAX;
    const NAME: &'static str = "Option<Box<u32>>";
    fn mk(id: u32) -> Self { (id != 0).then(|| Box::new(id)) }
    fn id(&self) -> u32 { self.as_ref().map_or(0, |b| **b) }
}
impl Val for [u8; 3] {
    const CARD: u32 = 251;
    const NAME: &'static str = "[u8; 3]";
    fn mk(id: u32) -> Self { [id as u8, !id as u8, id as u8] }
    fn id(&self) -> u32 { let id = u32::from(self[0]); if *self != Self::mk(id) { panic!("a [u8; 3] value is torn: {self:?}") } id }
}
/// Larger than any register, cache line or small buffer.
impl Val for [u32; 40] {
    const CARD: u32 = u32::MAX;
    const NAME: &'static str = "[u32; 40]";
    fn mk(id: u32) -> Self { std::array::from_fn(|i| id.wrapping_mul(2 * i as u32 + 1)) }
    fn id(&self) -> u32 { let id = self[0]; if *self != Self::mk(id) { panic!("a [u32; 40] value is torn: {self:?}") } id }
}
/// Larger than a page.
impl Val for [u32; 1100] {
    const CARD: u32 = u32::MAX;
    const NAME: &'static str = "[u32; 1100]";
    fn mk(id: u32) -> Self { let mut a = [id; 1100]; a[550] = !id; a }
    fn id(&self) -> u32 { let id = self[0]; if self[550] != !id || self[1] != id || self[549] != id || self[551] != id || self[1099] != id { panic!("a value of 4400 bytes is torn") } id }
}
/// Aligned more strictly than any allocator default.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
#[repr(align(64))]
pub struct Wide(u32, u32);
impl Val for Wide {
    const CARD: u32 = u32::MAX;
    const NAME: &'static str = "64-byte aligned";
    fn mk(id: u32) -> Self { Wide(id, !id) }
    fn id(&self) -> u32 { if self as *const Self as usize % 64 != 0 { panic!("a value is stored at a misaligned address") } if self.1 != !self.0 { panic!("a value is torn: {self:?}") } self.0 }
}
/// A recorded value too large to be copied around cheaply.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct BigTok { t: Tok, pad: [u32; 285] }
impl Default for BigTok { fn default() -> Self { let t = Tok::default(); BigTok { pad: [t.id; 285], t } } }
impl std::fmt::Debug for BigTok { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.t.fmt(f) } }
impl Val for BigTok {
    const CARD: u32 = u32::MAX;
    const NAME: &'static str = "recorded, over 1 kB";
    fn mk(id: u32) -> Self { BigTok { t: Tok::new(id), pad: [id; 285] } }
    fn id(&self) -> u32 { let id = self.t.id(); if self.pad.iter().any(|p| *p != id) { panic!("a value is torn") } id }
}
/// Every representation of values: sizes from 0 to 4400 bytes, niches, heap, alignment.
#[macro_export]
macro_rules! each_val { ($m:ident, $k:ty, $n:literal) => { $m! { $k, $n, [(), "()"], [bool, "bool"], [Option<bool>, "Option<bool>"], [u8, "u8"], [[u8; 3], "[u8; 3]"], [u128, "u128"], [Box<u32>, "Box"], [Option<Box<u32>>, "Option<Box>"], [String, "String"], [[u32; 40], "[u32; 40]"], [[u32; 1100], "[u32; 1100]"], [$crate::val::Wide, "Wide"], [$crate::val::BigTok, "BigTok"] } } }
/// A value recorded in the ledger.
pub trait Led: Val + Clone + PartialEq + PartialOrd + Default + std::fmt::Debug { fn new(id: u32) -> Self { Self::mk(id) } }
impl Led for Tok {}
impl Led for BigTok {}
