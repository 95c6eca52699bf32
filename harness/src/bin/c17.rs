//! Dynamically stored keys over their full range and through growth and shrinkage.
use fmcheck::prelude::*;
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::rc::Rc;

/// The values of a dynamically stored type: extremes first, then spread out.
trait Vals: Key + Ord + Debug + 'static {
    /// At most `n` distinct values; `copy` asks for the same values at other addresses.
    fn vals(n: usize, copy: bool) -> Vec<Self>;
}
fn dedup<T: Ord + Copy>(v: Vec<T>, n: usize) -> Vec<T> { let mut s = BTreeSet::new(); v.into_iter().filter(|x| s.insert(*x)).take(n).collect() }
macro_rules! int { ($($t:ident)*) => { $( impl Vals for $t {
    fn vals(n: usize, _: bool) -> Vec<$t> {
        let mut v: Vec<$t> = vec![0, 1, <$t>::MAX, <$t>::MIN, (0 as $t).wrapping_sub(1), 2, 127, <$t>::MAX - 1, <$t>::MIN + 1];
        for s in 1..<$t>::BITS { let p = (1 as $t).wrapping_shl(s); v.push(p); v.push(p.wrapping_sub(1)); v.push(p.wrapping_add(1)); v.push((0 as $t).wrapping_sub(p)); }
        let small = v.len();
        let _ = small;
        for i in 0..(2 * n.max(256)) as u64 { v.push(i as $t); v.push((i as $t).wrapping_mul((1 as $t).wrapping_shl(<$t>::BITS / 2))); }
        dedup(v, n)
    }
} )* } }
int!(u8 u32 u64 u128 usize i8 i32 i64 i128 isize);
impl Vals for char {
    fn vals(n: usize, _: bool) -> Vec<char> {
        let mut v = vec!['\0', 'a', '\u{10FFFF}', '\u{E000}', '\u{D7FF}', '\u{FFFF}', '\u{10000}', 'A', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', 'é', 'e', '\u{301}'];
        v.extend((0..2 * n as u32).filter_map(char::from_u32));
        v.extend((0..n as u32).filter_map(|i| char::from_u32(i << 8)));
        dedup(v, n)
    }
}
/// Contents that are prefixes of one another, equal up to case, embed zero bytes, or differ in one place.
fn contents(n: usize) -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "b", "ab", "ba", "aa", "aaa", "A", "\0", "\0\0", "a\0", "\0a", "é", "e\u{301}", " ", "a ", " a", "\n", "0", "00", "1", "01", "-1", "\u{10FFFF}", "abcdefgh", "abcdefgi", "abcdefghabcdefgh", "abcdefghabcdefgi", "bbcdefghabcdefgh"].map(String::from).to_vec();
    for i in 0..n { v.push(format!("{i}")); v.push(format!("key number {i}, which is long enough for several words")); v.push("x".repeat(i)); }
    let mut s = BTreeSet::new();
    v.into_iter().filter(|x| s.insert(x.clone())).take(n).collect()
}
/// The first `k` strings come out of one buffer (same address, different length); copies have addresses of their own.
fn leak(n: usize, copy: bool) -> Vec<&'static str> {
    let c = contents(n);
    if copy { return c.into_iter().map(|s| { let pad = format!("?{s}"); let p: &'static str = Box::leak(pad.into_boxed_str()); &p[1..] }).collect(); }
    let xs: &'static str = Box::leak("x".repeat(n).into_boxed_str());
    c.into_iter().map(|s| if s.bytes().all(|b| b == b'x') { &xs[..s.len()] } else { let p: &'static str = Box::leak(s.into_boxed_str()); p }).collect()
}
impl Vals for &'static str { fn vals(n: usize, copy: bool) -> Vec<&'static str> { leak(n, copy) } }
impl Vals for &'static [u8] {
    fn vals(n: usize, copy: bool) -> Vec<&'static [u8]> {
        let mut v: Vec<&'static [u8]> = vec![];
        for b in [&[255u8][..], &[128, 0], &[0xc3, 0x28], &[0; 9]] { v.push(Box::leak(b.to_vec().into_boxed_slice())); }
        v.extend(leak(n, copy).into_iter().map(str::as_bytes));
        dedup(v, n)
    }
}
impl<T: Vals> Vals for Option<T> { fn vals(n: usize, copy: bool) -> Vec<Self> { let mut v = vec![None]; v.extend(T::vals(n, copy).into_iter().map(Some)); v.insert(1.min(v.len()), v[v.len() - 1]); v.swap(0, 1); dedup(v, n) } }

/// The payload under several variants next to other kinds of variants.
macro_rules! wrap { ($($name:ident $t:ty;)*) => { $(
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Key)]
    enum $name { A($t), B, C($t), D(Option<$t>), F(bool) }
    impl Vals for $name { fn vals(n: usize, copy: bool) -> Vec<Self> {
        let mut v = vec![$name::B, $name::F(true), $name::D(None), $name::F(false)];
        for t in <$t>::vals(n, copy) { v.extend([$name::A(t), $name::C(t), $name::D(Some(t))]); }
        dedup(v, n)
    } }
)* } }
wrap! { WChar char; WU8 u8; WU32 u32; WU64 u64; WU128 u128; WUsize usize; WI8 i8; WI32 i32; WI64 i64; WI128 i128; WIsize isize; WStr &'static str; WBytes &'static [u8]; }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Key)]
enum Mix { A(u8), B(u32), C(i64), D(char), E(&'static str), F(&'static [u8]), G(Option<u8>), H(Option<&'static str>), I(In), J }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Key)]
enum In { A(u8), B(Option<Option<u8>>) }
impl Vals for Mix { fn vals(n: usize, copy: bool) -> Vec<Mix> {
    let mut v = vec![Mix::J, Mix::G(None), Mix::H(None), Mix::I(In::B(None)), Mix::I(In::B(Some(None)))];
    let s = leak(256, copy);
    for (i, s) in s.iter().enumerate() { let b = i as u8; v.extend([Mix::A(b), Mix::B(b.into()), Mix::C(b.into()), Mix::D(b.into()), Mix::E(s), Mix::F(s.as_bytes()), Mix::G(Some(b)), Mix::H(Some(s)), Mix::I(In::A(b)), Mix::I(In::B(Some(Some(b))))]); }
    dedup(v, n)
} }

struct Tab<K> { keys: Vec<K>, alt: Vec<K>, rev: BTreeMap<K, usize> }
impl<K: Vals> Tab<K> {
    fn new(n: usize) -> Rc<Tab<K>> {
        let (keys, alt) = (K::vals(n, false), K::vals(n, true));
        assert_eq!(keys, alt);
        let rev: BTreeMap<K, usize> = keys.iter().copied().zip(0..).collect();
        assert_eq!(rev.len(), keys.len());
        Rc::new(Tab { keys, alt, rev })
    }
}

trait Dy {
    fn insert(&mut self, k: usize, v: u32) -> Option<u32>;
    fn via_entry(&mut self, k: usize, v: u32) -> Option<u32>;
    fn remove(&mut self, k: usize) -> Option<u32>;
    fn entry_remove(&mut self, k: usize) -> Option<u32>;
    fn get(&mut self, k: usize) -> Option<u32>;
    fn contains(&self, k: usize) -> bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn retain(&mut self, f: &mut dyn FnMut(usize) -> bool);
    fn list(&self, out: &mut Vec<(usize, u32)>) -> Result<(), String>;
    fn fork(&self) -> Box<dyn Dy>;
    /// Equal to a collection built afresh from these items?
    fn same(&self, items: &[(usize, u32)]) -> bool;
    fn drain(self: Box<Self>, out: &mut Vec<(usize, u32)>);
}
struct DM<K: Key> { m: Map<K, u32>, t: Rc<Tab<K>> }
impl<K: Vals> Dy for DM<K> where K::MapStorage<u32>: Clone + PartialEq {
    fn insert(&mut self, k: usize, v: u32) -> Option<u32> { self.m.insert(self.t.keys[k], v) }
    fn via_entry(&mut self, k: usize, v: u32) -> Option<u32> {
        match self.m.entry(self.t.alt[k]) { Entry::Occupied(mut e) => { assert_eq!(e.key(), self.t.keys[k]); Some(e.insert(v)) } Entry::Vacant(e) => { assert_eq!(e.key(), self.t.keys[k]); e.insert(v); None } }
    }
    fn remove(&mut self, k: usize) -> Option<u32> { self.m.remove(self.t.alt[k]) }
    fn entry_remove(&mut self, k: usize) -> Option<u32> { match self.m.entry(self.t.alt[k]) { Entry::Occupied(e) => Some(e.remove()), Entry::Vacant(_) => None } }
    fn get(&mut self, k: usize) -> Option<u32> {
        let a = self.m.get(self.t.alt[k]).copied();
        let b = self.m.get_mut(self.t.keys[k]).map(|v| *v);
        assert_eq!(a, b, "get and get_mut of {:?}", self.t.keys[k]);
        a
    }
    fn contains(&self, k: usize) -> bool { self.m.contains_key(self.t.alt[k]) }
    fn len(&self) -> usize { self.m.len() }
    fn is_empty(&self) -> bool { self.m.is_empty() }
    fn clear(&mut self) { self.m.clear() }
    fn retain(&mut self, f: &mut dyn FnMut(usize) -> bool) { let t = self.t.clone(); self.m.retain(|k, _| f(t.rev[&k])) }
    fn list(&self, out: &mut Vec<(usize, u32)>) -> Result<(), String> {
        let look = |k: &K| self.t.rev.get(k).copied().ok_or_else(|| format!("iteration yields {k:?}, which was never inserted"));
        for (k, v) in self.m.iter().take(CAP) { out.push((look(&k)?, *v)); }
        let mut ks = Vec::new();
        for k in self.m.keys().take(CAP) { ks.push(look(&k)?); }
        if ks != out.iter().map(|e| e.0).collect::<Vec<_>>() { return Err(format!("keys() {ks:?} and iter() {out:?} disagree")); }
        let vs: Vec<u32> = self.m.values().take(CAP).copied().collect();
        if vs != out.iter().map(|e| e.1).collect::<Vec<_>>() { return Err(format!("values() {vs:?} and iter() {out:?} disagree")); }
        Ok(())
    }
    fn fork(&self) -> Box<dyn Dy> { Box::new(DM { m: self.m.clone(), t: self.t.clone() }) }
    fn same(&self, items: &[(usize, u32)]) -> bool { let o: Map<K, u32> = items.iter().map(|(k, v)| (self.t.alt[*k], *v)).collect(); self.m == o && o == self.m }
    fn drain(self: Box<Self>, out: &mut Vec<(usize, u32)>) { let t = self.t; out.extend(self.m.into_iter().take(CAP).map(|(k, v)| (t.rev[&k], v))) }
}
struct DS<K: Key> { s: Set<K>, t: Rc<Tab<K>> }
impl<K: Vals> Dy for DS<K> where K::SetStorage: Clone + PartialEq {
    fn insert(&mut self, k: usize, _: u32) -> Option<u32> { if self.s.insert(self.t.keys[k]) { None } else { Some(0) } }
    fn via_entry(&mut self, k: usize, _: u32) -> Option<u32> { if self.s.insert(self.t.alt[k]) { None } else { Some(0) } }
    fn remove(&mut self, k: usize) -> Option<u32> { self.s.remove(self.t.alt[k]).then_some(0) }
    fn entry_remove(&mut self, k: usize) -> Option<u32> { self.s.remove(self.t.keys[k]).then_some(0) }
    fn get(&mut self, k: usize) -> Option<u32> { self.s.contains(self.t.keys[k]).then_some(0) }
    fn contains(&self, k: usize) -> bool { self.s.contains(self.t.alt[k]) }
    fn len(&self) -> usize { self.s.len() }
    fn is_empty(&self) -> bool { self.s.is_empty() }
    fn clear(&mut self) { self.s.clear() }
    fn retain(&mut self, f: &mut dyn FnMut(usize) -> bool) { let t = self.t.clone(); self.s.retain(|k| f(t.rev[&k])) }
    fn list(&self, out: &mut Vec<(usize, u32)>) -> Result<(), String> { for k in self.s.iter().take(CAP) { out.push((self.t.rev.get(&k).copied().ok_or_else(|| format!("iteration yields {k:?}, which was never inserted"))?, 0)); } Ok(()) }
    fn fork(&self) -> Box<dyn Dy> { Box::new(DS { s: self.s.clone(), t: self.t.clone() }) }
    fn same(&self, items: &[(usize, u32)]) -> bool { let o: Set<K> = items.iter().map(|(k, _)| self.t.alt[*k]).collect(); self.s == o && o == self.s }
    fn drain(self: Box<Self>, out: &mut Vec<(usize, u32)>) { let t = self.t; out.extend(self.s.into_iter().take(CAP).map(|k| (t.rev[&k], 0))) }
}

type Ref = BTreeMap<usize, u32>;
/// Contents are compared with the reference; `n` keys are asked for one by one.
fn check(o: &mut dyn Dy, m: &Ref, n: usize) -> Result<(), String> {
    for k in 0..n {
        let (g, want) = (o.get(k), m.get(&k).copied());
        if g != want { return Err(format!("key {k} has {g:?}, expected {want:?}")); }
        if o.contains(k) != want.is_some() { return Err(format!("contains({k}) = {}", want.is_none())); }
    }
    if o.len() != m.len() || o.is_empty() != m.is_empty() { return Err(format!("len() = {}, is_empty() = {}, expected {}", o.len(), o.is_empty(), m.len())); }
    let mut l = Vec::new();
    o.list(&mut l)?;
    l.sort_unstable();
    let want: Vec<(usize, u32)> = m.iter().map(|(k, v)| (*k, *v)).collect();
    if l != want { return Err(format!("enumerated {l:?}, expected {want:?}")); }
    Ok(())
}
/// Clones are cleared, emptied, thinned and taken apart.
fn ends(o: &dyn Dy, m: &Ref) -> Result<(), String> {
    let first = *m.keys().next().ok_or("nothing stored")?;
    let empty = |c: &mut dyn Dy, what: &str| {
        let mut l = Vec::new();
        c.list(&mut l)?;
        if c.len() != 0 || !c.is_empty() || !l.is_empty() || m.keys().step_by(7).any(|k| c.contains(*k)) { return Err(format!("after {what}: len() = {}, is_empty() = {}, {l:?} left", c.len(), c.is_empty())); }
        if c.insert(first, 5).is_some() || c.len() != 1 || !c.contains(first) || c.remove(first).is_none() || c.len() != 0 { return Err(format!("the collection does not work after {what}")); }
        Ok(())
    };
    let mut c = o.fork();
    c.clear();
    empty(&mut *c, "clear")?;
    let mut c = o.fork();
    let mut n = 0;
    c.retain(&mut |_| { n += 1; false });
    if n != m.len() { return Err(format!("retain asked about {n} of {} keys", m.len())); }
    empty(&mut *c, "retaining nothing")?;
    let mut c = o.fork();
    c.retain(&mut |k| k % 2 == first % 2);
    let want: Vec<(usize, u32)> = m.iter().filter(|(k, _)| *k % 2 == first % 2).map(|(k, v)| (*k, *v)).collect();
    let mut l = Vec::new();
    c.list(&mut l)?;
    l.sort_unstable();
    if l != want || c.len() != want.len() { return Err(format!("retaining half left {l:?} (len() = {}), expected {want:?}", c.len())); }
    // few or nearly all kept: the first ones, and as many spread out
    let p = m.len();
    let round = p < 10 || p % 8 == 0 || p.is_power_of_two() || (p + 1).is_power_of_two() || (p - 1).is_power_of_two();
    let some: std::collections::BTreeSet<usize> = if round { [1, 2, 3, p / 33, p / 17, p / 9, p / 5, p / 3, p.saturating_sub(1)].into() } else { [1, p / 9].into() };
    for keep in some.into_iter().filter(|k| *k > 0 && *k < p) {
        let keys: Vec<usize> = m.keys().copied().collect();
        let kept: Ref = if round && keep % 2 == 0 { keys.iter().step_by(p / keep).take(keep).map(|k| (*k, m[k])).collect() } else { keys[..keep].iter().map(|k| (*k, m[k])).collect() };
        let mut c = o.fork();
        c.retain(&mut |k| kept.contains_key(&k));
        let mut l = Vec::new();
        c.list(&mut l)?;
        l.sort_unstable();
        if !l.iter().map(|(k, v)| (k, v)).eq(kept.iter()) || c.len() != kept.len() { return Err(format!("retaining {keep} of {p} left {l:?} (len() = {}), expected {kept:?}", c.len())); }
        let gone = keys[p - 1];
        if c.insert(gone, 5).is_some() != kept.contains_key(&gone) || !c.contains(gone) || c.remove(gone).is_none() { return Err(format!("the collection does not work after retaining {keep} of {p}")); }
    }
    let mut c = o.fork();
    c.retain(&mut |_| true);
    let mut l = Vec::new();
    c.list(&mut l)?;
    l.sort_unstable();
    if !l.iter().map(|(k, v)| (k, v)).eq(m.iter()) || c.len() != m.len() { return Err(format!("retaining everything left {l:?} (len() = {}), expected {m:?}", c.len())); }
    let mut l = Vec::new();
    o.fork().drain(&mut l);
    l.sort_unstable();
    if !l.iter().map(|(k, v)| (k, v)).eq(m.iter()) { return Err(format!("into_iter gives {l:?}, expected {m:?}")); }
    Ok(())
}
/// A phase of a history over `n` keys.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ph { Fill, FillDown, FillOdd, Entries, Swap, DropFront, DropBack, DropEven, RetainThird, RetainNone, Clear, Fork, Churn }
const PHS: [Ph; 13] = [Ph::Fill, Ph::FillDown, Ph::FillOdd, Ph::Entries, Ph::Swap, Ph::DropFront, Ph::DropBack, Ph::DropEven, Ph::RetainThird, Ph::RetainNone, Ph::Clear, Ph::Fork, Ph::Churn];
struct Run { o: Box<dyn Dy>, m: Ref, set: bool, steps: u64, t: u32, n: usize }
impl Run {
    fn v(&mut self, k: usize) -> u32 { self.t += 1; if self.set { 0 } else { self.t * 1000 + k as u32 } }
    fn ins(&mut self, k: usize, entry: bool) -> Result<(), String> {
        let v = self.v(k);
        self.steps += 1;
        let got = if entry { self.o.via_entry(k, v) } else { self.o.insert(k, v) };
        let want = self.m.insert(k, v);
        if got != want { return Err(format!("inserting {k} gave {got:?}, expected {want:?}")); }
        Ok(())
    }
    fn del(&mut self, k: usize, entry: bool) -> Result<(), String> {
        self.steps += 1;
        let got = if entry { self.o.entry_remove(k) } else { self.o.remove(k) };
        let want = self.m.remove(&k);
        if got != want { return Err(format!("removing {k} gave {got:?}, expected {want:?}")); }
        Ok(())
    }
    fn keep(&mut self, f: impl Fn(usize) -> bool) -> Result<(), String> {
        let mut seen = Vec::new();
        self.o.retain(&mut |k| { seen.push(k); f(k) });
        self.steps += 1;
        seen.sort_unstable();
        if !seen.iter().eq(self.m.keys()) { return Err(format!("retain visited {seen:?}, expected {:?}", self.m.keys().collect::<Vec<_>>())); }
        self.m.retain(|k, _| f(*k));
        Ok(())
    }
    fn phase(&mut self, p: Ph) -> Result<(), String> {
        let n = self.n;
        match p {
            Ph::Fill => for k in 0..n { self.ins(k, false)?; },
            Ph::FillDown => for k in (0..n).rev() { self.ins(k, false)?; },
            Ph::FillOdd => for k in (1..n).step_by(2) { self.ins(k, true)?; },
            Ph::Entries => for k in 0..n { self.ins(k * 7 % n, true)?; },
            Ph::Swap => for k in 0..n { if self.m.contains_key(&k) { self.del(k, true)?; } else { self.ins(k, false)?; } },
            Ph::DropFront => for k in 0..n * 3 / 4 { self.del(k, false)?; },
            Ph::DropBack => for k in (n / 4..n).rev() { self.del(k, true)?; },
            Ph::DropEven => for k in (0..n).step_by(2) { self.del(k, false)?; },
            Ph::RetainThird => self.keep(|k| k % 3 == 0)?,
            Ph::RetainNone => self.keep(|_| false)?,
            Ph::Clear => { self.o.clear(); self.m.clear(); self.steps += 1; }
            Ph::Fork => {
                // work on the clone; the original must not notice
                let c = self.o.fork();
                let mut old = std::mem::replace(&mut self.o, c);
                let m = self.m.clone();
                self.ins(0, false)?; self.del(n - 1, false)?; self.ins(n / 2, true)?;
                check(&mut *old, &m, n).map_err(|e| format!("the original of a clone: {e}"))?;
            }
            // a window of presence sliding over the keys
            Ph::Churn => { self.keep(|k| k < 2)?; for k in 0..n { self.ins(k, k % 2 == 0)?; if k >= 5 { self.del(k - 5, k % 3 == 0)?; } if k % 8 == 0 { let m = self.m.clone(); check(&mut *self.o, &m, n.min(40))?; } } }
        }
        Ok(())
    }
    fn finish(self) -> Result<(), String> {
        let mut items: Vec<(usize, u32)> = self.m.iter().rev().map(|(k, v)| (*k, *v)).collect();
        if !self.o.same(&items) { return Err("not equal to a collection built afresh with the same contents".into()); }
        if let Some(last) = items.pop() { if self.o.same(&items) { return Err(format!("equal to a collection without {last:?}")); } items.push(last); }
        let mut l = Vec::new();
        self.o.drain(&mut l);
        l.sort_unstable();
        items.reverse();
        if l != items { return Err(format!("into_iter gives {l:?}, expected {items:?}")); }
        Ok(())
    }
}

fn unit<K: Vals>(w: &mut W, name: &'static str) where K::MapStorage<u32>: Clone + PartialEq, K::SetStorage: Clone + PartialEq {
    for set in [false, true] { if !w.failed() {
        if set { walk::<K>(w, name, true, |t| Box::new(DS { s: Set::new(), t })); } else { walk::<K>(w, name, false, |t| Box::new(DM { m: Map::new(), t })); }
    } }
}
fn walk<K: Vals>(w: &mut W, name: &'static str, set: bool, mk: fn(Rc<Tab<K>>) -> Box<dyn Dy>) {
    let what = if set { "set" } else { "map" };
    let run = |t: &Rc<Tab<K>>, n: usize| Run { o: mk(t.clone()), m: Ref::new(), set, steps: 0, t: 0, n };
    // every pair of values
    let t = Tab::<K>::new(if w.thorough { 300 } else { 100 });
    let n = t.keys.len();
    for i in 0..n { for j in 0..n {
        w.begin(|| format!("{what} {:?} {:?}", t.keys[i], t.keys[j]));
        w.stats.traces += 1;
        if i == j { w.stats.states += 1; }
        let mut r = run(&t, n);
        let res = guard(|| {
            r.ins(i, false)?;
            r.ins(j, true)?;
            let at = |r: &mut Run, k: usize| { let (g, want) = (r.o.get(k), r.m.get(&k).copied()); if g != want { Err(format!("key {k} has {g:?}, expected {want:?}")) } else { Ok(()) } };
            at(&mut r, i)?; at(&mut r, j)?;
            if r.o.len() != r.m.len() { return Err(format!("len {}", r.o.len())); }
            if i == j || (i + j) % 16 == 0 { let m = r.m.clone(); check(&mut *r.o, &m, n)?; }
            r.del(i, false)?;
            at(&mut r, i)?; at(&mut r, j)?;
            r.ins(i, true)?;
            r.del(j, true)?;
            at(&mut r, i)?; at(&mut r, j)?;
            if r.o.len() != r.m.len() { return Err(format!("len {}", r.o.len())); }
            Ok(())
        });
        w.stats.transitions += 6;
        if let Err(e) = res { w.fail(format!("{what} keys {:?} and {:?}", t.keys[i], t.keys[j]), e); return; }
    } }
    // growth through every size, the contents compared at every size; then shrinking through every size
    let t = Tab::<K>::new(if w.thorough { 1800 } else { 470 });
    let n = t.keys.len();
    for dir in 0..4 {
        w.begin(|| format!("{what} growth {dir}"));
        w.stats.traces += 1;
        let mut r = run(&t, n);
        let order: Vec<usize> = match dir { 0 => (0..n).collect(), 1 => (0..n).rev().collect(), 2 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(), _ => (0..n).map(|k| if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 }).collect() };
        let edge = |s: usize| s < 34 || s % 32 <= 1 || [55, 56, 57, 111, 112, 113, 223, 224, 225, 447, 448, 449, 895, 896, 897].contains(&s);
        let res = guard(|| {
            for (s, &k) in order.iter().enumerate() {
                r.ins(k, s % 2 == dir % 2)?;
                if edge(s) || w.thorough { let m = r.m.clone(); check(&mut *r.o, &m, n).map_err(|e| format!("at size {}: {e}", s + 1))?; if s % 16 == 0 { let mut c = r.o.fork(); check(&mut *c, &m, n).map_err(|e| format!("clone at size {}: {e}", s + 1))?; } w.stats.states += 1; }
                // whole-collection operations at every size
                if dir == 0 { r.steps += 12; ends(&*r.o, &r.m).map_err(|e| format!("at size {}: {e}", s + 1))?; }
                if dir == 1 {
                    let items: Vec<(usize, u32)> = r.m.iter().map(|(k, v)| (*k, *v)).collect();
                    if !r.o.same(&items) { return Err(format!("at size {}: not equal to a collection built afresh", s + 1)); }
                    if r.o.same(&items[1..]) { return Err(format!("at size {}: equal to a collection without {:?}", s + 1, items[0])); }
                }
            }
            for (s, &k) in order.iter().enumerate() {
                let k = if dir >= 2 { order[n - 1 - s] } else { k };
                r.del(k, s % 2 == 0)?;
                // removed keys are gone, and can come back
                if s % 5 == 0 { r.ins(k, s % 2 == 1)?; r.del(k, s % 2 == 1)?; }
                if edge(n - s) || w.thorough { let m = r.m.clone(); check(&mut *r.o, &m, n).map_err(|e| format!("down at size {}: {e}", n - s - 1))?; w.stats.states += 1; }
            }
            r.phase(Ph::Fill)?;
            Ok(())
        });
        w.stats.transitions += r.steps;
        let res = res.and_then(|()| guard(|| r.finish()));
        if let Err(e) = res { w.fail(format!("{what} growth {dir}"), e); return; }
    }
    // every sequence of phases
    let depth = if w.thorough { 4 } else { 3 };
    let t = Tab::<K>::new(if w.thorough { 70 } else { 33 });
    let n = t.keys.len();
    for code in 0..PHS.len().pow(depth) {
        let mut c = code;
        let ps: Vec<Ph> = (0..depth).map(|_| { let p = PHS[c % PHS.len()]; c /= PHS.len(); p }).collect();
        w.begin(|| format!("{what} {ps:?}"));
        w.stats.traces += 1;
        let mut r = run(&t, n);
        let res = guard(|| {
            for (i, p) in ps.iter().enumerate() { r.phase(*p).map_err(|e| format!("phase {i}: {e}"))?; if i + 1 == ps.len() || code % 4 == 0 { let m = r.m.clone(); check(&mut *r.o, &m, n).map_err(|e| format!("after phase {i}: {e}"))?; } }
            Ok(())
        });
        w.stats.transitions += r.steps;
        w.stats.states += depth as u64;
        let res = res.and_then(|()| guard(|| r.finish()));
        if let Err(e) = res { w.fail(format!("{what} {ps:?}"), e); return; }
    }
    w.sample(|| format!("{name} {what}: {n} values in {} phase sequences; {:?}", PHS.len().pow(depth), &t.keys[..6.min(n)]));
}

/// A number of keys far past what the other histories reach: growth, and back to nothing.
fn mass<K: Key + PartialEq + Debug>(w: &mut W, name: &'static str, n: usize, key: impl Fn(usize) -> K) where K::MapStorage<u32>: Clone + PartialEq, K::SetStorage: Clone + PartialEq {
    let r = guard(|| {
        let (mut m, mut s) = (Map::<K, u32>::new(), Set::<K>::new());
        let full = |m: &Map<K, u32>, s: &Set<K>, len: usize, from: usize| {
            let counts = [m.iter().count(), m.keys().count(), m.values().count(), s.iter().count(), m.clone().into_iter().count(), s.clone().into_iter().count(), m.clone().iter_mut().count()];
            if counts != [len; 7] { return Err(format!("{counts:?} items of {len}")); }
            for i in from..from + len { if m.get(key(i)) != Some(&(i as u32)) || !s.contains(key(i)) { return Err(format!("of {len}: {:?} has {:?}", key(i), m.get(key(i)))); } }
            if m.iter().map(|(_, v)| u64::from(*v)).sum::<u64>() != (from..from + len).sum::<usize>() as u64 { return Err(format!("of {len}: the values add up to something else")); }
            if *m != m.clone() || *s != s.clone() { return Err(format!("of {len}: not equal to its clone")); }
            Ok(())
        };
        let lens = |m: &Map<K, u32>, s: &Set<K>, len: usize| if (m.len(), s.len(), m.is_empty(), s.is_empty()) == (len, len, len == 0, len == 0) { Ok(()) } else { Err(format!("len() is {} for the map and {} for the set, is_empty() {} and {}, of {len}", m.len(), s.len(), m.is_empty(), s.is_empty())) };
        let edge = |l: usize| l == n || [255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 1 << 20, 1 << 24, (1 << 24) + 1].contains(&l);
        for i in 0..n {
            w.begin(|| format!("{name}: insert {i}"));
            w.stats.transitions += 2;
            w.stats.states += 2;
            if m.insert(key(i), i as u32).is_some() || !s.insert(key(i)) { return Err(format!("{:?} is new, of {i}", key(i))); }
            lens(&m, &s, i + 1)?;
            if edge(i + 1) { full(&m, &s, i + 1, 0)?; if m.contains_key(key(i + 1)) && i + 1 < n { return Err(format!("{:?} was never inserted", key(i + 1))); } }
        }
        for i in 0..n {
            w.begin(|| format!("{name}: remove {i}"));
            w.stats.transitions += 2;
            if m.remove(key(i)) != Some(i as u32) || !s.remove(key(i)) { return Err(format!("{:?} is there, of {}", key(i), n - i)); }
            lens(&m, &s, n - i - 1)?;
            if edge(n - i - 1) { full(&m, &s, n - i - 1, i + 1)?; }
        }
        w.stats.traces += 2;
        Ok(())
    });
    if let Err(e) = r { w.fail(name.into(), e); }
}

fn main() {
    let mut c = Ctx::new("C17", "model_checking");
    c.rule = "every dynamically stored key type alone, optional and as payload of several variants: every ordered pair of values out of a table of extremes and boundary values; growth and shrinkage through every size up to several hundred keys in four orders, the whole contents compared at table-size boundaries, and clearing, retaining nothing, few, half, nearly all or all, consuming and comparing exercised at every size; growth to 66000 keys and back, lengths at every size; every sequence of three out of 13 phases (filling, removing, retaining, clearing, cloning, churning); lookups use equal strings at other addresses".into();
    macro_rules! go { ($($t:ty, $n:literal);* $(;)?) => { $( c.job($n, |w| unit::<$t>(w, $n)); c.job(concat!("Option<", $n, ">"), |w| unit::<Option<$t>>(w, concat!("Option<", $n, ">"))); )* } }
    go! { char, "char"; u8, "u8"; u32, "u32"; u64, "u64"; u128, "u128"; usize, "usize"; i8, "i8"; i32, "i32"; i64, "i64"; i128, "i128"; isize, "isize"; &'static str, "&'static str"; &'static [u8], "&'static [u8]"; WStr, "enum of str"; Mix, "mixed enum" }
    macro_rules! en { ($($t:ident)*) => { $( c.job(stringify!($t), |w| unit::<$t>(w, stringify!($t))); )* } }
    en!(WChar WU8 WU32 WU64 WU128 WUsize WI8 WI32 WI64 WI128 WIsize WBytes);
    c.job("mass u32", |w| { let n = if w.thorough { 17_000_000 } else { 66_000 }; mass::<u32>(w, "mass u32", n, |i| (i as u32).wrapping_mul(0x9E37_79B1)) });
    c.job("mass Option<i64>", |w| { let n = if w.thorough { 1_100_000 } else { 66_000 }; mass::<Option<i64>>(w, "mass Option<i64>", n, |i| (i as i64).checked_sub(30_000).filter(|v| *v != 0)) });
    c.job("mass WU32", |w| { let n = if w.thorough { 1_100_000 } else { 66_000 }; mass::<WU32>(w, "mass WU32", n, |i| match i { 0 => WU32::B, 1 => WU32::D(None), _ => { let k = (i / 3) as u32; match i % 3 { 0 => WU32::A(k), 1 => WU32::C(k), _ => WU32::D(Some(k)) } } }) });
    c.job("mass char", |w| { let n = if w.thorough { 1_112_064 } else { 66_000 }; mass::<char>(w, "mass char", n, |i| char::from_u32(i as u32 + if i >= 0xD800 { 0x800 } else { 0 }).unwrap_or('\0')) });
    c.job("Option<Option<u8>>", |w| unit::<Option<Option<u8>>>(w, "Option<Option<u8>>"));
    c.job("Option<Option<&'static str>>", |w| unit::<Option<Option<&'static str>>>(w, "Option<Option<&'static str>>"));
    c.finish()
}
