//! Bounded exploration of safe operations, run under the Miri interpreter, which stops at the first
//! undefined behaviour. `fmcheck-miri list | run JOB [thorough] [journal]`.
//!
//! Nothing here compares results: every operation is executed from every contents (and every pair of
//! operations from every contents of the smallest types), every value reachable afterwards is read and
//! written, and everything is dropped. A panic is injected at every place where user code runs.
#![allow(clippy::all)]
#![recursion_limit = "512"]
use fmcheck_dom as dom;
mod zoo;
use dom::Dom;
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Map, Set};
use std::cell::Cell;
use std::hash::Hash;
use std::hint::black_box;
use std::mem::{forget, swap, take};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    /// Panics when it reaches zero; negative: never.
    static FUSE: Cell<i64> = const { Cell::new(-1) };
    static VISITS: Cell<i64> = const { Cell::new(0) };
    static TRACES: Cell<u64> = const { Cell::new(0) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static STATES: Cell<u64> = const { Cell::new(0) };
    /// Next group, this shard, number of shards.
    static SHARD: Cell<(usize, usize, usize)> = const { Cell::new((0, 0, 1)) };
    static JOURNAL: Cell<bool> = const { Cell::new(false) };
}
/// User code runs here.
fn site() {
    VISITS.with(|v| v.set(v.get() + 1));
    let f = FUSE.with(|f| { let x = f.get(); f.set(x - 1); x });
    if f == 0 { std::panic::panic_any(()) }
}
fn bump(c: &'static std::thread::LocalKey<Cell<u64>>) { c.with(|c| c.set(c.get() + 1)) }

trait Val: Sized + 'static {
    fn mk(i: u8) -> Self;
    /// Reads the whole value.
    fn read(&self) -> u8;
    fn put(&mut self, i: u8) { *self = Self::mk(i); }
}
impl Val for u32 { fn mk(i: u8) -> u32 { i.into() } fn read(&self) -> u8 { *self as u8 } }
impl Val for () { fn mk(_: u8) {} fn read(&self) -> u8 { 0 } }
impl Val for Option<bool> { fn mk(i: u8) -> Self { [None, Some(false), Some(true)][i as usize % 3] } fn read(&self) -> u8 { match self { None => 0, Some(b) => 1 + u8::from(*b) } } }
impl Val for String { fn mk(i: u8) -> Self { String::from(["", "x", "yz"][i as usize % 3]) } fn read(&self) -> u8 { self.bytes().fold(0, |a, b| a ^ b) } }
impl Val for &'static u8 { fn mk(i: u8) -> Self { [&1, &2, &3][i as usize % 3] } fn read(&self) -> u8 { **self } }
/// Owns heap memory; its clone, comparison, default and destructor may panic.
#[derive(PartialOrd)]
struct Bomb(Box<u8>);
impl Val for Bomb { fn mk(i: u8) -> Self { Bomb(Box::new(i)) } fn read(&self) -> u8 { *self.0 } }
impl Clone for Bomb { fn clone(&self) -> Self { site(); Bomb(self.0.clone()) } }
impl Drop for Bomb { fn drop(&mut self) { *self.0 = self.0.wrapping_add(1); if !std::thread::panicking() { site() } } }
impl PartialEq for Bomb { fn eq(&self, o: &Bomb) -> bool { site(); self.0 == o.0 } }
impl Default for Bomb { fn default() -> Bomb { site(); Bomb::mk(9) } }
impl std::fmt::Debug for Bomb { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { site(); write!(f, "{}", self.0) } }
/// Zero-sized with an alignment and a destructor.
#[derive(Debug, PartialEq)]
#[repr(align(16))]
struct Zd;
/// More alignment than contents.
#[derive(Debug, PartialEq, Clone, Default)]
#[repr(align(64))]
struct Al(u8);
/// Neither zero nor all ones is a value, with or without `Option`.
#[derive(Debug, PartialEq, Clone, Default)]
#[repr(u16)]
enum Odd { #[default] A = 0x1234, B = 0x1235, C = 0x1236 }
impl Val for Odd { fn mk(i: u8) -> Odd { match i % 3 { 0 => Odd::A, 1 => Odd::B, _ => Odd::C } } fn read(&self) -> u8 { match black_box(self) { Odd::A => 1, Odd::B => 2, Odd::C => 3 } } }
impl Val for Al { fn mk(i: u8) -> Al { Al(i) } fn read(&self) -> u8 { self.0 } }
impl Val for Zd { fn mk(_: u8) -> Zd { Zd } fn read(&self) -> u8 { 0 } }
impl Drop for Zd { fn drop(&mut self) { black_box(self); } }
impl Clone for Zd { fn clone(&self) -> Zd { Zd } }
impl Default for Zd { fn default() -> Zd { Zd } }

type Full<K, V> = (Map<K, V>, Option<Map<K, V>>);
/// Reads everything through every shared and mutable accessor.
fn touch<K: Dom, V: Val>(m: &mut Map<K, V>) -> u32 {
    let mut s = m.len() as u32;
    for k in 0..K::N { if let Some(v) = m.get(K::at(k)) { s += u32::from(v.read()); } s += u32::from(m.contains_key(K::at(k))); }
    for (k, v) in m.iter() { s += k.idx() as u32 + u32::from(v.read()); }
    for v in m.values() { s += u32::from(v.read()); }
    let refs: Vec<&mut V> = m.values_mut().collect();
    for v in refs { s += u32::from(v.read()); }
    s
}
/// Holds all references of a mutable iterator, taken from both ends if it has two, and writes them in both orders.
fn scatter<'a, V: Val + 'a>(mut refs: Vec<&'a mut V>) {
    for (i, r) in refs.iter_mut().enumerate() { r.put(i as u8); }
    for r in refs.iter_mut().rev() { black_box(r.read()); }
    for (i, r) in refs.iter_mut().enumerate().rev() { **r = V::mk(i as u8 + 1); }
    if refs.len() > 1 { let (a, b) = refs.split_at_mut(1); swap(a[0], b[0]); }
    for r in &refs { black_box(r.read()); }
}

/// Number of operations on `n` keys that `op` knows.
const PER: usize = 20;
const GLOBAL: usize = 22;
fn count(n: usize) -> usize { n * PER + GLOBAL }
fn op<K: Dom, V: Val + Clone + PartialEq + Default + std::fmt::Debug>(s: &mut Full<K, V>, i: usize) where K::MapStorage<V>: Clone + PartialEq {
    let n = K::N;
    let (m, other) = s;
    bump(&STEPS);
    if i < n * PER {
        let (key, how) = (K::at(i / PER), i % PER);
        let w = |v: &mut V| { black_box(v.read()); v.put(3); site(); black_box(v.read()); };
        match how {
            0 => { black_box(m.insert(key, V::mk(1)).map(|v| v.read())); }
            1 => { black_box(m.remove(key).map(|v| v.read())); }
            2 => if let Some(v) = m.get_mut(key) { w(v) },
            3 => w(m.entry(key).or_insert(V::mk(2))),
            4 => w(m.entry(key).or_insert_with(|| { let v = V::mk(2); site(); v })),
            5 => w(m.entry(key).or_insert_with_key(|k| { black_box(k.idx()); site(); V::mk(2) })),
            6 => w(m.entry(key).or_default()),
            7 => { black_box(m.entry(key).and_modify(w).key().idx()); }
            8 => w(m.entry(key).and_modify(w).or_insert_with(|| { site(); V::mk(2) })),
            9 => { forget(m.entry(key)); }
            10 => { black_box(m.entry(key).key().idx()); }
            11..=18 => match m.entry(key) {
                Entry::Occupied(mut e) => match how {
                    11 => { black_box((e.key().idx(), e.get().read())); w(e.get_mut()); w(e.get_mut()); w(e.into_mut()); }
                    12 => { let a = e.insert(V::mk(5)); let b = e.insert(V::mk(6)); black_box((a.read(), b.read(), e.get().read())); w(e.get_mut()); }
                    13 => { let v = e.remove(); black_box(v.read()); }
                    14 => { w(e.get_mut()); let v = e.insert(V::mk(7)); black_box((v.read(), e.get().read())); drop(v); let r = e.into_mut(); *r = V::mk(1); black_box(r.read()); }
                    15 => { let r = e.into_mut(); let (a, b) = (&*r, &*r); black_box((a.read(), b.read())); w(r); }
                    16 => { e.insert(V::mk(4)); w(e.get_mut()); black_box(e.remove().read()); }
                    17 => { forget(e); }
                    _ => { let x = e.get_mut(); let y = std::mem::replace(x, V::mk(8)); site(); *x = y; black_box(e.get().read()); }
                },
                Entry::Vacant(e) => match how {
                    11 | 12 => { black_box(e.key().idx()); let r = e.insert(V::mk(5)); w(r); w(r); }
                    13 => { drop(e); }
                    14 => { let r = e.insert(V::mk(5)); *r = V::mk(6); black_box(r.read()); }
                    17 => { forget(e); }
                    _ => { black_box(e.insert(V::mk(5)).read()); }
                },
            },
            _ => m.retain(|k, v| { black_box(v.read()); v.put(4); site(); k.idx() != key.idx() }),
        }
        return;
    }
    match i - n * PER {
        0 => m.clear(),
        1 => m.retain(|_, v| { site(); black_box(v.read()); false }),
        2 => m.retain(|k, v| { v.put(2); site(); k.idx() % 2 == 0 }),
        3 => { scatter(m.iter_mut().map(|(_, v)| v).collect()); }
        4 => { scatter(m.values_mut().collect()); }
        5 => { for (k, v) in &mut *m { black_box(k.idx()); w2(v); } }
        6 => { let c = m.clone(); black_box(c == *m); drop(std::mem::replace(m, c)); }
        7 => { *other = Some(m.clone()); }
        8 => { if let Some(o) = other { swap(o, m); } }
        9 => { if let Some(o) = other { o.clone_from(m); black_box(o == m); } }
        10 => { *other = None; }
        11 => { let t = take(m); let mut it = t.into_iter(); black_box(it.next().map(|(k, v)| (k.idx(), v.read()))); drop(it); }
        12 => { let t = take(m); for (k, v) in t { black_box((k.idx(), v.read())); site(); m.insert(k, v); } }
        13 => { let t = take(m); let mut it = t.into_iter(); let a = it.next(); let b = it.next(); drop(it); black_box((b.map(|x| x.1.read()), a.map(|x| x.1.read()))); }
        14 => { let t = take(m); let mut it = t.into_iter(); it.next(); forget(it); }
        15 => { black_box(format!("{m:?}").len()); }
        16 => { *m = (0..2 * n).map(|k| { site(); (K::at(k % n), V::mk(k as u8)) }).collect(); }
        17 => { let a = m.iter(); let b = m.keys(); let c = m.values(); black_box((a.size_hint(), b.count(), c.map(|v| v.read()).last(), m.iter().nth(1).map(|x| x.1.read()), m.keys().skip(1).next().map(|k| k.idx()))); black_box(a.fold(0, |x, (_, v)| x + u32::from(v.read()))); }
        18 => { let mut it = m.iter_mut(); let a = it.next(); let b = it.next(); drop(it); if let Some((_, v)) = b { w2(v) } if let Some((_, v)) = a { w2(v) } }
        19 => { let mut it = m.values_mut(); it.next(); forget(it); black_box(m.len()); }
        20 => { let t = take(m); black_box(t.into_iter().map(|(_, v)| v.read()).count()); }
        _ => { let t = take(m); *m = t.into_iter().filter(|(_, v)| { site(); v.read() != 1 }).collect(); }
    }
}
fn w2<V: Val>(v: &mut V) { black_box(v.read()); v.put(3); site(); }

fn trace<K: Dom, V: Val + Clone + PartialEq + Default + std::fmt::Debug>(sub: usize, ops: &[usize], fuse: i64) -> i64 where K::MapStorage<V>: Clone + PartialEq {
    bump(&TRACES);
    if JOURNAL.with(Cell::get) { println!("keys {sub:b} operations {ops:?} panic at {fuse}"); }
    let mut s: Full<K, V> = (Map::new(), None);
    for k in 0..K::N { if sub >> k & 1 == 1 { s.0.insert(K::at(k), V::mk(k as u8)); } }
    VISITS.with(|v| v.set(0));
    FUSE.with(|f| f.set(fuse));
    let _ = catch_unwind(AssertUnwindSafe(|| for &o in ops { op(&mut s, o) }));
    FUSE.with(|f| f.set(-1));
    let v = VISITS.with(Cell::get);
    // the collection stays usable; what it panics on is not judged here
    let _ = catch_unwind(AssertUnwindSafe(move || {
        touch(&mut s.0);
        if let Some(o) = &mut s.1 { touch(o); }
        if fuse >= 0 && K::N > 0 { s.0.insert(K::at(0), V::mk(1)); s.0.remove(K::at(K::N - 1)); touch(&mut s.0); }
    }));
    v
}
/// What a job explores: pairs of operations from types of at most `pairs` keys, injected panics, and
/// all contents of types of at most `all` keys (larger ones: contents that differ from none or all in at most one key;
/// unless thorough, that is the first or the last key, and neither from five keys on).
#[derive(Clone, Copy)]
struct Plan { pairs: usize, faults: bool, all: usize, thorough: bool }
/// True if this process is the one to execute the next group of traces.
fn mine() -> bool { SHARD.with(|s| { let (i, k, n) = s.get(); s.set(((i + 1) % n, k, n)); i == k }) }
fn maps<K: Dom, V: Val + Clone + PartialEq + Default + std::fmt::Debug>(p: Plan) where K::MapStorage<V>: Clone + PartialEq {
    let n = K::N;
    for sub in 0..1usize << n {
        let ones = sub.count_ones() as usize;
        if n > p.all && ones > 1 && ones + 1 < n { continue; }
        // one key there or missing: the first or the last one
        if n > p.all && !p.thorough && (ones == 1 || ones == n - 1) { let one = if ones == 1 { sub } else { !sub & ((1 << n) - 1) }; if one != 1 && one != 1 << (n - 1) || n > 4 { continue; } }
        if mine() { bump(&STATES); }
        for a in 0..count(n) {
            // an operation on one key, seen from that key: nothing or everything else is there
            if !p.thorough && n > 1 && a < n * PER { let others = sub & !(1 << (a / PER)); if others != 0 && others.count_ones() as usize != n - 1 { continue; } }
            if !p.thorough && n > 3 && ones > 1 && ones < n && a >= n * PER { continue; }
            if !mine() { continue; }
            let visits = trace::<K, V>(sub, &[a], -1);
            if p.faults && (p.thorough || ones == 0 || ones == n || ones == 1 && a < n * PER) { for f in 0..visits.min(if p.thorough { 16 } else { 6 }) { trace::<K, V>(sub, &[a], f); } }
            if n <= p.pairs { for b in 0..count(n) { trace::<K, V>(sub, &[a, b], -1); } }
        }
    }
}
fn sets<K: Dom>(thorough: bool) where K::SetStorage: Clone + PartialEq {
    let n = K::N;
    let all = n <= 4 || thorough;
    for sub in 0..1usize << n {
        if !all && sub.count_ones() > 1 && (sub.count_ones() as usize) < n - 1 && sub % 37 != 0 { continue; }
        if n > 4 && !thorough && sub.count_ones() == 1 && sub != 1 && sub != 1 << (n - 1) { continue; }
        if !mine() { continue; }
        bump(&STATES);
        for a in 0..n + 8 { for fuse in -1..if a >= n { 4 } else { 0 } {
            bump(&TRACES);
            if JOURNAL.with(Cell::get) { println!("set {sub:b} operation {a} panic at {fuse}"); }
            let mut s: Set<K> = (0..n).filter(|k| sub >> k & 1 == 1).map(K::at).collect();
            FUSE.with(|f| f.set(fuse));
            let _ = catch_unwind(AssertUnwindSafe(|| {
                bump(&STEPS);
                match a {
                    a if a < n => { let k = K::at(a); black_box((s.insert(k), s.insert(k), s.contains(k), s.remove(k), s.remove(k), s.insert(k))); }
                    a => match a - n {
                        0 => s.clear(),
                        1 => s.retain(|k| { site(); k.idx() % 2 == 0 }),
                        2 => { let c = s.clone(); black_box((c == s, format!("{s:?}"), s.intersection(&c).map(|k| k.idx()).collect::<Vec<_>>())); }
                        3 => { let mut i = s.iter(); i.next(); let j = i.clone(); black_box((i.map(|k| k.idx()).sum::<usize>(), j.count())); }
                        4 => { let t = take(&mut s); for k in t { site(); s.insert(k); } }
                        5 => { let t = take(&mut s); let mut i = t.into_iter(); i.next(); forget(i); }
                        6 => { s = (0..2 * n).map(|k| { site(); K::at(k % n) }).collect(); }
                        _ => { let e = Set::<K>::new(); black_box((s.intersection(&e).count(), e.intersection(&s).size_hint(), s.len(), s.is_empty())); }
                    },
                }
            }));
            FUSE.with(|f| f.set(-1));
            let _ = catch_unwind(AssertUnwindSafe(move || {
                let mut sum = s.len();
                for k in 0..n { sum += usize::from(s.contains(K::at(k))); }
                black_box(sum + s.into_iter().map(|k| k.idx()).sum::<usize>());
            }));
        } }
    }
}
/// Types with many keys: every key from a few contents, and every operation on the whole.
fn wide<K: Dom>() where K::MapStorage<Bomb>: Clone + PartialEq, K::SetStorage: Clone + PartialEq {
    let n = K::N;
    for how in if n > 200 { [0, 1, 4].iter() } else { [0, 1, 2, 3, 4usize].iter() } {
        let how = *how;
        if !mine() { continue; }
        bump(&STATES);
        let has = |k: usize| match how { 0 => false, 1 => true, 2 => k % 2 == 0, 3 => k == 0, _ => k + 1 == n };
        for a in 0..GLOBAL {
            bump(&TRACES);
            if JOURNAL.with(Cell::get) { println!("keys {how} operations {a}"); }
            let mut s: Full<K, Bomb> = (Map::new(), None);
            for k in 0..n { if has(k) { s.0.insert(K::at(k), Bomb::mk(k as u8)); } }
            op(&mut s, n * PER + a);
            if a % 4 == 0 { touch(&mut s.0); }
        }
        bump(&TRACES);
        if JOURNAL.with(Cell::get) { println!("keys {how} each key in turn"); }
        let mut s: Full<K, Bomb> = ((0..n).filter(|k| has(*k)).map(|k| (K::at(k), Bomb::mk(k as u8))).collect(), None);
        let mut t: Set<K> = (0..n).filter(|k| has(*k)).map(K::at).collect();
        for k in 0..n {
            for a in [2, 7, 9, 11, 12, 0, 14, 18, 13, 8, 1, 3] { op(&mut s, k * PER + a); }
            black_box((s.0.get(K::at(k)).map(Val::read), s.0.contains_key(K::at(k)), s.0.len()));
            black_box((t.contains(K::at(k)), t.insert(K::at(k)), t.remove(K::at(k)), t.insert(K::at(k)), t.len()));
            if has(k) { s.0.insert(K::at(k), Bomb::mk(1)); } else { s.0.remove(K::at(k)); t.remove(K::at(k)); }
            bump(&STEPS);
        }
        bump(&TRACES);
        if JOURNAL.with(Cell::get) { println!("set {how}"); }
        let u: Set<K> = t.iter().filter(|k| k.idx() % 3 != 0).collect();
        black_box((t.intersection(&u).count(), u.intersection(&t).map(|k| k.idx()).sum::<usize>(), t == u, t.clone() == t, format!("{u:?}").len()));
        t.retain(|k| k.idx() % 5 != 0);
        black_box(t.into_iter().map(|k| k.idx()).sum::<usize>());
        for f in 0..4 {
            bump(&TRACES);
            let mut m: Map<K, Bomb> = (0..n).filter(|k| has(*k)).map(|k| (K::at(k), Bomb::mk(k as u8))).collect();
            FUSE.with(|x| x.set((f * n / 4) as i64));
            let _ = catch_unwind(AssertUnwindSafe(|| m.retain(|k, v| { site(); v.put(1); k.idx() % 2 == 0 })));
            FUSE.with(|x| x.set(-1));
            touch(&mut m);
        }
    }
}
/// Iteration from both ends; comparison, ordering and hashing.
fn ends<T>(mut it: impl DoubleEndedIterator<Item = T>, pat: u32, f: &mut dyn FnMut(T)) { let mut i = 0; while let Some(x) = if pat >> (i % 32) & 1 == 1 { it.next_back() } else { it.next() } { f(x); i += 1; } }
macro_rules! de { ($t:ty, $v:ty) => { for sub in 0..1usize << <$t as Dom>::N.min(4) { for pat in [0u32, !0, 0x5555_5555, 6] {
    bump(&TRACES); bump(&STEPS);
    let mut m: Map<$t, $v> = Map::new();
    for k in 0..<$t as Dom>::N { if sub >> (k % 4) & 1 == 1 { m.insert(<$t as Dom>::at(k), <$v>::mk(k as u8)); } }
    ends(m.iter(), pat, &mut |(_, v)| { black_box(v.read()); });
    ends(m.keys(), pat, &mut |k| { black_box(k.idx()); });
    ends(m.values(), pat, &mut |v| { black_box(v.read()); });
    { let mut refs = Vec::new(); ends(m.iter_mut(), pat, &mut |(_, v)| refs.push(v)); scatter(refs); }
    { let mut refs = Vec::new(); ends(m.values_mut(), pat, &mut |v| refs.push(v)); scatter(refs); }
    touch(&mut m);
    let mut it = m.into_iter();
    let (a, b) = (it.next_back(), it.next());
    black_box((a.map(|x| x.1.read()), it.next_back().map(|x| x.1.read())));
    drop(it);
    black_box(b.map(|x| x.1.read()));
} } } }
fn ordered<K: Dom>() where K::MapStorage<u32>: Ord + Hash + Clone, K::SetStorage: Ord + Hash + Clone {
    for a in 0..1usize << K::N.min(4) { for b in 0..1usize << K::N.min(4) {
        bump(&TRACES); bump(&STEPS);
        let mk = |s: usize| { let mut m = Map::new(); for k in 0..K::N.min(4) { if s >> k & 1 == 1 { m.insert(K::at(k), k as u32); } } m };
        let (x, y): (Map<K, u32>, Map<K, u32>) = (mk(a), mk(b));
        let (s, t): (Set<K>, Set<K>) = (x.keys().collect(), y.keys().collect());
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h); s.hash(&mut h);
        black_box((x.cmp(&y), x < y, x >= y, s.cmp(&t), s.partial_cmp(&t), x.clone().max(y.clone()).len(), x.min(y).len(), s.clamp(Set::new(), Set::new().max(t)).len()));
    } }
}
/// Values under `Default` bounds that `&u8` lacks are not needed for reading.
impl Val for Option<&'static u8> { fn mk(i: u8) -> Self { [Some(&1), None, Some(&3)][i as usize % 3] } fn read(&self) -> u8 { self.copied().unwrap_or(0) } }

/// Name, number of keys, whether pairs of operations are explored, body.
type Job = (String, usize, usize, fn(bool));
fn jobs(thorough: bool) -> Vec<Job> {
    let mut v: Vec<Job> = Vec::new();
    fn plan(t: bool) -> Plan { Plan { pairs: 0, faults: true, all: if t { 6 } else { 3 }, thorough: t } }
    macro_rules! bombs { ($([$t:ty, $n:literal]),*) => { $( v.push((concat!($n, " Bomb").into(), <$t as Dom>::N, 0, |t| maps::<$t, Bomb>(plan(t)))); )* } }
    macro_rules! setj { ($([$t:ty, $n:literal]),*) => { $( v.push((concat!($n, " set").into(), <$t as Dom>::N, 0, |t| sets::<$t>(t))); )* } }
    macro_rules! values { ($([$t:ty, $n:literal]),*) => { $( v.push((concat!($n, " other values").into(), <$t as Dom>::N, 0, |t| { let p = Plan { faults: t, ..plan(t) }; maps::<$t, Odd>(p); maps::<$t, Zd>(p); maps::<$t, Option<&'static u8>>(p); maps::<$t, String>(p); if t { maps::<$t, Option<bool>>(p); maps::<$t, Al>(p); maps::<$t, u32>(p); maps::<$t, ()>(p); } })); )* } }
    macro_rules! pairs { ($([$t:ty, $n:literal]),*) => { $( if <$t as Dom>::N <= if thorough { 3 } else { 1 } { v.push((concat!($n, " pairs").into(), <$t as Dom>::N, 3, |t| { let p = Plan { pairs: 3, faults: false, ..plan(t) }; maps::<$t, Bomb>(p); })); } )* } }
    macro_rules! double { ($([$t:ty, $n:literal]),*) => { $( v.push((concat!($n, " both ends").into(), 0, 0, |_| { de!($t, Bomb); de!($t, u32); de!($t, Zd); })); )* } }
    macro_rules! ord { ($([$t:ty, $n:literal]),*) => { $( v.push((concat!($n, " ordered").into(), 0, 0, |_| ordered::<$t>())); )* } }
    zoo_unit!(setj);
    zoo_comp!(setj);
    zoo_base!(setj);
    zoo_unit!(double);
    zoo_comp!(double);
    zoo_base!(double);
    zoo_unit!(ord);
    macro_rules! widej { ($([$t:ty, $n:literal]),*) => { $( v.push((concat!($n, " wide").into(), <$t as Dom>::N, 0, |_| wide::<$t>())); )* } }
    zoo_wide!(widej);
    if thorough {
        zoo_unit!(bombs);
        zoo_comp!(bombs);
        zoo_base!(bombs);
        zoo_dynamic!(bombs);
        zoo_dynamic!(setj);
        zoo_unit!(values);
        zoo_comp!(values);
        zoo_base!(values);
        zoo_dynamic!(values);
        zoo_unit!(pairs);
        zoo_comp!(pairs);
        zoo_base!(pairs);
    } else {
        bombs!([zoo::U0, "U0"], [zoo::U1, "U1"], [zoo::U2, "U2"], [zoo::U3, "U3"], [zoo::K1, "K1"], [zoo::K3, "K3"], [zoo::X3, "X3"], [zoo::KX3, "KX3"]);
        bombs!([zoo::NestB, "NestB"], [zoo::C1O, "C1O"], [zoo::C1K, "C1K"], [zoo::C1S, "C1S"], [zoo::C2UB, "C2UB"], [zoo::C2BU, "C2BU"]);
        bombs!([(), "()"], [bool, "bool"], [Option<bool>, "Option<bool>"], [Option<Option<bool>>, "Option<Option<bool>>"], [Option<zoo::NestA>, "Option<NestA>"]);
        bombs!([zoo::DB, "DB"], [u8, "u8"]);
        setj!([zoo::DA, "DA"], [&'static str, "&str"]);
        values!([zoo::U1, "U1"], [zoo::U2, "U2"], [zoo::C2UB, "C2UB"], [Option<bool>, "Option<bool>"], [(), "()"], [bool, "bool"]);
        pairs!([zoo::U1, "U1"], [(), "()"]);
    }
    v
}
pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let thorough = a.iter().any(|x| x == "thorough");
    let jobs = jobs(thorough);
    if a[0] == "list" { for j in &jobs { println!("{} {} {}", j.1, j.2, j.0); } return; }
    JOURNAL.with(|j| j.set(a.iter().any(|x| x == "journal")));
    // JOB:SHARD/SHARDS,...
    for i in a[1].split(',') {
        let (i, s) = i.split_once(':').unwrap();
        let (k, n) = s.split_once('/').unwrap();
        SHARD.with(|x| x.set((0, k.parse().unwrap(), n.parse().unwrap())));
        let j = &jobs[i.parse::<usize>().unwrap()];
        println!("JOB {i}:{s} {}", j.0);
        let _ = catch_unwind(|| (j.3)(thorough));
        println!("DONE {i}:{s} states={} transitions={} traces={} name={}", STATES.with(Cell::take), STEPS.with(Cell::take), TRACES.with(Cell::take), j.0);
    }
}
