//! Explores statically stored collections under the feature set this was built with, and prints one
//! transcript per key type: `T <type> <hash of everything observed> <states> <transitions> <histories>`, one line
//! per type that is or is not a key (`K <type> <bool>`), and `F <type> <what>` for deviations from the reference.
#![allow(clippy::all)]
#![recursion_limit = "1024"]
use fmcheck_dom as dom;
#[path = "../../src/obj.rs"]
mod obj;
mod zoo;
#[cfg(feature = "serde")]
mod wire;
use dom::{info, Dom};
use fixed_map::{Key, Map, Set};
use fmcore::engine::*;
use fmcore::model::*;
use fmcore::report::*;
use obj::*;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write;
use std::hash::{Hash, Hasher};

// Public items that no feature may remove.
#[allow(unused_imports)]
use fixed_map::{
    map::{self, Entry, IntoIter, Iter, IterMut, Keys, MapStorage, OccupiedEntry, VacantEntry, Values, ValuesMut},
    raw::RawStorage,
    set::{self, Intersection, SetStorage},
};
#[cfg(feature = "serde")]
fn _serde<K: Key + serde::Serialize, V: serde::Serialize>() where Map<K, V>: serde::Serialize, Set<K>: serde::Serialize {}
#[cfg(feature = "serde")]
fn _deserialize<'de, K: Key + serde::Deserialize<'de>, V: serde::Deserialize<'de>>() where Map<K, V>: serde::Deserialize<'de>, Set<K>: serde::Deserialize<'de> {}

#[derive(Default)]
struct Log(u64, u64);
impl Write for Log { fn write_str(&mut self, s: &str) -> std::fmt::Result { for b in s.bytes() { self.0 = (self.0 ^ u64::from(b)).wrapping_mul(0x100000001b3).rotate_left(5); self.1 += 1; } Ok(()) } }

/// A system whose every result goes into the transcript.
struct Rec<'a, S> { s: S, log: &'a RefCell<Log> }
impl<S: Sys> Sys for Rec<'_, S> {
    type Obj = S::Obj;
    type St = S::St;
    type Op = S::Op;
    type Res = S::Res;
    fn fresh(&self) -> Box<S::Obj> { self.s.fresh() }
    fn init(&self) -> S::St { self.s.init() }
    fn real(&self, o: &mut S::Obj, op: &S::Op) -> S::Res { let r = self.s.real(o, op); let _ = write!(self.log.borrow_mut(), "{op:?}={r:?};"); r }
    fn model(&self, s: &mut S::St, op: &S::Op) -> S::Res { self.s.model(s, op) }
    fn observe(&self, o: &S::Obj, s: &S::St) -> Result<(), String> { let r = self.s.observe(o, s); let _ = write!(self.log.borrow_mut(), "{r:?};"); r }
    fn done(&self, o: Box<S::Obj>, s: &S::St) -> Result<(), String> { self.s.done(o, s) }
}
fn map_alphabet(n: usize) -> Vec<Op> {
    let mut v = vec![Op::Clear, Op::Retain(vec![false; n], None)];
    for kind in 0..3 { v.push(Op::SetAll(kind, 2)); }
    for k in 0..n {
        v.extend([Op::Insert(k, 1), Op::Insert(k, 2), Op::Remove(k), Op::GetMut(k, Some(1)), Op::GetMut(k, None)]);
        for e in [EOp::Key, EOp::OrInsert(1, Some(2)), EOp::OrInsertWith(2, None), EOp::OrInsertWithKey(1, None), EOp::AndModify(2), EOp::AndModifyOrInsert(1, 2), EOp::AndModify2OrWith(2, 1, 2),
            EOp::Match(vec![EStep::Key, EStep::Get, EStep::GetMut(2), EStep::Replace(1)], EEnd::Drop, None), EOp::Match(vec![], EEnd::IntoMut(Some(1)), Some((2, None))), EOp::Match(vec![], EEnd::Remove, Some((1, Some(2))))] { v.push(Op::Entry(k, e)); }
        v.extend([Op::Retain((0..n).map(|i| i == k).collect(), None), Op::Retain((0..n).map(|i| i != k).collect(), Some(1))]);
    }
    v
}
fn set_alphabet(n: usize) -> Vec<SOp> {
    let mut v = vec![SOp::Clear, SOp::Retain(vec![false; n])];
    for k in 0..n { v.extend([SOp::Insert(k), SOp::Remove(k), SOp::Retain((0..n).map(|i| i == k).collect()), SOp::Retain((0..n).map(|i| i != k).collect())]); }
    v
}
fn contents(n: usize) -> Vec<Vec<bool>> { if n <= 5 { subsets(n, 5, 0) } else { thin(subsets(n, 5, 0), if n > 40 { 0 } else { 10 }) } }

/// Everything observable of one map and one set, and of pairs, that the operations do not cover.
fn look<K: Dom>(log: &RefCell<Log>, subs: &[Vec<bool>]) -> u64
where K::MapStorage<u32>: Clone + PartialEq, K::SetStorage: Clone + PartialEq {
    let mut n = 0;
    let maps: Vec<Map<K, u32>> = subs.iter().map(|s| map_of::<K, u32>(&tagged(s))).collect();
    let sets: Vec<Set<K>> = subs.iter().map(|s| set_of::<K>(s)).collect();
    let mut l = log.borrow_mut();
    let _ = write!(l, "{} {} {};", std::mem::size_of::<Map<K, u32>>(), std::mem::size_of::<Map<K, Option<bool>>>(), std::mem::size_of::<Set<K>>());
    for (m, s) in maps.iter().zip(&sets) {
        n += 1;
        let _ = write!(l, "{m:?} {m:#?} {s:?} {s:#?} {:?} {:?} {:?} {:?};", m.iter().size_hint(), m.keys().collect::<Vec<_>>(), m.values().collect::<Vec<_>>(), s.iter().collect::<Vec<_>>());
        let mut c = m.clone();
        for (k, v) in c.iter_mut() { *v += k.idx() as u32; }
        for v in c.values_mut() { *v ^= 1; }
        let _ = write!(l, "{c:?} {:?} {};", c.clone().into_iter().collect::<Vec<_>>(), c == *m);
        let back: Map<K, u32> = c.into_iter().chain(m.clone()).collect();
        let sb: Set<K> = s.iter().chain(m.keys()).collect();
        let _ = write!(l, "{} {};", back == *m, sb == *s);
    }
    for i in 0..maps.len() { for j in 0..maps.len() {
        n += 1;
        let _ = write!(l, "{}{}{:?};", maps[i] == maps[j], sets[i] == sets[j], sets[i].intersection(&sets[j]).collect::<Vec<_>>());
    } }
    n
}
fn ordered<K: Dom>(log: &RefCell<Log>, subs: &[Vec<bool>]) -> u64
where K::MapStorage<u32>: Clone + Ord + Hash, K::SetStorage: Clone + Ord + Hash {
    let mut l = log.borrow_mut();
    let maps: Vec<Map<K, u32>> = subs.iter().map(|s| map_of::<K, u32>(&tagged(s))).collect();
    let sets: Vec<Set<K>> = subs.iter().map(|s| set_of::<K>(s)).collect();
    let mut n = 0;
    for i in 0..maps.len() {
        let (mut a, mut b) = (DefaultHasher::new(), DefaultHasher::new());
        maps[i].hash(&mut a); sets[i].hash(&mut b);
        let _ = write!(l, "{} {};", a.finish(), b.finish());
        for j in 0..maps.len() {
            n += 1;
            let _ = write!(l, "{:?}{:?}{:?}{:?}{}{};", maps[i].cmp(&maps[j]), maps[i].partial_cmp(&maps[j]), sets[i].cmp(&sets[j]), sets[i].partial_cmp(&sets[j]), maps[i] < maps[j], sets[i] >= sets[j]);
        }
    }
    n
}
/// Maps of one kind of value: every pair of contents over an empty slot and three values.
fn values<K: Dom, V: Clone + PartialEq + std::fmt::Debug>(w: &mut W, l: &RefCell<Log>, mk: fn(u32) -> V, pair: fn(&mut Log, &Map<K, V>, &Map<K, V>)) where K::MapStorage<V>: Clone + PartialEq {
    let maps: Vec<Map<K, V>> = all_models(K::N, &[0, 1, 2]).iter().map(|m| m.iter().enumerate().filter_map(|(k, v)| v.map(|v| (K::at(k), mk(v)))).collect()).collect();
    let mut l = l.borrow_mut();
    let _ = write!(l, "{} {};", std::mem::size_of::<Map<K, V>>(), std::mem::align_of::<Map<K, V>>());
    for m in &maps {
        w.stats.states += 1;
        let _ = write!(l, "{m:?} {m:#?} {} {:?} {:?};", m.len(), m.keys().collect::<Vec<_>>(), m.values().collect::<Vec<_>>());
        for k in (0..K::N).map(K::at) {
            let mut c = m.clone();
            let _ = write!(l, "{:?}{}{:?}", c.get(k).cloned(), c.contains_key(k), c.get_mut(k));
            let _ = write!(l, "{:?}{:?}", c.insert(k, mk(1)), c.insert(k, mk(2)));
            let _ = write!(l, "{:?}{:?}{:?}", c.remove(k), c.remove(k), c.entry(k).or_insert_with(|| mk(0)));
            if let Entry::Occupied(mut e) = c.entry(k) { let _ = write!(l, "{:?}{:?}{:?}", e.get().clone(), e.insert(mk(1)), e.get_mut()); let _ = write!(l, "{:?}", e.remove()); }
            if let Entry::Vacant(e) = c.entry(k) { let _ = write!(l, "{:?}", e.insert(mk(2))); }
            let _ = c.entry(k).and_modify(|v| *v = mk(0));
            c.retain(|q, _| q.idx() != k.idx());
            let _ = write!(l, "{c:?};");
            w.stats.transitions += 12;
        }
        for (i, v) in m.clone().values_mut().enumerate() { *v = mk(i as u32 % 3); let _ = write!(l, "{v:?}"); }
        let mut c = m.clone();
        c.clear();
        let _ = write!(l, "{c:?}{:?};", m.clone().into_iter().collect::<Vec<_>>());
    }
    for a in &maps { for b in &maps {
        w.stats.transitions += 1;
        let mut c = a.clone();
        c.clone_from(b);
        let _ = write!(l, "{}{}{c:?}", a == b, a != b);
        pair(&mut l, a, b);
    } }
}
fn partly<M: PartialOrd>(l: &mut Log, a: &M, b: &M) { let _ = write!(l, "{:?}{}{}{}{};", a.partial_cmp(b), a < b, a <= b, a > b, a >= b); }
fn fully<M: Ord + Hash + Clone + std::fmt::Debug>(l: &mut Log, a: &M, b: &M) {
    partly(l, a, b);
    let mut h = DefaultHasher::new();
    a.hash(&mut h);
    let _ = write!(l, "{:?}{}{:?}{:?};", a.cmp(b), h.finish(), a.clone().max(b.clone()), a.clone().min(b.clone()));
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[repr(align(32))]
struct Large([u32; 40]);

fn both_ends<T: std::fmt::Debug>(log: &RefCell<Log>, mut it: impl DoubleEndedIterator<Item = T>) {
    let mut l = log.borrow_mut();
    for i in 0.. { let x = if i % 3 == 1 { it.next() } else { it.next_back() }; let _ = write!(l, "{x:?}{:?};", it.size_hint()); if x.is_none() || i > 2000 { break; } }
}

fn unit<K: Dom>(w: &mut W, name: &'static str, more: &dyn Fn(&RefCell<Log>, &[Vec<bool>]) -> u64) -> (u64, u64)
where K::MapStorage<u32>: Clone + PartialEq, K::SetStorage: Clone + PartialEq {
    let inf = info::<K>(name);
    let n = inf.n;
    let log = RefCell::new(Log::default());
    let (ms, ss) = (Rec { s: MapSys { info: inf.clone(), mk: MapW::<K, u32>::boxed }, log: &log }, Rec { s: SetSys { info: inf.clone(), mk: SetW::<K>::boxed }, log: &log });
    let subs = contents(n);
    if n <= 4 {
        bfs(&ms, &map_alphabet(n), &|_| true, w);
        sequences(&ms, &map_alphabet(n), if n <= 2 { 3 } else { 2 }, w);
    }
    if n <= 9 { bfs(&ss, &set_alphabet(n), &|_| true, w); }
    if n <= 5 { sequences(&ss, &set_alphabet(n), depth_for(4 * n + 2, 20_000, 6), w); }
    for s in &subs {
        histories(&ms, routes(n, &tagged(s), 5).into_iter(), w);
        histories(&ss, sroutes(n, s).into_iter(), w);
        if n > 4 { for op in map_alphabet(n).iter().step_by(if n > 20 { 17 } else { 1 }) {
            let mut h: Vec<Op> = entries(&tagged(s)).iter().map(|&(k, v)| Op::Insert(k, v)).collect();
            h.push(op.clone());
            histories(&ms, std::iter::once(h), w);
        } }
        if w.failed() { break; }
    }
    w.stats.transitions += look::<K>(&log, &subs);
    w.stats.transitions += more(&log, &subs);
    let l = log.borrow();
    (l.0, l.1)
}

/// Filled to the brim and emptied; lengths at every size, contents around the sizes where counters wrap.
#[cfg(feature = "hashbrown")]
fn many<K: Key + PartialEq + std::fmt::Debug + 'static>(c: &mut Ctx, out: &std::sync::Arc<std::sync::Mutex<Vec<String>>>, name: &'static str, n: usize, key: fn(usize) -> K) {
    let out = out.clone();
    c.job(format!("many {name}"), move |w| {
        let r = guard(|| {
            let (mut m, mut s) = (Map::<K, u32>::new(), Set::<K>::new());
            let at = |m: &Map<K, u32>, s: &Set<K>, len: usize| {
                if (m.len(), s.len(), m.is_empty(), s.is_empty()) != (len, len, len == 0, len == 0) { return Err(format!("len() is {} for the map and {} for the set, is_empty() {} and {}, of {len}", m.len(), s.len(), m.is_empty(), s.is_empty())); }
                if [1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, n].contains(&len) {
                    let counts = [m.iter().count(), m.keys().count(), m.values().count(), s.iter().count()];
                    if counts != [len; 4] { return Err(format!("{counts:?} items of {len}")); }
                }
                Ok(())
            };
            at(&m, &s, 0)?;
            for i in 0..n { w.begin(|| format!("insert {i}")); w.stats.transitions += 2; if m.insert(key(i), i as u32).is_some() || !s.insert(key(i)) { return Err(format!("{:?} is new", key(i))); } at(&m, &s, i + 1)?; }
            for i in 0..n { if m.get(key(i)) != Some(&(i as u32)) || !s.contains(key(i)) { return Err(format!("{:?} has {:?}", key(i), m.get(key(i)))); } }
            w.stats.states += 2 * n as u64;
            for i in 0..n { w.begin(|| format!("remove {i}")); w.stats.transitions += 2; if m.remove(key(i)) != Some(i as u32) || !s.remove(key(i)) { return Err(format!("{:?} is there", key(i))); } at(&m, &s, n - i - 1)?; }
            w.stats.traces += 2;
            Ok(())
        });
        if let Err(e) = r { w.fail(format!("many {name}"), e); return; }
        out.lock().unwrap().push(format!("D many-{} {} {} {}", name, w.stats.states, w.stats.transitions, w.stats.traces));
    });
}
/// Is a type a key? An inherent constant hides the trait's.
struct P<T>(std::marker::PhantomData<T>);
trait No { const IS: bool = false; }
impl<T> No for P<T> {}
impl<T: Key> P<T> { const IS: bool = true; }

fn main() {
    let out = std::sync::Arc::new(std::sync::Mutex::new(Vec::<String>::new()));
    let mut c = Ctx::new("C22", "model_checking");
    macro_rules! keys { ($($t:ty),* $(,)?) => { $( out.lock().unwrap().push(format!("K {} {}", stringify!($t), <P<$t>>::IS)); )* } }
    // statically stored
    keys!((), bool, Option<()>, Option<bool>, Option<Option<bool>>, zoo::U0, zoo::U3, zoo::K3, zoo::NestA, zoo::NestB, Option<zoo::K3>);
    // dynamically stored
    keys!(char, u8, u32, u64, u128, usize, i8, i32, i64, i128, isize, &'static str, &'static [u8], Option<u8>, Option<Option<char>>, Option<&'static str>);
    // never keys
    keys!(f32, f64, String, Vec<u8>, (u8, u8), (bool, bool), [u8; 2], [bool; 2], &'static u8, Box<bool>, std::cmp::Ordering);
    macro_rules! go { ($more:expr; $([$t:ty, $n:literal]),*) => { $( { let out = out.clone(); c.job($n, move |w| {
        let more = $more;
        let (h, len) = unit::<$t>(w, $n, &|log, subs| more(std::marker::PhantomData::<$t>, log, subs));
        out.lock().unwrap().push(format!("T {} {h:016x}-{len} {} {} {}", $n.replace(' ', ""), w.stats.states, w.stats.transitions, w.stats.traces));
    }); } )* } }
    macro_rules! ends { ($t:ty, $log:ident, $subs:ident) => { {
        for s in $subs { let (m, x) = (map_of::<$t, u32>(&tagged(s)), set_of::<$t>(s)); both_ends($log, m.iter()); both_ends($log, m.keys()); both_ends($log, m.values()); both_ends($log, m.clone().iter_mut()); both_ends($log, m.clone().values_mut()); both_ends($log, m.into_iter()); both_ends($log, x.iter()); both_ends($log, x.into_iter()); }
        8 * $subs.len() as u64
    } } }
    macro_rules! comp { ($([$t:ty, $n:literal]),*) => { $( go!(|_: std::marker::PhantomData<$t>, log: &RefCell<Log>, subs: &[Vec<bool>]| ends!($t, log, subs); [$t, $n]); )* } }
    macro_rules! unit { ($([$t:ty, $n:literal]),*) => { $( go!(|_: std::marker::PhantomData<$t>, log: &RefCell<Log>, subs: &[Vec<bool>]| ends!($t, log, subs) + ordered::<$t>(log, subs); [$t, $n]); )* } }
    macro_rules! bits { ($([$t:ty, $n:literal]),*) => { $( { let out = out.clone(); c.job(concat!("raw ", $n), move |w| {
        let mut l = Log::default();
        for s in contents(<$t as Dom>::N) { w.stats.transitions += 1; let x = set_of::<$t>(&s); let _ = write!(l, "{:?}{};", x.as_raw(), Set::<$t>::from_raw(x.as_raw()) == x); }
        out.lock().unwrap().push(format!("T raw-{} {:016x}-{} 0 {} 0", $n, l.0, l.1, w.stats.transitions));
    }); } )* } }
    macro_rules! vals { ($some:expr, $all:expr; $([$t:ty, $n:literal]),*) => { $( { let out = out.clone(); c.job(concat!("values ", $n), move |w| {
        let l = RefCell::new(Log::default());
        w.begin(String::new);
        values::<$t, f64>(w, &l, |i| [1.5, f64::NAN, -0.0][i as usize], $some);
        values::<$t, Option<bool>>(w, &l, |i| [None, Some(true), Some(false)][i as usize], $all);
        values::<$t, ()>(w, &l, |_| (), $all);
        values::<$t, String>(w, &l, |i| ["", "b", "ab"][i as usize].to_string(), $all);
        values::<$t, Box<u8>>(w, &l, |i| Box::new(i as u8), $all);
        values::<$t, u128>(w, &l, |i| u128::MAX >> (i * 60), $all);
        values::<$t, Large>(w, &l, |i| Large([i; 40]), $all);
        let l = l.borrow();
        out.lock().unwrap().push(format!("T values-{} {:016x}-{} {} {} 0", $n.replace(' ', ""), l.0, l.1, w.stats.states, w.stats.transitions));
    }); } )* } }
    vals!(|l, a, b| partly(l, a, b), |l, a, b| fully(l, a, b); [zoo::U3, "U3"], [zoo::K3, "K3"]);
    vals!(|_, _, _| (), |_, _, _| (); [bool, "bool"], [(), "()"], [Option<bool>, "Option<bool>"], [zoo::NestA, "NestA"], [Option<zoo::U2>, "Option<U2>"]);
    zoo_unit!(unit);
    zoo_comp!(comp);
    zoo_base!(comp);
    zoo_bits!(bits);
    #[cfg(feature = "serde")]
    macro_rules! wired { ($([$t:ty, $n:literal]),*) => { $( { let out = out.clone(); c.job(concat!("serialization ", $n), move |w| {
        wire::unit::<$t>(w, $n);
        out.lock().unwrap().push(format!("D serialization-{} {} {} {}", $n.replace(' ', ""), w.stats.states, w.stats.transitions, w.stats.traces));
    }); } )* } }
    #[cfg(feature = "serde")]
    { zoo_unit!(wired); zoo_comp!(wired); }
    // dynamically stored keys: the order of what is observed is not fixed, so only the reference judges
    #[cfg(feature = "hashbrown")]
    macro_rules! dynamic { ($([$t:ty, $n:literal]),*) => { $( { let out = out.clone(); c.job($n, move |w| {
        unit::<$t>(w, $n, &|_, _| 0);
        out.lock().unwrap().push(format!("D {} {} {} {}", $n.replace(' ', ""), w.stats.states, w.stats.transitions, w.stats.traces));
    }); } )* } }
    #[cfg(feature = "hashbrown")]
    { zoo_dyn!(dynamic); zoo_dyncomp!(dynamic); }
    // many keys at once: counters, tables and lengths past 255 and 65535
    #[cfg(feature = "hashbrown")]
    {
        many(&mut c, &out, "u32", 70_000, |i| i as u32);
        many(&mut c, &out, "Option<u64>", 70_000, |i| (i as u64).checked_sub(1));
        many(&mut c, &out, "u8", 256, |i| i as u8);
        many(&mut c, &out, "DA", 257 + 500, |i| match i { 0 => zoo::DA::B, 1..=256 => zoo::DA::A((i - 1) as u8), _ => zoo::DA::C(char::from_u32(i as u32).unwrap()) });
        many(&mut c, &out, "Option<DA>", 257, |i| match i { 0 => None, _ => Some(zoo::DA::A((i - 1) as u8)) });
    }
    let path = std::env::var("FEAT_OUT").expect("FEAT_OUT");
    c.finish_with(move || { let mut o = out.lock().unwrap(); o.sort(); std::fs::write(path, o.join("\n") + "\n").unwrap(); })
}
