//! Sizes of statically stored collections, and the absence of heap allocation in every operation.
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::raw::RawStorage;
use fmcheck::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::hash::{Hash, Hasher};
use std::hint::black_box;
use std::mem::{align_of, size_of};
use serde::de::{DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

thread_local! { static N: Cell<u64> = const { Cell::new(0) }; }
struct Count;
fn hit() { let _ = N.try_with(|n| n.set(n.get() + 1)); }
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { hit(); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { hit(); unsafe { System.dealloc(p, l) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { hit(); unsafe { System.alloc_zeroed(l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { hit(); unsafe { System.realloc(p, l, n) } }
}
#[global_allocator]
static A: Count = Count;

/// Runs one step; it must not touch the heap.
#[inline(never)]
fn quiet<R>(what: &str, k: usize, f: impl FnOnce() -> R) -> Result<R, String> {
    let before = N.with(Cell::get);
    let r = f();
    let n = N.with(Cell::get) - before;
    if n == 0 { Ok(r) } else { Err(format!("{what} (key {k}) touched the heap {n} times")) }
}
struct Sum(u64);
impl Hasher for Sum { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(31) + u64::from(*x); } } }

/// Formatting into nothing.
struct Null;
impl std::fmt::Write for Null { fn write_str(&mut self, _: &str) -> std::fmt::Result { Ok(()) } }
macro_rules! null { ($($e:expr),*) => {{ use std::fmt::Write as _; $( let _ = write!(Null, "{:?}", $e); let _ = write!(Null, "{:#?}", $e); )* }} }
trait Shown: std::fmt::Debug {}
impl<T: std::fmt::Debug> Shown for T {}

trait Pl: Copy + Ord + Hash + Shown + 'static { fn of(i: usize) -> Self; }
impl Pl for u32 { fn of(i: usize) -> u32 { i as u32 } }
impl Pl for () { fn of(_: usize) {} }
impl Pl for [u64; 5] { fn of(i: usize) -> Self { [i as u64; 5] } }
impl Pl for [u64; 64] { fn of(i: usize) -> Self { [i as u64; 64] } }
impl Pl for [u64; 1024] { fn of(i: usize) -> Self { [i as u64; 1024] } }
impl Pl for Option<bool> { fn of(i: usize) -> Self { [None, Some(false), Some(true)][i % 3] } }

fn cmp_m<K: Dom, V: Pl>(m: &Map<K, V>, c: &Map<K, V>) where K::MapStorage<V>: Clone + Ord + Hash {
    black_box((m.cmp(c), m.partial_cmp(c), m < c, m <= c, m > c, m >= c));
    black_box((m.clone().max(c.clone()), m.clone().min(c.clone()), m.clone().clamp(Map::new(), c.clone())));
    let mut h = Sum(1); m.hash(&mut h); black_box(h.0);
}
fn cmp_s<K: Dom>(s: &Set<K>, c: &Set<K>) where K::SetStorage: Clone + Ord + Hash {
    black_box((s.cmp(c), s.partial_cmp(c), s < c, s <= c, s > c, s >= c));
    black_box((s.clone().max(c.clone()), s.clone().min(c.clone()), s.clone().clamp(Set::new(), c.clone())));
    let mut h = Sum(1); s.hash(&mut h); black_box(h.0);
}
fn map_ops<K: Dom, V: Pl>(sub: &[bool], de: De<Map<K, V>>, cmp: Cmp<Map<K, V>>) -> Result<u64, String> where K::MapStorage<V>: Clone + PartialEq {
    let mut steps = 0u64;
    let n = K::N;
    macro_rules! q { ($what:expr, $k:expr, $e:expr) => {{ steps += 1; quiet($what, $k, || black_box($e))? }}; }
    let mk = || { let mut m: Map<K, V> = Map::new(); for k in 0..n { if sub[k] { m.insert(K::at(k), V::of(k)); } } m };
    let m = q!("building", 0, mk());
    q!("default", 0, Map::<K, V>::default());
    let mut c = q!("clone", 0, m.clone());
    q!("==", 0, m == c); q!("!=", 0, m != c);
    if let Some(f) = cmp { q!("order and hash", 0, f(&m, &c)); }
    q!("len", 0, (m.len(), m.is_empty()));
    q!("iter", 0, for x in m.iter() { black_box(x); });
    q!("&map", 0, for x in &m { black_box(x); });
    q!("keys", 0, for x in m.keys() { black_box(x); });
    q!("values", 0, for x in m.values() { black_box(x); });
    q!("iterator adaptors", 0, { let i = m.iter(); let s = i.size_hint(); (s, i.count(), m.iter().last(), m.keys().nth(1), m.values().fold(0, |a, _| a + 1), m.keys().skip(1).step_by(2).min_by_key(|k| k.idx())) });
    q!("iter_mut", 0, for (_, v) in c.iter_mut() { *v = V::of(3); });
    q!("&mut map", 0, for (_, v) in &mut c { *v = V::of(4); });
    q!("values_mut", 0, for v in c.values_mut() { *v = V::of(5); });
    q!("into_iter", 0, for x in m.clone() { black_box(x); });
    q!("partial into_iter", 0, { let mut i = m.clone().into_iter(); i.next(); i.next() });
    q!("collect", 0, m.clone().into_iter().collect::<Map<K, V>>());
    q!("collect twice over", 0, m.iter().chain(c.iter()).map(|(k, v)| (k, *v)).collect::<Map<K, V>>());
    q!("swap, take and replace", 0, { let mut a = m.clone(); let mut b = c.clone(); std::mem::swap(&mut a, &mut b); let t = std::mem::take(&mut a); std::mem::replace(&mut b, t) });
    q!("formatting", 0, null!(m, c));
    q!("move into a box-free option", 0, Some(m.clone()).map(|x| (x, 1)));
    if let Some(f) = de { q!("double-ended iteration", 0, f(&m)); }
    for mask in 0..4usize { q!("retain", mask, { let mut c = m.clone(); c.retain(|k, v| { *v = V::of(7); match mask { 0 => true, 1 => false, 2 => k.idx() % 2 == 0, _ => k.idx() == n - 1 } }); c }); }
    q!("clear", 0, { let mut c = m.clone(); c.clear(); c });
    for k in (0..n).filter(|k| n < 40 || k % 8 < 2 || k + 3 > n) {
        let key = K::at(k);
        q!("get", k, (m.get(key), m.contains_key(key)));
        let mut c = mk();
        q!("get_mut", k, if let Some(v) = c.get_mut(key) { *v = V::of(8) });
        q!("insert", k, c.insert(key, V::of(9)));
        q!("insert again", k, c.insert(key, V::of(10)));
        q!("remove", k, c.remove(key));
        q!("remove again", k, c.remove(key));
        q!("reinsert", k, c.insert(key, V::of(11)));
        for absent in [false, true] {
            let base = { let mut c = mk(); if absent { c.remove(key); } else { c.insert(key, V::of(1)); } c };
            let w = |s: &'static str| s;
            let mut c = base.clone(); q!(w("or_insert"), k, c.entry(key).or_insert(V::of(2)));
            let mut c = base.clone(); q!(w("or_insert_with"), k, c.entry(key).or_insert_with(|| V::of(2)));
            let mut c = base.clone(); q!(w("or_insert_with_key"), k, c.entry(key).or_insert_with_key(|k| V::of(k.idx())));
            let mut c = base.clone(); q!(w("and_modify"), k, c.entry(key).and_modify(|v| *v = V::of(4)).key());
            let mut c = base.clone(); q!(w("and_modify or_insert"), k, c.entry(key).and_modify(|v| *v = V::of(4)).or_insert(V::of(5)));
            let mut c = base.clone(); q!(w("entry insert"), k, match c.entry(key) { Entry::Occupied(mut e) => { e.key(); e.get(); *e.get_mut() = V::of(6); e.insert(V::of(7)); e.into_mut() } Entry::Vacant(e) => { e.key(); e.insert(V::of(7)) } });
            let mut c = base.clone(); q!(w("entry remove"), k, match c.entry(key) { Entry::Occupied(e) => Some(e.remove()), Entry::Vacant(_) => None });
            let mut c = base.clone(); q!(w("dropped entry"), k, { c.entry(key); });
        }
    }
    q!("drop", 0, drop(m));
    Ok(steps)
}
fn set_ops<K: Dom>(sub: &[bool], de: De<Set<K>>, raw: De<Set<K>>, cmp: Cmp<Set<K>>) -> Result<u64, String> where K::SetStorage: Clone + PartialEq {
    let mut steps = 0u64;
    let n = K::N;
    macro_rules! q { ($what:expr, $k:expr, $e:expr) => {{ steps += 1; quiet(concat!("set ", $what), $k, || black_box($e))? }}; }
    let s = q!("building", 0, set_of::<K>(sub));
    q!("default", 0, Set::<K>::default());
    let c = q!("clone", 0, s.clone());
    q!("==", 0, s == c); q!("!=", 0, s != c);
    if let Some(f) = cmp { q!("order and hash", 0, f(&s, &c)); }
    q!("len", 0, (s.len(), s.is_empty()));
    q!("iter", 0, for x in s.iter() { black_box(x); });
    q!("&set", 0, for x in &s { black_box(x); });
    q!("iterator adaptors", 0, { let i = s.iter(); let j = i.clone(); let h = i.size_hint(); (h, i.count(), j.last(), s.iter().nth(1), s.iter().fold(0, |a, _| a + 1)) });
    q!("into_iter", 0, for x in s.clone() { black_box(x); });
    q!("collect", 0, s.iter().chain(c.iter()).collect::<Set<K>>());
    q!("intersection", 0, { let i = s.intersection(&c); let j = i.clone(); let h = i.size_hint(); for x in i { black_box(x); } (h, j.count(), s.intersection(&Set::new()).collect::<Set<K>>()) });
    q!("formatting", 0, null!(s, c, s.intersection(&c)));
    q!("from an array", 0, if n > 0 { Set::from([K::at(0), K::at(n - 1), K::at(0)]) } else { Set::from([]) });
    q!("swap and take", 0, { let mut a = s.clone(); std::mem::take(&mut a) });
    if let Some(f) = de { q!("double-ended iteration", 0, f(&s)); }
    if let Some(f) = raw { q!("raw", 0, f(&s)); }
    for mask in 0..4usize { q!("retain", mask, { let mut c = s.clone(); c.retain(|k| match mask { 0 => true, 1 => false, 2 => k.idx() % 2 == 0, _ => k.idx() == n - 1 }); c }); }
    q!("clear", 0, { let mut c = s.clone(); c.clear(); c });
    for k in (0..n).filter(|k| n < 40 || k % 8 < 2 || k + 3 > n) {
        let key = K::at(k);
        let mut c = s.clone();
        q!("contains", k, c.contains(key));
        q!("insert", k, c.insert(key));
        q!("insert again", k, c.insert(key));
        q!("remove", k, c.remove(key));
        q!("remove again", k, c.remove(key));
        q!("reinsert", k, c.insert(key));
    }
    Ok(steps)
}

// A data format whose tokens go to a buffer set up beforehand; errors carry no text.
#[derive(Debug)]
struct NoText;
impl std::fmt::Display for NoText { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for NoText {}
impl serde::ser::Error for NoText { fn custom<T: std::fmt::Display>(_: T) -> Self { NoText } }
impl serde::de::Error for NoText { fn custom<T: std::fmt::Display>(_: T) -> Self { NoText } }
#[derive(Clone, Copy, Debug)]
enum T { Num(u64), Bool(bool), Unit, None, Some, Open, Close }
const TOKENS: usize = 1 << 15;
thread_local! { static TAPE: RefCell<Vec<T>> = RefCell::new(Vec::with_capacity(TOKENS)); static AT: Cell<usize> = const { Cell::new(0) }; }
fn put(t: T) -> Result<(), NoText> { TAPE.with(|v| { let mut v = v.borrow_mut(); if v.len() == TOKENS { return Err(NoText); } v.push(t); Ok(()) }) }
fn blank() { TAPE.with(|v| v.borrow_mut().clear()); AT.with(|a| a.set(0)); }
fn peek() -> Result<T, NoText> { TAPE.with(|v| v.borrow().get(AT.with(Cell::get)).copied().ok_or(NoText)) }
fn take() -> Result<T, NoText> { let t = peek()?; AT.with(|a| a.set(a.get() + 1)); Ok(t) }
struct Sink;
macro_rules! no { ($($f:ident($($t:ty),*) -> $r:ty);* $(;)?) => { $( fn $f(self $(, _: $t)*) -> Result<$r, NoText> { Err(NoText) } )* } }
macro_rules! num { ($($f:ident: $t:ty),*) => { $( fn $f(self, x: $t) -> Result<(), NoText> { put(T::Num(x as u64)) } )* } }
type Imp = serde::ser::Impossible<(), NoText>;
impl Serializer for Sink {
    type Ok = (); type Error = NoText;
    type SerializeSeq = Sink; type SerializeMap = Sink; type SerializeTuple = Imp; type SerializeTupleStruct = Imp; type SerializeTupleVariant = Imp; type SerializeStruct = Imp; type SerializeStructVariant = Imp;
    num!(serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64);
    no! { serialize_f32(f32) -> (); serialize_f64(f64) -> (); serialize_char(char) -> (); serialize_str(&str) -> (); serialize_bytes(&[u8]) -> (); serialize_unit_struct(&'static str) -> (); serialize_unit_variant(&'static str, u32, &'static str) -> ();
        serialize_tuple(usize) -> Imp; serialize_tuple_struct(&'static str, usize) -> Imp; serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Imp; serialize_struct(&'static str, usize) -> Imp; serialize_struct_variant(&'static str, u32, &'static str, usize) -> Imp }
    fn serialize_bool(self, b: bool) -> Result<(), NoText> { put(T::Bool(b)) }
    fn serialize_unit(self) -> Result<(), NoText> { put(T::Unit) }
    fn serialize_none(self) -> Result<(), NoText> { put(T::None) }
    fn serialize_some<S: ?Sized + Serialize>(self, t: &S) -> Result<(), NoText> { put(T::Some)?; t.serialize(Sink) }
    fn serialize_newtype_struct<S: ?Sized + Serialize>(self, _: &'static str, _: &S) -> Result<(), NoText> { Err(NoText) }
    fn serialize_newtype_variant<S: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &S) -> Result<(), NoText> { Err(NoText) }
    fn collect_str<S: ?Sized + std::fmt::Display>(self, _: &S) -> Result<(), NoText> { Err(NoText) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Sink, NoText> { put(T::Open)?; Ok(Sink) }
    fn serialize_map(self, _: Option<usize>) -> Result<Sink, NoText> { put(T::Open)?; Ok(Sink) }
}
impl serde::ser::SerializeSeq for Sink {
    type Ok = (); type Error = NoText;
    fn serialize_element<S: ?Sized + Serialize>(&mut self, t: &S) -> Result<(), NoText> { t.serialize(Sink) }
    fn end(self) -> Result<(), NoText> { put(T::Close) }
}
impl serde::ser::SerializeMap for Sink {
    type Ok = (); type Error = NoText;
    fn serialize_key<S: ?Sized + Serialize>(&mut self, t: &S) -> Result<(), NoText> { t.serialize(Sink) }
    fn serialize_value<S: ?Sized + Serialize>(&mut self, t: &S) -> Result<(), NoText> { t.serialize(Sink) }
    fn end(self) -> Result<(), NoText> { put(T::Close) }
}
/// Reads the tokens back; announces this many items.
#[derive(Clone, Copy)]
struct Tape(Option<usize>);
impl<'de> Deserializer<'de> for Tape {
    type Error = NoText;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, NoText> {
        match take()? {
            T::Num(n) => v.visit_u64(n), T::Bool(b) => v.visit_bool(b), T::Unit => v.visit_unit(), T::None => v.visit_none(), T::Some => v.visit_some(self),
            _ => Err(NoText),
        }
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, NoText> { match take()? { T::Open => v.visit_seq(self), _ => Err(NoText) } }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, NoText> { match take()? { T::Open => v.visit_map(self), _ => Err(NoText) } }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 char str string bytes byte_buf option unit f32 f64 unit_struct newtype_struct tuple tuple_struct struct enum identifier ignored_any }
}
impl<'de> SeqAccess<'de> for Tape {
    type Error = NoText;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, t: S) -> Result<Option<S::Value>, NoText> { if matches!(peek()?, T::Close) { return Ok(None); } t.deserialize(*self).map(Some) }
    fn size_hint(&self) -> Option<usize> { self.0 }
}
impl<'de> MapAccess<'de> for Tape {
    type Error = NoText;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, t: S) -> Result<Option<S::Value>, NoText> { if matches!(peek()?, T::Close) { return Ok(None); } t.deserialize(*self).map(Some) }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, t: S) -> Result<S::Value, NoText> { t.deserialize(*self) }
    fn size_hint(&self) -> Option<usize> { self.0 }
}
fn wire<K: Dom + Serialize + for<'d> Deserialize<'d>>(m: &Map<K, u32>, s: &Set<K>) -> Result<u64, String> where K::MapStorage<u32>: Clone + PartialEq, K::SetStorage: Clone + PartialEq {
    let mut steps = 0u64;
    macro_rules! q { ($what:expr, $e:expr) => {{ steps += 1; quiet($what, 0, || black_box($e))?.map_err(|_| format!("{} fails", $what))? }}; }
    for hint in [None, Some(m.len()), Some(usize::MAX)] {
        blank();
        q!("serializing a map", m.serialize(Sink));
        AT.with(|a| a.set(0));
        let back = q!("deserializing a map", Map::<K, u32>::deserialize(Tape(hint)));
        if back != *m { return Err("the map is deserialized as something else".into()); }
        AT.with(|a| a.set(0));
        let mut over = m.clone();
        q!("deserializing over a map", Deserialize::deserialize_in_place(Tape(hint), &mut over));
        // input that ends early
        TAPE.with(|v| v.borrow_mut().pop());
        AT.with(|a| a.set(0));
        steps += 1;
        if quiet("cut input", 0, || Map::<K, u32>::deserialize(Tape(hint)).is_ok())? { return Err("input cut short is accepted in a map".into()); }
        blank();
        q!("serializing a set", s.serialize(Sink));
        AT.with(|a| a.set(0));
        let back = q!("deserializing a set", Set::<K>::deserialize(Tape(hint)));
        if back != *s { return Err("the set is deserialized as something else".into()); }
        AT.with(|a| a.set(0));
        let mut over = s.clone();
        q!("deserializing over a set", Deserialize::deserialize_in_place(Tape(hint), &mut over));
        TAPE.with(|v| v.borrow_mut().pop());
        AT.with(|a| a.set(0));
        steps += 1;
        if quiet("cut input", 0, || Set::<K>::deserialize(Tape(hint)).is_ok())? { return Err("input cut short is accepted in a set".into()); }
    }
    Ok(steps)
}

type Wire<K> = Option<fn(&Map<K, u32>, &Set<K>) -> Result<u64, String>>;
type De<T> = Option<fn(&T)>;
type Cmp<T> = Option<fn(&T, &T)>;
#[derive(Clone, Copy)]
struct Fns<K: Dom> { wire: Wire<K>, m: De<Map<K, u32>>, s: De<Set<K>>, raw: De<Set<K>>, cs: Cmp<Set<K>>, c1: Cmp<Map<K, u32>>, c2: Cmp<Map<K, ()>>, c3: Cmp<Map<K, [u64; 5]>>, c4: Cmp<Map<K, Option<bool>>> }
fn unit<K: Dom>(w: &mut W, name: &'static str, fns: Fns<K>)
where K::SetStorage: Clone + PartialEq, K::MapStorage<u32>: Clone + PartialEq, K::MapStorage<()>: Clone + PartialEq, K::MapStorage<[u64; 5]>: Clone + PartialEq, K::MapStorage<Option<bool>>: Clone + PartialEq, K::MapStorage<[u64; 64]>: Clone + PartialEq, K::MapStorage<[u64; 1024]>: Clone + PartialEq {
    let n = K::N;
    let big = |m: &[bool]| m.iter().filter(|b| **b).count();
    let subs = if n <= 9 || w.thorough && n <= 12 { subsets(n, 12, 0) } else { thin(subsets(n, 6, 0), if w.thorough { 300 } else { 24 }) };
    // a map or set type is as large as its storage
    macro_rules! size { ($($v:ty),*) => { $( if (size_of::<Map<K, $v>>(), align_of::<Map<K, $v>>()) != (size_of::<K::MapStorage<$v>>(), align_of::<K::MapStorage<$v>>()) { w.fail(concat!("size of a map of ", stringify!($v)).into(), format!("{} bytes, storage {}", size_of::<Map<K, $v>>(), size_of::<K::MapStorage<$v>>())); return; } )* } }
    size!(u8, u32, (), String, [u64; 5], Option<bool>, &'static str);
    if size_of::<Set<K>>() != size_of::<K::SetStorage>() { w.fail("size of a set".into(), format!("{} bytes, storage {}", size_of::<Set<K>>(), size_of::<K::SetStorage>())); return; }
    for sub in &subs {
        w.begin(|| format!("{sub:?}"));
        w.stats.states += 1;
        w.stats.traces += 5;
        let r = guard(|| {
            let mut s = map_ops::<K, u32>(sub, fns.m, fns.c1)?;
            s += set_ops::<K>(sub, fns.s, fns.raw, fns.cs)?;
            if let Some(f) = fns.wire { s += f(&map_of::<K, u32>(&sub.iter().enumerate().map(|(k, b)| b.then_some(k as u32)).collect::<Vec<_>>()), &set_of::<K>(sub))?; }
            if n < 40 || big(sub) % 3 == 0 {
                s += map_ops::<K, ()>(sub, None, fns.c2).map_err(|e| format!("unit values: {e}"))?;
                s += map_ops::<K, [u64; 5]>(sub, None, fns.c3).map_err(|e| format!("large values: {e}"))?;
                s += map_ops::<K, Option<bool>>(sub, None, fns.c4).map_err(|e| format!("niche values: {e}"))?;
            }
            if n <= 6 {
                s += map_ops::<K, [u64; 64]>(sub, None, None).map_err(|e| format!("values of 512 bytes: {e}"))?;
                s += map_ops::<K, [u64; 1024]>(sub, None, None).map_err(|e| format!("values of 8192 bytes: {e}"))?;
            }
            Ok(s)
        });
        match r { Ok(s) => w.stats.transitions += s, Err(e) => { w.fail(format!("{sub:?}"), e); return; } }
    }
    w.sample(|| format!("{name}: {} contents, every operation watched for heap use", subs.len()));
}
/// Field-less enums: a map is an array of optional values, an ordinary set an array of bytes.
fn flat<K: Dom, const LEN: usize>(w: &mut W, bitset: bool) {
    w.begin(String::new);
    macro_rules! same { ($($v:ty),*) => { $(
        w.stats.transitions += 1;
        let (got, want) = ((size_of::<Map<K, $v>>(), align_of::<Map<K, $v>>()), (size_of::<[Option<$v>; LEN]>(), align_of::<[Option<$v>; LEN]>()));
        if got != want { w.fail(concat!("map of ", stringify!($v)).into(), format!("(size, alignment) {got:?}, an array of optional values has {want:?}")); return; }
    )* } }
    same!(u8, u16, u32, u64, u128, (), bool, char, f32, f64, String, Box<u8>, Vec<u8>, &'static u8, &'static str, Option<u8>, Option<bool>, Option<Option<bool>>, std::num::NonZeroU8, std::num::NonZeroU64, [u8; 3], [u64; 5], (u8, u32), std::cmp::Ordering, std::rc::Rc<u8>, std::cell::Cell<u32>, Result<u8, ()>, core::convert::Infallible, Map<bool, u8>, fn());
    w.stats.states += 1;
    if !bitset && size_of::<Set<K>>() != LEN { w.fail("set".into(), format!("{} bytes for {LEN} keys", size_of::<Set<K>>())); }
    let want = match LEN { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 };
    if bitset && size_of::<Set<K>>() > want { w.fail("set".into(), format!("{} bytes for {LEN} keys", size_of::<Set<K>>())); }
}
fn rt<K: Dom>(s: &Set<K>) where K::SetStorage: RawStorage { black_box(Set::<K>::from_raw(s.as_raw())); }

fn main() {
    // the detector detects
    assert!(quiet("box", 0, || black_box(Box::new(1u8))).is_err() && quiet("dynamic key", 0, || { let mut m = Map::new(); m.insert(1u8, 1); black_box(m) }).is_err());
    let mut c = Ctx::new("C19", "model_checking");
    c.rule = "every operation, iteration, comparison, serialization and deserialization in every contents of every statically stored key type (large types: structured contents) with four value types (six for types of up to 6 keys, values up to 8192 bytes), watched by an allocator that counts every call; sizes of maps of 30 value types and of sets against arrays, for all field-less enums".into();
    fn de_m<K: Dom, I: DoubleEndedIterator>(i: I) { let mut i = i; i.next_back(); black_box(i.next()); for x in i.rev() { black_box(x); } }
    macro_rules! stat { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| {
        let fns = Fns::<$t> { wire: Some(wire::<$t>), m: Some(|m| { black_box((m.iter().clone().last(), m.keys().clone().last(), m.values().clone().last())); de_m::<$t, _>(m.iter()); de_m::<$t, _>(m.keys()); de_m::<$t, _>(m.values()); de_m::<$t, _>(m.clone().iter_mut()); de_m::<$t, _>(m.clone().values_mut()); de_m::<$t, _>(m.clone().into_iter()); }), s: Some(|s| { de_m::<$t, _>(s.iter()); de_m::<$t, _>(s.clone().into_iter()); }), raw: None, cs: None, c1: None, c2: None, c3: None, c4: None };
        unit::<$t>(w, $n, fns);
    }); )* } }
    macro_rules! bits { ($([$t:ty, $n:literal]),*) => { $( c.job(concat!("raw ", $n), |w| {
        unit::<$t>(w, $n, Fns::<$t> { wire: None, m: None, s: None, raw: Some(rt::<$t>), cs: None, c1: None, c2: None, c3: None, c4: None });
        if !w.failed() { flat::<$t, { <$t as Dom>::N }>(w, true); }
    }); )* } }
    macro_rules! ords { ($([$t:ty, $n:literal]),*) => { $( c.job(concat!("ordered ", $n), |w| unit::<$t>(w, $n, Fns::<$t> { wire: None, m: None, s: None, raw: None, cs: Some(cmp_s), c1: Some(cmp_m), c2: Some(cmp_m), c3: Some(cmp_m), c4: Some(cmp_m) })); )* } }
    macro_rules! flats { ($([$t:ty, $n:literal]),*) => { $( c.job(concat!("sizes ", $n), |w| flat::<$t, { <$t as Dom>::N }>(w, size_of::<Set<$t>>() != <$t as Dom>::N && stringify!($t).contains('K'))); )* } }
    fmcheck::zoo_large!(stat);
    fmcheck::zoo_base!(stat);
    fmcheck::zoo_small!(stat);
    fmcheck::zoo_bits!(bits);
    fmcheck::zoo_unit!(ords);
    fmcheck::zoo_unit!(flats);
    c.finish()
}
