//! Type-erased access to the real maps and sets: one thin wrapper per operation, keys by index.
use crate::dom::Dom;
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Map, Set};
pub use fmcore::obj::*;
use fmcore::val::Val;

pub struct MapW<K: Dom, V: Val> { pub m: Map<K, V> }

impl<K: Dom, V: Val> MapW<K, V> {
    pub fn new() -> Self { MapW { m: Map::new() } }
    pub fn boxed() -> Box<dyn MapObj> { Box::new(Self::new()) }
}
impl<K: Dom, V: Val> Default for MapW<K, V> { fn default() -> Self { Self::new() } }

impl<K: Dom, V: Val> MapObj for MapW<K, V> {
    fn insert(&mut self, k: usize, v: u32) -> Option<u32> { self.m.insert(K::at(k), V::mk(v)).map(|v| v.id()) }
    fn remove(&mut self, k: usize) -> Option<u32> { self.m.remove(K::at(k)).map(|v| v.id()) }
    fn get(&self, k: usize) -> Option<u32> { self.m.get(K::at(k)).map(V::id) }
    fn contains(&self, k: usize) -> bool { self.m.contains_key(K::at(k)) }
    fn get_mut(&mut self, k: usize, w: Option<u32>) -> Option<u32> {
        self.m.get_mut(K::at(k)).map(|r| { let old = r.id(); if let Some(w) = w { r.put(w); } old })
    }
    fn len(&self) -> usize { self.m.len() }
    fn is_empty(&self) -> bool { self.m.is_empty() }
    fn clear(&mut self) { self.m.clear() }
    fn retain(&mut self, f: &mut dyn FnMut(usize, u32) -> (bool, Option<u32>)) {
        self.m.retain(|k, v| { let (keep, w) = f(k.idx(), v.id()); if let Some(w) = w { v.put(w); } keep })
    }
    fn seq(&self, kind: usize, out: &mut Seq) {
        out.clear();
        match kind {
            0 => out.extend(self.m.iter().take(CAP).map(|(k, v)| (k.idx(), v.id()))),
            1 => out.extend(self.m.keys().take(CAP).map(|k| (k.idx(), 0))),
            2 => out.extend(self.m.values().take(CAP).map(|v| (NOKEY, v.id()))),
            _ => out.extend((&self.m).into_iter().take(CAP).map(|(k, v)| (k.idx(), v.id()))),
        }
    }
    fn seq_mut(&mut self, kind: usize, f: &mut dyn FnMut(usize, usize, u32) -> Option<u32>) {
        match kind {
            0 => for (p, (k, v)) in self.m.iter_mut().take(CAP).enumerate() { if let Some(w) = f(p, k.idx(), v.id()) { v.put(w) } },
            1 => for (p, v) in self.m.values_mut().take(CAP).enumerate() { if let Some(w) = f(p, NOKEY, v.id()) { v.put(w) } },
            _ => for (p, (k, v)) in (&mut self.m).into_iter().take(CAP).enumerate() { if let Some(w) = f(p, k.idx(), v.id()) { v.put(w) } },
        }
    }
    fn into_seq(self: Box<Self>, out: &mut Seq) {
        out.clear();
        out.extend(self.m.into_iter().take(CAP).map(|(k, v)| (k.idx(), v.id())));
    }
    fn scatter(&mut self, kind: usize, writes: &[(usize, u32)]) -> Seq {
        let mut read = Vec::new();
        match kind {
            0 => {
                let mut refs: Vec<(K, &mut V)> = self.m.iter_mut().take(CAP).collect();
                for &(p, w) in writes { if p < refs.len() { refs[p].1.put(w); } }
                read.extend(refs.iter().map(|(k, v)| (k.idx(), v.id())));
            }
            1 => {
                let mut refs: Vec<&mut V> = self.m.values_mut().take(CAP).collect();
                for &(p, w) in writes { if p < refs.len() { refs[p].put(w); } }
                read.extend(refs.iter().map(|v| (NOKEY, v.id())));
            }
            _ => {
                let mut refs: Vec<(K, &mut V)> = (&mut self.m).into_iter().take(CAP).collect();
                for &(p, w) in writes { if p < refs.len() { refs[p].1.put(w); } }
                read.extend(refs.iter().map(|(k, v)| (k.idx(), v.id())));
            }
        }
        read
    }
    fn entry(&mut self, k: usize, op: &EOp) -> EOut {
        let mut out = EOut::default();
        let e = self.m.entry(K::at(k));
        out.occupied = Some(matches!(e, Entry::Occupied(_)));
        let kx = |k: K| { let i = k.idx(); if i == NOKEY { -99 } else { i as i64 } };
        let fin = |r: &mut V, w: Option<u32>, read: &mut Vec<i64>| { read.push(r.id().into()); if let Some(w) = w { r.put(w); read.push(r.id().into()); } };
        match op {
            EOp::Key => out.read.push(kx(e.key())),
            EOp::OrInsert(v, w) => fin(e.or_insert(V::mk(*v)), *w, &mut out.read),
            EOp::OrInsertWith(v, w) => { let mut n = 0; let r = e.or_insert_with(|| { n += 1; V::mk(*v) }); fin(r, *w, &mut out.read); out.calls = n; }
            EOp::OrInsertWithKey(v, w) => {
                let mut n = 0; let mut seen = Vec::new();
                let r = e.or_insert_with_key(|k| { n += 1; seen.push(kx(k)); V::mk(*v) });
                fin(r, *w, &mut out.read);
                out.read.extend(seen); out.calls = n;
            }
            EOp::AndModify(w) => {
                let mut n = 0; let mut seen = Vec::new();
                let e = e.and_modify(|v| { n += 1; seen.push(i64::from(v.id())); v.put(*w) });
                out.read.push(kx(e.key())); out.read.push(matches!(e, Entry::Occupied(_)).into());
                drop(e);
                out.read.extend(seen); out.calls = n;
            }
            EOp::AndModifyOrInsert(w, v) => {
                let mut n = 0;
                let r = e.and_modify(|v| { n += 1; v.put(*w) }).or_insert(V::mk(*v));
                fin(r, None, &mut out.read); out.calls = n;
            }
            EOp::AndModify2OrWith(w, w2, v) => {
                let mut n = 0; let mut n2 = 0;
                let r = e.and_modify(|v| { n += 1; v.put(*w) }).and_modify(|v| { n += 1; v.put(*w2) }).or_insert_with(|| { n2 += 16; V::mk(*v) });
                fin(r, None, &mut out.read); out.calls = n + n2;
            }
            EOp::Match(steps, end, vac) => match e {
                Entry::Occupied(mut o) => {
                    for s in steps {
                        match s {
                            EStep::Key => out.read.push(kx(o.key())),
                            EStep::Get => out.read.push(o.get().id().into()),
                            EStep::GetMut(w) => { let r = o.get_mut(); out.read.push(r.id().into()); r.put(*w); }
                            EStep::Replace(v) => out.read.push(o.insert(V::mk(*v)).id().into()),
                        }
                    }
                    match end {
                        EEnd::Drop => {}
                        EEnd::IntoMut(w) => fin(o.into_mut(), *w, &mut out.read),
                        EEnd::Remove => out.read.push(o.remove().id().into()),
                    }
                }
                Entry::Vacant(o) => {
                    out.read.push(kx(o.key()));
                    if let Some((v, w)) = vac { fin(o.insert(V::mk(*v)), *w, &mut out.read); }
                }
            },
        }
        out
    }
}

pub struct SetW<K: Dom> { pub s: Set<K> }
impl<K: Dom> SetW<K> {
    pub fn new() -> Self { SetW { s: Set::new() } }
    pub fn boxed() -> Box<dyn SetObj> { Box::new(Self::new()) }
}
impl<K: Dom> Default for SetW<K> { fn default() -> Self { Self::new() } }
impl<K: Dom> SetObj for SetW<K> {
    fn insert(&mut self, k: usize) -> bool { self.s.insert(K::at(k)) }
    fn remove(&mut self, k: usize) -> bool { self.s.remove(K::at(k)) }
    fn contains(&self, k: usize) -> bool { self.s.contains(K::at(k)) }
    fn len(&self) -> usize { self.s.len() }
    fn is_empty(&self) -> bool { self.s.is_empty() }
    fn clear(&mut self) { self.s.clear() }
    fn retain(&mut self, f: &mut dyn FnMut(usize) -> bool) { self.s.retain(|k| f(k.idx())) }
    fn seq(&self, kind: usize, out: &mut Vec<usize>) {
        out.clear();
        match kind {
            0 => out.extend(self.s.iter().take(CAP).map(|k| k.idx())),
            _ => out.extend((&self.s).into_iter().take(CAP).map(|k| k.idx())),
        }
    }
    fn into_seq(self: Box<Self>, out: &mut Vec<usize>) { out.clear(); out.extend(self.s.into_iter().take(CAP).map(|k| k.idx())); }
}

/// A real map or set built by a history.
pub fn map_by<K: Dom, V: Val>(h: &[fmcore::model::Op]) -> Map<K, V> {
    let mut o = MapW::<K, V>::new();
    for op in h { fmcore::model::apply_real(&mut o, op); }
    o.m
}
pub fn set_by<K: Dom>(h: &[fmcore::model::SOp]) -> Set<K> {
    let mut o = SetW::<K>::new();
    for op in h { fmcore::model::sapply_real(&mut o, op); }
    o.s
}
/// A real map or set with given contents, inserted in declaration order.
pub fn map_of<K: Dom, V: Val>(m: &[Option<u32>]) -> Map<K, V> {
    let mut o = Map::new();
    for (k, v) in m.iter().enumerate() { if let Some(v) = v { o.insert(K::at(k), V::mk(*v)); } }
    o
}
pub fn set_of<K: Dom>(m: &[bool]) -> Set<K> {
    let mut o = Set::new();
    for (k, b) in m.iter().enumerate() { if *b { o.insert(K::at(k)); } }
    o
}
/// Compares everything observable of a borrowed real map or set with the reference.
pub fn observe_map<K: Dom, V: Val>(info: &fmcore::Info, m: Map<K, V>, want: &fmcore::model::Model) -> Result<Map<K, V>, String> {
    let o = MapW { m };
    fmcore::model::observe(info, &o, want, &mut Seq::new())?;
    Ok(o.m)
}
pub fn observe_set<K: Dom>(info: &fmcore::Info, s: Set<K>, want: &fmcore::model::SModel) -> Result<Set<K>, String> {
    let o = SetW { s };
    fmcore::model::sobserve(info, &o, want, &mut Vec::new())?;
    Ok(o.s)
}
