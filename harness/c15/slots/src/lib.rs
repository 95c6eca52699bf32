//! Every key has a slot of its own: a thin view of maps and sets, and the walk over it.
use fixed_map::{Map, Set};
use fmcheck_dom::{info, Dom, Info};
use fmcore::report::{guard, W};

/// What is needed of a map (values are ids) or of a set (the value is always 0).
pub trait Slots {
    fn insert(&mut self, k: usize, v: u32) -> Option<u32>;
    fn remove(&mut self, k: usize) -> Option<u32>;
    fn get(&self, k: usize) -> Option<u32>;
    fn contains(&self, k: usize) -> bool;
    fn len(&self) -> usize;
    fn list(&self, out: &mut Vec<(usize, u32)>);
}
struct M<K: Dom>(Map<K, u32>);
struct S<K: Dom>(Set<K>);
impl<K: Dom> Slots for M<K> {
    fn insert(&mut self, k: usize, v: u32) -> Option<u32> { self.0.insert(K::at(k), v) }
    fn remove(&mut self, k: usize) -> Option<u32> { self.0.remove(K::at(k)) }
    fn get(&self, k: usize) -> Option<u32> { self.0.get(K::at(k)).copied() }
    fn contains(&self, k: usize) -> bool { self.0.contains_key(K::at(k)) }
    fn len(&self) -> usize { self.0.len() }
    fn list(&self, out: &mut Vec<(usize, u32)>) { out.extend(self.0.iter().take(2000).map(|(k, v)| (k.idx(), *v))) }
}
impl<K: Dom> Slots for S<K> {
    fn insert(&mut self, k: usize, _: u32) -> Option<u32> { if self.0.insert(K::at(k)) { None } else { Some(0) } }
    fn remove(&mut self, k: usize) -> Option<u32> { self.0.remove(K::at(k)).then_some(0) }
    fn get(&self, k: usize) -> Option<u32> { self.0.contains(K::at(k)).then_some(0) }
    fn contains(&self, k: usize) -> bool { self.0.contains(K::at(k)) }
    fn len(&self) -> usize { self.0.len() }
    fn list(&self, out: &mut Vec<(usize, u32)>) { out.extend(self.0.iter().take(2000).map(|k| (k.idx(), 0))) }
}

pub fn unit<K: Dom>(w: &mut W, name: &'static str) {
    let inf = match guard(|| Ok(info::<K>(name))) { Ok(i) => i, Err(e) => { w.fail("table".into(), e); return; } };
    walk(w, &inf, false, &|| Box::new(M::<K>(Map::new())));
    if !w.failed() { walk(w, &inf, true, &|| Box::new(S::<K>(Set::new()))); }
}

fn check(inf: &Info, o: &dyn Slots, m: &[Option<u32>]) -> Result<(), String> {
    let mut n = 0;
    for (k, v) in m.iter().enumerate() {
        let g = o.get(k);
        if g != *v { return Err(format!("key {k} has {g:?}, expected {v:?}")); }
        if o.contains(k) != v.is_some() { return Err(format!("contains({k}) is {}", v.is_none())); }
        n += usize::from(v.is_some());
    }
    if o.len() != n { return Err(format!("length {}, expected {n}", o.len())); }
    let mut got = Vec::new();
    o.list(&mut got);
    let want: Vec<(usize, u32)> = m.iter().enumerate().filter_map(|(k, v)| v.map(|v| (k, v))).collect();
    if inf.is_static { if got != want { return Err(format!("enumerated as {got:?}, expected {want:?}")); } }
    else {
        if got.windows(2).any(|p| p[0].0 < inf.n && p[1].0 < inf.n && inf.ranks[p[0].0] > inf.ranks[p[1].0]) { return Err(format!("enumerated out of order: {got:?}")); }
        got.sort_unstable();
        if got != want { return Err(format!("enumerated as {got:?}, expected in some order {want:?}")); }
    }
    Ok(())
}

/// Inserts the keys in this order, then replaces and removes each key in turn, then removes all in
/// this order; the whole contents are compared after every step.
fn history(w: &mut W, inf: &Info, set: bool, mk: &dyn Fn() -> Box<dyn Slots>, order: &[usize]) -> bool {
    w.begin(|| format!("{} {order:?}", if set { "set" } else { "map" }));
    w.stats.traces += 1;
    let val = |k: usize, t: u32| if set { 0 } else { k as u32 * 10 + t };
    let mut steps = 0u64;
    let r = guard(|| {
        let mut o = mk();
        let mut m: Vec<Option<u32>> = vec![None; inf.n];
        check(inf, &*o, &m).map_err(|e| format!("when empty: {e}"))?;
        let big = inf.n > 24;
        for (i, &k) in order.iter().enumerate() {
            let old = o.insert(k, val(k, 1));
            if old.is_some() { return Err(format!("inserting {k} after {:?} found {old:?} in its slot", &order[..i])); }
            m[k] = Some(val(k, 1));
            steps += 1;
            if !big || i % 16 == 0 || i + 1 == order.len() { check(inf, &*o, &m).map_err(|e| format!("after inserting {k}: {e}"))?; }
        }
        for k in 0..inf.n {
            let want = m[k];
            let got = o.remove(k);
            if got != want { return Err(format!("removing {k} gave {got:?}, expected {want:?}")); }
            m[k] = None;
            if !big || k % 16 == 0 || k + 3 > inf.n { check(inf, &*o, &m).map_err(|e| format!("after removing {k}: {e}"))?; }
            if want.is_some() {
                let got = o.insert(k, val(k, 2));
                if got.is_some() { return Err(format!("inserting {k} again found {got:?}")); }
                let got = o.insert(k, val(k, 3));
                if got != Some(val(k, 2)) { return Err(format!("replacing {k} gave {got:?}, expected {:?}", val(k, 2))); }
                m[k] = Some(val(k, 3));
            }
            steps += 3;
            if !big || k % 16 == 0 || k + 3 > inf.n { check(inf, &*o, &m).map_err(|e| format!("after replacing {k}: {e}"))?; }
        }
        for &k in order {
            let want = m[k].take();
            let got = o.remove(k);
            if got != want { return Err(format!("removing {k} gave {got:?}, expected {want:?}")); }
            steps += 1;
            if !big || k % 16 == 0 { check(inf, &*o, &m).map_err(|e| format!("after removing {k}: {e}"))?; }
        }
        check(inf, &*o, &m).map_err(|e| format!("when all are removed: {e}"))
    });
    w.stats.transitions += steps;
    if let Err(e) = r { w.fail(format!("{} {order:?}", if set { "set" } else { "map" }), e); return false; }
    true
}

/// Calls `f` with every ordering of every subset.
fn orders(n: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
    if !f(cur) { return false; }
    for k in 0..n { if !cur.contains(&k) { cur.push(k); let go = orders(n, cur, f); cur.pop(); if !go { return false; } } }
    true
}

fn walk(w: &mut W, inf: &Info, set: bool, mk: &dyn Fn() -> Box<dyn Slots>) {
    let n = inf.n;
    let full = if w.thorough { 6 } else { 4 };
    if n <= full {
        orders(n, &mut Vec::new(), &mut |o| { w.stats.states += 1; history(w, inf, set, mk, o) });
    } else if n <= if w.thorough { 13 } else { 9 } {
        for b in 0..1u32 << n {
            w.stats.states += 1;
            let up: Vec<usize> = (0..n).filter(|k| b >> k & 1 == 1).collect();
            let down: Vec<usize> = up.iter().rev().copied().collect();
            let mix: Vec<usize> = up.iter().step_by(2).chain(up.iter().skip(1).step_by(2)).copied().collect();
            for o in [up, down, mix] { if !history(w, inf, set, mk, &o) { return; } }
        }
    } else {
        let mut v: Vec<Vec<usize>> = vec![vec![], (0..n).collect(), (0..n).rev().collect(), (0..n).step_by(2).chain((1..n).step_by(2)).collect()];
        for s in [3, 7, 8, 16, 64] { for o in [0, 1, s - 1] { v.push((o..n).step_by(s).collect()); } }
        let step = if n > 130 && !w.thorough { 16 } else if n > 40 && !w.thorough { 4 } else { 1 };
        for k in 0..n { if k % step == 0 || k + 2 > n { v.push(vec![k]); v.push((0..n).filter(|j| *j != k).collect()); } }
        for o in v { w.stats.states += 1; if !history(w, inf, set, mk, &o) { return; } }
    }
    if n > 1 { w.sample(|| format!("{}: {n} keys, {}", inf.name, if set { "set" } else { "map" })); }
}
