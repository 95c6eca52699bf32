//! Explicit-state exploration of the real code in lockstep with a reference.
use crate::Info;
use crate::model::*;
use crate::obj::*;
use crate::report::{guard, W};
use std::collections::{HashMap, VecDeque};
use std::fmt::Debug;
use std::hash::Hash;

/// A system under test paired with its reference.
pub trait Sys {
    type Obj: ?Sized;
    type St: Clone + Eq + Hash + Debug;
    type Op: Clone + Debug;
    type Res: PartialEq + Debug;
    fn fresh(&self) -> Box<Self::Obj>;
    fn init(&self) -> Self::St;
    fn real(&self, o: &mut Self::Obj, op: &Self::Op) -> Self::Res;
    fn model(&self, s: &mut Self::St, op: &Self::Op) -> Self::Res;
    fn observe(&self, o: &Self::Obj, s: &Self::St) -> Result<(), String>;
    /// Called when a trace is over, with the object given up.
    fn done(&self, _o: Box<Self::Obj>, _s: &Self::St) -> Result<(), String> { Ok(()) }
}

/// Executes one history on a fresh object, comparing every result, and observing the state after
/// every operation from index `watch` on.
pub fn run_trace<S: Sys>(sys: &S, hist: &[S::Op], watch: usize) -> Result<S::St, String> {
    guard(|| {
        let mut o = sys.fresh();
        let mut s = sys.init();
        if hist.is_empty() || watch == 0 { sys.observe(&o, &s).map_err(|e| format!("initially: {e}"))?; }
        for (i, op) in hist.iter().enumerate() {
            let want = sys.model(&mut s, op);
            let got = sys.real(&mut o, op);
            if got != want { return Err(format!("step {i} {op:?} returned {got:?}, expected {want:?}")); }
            if i >= watch || i + 1 == hist.len() { sys.observe(&o, &s).map_err(|e| format!("after step {i} {op:?}: {e}"))?; }
        }
        sys.done(o, &s)?;
        Ok(s)
    })
}

fn report<S: Sys>(sys: &S, w: &mut W, hist: &[S::Op], e: &str) {
    // Replay once more: the same history must fail the same way.
    let again = match run_trace(sys, hist, 0) { Err(e2) => format!("replayed: {e2}"), Ok(_) => "replay did not fail (nondeterministic)".into() };
    w.fail(format!("{hist:?}"), format!("{e}; {again}"));
}

/// Breadth-first search over all states reachable within `within`; every (state, operation) pair is
/// executed on the real code. Returns a shortest history per state.
pub fn bfs<S: Sys>(sys: &S, ops: &[S::Op], within: &dyn Fn(&S::St) -> bool, w: &mut W) -> Vec<(S::St, Vec<S::Op>)> {
    let mut seen: HashMap<S::St, usize> = HashMap::new();
    let mut states: Vec<(S::St, Vec<S::Op>)> = vec![(sys.init(), vec![])];
    seen.insert(sys.init(), 0);
    let mut queue = VecDeque::from([0usize]);
    if let Err(e) = run_trace(sys, &[], 0) { report(sys, w, &[], &e); return states; }
    while let Some(i) = queue.pop_front() {
        let (_, hist) = states[i].clone();
        w.stats.states += 1;
        let mut h = hist.clone();
        for op in ops {
            h.push(op.clone());
            w.begin(|| format!("{h:?}"));
            w.stats.transitions += 1;
            w.stats.traces += 1;
            match run_trace(sys, &h, usize::MAX) {
                Err(e) => { report(sys, w, &h, &e); return states; }
                Ok(s) => {
                    if within(&s) && !seen.contains_key(&s) {
                        seen.insert(s.clone(), states.len());
                        queue.push_back(states.len());
                        states.push((s, h.clone()));
                    }
                }
            }
            h.pop();
        }
        if i == 0 || i == states.len() / 2 { w.sample(|| format!("{}: state {:?} via {:?}", "bfs", states[i].0, states[i].1)); }
    }
    states
}

/// Every sequence of exactly `depth` operations, with no state merging (state the reference does not
/// know about cannot hide behind a merge).
pub fn sequences<S: Sys>(sys: &S, ops: &[S::Op], depth: usize, w: &mut W) {
    if ops.is_empty() || depth == 0 { return; }
    let mut ix = vec![0usize; depth];
    let mut h: Vec<S::Op> = ix.iter().map(|&i| ops[i].clone()).collect();
    let mut n = 0u64;
    loop {
        w.begin(|| format!("{h:?}"));
        n += 1;
        w.stats.traces += 1;
        if let Err(e) = run_trace(sys, &h, usize::MAX) { report(sys, w, &h, &e); return; }
        let mut p = depth;
        loop {
            if p == 0 { w.extra("unmerged_sequences", n); return; }
            p -= 1;
            ix[p] += 1;
            if ix[p] < ops.len() { h[p] = ops[ix[p]].clone(); break; }
            ix[p] = 0;
            h[p] = ops[0].clone();
        }
    }
}

/// The deepest sequence length whose count stays below `budget`.
pub fn depth_for(nops: usize, budget: u64, max: usize) -> usize {
    let mut d = 0;
    let mut c = 1u64;
    while d < max { c = c.saturating_mul(nops.max(1) as u64); if c > budget { break; } d += 1; }
    d
}

/// Runs given histories, observing after every step; each counts as a trace.
pub fn histories<S: Sys>(sys: &S, hs: impl Iterator<Item = Vec<S::Op>>, w: &mut W) {
    for h in hs {
        w.begin(|| format!("{h:?}"));
        w.stats.traces += 1;
        w.extra("route_traces", 1);
        if let Err(e) = run_trace(sys, &h, usize::MAX) { report(sys, w, &h, &e); return; }
    }
}

// ---- maps and sets as systems ----------------------------------------------------------------------

pub struct MapSys { pub info: Info, pub mk: fn() -> Box<dyn MapObj> }
impl Sys for MapSys {
    type Obj = dyn MapObj;
    type St = Model;
    type Op = Op;
    type Res = Res;
    fn fresh(&self) -> Box<dyn MapObj> { (self.mk)() }
    fn init(&self) -> Model { vec![None; self.info.n] }
    fn real(&self, o: &mut (dyn MapObj + 'static), op: &Op) -> Res { apply_real(o, op) }
    fn model(&self, s: &mut Model, op: &Op) -> Res { apply_model(s, op) }
    fn observe(&self, o: &(dyn MapObj + 'static), s: &Model) -> Result<(), String> { let mut b = Seq::new(); observe(&self.info, o, s, &mut b) }
    fn done(&self, o: Box<dyn MapObj>, s: &Model) -> Result<(), String> {
        let mut b = Seq::new();
        o.into_seq(&mut b);
        check_seq(&self.info, s, "into_iter", true, true, &b)
    }
}
pub struct SetSys { pub info: Info, pub mk: fn() -> Box<dyn SetObj> }
impl Sys for SetSys {
    type Obj = dyn SetObj;
    type St = SModel;
    type Op = SOp;
    type Res = SRes;
    fn fresh(&self) -> Box<dyn SetObj> { (self.mk)() }
    fn init(&self) -> SModel { vec![false; self.info.n] }
    fn real(&self, o: &mut (dyn SetObj + 'static), op: &SOp) -> SRes { sapply_real(o, op) }
    fn model(&self, s: &mut SModel, op: &SOp) -> SRes { sapply_model(s, op) }
    fn observe(&self, o: &(dyn SetObj + 'static), s: &SModel) -> Result<(), String> { let mut b = Vec::new(); sobserve(&self.info, o, s, &mut b) }
    fn done(&self, o: Box<dyn SetObj>, s: &SModel) -> Result<(), String> {
        let mut b = Vec::new();
        o.into_seq(&mut b);
        scheck_seq(&self.info, s, "into_iter", &b)
    }
}

/// Histories that reach the given contents by different routes. `other` is a different value id.
pub fn routes(n: usize, m: &Model, other: u32) -> Vec<Vec<Op>> {
    let e = entries(m);
    let up: Vec<Op> = e.iter().map(|&(k, v)| Op::Insert(k, v)).collect();
    let down: Vec<Op> = e.iter().rev().map(|&(k, v)| Op::Insert(k, v)).collect();
    let mut r = vec![up.clone(), down.clone()];
    // overwrite
    let mut h: Vec<Op> = e.iter().map(|&(k, _)| Op::Insert(k, other)).collect();
    h.extend(down.clone());
    r.push(h);
    // fill everything, remove what is absent
    let fill: Vec<Op> = (0..n).map(|k| Op::Insert(k, m[k].unwrap_or(other))).collect();
    let mut h = fill.clone();
    h.extend((0..n).filter(|&k| m[k].is_none()).map(Op::Remove));
    r.push(h);
    // fill, retain
    let mut h = fill.clone();
    h.push(Op::Retain((0..n).map(|k| m[k].is_some()).collect(), None));
    r.push(h);
    // fill, clear, rebuild downwards
    let mut h = fill;
    h.push(Op::Clear);
    h.extend(down);
    r.push(h);
    // insert, remove, insert again
    let mut h = up.clone();
    h.extend(e.iter().map(|&(k, _)| Op::Remove(k)));
    h.extend(up);
    r.push(h);
    // through entries
    r.push(e.iter().map(|&(k, v)| Op::Entry(k, EOp::OrInsert(v, None))).collect());
    // through entries and mutable references
    let mut h: Vec<Op> = e.iter().map(|&(k, _)| Op::Entry(k, EOp::Match(vec![], EEnd::Drop, Some((other, None))))).collect();
    h.extend(e.iter().map(|&(k, v)| Op::GetMut(k, Some(v))));
    r.push(h);
    r
}
pub fn sroutes(n: usize, m: &SModel) -> Vec<Vec<SOp>> {
    let e = skeys(m);
    let up: Vec<SOp> = e.iter().map(|&k| SOp::Insert(k)).collect();
    let down: Vec<SOp> = e.iter().rev().map(|&k| SOp::Insert(k)).collect();
    let fill: Vec<SOp> = (0..n).map(SOp::Insert).collect();
    let mut r = vec![up.clone(), down.clone()];
    let mut h = up.clone();
    h.extend(down.clone());
    r.push(h);
    let mut h = fill.clone();
    h.extend((0..n).filter(|&k| !m[k]).map(SOp::Remove));
    r.push(h);
    let mut h = fill.clone();
    h.push(SOp::Retain(m.clone()));
    r.push(h);
    let mut h = fill;
    h.push(SOp::Clear);
    h.extend(down);
    r.push(h);
    let mut h = up.clone();
    h.extend(e.iter().map(|&k| SOp::Remove(k)));
    h.extend(up);
    r.push(h);
    r
}

/// Contents to build directly for key types too large to search: at most two present, at most one
/// absent, halves and strides.
pub fn large_subsets(n: usize, pairs_up_to: usize) -> Vec<Vec<bool>> {
    let mut v: Vec<Vec<bool>> = vec![vec![false; n], vec![true; n]];
    for i in 0..n {
        let mut s = vec![false; n];
        s[i] = true;
        v.push(s.clone());
        s.iter_mut().for_each(|b| *b = !*b);
        v.push(s);
    }
    if n <= pairs_up_to {
        for i in 0..n { for j in i + 1..n { let mut s = vec![false; n]; s[i] = true; s[j] = true; v.push(s); } }
    } else {
        for i in 0..n { for j in [i + 1, i + 7, i + 8, i + 16, i + 32, i + 64, i + 128] { if j < n { let mut s = vec![false; n]; s[i] = true; s[j] = true; v.push(s); } } }
    }
    for stride in [2, 3, 7, 8] { for o in 0..stride.min(n) { v.push((0..n).map(|i| i % stride == o).collect()); } }
    // numbers of entries around which tables grow, words fill up and counters overflow
    for cut in SIZES { if cut + 1 < n { v.push((0..n).map(|i| i < cut).collect()); } }
    for cut in [n / 3, n / 2] { v.push((0..n).map(|i| i < cut).collect()); v.push((0..n).map(|i| i >= cut).collect()); }
    v
}

const SIZES: [usize; 27] = [3, 4, 7, 8, 9, 14, 15, 16, 17, 28, 29, 31, 32, 33, 56, 63, 64, 65, 99, 100, 112, 127, 128, 129, 224, 255, 256];
/// The first `p` keys of a large type, for a `p` around which representations change.
pub fn at_size(s: &[bool], p: usize) -> bool { s.len() > 40 && SIZES.contains(&p) && s[..p].iter().all(|b| *b) }

/// All subsets of `n` keys if there are at most `2^full`, else the structured ones.
pub fn subsets(n: usize, full: usize, pairs_up_to: usize) -> Vec<Vec<bool>> {
    if n <= full { (0..1u64 << n).map(|b| (0..n).map(|i| b >> i & 1 == 1).collect()).collect() } else { large_subsets(n, pairs_up_to) }
}
/// Contents with a distinct value per key.
pub fn tagged(sub: &[bool]) -> Model { sub.iter().enumerate().map(|(i, b)| b.then_some(i as u32 + 10)).collect() }
/// Every contents over the given values.
pub fn all_models(n: usize, vals: &[u32]) -> Vec<Model> {
    let mut out: Vec<Model> = vec![vec![]];
    for _ in 0..n {
        out = out.into_iter().flat_map(|m| {
            let mut v = vec![{ let mut a = m.clone(); a.push(None); a }];
            v.extend(vals.iter().map(|x| { let mut a = m.clone(); a.push(Some(*x)); a }));
            v
        }).collect();
    }
    out
}
/// Builds a real map by a history.
pub fn build(mk: fn() -> Box<dyn MapObj>, h: &[Op]) -> Box<dyn MapObj> { let mut o = mk(); for op in h { apply_real(&mut *o, op); } o }
pub fn sbuild(mk: fn() -> Box<dyn SetObj>, h: &[SOp]) -> Box<dyn SetObj> { let mut o = mk(); for op in h { sapply_real(&mut *o, op); } o }

/// Thins out the subsets of very large key types for quick runs: empty, full, and single
/// present/absent keys near the ends and at strides.
pub fn thin(subs: Vec<Vec<bool>>, limit: usize) -> Vec<Vec<bool>> {
    subs.into_iter().filter(|s| {
        let n = s.len();
        if n <= limit { return true; }
        let p = s.iter().filter(|b| **b).count();
        let edge = |k: usize| k < 2 || k + 3 > n || k % 8 == 0 || k == 127 || k == 63;
        match p {
            0 => true,
            p if p == n => true,
            1 => edge(s.iter().position(|b| *b).unwrap()),
            p if p + 1 == n => edge(s.iter().position(|b| !*b).unwrap()),
            p => at_size(s, p),
        }
    }).collect()
}
