use fmcheck::prelude::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What may be stored under a key after an interrupted operation.
type May = Vec<Option<u32>>;

/// One operation that runs user code, on a map with known contents.
#[derive(Clone, Debug)]
enum F {
    /// keep mask; the value written by the predicate; panic after the write rather than before
    Retain(Vec<bool>, Option<u32>, bool),
    Clear,
    Drop,
    /// (taken from the front first)
    IntoDrop(usize),
    IntoForEach,
    OrInsertWith(usize),
    OrInsertWithKey(usize),
    OrDefault(usize),
    OrInsert(usize),
    AndModify(usize, bool),
    AndModifyOrInsert(usize),
    Insert(usize),
    Remove(usize),
    Clone,
    CloneFrom(Vec<bool>),
    Eq(Model),
    Fmt,
    IterMut(bool),
    ValuesMut(bool),
    Iter,
    Keys,
    /// a sequence of keys
    Collect(Vec<usize>),
    Assign,
}
const SITES: [(u8, &str); 8] = [(site::CLOSURE, "closure"), (site::CLONE, "clone"), (site::DROP, "destructor"), (site::EQ, "comparison"), (site::DEFAULT, "default"), (site::NEXT, "source iterator"), (site::FMT, "format"), (site::CMP, "ordering")];

fn ops(n: usize, m: &Model, full: bool) -> Vec<F> {
    let mut v = vec![F::Clear, F::Drop, F::IntoForEach, F::Clone, F::Fmt, F::IterMut(false), F::IterMut(true), F::ValuesMut(true), F::Iter, F::Keys, F::Assign];
    for j in 0..=present(m).min(3) { v.push(F::IntoDrop(j)); }
    let keeps = if n <= 3 || full && n <= 5 { subsets(n, n, 0) } else { vec![vec![true; n], vec![false; n], (0..n).map(|i| i % 2 == 0).collect(), (0..n).map(|i| i % 2 == 1).collect()] };
    for k in keeps { v.push(F::Retain(k.clone(), None, false)); v.push(F::Retain(k.clone(), Some(60), true)); if n <= 4 { v.push(F::Retain(k, Some(60), false)); } }
    for k in (0..n).filter(|k| n <= 10 || *k < 2 || k % if n > 130 { 64 } else { 16 } == 15 || *k + 1 == n) {
        v.extend([F::OrInsertWith(k), F::OrInsertWithKey(k), F::OrDefault(k), F::OrInsert(k), F::AndModify(k, false), F::AndModify(k, true), F::AndModifyOrInsert(k), F::Insert(k), F::Remove(k)]);
        let mut other = m.clone();
        other[k] = Some(61);
        v.push(F::Eq(other));
    }
    v.push(F::Eq(m.clone()));
    for s in if n <= 4 { subsets(n, n, 0) } else { vec![vec![true; n], (0..n).map(|i| i % 2 == 0).collect()] } { v.push(F::CloneFrom(s)); }
    if n > 0 { v.push(F::Collect((0..n).chain(0..n).collect())); v.push(F::Collect(vec![0, 0, n - 1, 0, n - 1])); }
    v
}

/// Runs the operation; `seen` records the keys whose processing started, in order.
fn act<K: Dom, T: Led>(slot: &mut Option<Map<K, T>>, f: &F, seen: &RefCell<Vec<usize>>) where K::MapStorage<T>: Clone + PartialEq {
    let o = slot.as_mut().expect("map");
    let hit = |k: usize| { seen.borrow_mut().push(k); tick(site::CLOSURE); };
    match f {
        F::Retain(keep, wr, late) => o.retain(|k, v| {
            let k = k.idx();
            if !late { hit(k); }
            if let Some(w) = wr { v.put(*w + k as u32); }
            if *late { hit(k); }
            keep[k]
        }),
        F::Clear => o.clear(),
        F::Drop => drop(slot.take()),
        F::IntoDrop(j) => { let mut it = slot.take().unwrap().into_iter(); for _ in 0..*j { let x = it.next(); std::mem::forget(x.map(|x| x.1).map(Held::new)); } drop(it); }
        F::IntoForEach => slot.take().unwrap().into_iter().for_each(|(k, v)| { hit(k.idx()); drop(v); }),
        F::OrInsertWith(k) => { o.entry(K::at(*k)).or_insert_with(|| { hit(*k); T::new(62) }); }
        F::OrInsertWithKey(k) => { o.entry(K::at(*k)).or_insert_with_key(|_| { let t = T::new(62); hit(*k); t }); }
        F::OrDefault(k) => { o.entry(K::at(*k)).or_default(); }
        F::OrInsert(k) => { let t = T::new(62); o.entry(K::at(*k)).or_insert(t); }
        F::AndModify(k, late) => { let _ = o.entry(K::at(*k)).and_modify(|v| { if !late { hit(*k); } v.put(63); if *late { hit(*k); } }); }
        F::AndModifyOrInsert(k) => { o.entry(K::at(*k)).and_modify(|v| { hit(*k); v.put(63); }).or_insert_with(|| { hit(*k); T::new(62) }); }
        F::Insert(k) => { drop(o.insert(K::at(*k), T::new(62))); }
        F::Remove(k) => { drop(o.remove(K::at(*k))); }
        F::Clone => { drop(o.clone()); }
        F::CloneFrom(_) | F::Eq(_) => unreachable!(),
        F::Fmt => { let _ = format!("{o:?}"); let _ = format!("{o:#?}"); }
        F::IterMut(late) => o.iter_mut().for_each(|(k, v)| { if !late { hit(k.idx()); } v.put(64); if *late { hit(k.idx()); } }),
        F::ValuesMut(_) => o.values_mut().for_each(|v| { v.put(64); hit(0); }),
        F::Iter => { o.iter().fold(0, |n, (k, v)| { hit(k.idx()); n + v.id() }); }
        F::Keys => o.keys().for_each(|k| hit(k.idx())),
        F::Collect(keys) => {
            let mut i = 0u32;
            let c: Map<K, T> = keys.iter().map(|&k| { tick(site::NEXT); i += 1; (K::at(k), T::new(70 + i)) }).collect();
            drop(c);
        }
        F::Assign => *o = Map::new(),
    }
}
/// Values deliberately kept by the caller: given up without running their destructor.
struct Held<T>(#[allow(dead_code)] T);
impl<T: Led> Held<T> { fn new(t: T) -> Self { HELD.with(|h| h.borrow_mut().push(t.id())); Held(t) } }
thread_local! { static HELD: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) }; }

/// What each key may hold afterwards, given the fault site.
fn may(n: usize, m: &Model, f: &F, kind: u8, seen: &[usize]) -> Vec<May> {
    let mut v: Vec<May> = m.iter().map(|x| vec![*x]).collect();
    match f {
        F::Retain(keep, wr, late) => {
            for (i, &k) in seen.iter().enumerate() {
                let last = i + 1 == seen.len();
                let orig = m[k];
                let new = wr.map(|w| Some(w + k as u32)).unwrap_or(orig);
                if kind == site::CLOSURE && last {
                    // its own processing was interrupted before a decision
                    v[k] = vec![if *late { new } else { orig }];
                } else {
                    v[k] = vec![new];
                    if !keep[k] { v[k].push(None); }
                    // a destructor run by the predicate's write, or by the rejection, may have panicked
                    if kind == site::DROP { v[k].push(orig); }
                }
            }
            // the write happens before the visit is recorded
            if kind == site::DROP && *late { for k in 0..n { if m[k].is_some() { if let Some(w) = wr { v[k].push(Some(w + k as u32)); } } } }
        }
        F::Clear | F::Assign => for x in &mut v { x.push(None); },
        F::AndModify(k, _) | F::AndModifyOrInsert(k) => if m[*k].is_some() { v[*k].push(Some(63)); } else if kind == site::DROP { v[*k].push(Some(62)); },
        F::Insert(k) => if kind == site::DROP { v[*k] = vec![Some(62)]; },
        F::Remove(k) => if kind == site::DROP { v[*k] = vec![None]; },
        F::IterMut(_) | F::ValuesMut(_) => for k in 0..n { if m[k].is_some() { v[k].push(Some(64)); } },
        _ => {}
    }
    v
}

fn contents<K: Dom, T: Led>(o: &Map<K, T>) -> Model { (0..K::N).map(|k| o.get(K::at(k)).map(Val::id)).collect() }
fn no_errors(when: &str) -> Result<(), String> { let e = errors(); if e.is_empty() { Ok(()) } else { Err(format!("{when}: {e:?}")) } }

/// The map is usable: consistent, operable on every key, and leaves nothing behind.
fn usable<K: Dom, T: Led>(inf: &Info, o: Map<K, T>, extra: &[u32], leaks: bool) -> Result<(), String> {
    let c = contents(&o);
    no_errors("reading")?;
    let mut w = MapW { m: o };
    observe(inf, &w, &c, &mut Seq::new())?;
    no_errors("observing")?;
    if !leaks {
        let mut want: Vec<u32> = c.iter().flatten().copied().chain(extra.iter().copied()).collect();
        want.sort_unstable();
        if live_ids() != want { return Err(format!("values alive are {:?}, stored {want:?}", live_ids())); }
    }
    let mut m = c;
    for k in (0..inf.n).filter(|k| inf.n <= 10 || k % 16 == 15) {
        for op in [Op::Insert(k, 90), Op::Remove(k), Op::Entry(k, EOp::OrInsert(91, None))] {
            let (a, b) = (apply_real(&mut w, &op), apply_model(&mut m, &op));
            if a != b { return Err(format!("afterwards {op:?} returned {a:?}, expected {b:?}")); }
        }
    }
    observe(inf, &w, &m, &mut Seq::new())?;
    w.clear();
    m.iter_mut().for_each(|x| *x = None);
    observe(inf, &w, &m, &mut Seq::new())?;
    drop(w);
    no_errors("at the end")?;
    if !leaks && live() != extra.len() { return Err(format!("{} values leaked: {:?}", live() - extra.len(), live_ids())); }
    Ok(())
}

fn unit<K: Dom, T: Led>(w: &mut W, name: &'static str, ord: Option<fn(&Map<K, T>, &Map<K, T>)>) where K::MapStorage<T>: Clone + PartialEq {
    let inf = info::<K>(name);
    let n = inf.n;
    let subs = if n <= if w.thorough { 6 } else { 4 } { subsets(n, n, 0) } else { let mut v: Vec<Vec<bool>> = vec![vec![false; n], vec![true; n], (0..n).map(|i| i % 2 == 0).collect(), (0..n).map(|i| i % 2 == 1).collect()]; for k in [0, n / 2, n - 1] { v.push((0..n).map(|i| i == k).collect()); v.push((0..n).map(|i| i != k).collect()); } v };
    for sub in subs {
        let m = tagged(&sub);
        w.stats.states += 1;
        for f in ops(n, &m, w.thorough) {
            for (kind, kname) in SITES {
                if kind == site::CMP && (ord.is_none() || !matches!(f, F::Eq(_))) { continue; }
                let mut nth = 0i64;
                loop {
                    w.begin(|| format!("{m:?} {f:?}, panic at {kname} call {nth}"));
                    reset();
                    HELD.with(|h| h.borrow_mut().clear());
                    let mut slot = Some(map_of::<K, T>(&m));
                    let seen = RefCell::new(Vec::new());
                    // a second map for the operations that take two
                    let other: Option<Map<K, T>> = match &f {
                        F::CloneFrom(s) => Some(map_of::<K, T>(&s.iter().enumerate().map(|(i, b)| b.then_some(i as u32 + 40)).collect::<Vec<_>>())),
                        F::Eq(m2) => Some(map_of::<K, T>(m2)),
                        _ => None,
                    };
                    let mut other = other;
                    arm(kind, nth);
                    let r = catch_unwind(AssertUnwindSafe(|| match (&f, &mut other) {
                        (F::CloneFrom(_), Some(b)) => b.clone_from(slot.as_ref().unwrap()),
                        (F::Eq(_), Some(b)) => { let a = slot.as_ref().unwrap(); if kind == site::CMP { ord.unwrap()(a, b) } else { let _ = (a == b, b != a); } }
                        _ => act(&mut slot, &f, &seen),
                    }));
                    let did = fired();
                    disarm();
                    w.stats.transitions += 1;
                    let r = match r {
                        Ok(()) => Ok(()),
                        Err(e) if e.is::<Injected>() => Err(()),
                        Err(e) => { w.fail(format!("{m:?} {f:?}, panic at {kname} call {nth}"), format!("another panic: {}", msg(e))); return; }
                    };
                    let seen = seen.into_inner();
                    let res = guard(|| {
                        if did != r.is_err() { return Err("the panic did not reach the caller".to_string()); }
                        no_errors("right afterwards")?;
                        // a panicking destructor may leak; so may the hash table crate when a clone panics inside it
                        let leaks = did && (kind == site::DROP || kind == site::CLONE && !inf.is_static);
                        let mut extra: Vec<u32> = HELD.with(|h| h.borrow().clone());
                        if let (F::CloneFrom(s), Some(b)) = (&f, &other) {
                            let cb = contents(b);
                            for k in 0..n {
                                let old = s[k].then_some(k as u32 + 40);
                                if did { if cb[k].is_some() && cb[k] != old && cb[k] != m[k] { return Err(format!("target holds {cb:?}")); } } else if cb[k] != m[k] { return Err("clone_from without a fault".into()); }
                            }
                            extra.extend(cb.iter().flatten());
                        }
                        if let (F::Eq(m2), Some(b)) = (&f, &other) {
                            if contents(b) != *m2 { return Err("the other map changed".into()); }
                            extra.extend(m2.iter().flatten());
                        }
                        if let Some(o) = &slot {
                            if did {
                                let c = contents(o);
                                let ok = may(n, &m, &f, kind, &seen);
                                for k in 0..n { if !ok[k].contains(&c[k]) { return Err(format!("key {k} holds {:?}, allowed {:?} (processed: {seen:?}); contents {c:?}", c[k], ok[k])); } }
                            }
                        } else if !leaks {
                            let mut want = extra.clone();
                            want.sort_unstable();
                            if live_ids() != want { return Err(format!("values alive are {:?}, expected {want:?}", live_ids())); }
                        }
                        if let Some(o) = slot.take() { usable(&inf, o, &extra, leaks)?; }
                        if let Some(b) = other.take() { extra.retain(|_| false); usable(&inf, b, &extra, leaks).map_err(|e| format!("second map: {e}"))?; }
                        no_errors("at the end")
                    });
                    if let Err(e) = res { w.fail(format!("{m:?} {f:?}, panic at {kname} call {nth}"), e); return; }
                    w.stats.traces += 1;
                    if !did { break; }
                    w.extra("faults_injected", 1);
                    nth += 1;
                    if n > 40 && nth > 3 && !w.thorough { nth += n as i64 / 4; }
                }
            }
        }
    }
    w.sample(|| format!("{name}: every operation on every contents with a panic at every call of user code"));
}

fn set_unit<K: Dom>(w: &mut W, name: &'static str) {
    let inf = info::<K>(name);
    let n = inf.n;
    let subs = if n <= 6 { subsets(n, n, 0) } else { thin(large_subsets(n, 0), 8) };
    for sub in subs {
        w.stats.states += 1;
        let keeps = if n <= 5 { subsets(n, n, 0) } else { vec![vec![true; n], vec![false; n], (0..n).map(|i| i % 2 == 0).collect()] };
        for (what, keep) in keeps.into_iter().map(|k| (0, k)).chain((1..6).map(|i| (i, vec![]))) {
            let mut nth = 0i64;
            loop {
                w.begin(|| format!("set {sub:?} case {what} {keep:?}, panic at call {nth}"));
                reset();
                let mut s = Some(set_of::<K>(&sub));
                let other = set_of::<K>(&vec![true; n]);
                let seen = RefCell::new(Vec::new());
                let hit = |k: K| { seen.borrow_mut().push(k.idx()); tick(site::CLOSURE); };
                arm(site::CLOSURE, nth);
                let r = catch_unwind(AssertUnwindSafe(|| { let o = s.as_mut().unwrap(); match what {
                    0 => o.retain(|k| { hit(k); keep[k.idx()] }),
                    1 => o.iter().for_each(hit),
                    2 => o.intersection(&other).for_each(hit),
                    3 => drop((0..2 * n).map(|i| { hit(K::at(i % n)); K::at(i % n) }).collect::<Set<K>>()),
                    4 => s.take().unwrap().into_iter().for_each(hit),
                    _ => { let _ = o.iter().find(|k| { hit(*k); false }); }
                } }));
                let did = fired();
                disarm();
                w.stats.transitions += 1;
                w.stats.traces += 1;
                let seen = seen.into_inner();
                let res = guard(|| {
                    if did != r.is_err() { return Err("the panic did not reach the caller".to_string()); }
                    let Some(o) = s else { return Ok(()) };
                    let c: SModel = (0..n).map(|k| o.contains(K::at(k))).collect();
                    for k in 0..n {
                        let processed = seen.iter().position(|x| *x == k).is_some_and(|p| !did || p + 1 < seen.len());
                        let ok = if what == 0 && processed && !keep[k] { !c[k] || did } else { c[k] == sub[k] };
                        if !ok { return Err(format!("key {k} present: {}, before: {} (processed: {seen:?})", c[k], sub[k])); }
                    }
                    let mut w = SetW { s: o };
                    let mut c = c;
                    sobserve(&inf, &w, &c, &mut Vec::new())?;
                    for k in (0..n).filter(|k| n <= 10 || k % 16 == 15) { for op in [SOp::Insert(k), SOp::Remove(k), SOp::Insert(k)] { let (a, b) = (sapply_real(&mut w, &op), sapply_model(&mut c, &op)); if a != b { return Err(format!("afterwards {op:?} returned {a:?}")); } } }
                    sobserve(&inf, &w, &c, &mut Vec::new())
                });
                if let Err(e) = res { w.fail(format!("set {sub:?} case {what} {keep:?}, panic at call {nth}"), e); return; }
                if !did { break; }
                w.extra("faults_injected", 1);
                nth += 1;
                if n > 40 && nth > 3 { nth += n as i64 / 6; }
            }
        }
    }
}

fn main() {
    let mut c = Ctx::new("C13", "model_checking");
    c.rule = "for every contents of every key type (small: all; large: structured) and every operation that runs user code: a panic injected at every single call of the closure, clone, destructor, comparison, default constructor, source iterator or formatter; afterwards no bad access in the value ledger, no leak (unless a destructor panicked), contents within what had been processed, and the collection fully usable".into();
    c.assumptions.push("a destructor that panics may leak other values; an entry already rejected by retain may still be present if a later call panics".into());
    c.assumptions.push("for dynamically stored keys the hash table crate (hashbrown 0.13.2) leaks copies already made when a value's clone panics; leaks in exactly that case are not reported".into());
    macro_rules! plain { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| { unit::<$t, Tok>(w, $n, None); if !w.failed() { set_unit::<$t>(w, $n) } }); )* } }
    macro_rules! unit_like { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| { unit::<$t, Tok>(w, $n, Some(|a, b| { let _ = (a.cmp(b), b.partial_cmp(a), a < b); })); if !w.failed() { set_unit::<$t>(w, $n) } }); )* } }
    fmcheck::zoo_unit!(unit_like);
    fmcheck::zoo_comp!(plain);
    fmcheck::zoo_base!(plain);
    fmcheck::zoo_dynprim!(plain);
    fmcheck::zoo_dyncomp!(plain);
    macro_rules! big { ($([$t:ty, $n:literal]),*) => { $( c.job(concat!($n, "/BigTok"), |w| unit::<$t, BigTok>(w, concat!($n, "/BigTok"), None)); )* } }
    big!([(), "()"], [bool, "bool"], [Option<bool>, "Option<bool>"], [fmcheck::zoo::U3, "U3"], [fmcheck::zoo::K3, "K3"], [fmcheck::zoo::NestA, "NestA"], [fmcheck::zoo::NestB, "NestB"], [fmcheck::zoo::C3UBS, "C3UBS"], [u8, "u8"], [Option<u8>, "Option<u8>"], [fmcheck::zoo::DA, "DA"]);
    c.finish()
}
