//! Mutable references reach exactly the addressed value, and can be held together.
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fmcheck::prelude::*;

/// (position, key or NOKEY, reference)
type Refs<'a, V> = Vec<(usize, usize, &'a mut V)>;
/// Ways to make an iterator hand out everything: one by one, or through a method that consumes it.
const DRIVES: usize = 12;
/// The first of them that needs both ends.
const BACKWARD: usize = 8;
fn forward<'a, V: Val, T>(mut it: impl Iterator<Item = T>, how: usize, f: impl Fn(T) -> (usize, &'a mut V)) -> Refs<'a, V> {
    let mut out = Vec::new();
    macro_rules! put { ($x:expr) => {{ assert!(out.len() < CAP, "endless"); out.push(f($x)); }} }
    match how {
        0 => for x in it.by_ref().take(CAP) { put!(x) },
        1 => it.for_each(|x| put!(x)),
        2 => it.fold((), |(), x| put!(x)),
        3 => { let _ = it.try_for_each(|x| { put!(x); if out.len() == CAP { Err(()) } else { Ok(()) } }); }
        4 => while let Some(x) = it.nth(0) { put!(x) },
        // a step, then all the rest at once
        5 => { if let Some(x) = it.next() { put!(x) } it.for_each(|x| put!(x)) }
        6 => { let v: Vec<T> = it.collect(); for x in v { put!(x) } }
        _ => { it.find_map(|x| { put!(x); None::<()> }); }
    }
    out.into_iter().enumerate().map(|(p, (k, v))| (p, k, v)).collect()
}
fn backward<'a, V: Val, T>(mut it: impl DoubleEndedIterator<Item = T>, how: usize, f: impl Fn(T) -> (usize, &'a mut V)) -> Refs<'a, V> {
    let mut out = Vec::new();
    macro_rules! put { ($x:expr) => {{ assert!(out.len() < CAP, "endless"); out.push(f($x)); }} }
    match how {
        8 => it.rev().for_each(|x| put!(x)),
        9 => it.rfold((), |(), x| put!(x)),
        10 => while let Some(x) = it.nth_back(0) { put!(x) },
        _ => { if let Some(x) = it.next_back() { put!(x) } it.rev().for_each(|x| put!(x)) }
    }
    out.into_iter().rev().enumerate().map(|(p, (k, v))| (p, k, v)).collect()
}
/// Takes everything from the front, holding all references; `kind`: iterator and way to drive it.
fn fronts<K: Dom, V: Val>(m: &mut Map<K, V>, kind: usize, _: u32) -> Refs<'_, V> {
    match kind % 3 {
        0 => forward(m.iter_mut(), kind / 3, |(k, v)| (k.idx(), v)),
        1 => forward(m.values_mut(), kind / 3, |v| (NOKEY, v)),
        _ => forward(m.into_iter(), kind / 3, |(k, v)| (k.idx(), v)),
    }
}
/// Takes from both ends as the pattern says, holding all references.
fn ends<'a, V: Val, T>(mut it: impl DoubleEndedIterator<Item = T>, drive: usize, pat: u32, f: impl Fn(T) -> (usize, &'a mut V)) -> Refs<'a, V> {
    if drive >= BACKWARD { return backward(it, drive, f); }
    if drive > 0 { return forward(it, drive, f); }
    let (mut front, mut back, mut i) = (Vec::new(), Vec::new(), 0);
    while front.len() + back.len() < CAP {
        let b = pat >> (i % 32) & 1 == 1;
        i += 1;
        let Some(x) = (if b { it.next_back() } else { it.next() }) else { break };
        if b { back.push(f(x)); } else { front.push(f(x)); }
    }
    front.extend(back.into_iter().rev());
    front.into_iter().enumerate().map(|(p, (k, v))| (p, k, v)).collect()
}
type Take<K, V> = for<'a> fn(&'a mut Map<K, V>, usize, u32) -> Refs<'a, V>;

/// Orders in which to write through `p` references held together.
fn plans(p: usize, thorough: bool) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    if p <= if thorough { 5 } else { 4 } {
        // every partial permutation
        let mut grow = out.clone();
        for _ in 0..p {
            grow = grow.into_iter().flat_map(|s| (0..p).filter(|x| !s.contains(x)).map(|x| { let mut t = s.clone(); t.push(x); t }).collect::<Vec<_>>()).collect();
            out.extend(grow.iter().cloned());
        }
        return out;
    }
    for i in 0..p { if p > 40 && i % 16 > 1 && i + 2 < p { continue; } out.push(vec![i]); if i + 1 < p { out.push(vec![i + 1, i]); } if p <= 12 { for j in 0..p { if i != j { out.push(vec![i, j]); } } } }
    out.push((0..p).collect());
    out.push((0..p).rev().collect());
    out.push((0..p).step_by(2).collect());
    out
}
/// Ways to get a reference by key.
const BY: usize = 12;
fn by_key<K: Dom, V: Val>(o: &mut Map<K, V>, m: &mut Model, k: usize, how: usize, a: u32, b: u32) -> Result<(), String> {
    let key = K::at(k);
    // writes `a` then `b` through one reference, reading in between
    let two = |r: &mut V, was: u32| -> Result<(), String> {
        if r.id() != was { return Err(format!("the reference reads {}, expected {was}", r.id())); }
        r.put(a);
        if r.id() != a { return Err(format!("reads {} after writing {a}", r.id())); }
        let copy: &V = r;
        if copy.id() != a { return Err("reborrowed".into()); }
        *r = V::mk(b);
        if r.id() != b { return Err(format!("reads {} after assigning {b}", r.id())); }
        Ok(())
    };
    let old = m[k];
    match how {
        0 => match o.get_mut(key) { Some(r) if old.is_some() => { two(r, old.unwrap())?; m[k] = Some(b); } None if old.is_none() => {} x => return Err(format!("get_mut gives {:?}", x.map(|v| v.id()))) },
        1 => { two(o.entry(key).or_insert(V::mk(a)), old.unwrap_or(a))?; m[k] = Some(b); }
        2 => { two(o.entry(key).or_insert_with(|| V::mk(a)), old.unwrap_or(a))?; m[k] = Some(b); }
        3 => { two(o.entry(key).or_insert_with_key(|_| V::mk(a)), old.unwrap_or(a))?; m[k] = Some(b); }
        4 => { let mut r = Ok(()); let e = o.entry(key).and_modify(|v| r = two(v, old.unwrap_or(0))); drop(e); r?; if old.is_some() { m[k] = Some(b); } }
        5 => { let mut r = Ok(()); let e = o.entry(key).and_modify(|v| r = two(v, old.unwrap_or(0))).or_insert(V::mk(b)); if e.id() != b { return Err("the reference after and_modify().or_insert()".into()); } r?; m[k] = Some(b); }
        6..=10 => match o.entry(key) {
            Entry::Occupied(mut e) => match how {
                6 => { let was = old.ok_or("occupied although absent")?; two(e.get_mut(), was)?; if e.get().id() != b || e.get_mut().id() != b { return Err("get after get_mut".into()); } m[k] = Some(b); }
                7 => { two(e.into_mut(), old.ok_or("occupied although absent")?)?; m[k] = Some(b); }
                8 => { let back = e.insert(V::mk(a)); if Some(back.id()) != old { return Err(format!("replaced {}", back.id())); } two(e.into_mut(), a)?; m[k] = Some(b); }
                9 => { e.get_mut().put(a); let back = e.insert(V::mk(b)); if back.id() != a { return Err(format!("replaced {}, expected what was just written", back.id())); } m[k] = Some(b); }
                _ => { e.get_mut().put(a); let back = e.remove(); if back.id() != a { return Err(format!("removed {}, expected what was just written", back.id())); } m[k] = None; }
            },
            Entry::Vacant(e) => { if old.is_some() { return Err("vacant although present".into()); } if how != 10 { two(e.insert(V::mk(a)), a)?; m[k] = Some(b); } }
        },
        _ => { let mut r = Ok(()); o.retain(|x, v| { if x.idx() == k { r = two(v, old.unwrap_or(0)); } true }); r?; if old.is_some() { m[k] = Some(b); } }
    }
    Ok(())
}

fn unit<K: Dom, V: Val>(w: &mut W, name: &'static str, take: Take<K, V>, de: bool) {
    let inf = info::<K>(name);
    let n = inf.n;
    let small = std::any::TypeId::of::<V>() != std::any::TypeId::of::<u32>();
    let full = if w.thorough { 9 } else if small { 6 } else { 8 };
    let subs = if n <= full { subsets(n, full, 0) } else if n > 60 && !w.thorough { let f = vec![true; n]; let mut v = vec![vec![false; n], f.clone(), (0..n).map(|i| i % 3 == 1).collect()]; for k in [0, 1, n / 2, n - 1] { let mut s = f.clone(); s[k] = false; v.push(s); v.push((0..n).map(|i| i == k).collect()); } if !inf.is_static && std::any::TypeId::of::<V>() == std::any::TypeId::of::<u32>() { for p in (2..40).chain([48, 56, 57, 63, 64, 65, 100, 112, 127, 128, 129, 224, 255, 256, 257]) { v.push((0..n).map(|i| i < p).collect()); } } v } else { thin(subsets(n, 0, 0), if w.thorough { 80 } else if small { 0 } else { 12 }) };
    let sized = std::mem::size_of::<V>() > 0;
    for sub in &subs {
        w.stats.states += 1;
        let mut next = 100u32;
        let mut fresh = || { next += 1; next % V::CARD };
        let mut m: Model = tagged(sub).into_iter().map(|v| v.map(|v| v % V::CARD)).collect();
        let p = present(&m);
        let mut buf = Seq::new();
        let r = guard(|| {
            reset();
            let mut o: MapW<K, V> = MapW { m: map_of::<K, V>(&m) };
            // all references of an iterator held together
            let pats: Vec<u32> = if !de { vec![0] } else if p <= 3 || w.thorough && p <= 5 { (0..1u32 << p).collect() } else { vec![0, !0, 0x5555_5555, 0x3333_3333, 0xffff_fffe, 1] };
            let plans = plans(p, w.thorough);
            for kind in 0..3 * if de { DRIVES } else { BACKWARD } { for &pat in if kind < 3 { &pats[..] } else { &pats[..1] } {
                let order: Vec<usize> = o.m.keys().take(CAP).map(|k| k.idx()).collect();
                if order.len() != p { return Err(format!("{} keys, expected {p}", order.len())); }
                for (pi, plan) in plans.iter().enumerate() {
                    // the other ways to drive it: one write of everything
                    if kind >= 3 && pi + 1 != plans.len() { continue; }
                    if pat != 0 && p > 3 && (pi + pat as usize) % 3 != 0 && !w.thorough { continue; }
                    w.begin(|| format!("{m:?} iterator {kind} pattern {pat:x} writes {plan:?}"));
                    w.stats.traces += 1;
                    w.stats.transitions += plan.len() as u64;
                    {
                        let mut refs = take(&mut o.m, kind, pat);
                        if refs.len() != p { return Err(format!("iterator {kind} pattern {pat:x} hands out {} references, expected {p}", refs.len())); }
                        if sized { let mut ad: Vec<usize> = refs.iter().map(|r| r.2 as *const V as usize).collect(); ad.sort_unstable(); ad.dedup(); if ad.len() != p { return Err(format!("iterator {kind} pattern {pat:x}: two references to one value")); } }
                        for &at in plan {
                            let v = fresh();
                            if v % 2 == 0 { refs[at].2.put(v); } else { *refs[at].2 = V::mk(v); }
                            m[order[at]] = Some(v);
                        }
                        // every reference still reads its own value
                        for r in &refs { if Some(r.2.id()) != m[order[r.0]] || kind % 3 != 1 && r.1 != order[r.0] { return Err(format!("iterator {kind} pattern {pat:x} writes {plan:?}: reference {} reads {} (key {}), expected {:?} of key {}", r.0, r.2.id(), r.1, m[order[r.0]], order[r.0])); } }
                        // exchange two values through their references
                        if plan.len() == 2 { let (a, b) = (plan[0].min(plan[1]), plan[0].max(plan[1])); let (x, y) = refs.split_at_mut(b); std::mem::swap(&mut *x[a].2, &mut *y[0].2); m.swap(order[a], order[b]); }
                    }
                    observe(&inf, &o, &m, &mut buf).map_err(|e| format!("iterator {kind} pattern {pat:x} writes {plan:?}: {e}"))?;
                }
            } }
            // references by key
            let keys: Vec<usize> = (0..n).filter(|k| n <= 12 || k % if n > 60 { 32 } else { 8 } == 0 || k + 2 > n || *k < 2).collect();
            for &k in &keys { for how in 0..BY {
                w.begin(|| format!("{m:?} reference {how} to key {k}"));
                w.stats.traces += 1;
                w.stats.transitions += 2;
                let save = m.clone();
                by_key(&mut o.m, &mut m, k, how, fresh(), fresh()).map_err(|e| format!("reference {how} to key {k}: {e}"))?;
                observe(&inf, &o, &m, &mut buf).map_err(|e| format!("reference {how} to key {k}: {e}"))?;
                // back to the contents under study, from which the next way starts
                o = MapW { m: map_of::<K, V>(&save) };
                m = save;
            } }
            // two references by key, one after the other
            if n <= 4 && !small { for &k in &keys { for how in 0..BY { for &k2 in &keys { for how2 in 0..BY {
                w.begin(|| format!("{m:?} references {how} to key {k}, {how2} to key {k2}"));
                w.stats.traces += 1;
                w.stats.transitions += 4;
                let (mut o, mut m) = (map_of::<K, V>(&m), m.clone());
                by_key(&mut o, &mut m, k, how, fresh(), fresh()).and_then(|()| by_key(&mut o, &mut m, k2, how2, fresh(), fresh())).map_err(|e| format!("reference {how} to key {k}, then {how2} to key {k2}: {e}"))?;
                observe_map(&inf, o, &m).map_err(|e| format!("reference {how} to key {k}, then {how2} to key {k2}: {e}"))?;
            } } } } }
            drop(o);
            if live() != 0 || !errors().is_empty() { return Err(format!("ledger: {:?} alive, {:?}", live_ids(), errors())); }
            Ok(())
        });
        if let Err(e) = r { w.fail(format!("contents {sub:?} of {}", V::NAME), e); return; }
    }
    w.sample(|| format!("{name} with values of type {}: {} contents", V::NAME, subs.len()));
}

fn main() {
    let mut c = Ctx::new("C21", "model_checking");
    c.rule = "every contents of small key types (structured contents of large ones): all references of each mutable iterator held together, taken in every front/back pattern and through eleven consuming methods, written in every order of every subset of up to four; exchanged pairwise; every way to get a reference by key on every key, and every two in sequence; after each the whole map is compared through every accessor".into();
    macro_rules! ends { ($t:ty, $v:ty) => { |m: &mut Map<$t, $v>, kind: usize, pat: u32| -> Refs<'_, $v> { match kind % 3 {
        0 => ends(m.iter_mut(), kind / 3, pat, |(k, v)| (Dom::idx(k), v)),
        1 => ends(m.values_mut(), kind / 3, pat, |v| (NOKEY, v)),
        _ => ends(m.into_iter(), kind / 3, pat, |(k, v)| (Dom::idx(k), v)),
    } } } }
    macro_rules! stat { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| {
        unit::<$t, u32>(w, $n, ends!($t, u32), true);
        if !w.failed() { unit::<$t, Tok>(w, $n, ends!($t, Tok), true); }
        if !w.failed() { unit::<$t, Option<bool>>(w, $n, ends!($t, Option<bool>), true); }
        if !w.failed() { unit::<$t, ()>(w, $n, ends!($t, ()), true); }
    }); )* } }
    macro_rules! dynamic { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| {
        unit::<$t, u32>(w, $n, fronts::<$t, u32>, false);
        if !w.failed() { unit::<$t, Tok>(w, $n, fronts::<$t, Tok>, false); }
        if !w.failed() { unit::<$t, Option<bool>>(w, $n, fronts::<$t, Option<bool>>, false); }
    }); )* } }
    fmcheck::zoo_large!(stat);
    fmcheck::zoo_base!(stat);
    fmcheck::zoo_small!(stat);
    fmcheck::zoo_dynprim!(dynamic);
    fmcheck::zoo_dyncomp!(dynamic);
    c.finish()
}
