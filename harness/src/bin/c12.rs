use fmcheck::prelude::*;
use std::cell::Cell;

/// Ledger state: exactly these ids alive, and no bad access.
fn alive(want: impl Iterator<Item = u32>, when: &str) -> Result<(), String> {
    let mut want: Vec<u32> = want.collect();
    want.sort_unstable();
    let got = live_ids();
    if got != want { return Err(format!("{when}: values alive are {got:?}, expected {want:?}")); }
    let e = errors();
    if !e.is_empty() { return Err(format!("{when}: {e:?}")); }
    Ok(())
}
fn held(m: &Model) -> impl Iterator<Item = u32> + '_ { m.iter().flatten().copied() }

/// Operations at the level of ownership; `next` gives every inserted value its own id.
#[derive(Clone, Copy, Debug)]
enum Own { Insert(usize), Remove(usize), Clear, RetainNot(usize), RetainOnly(usize), RetainNone, OrInsert(usize), OrWith(usize), OrKey(usize), OccInsert(usize), OccRemove(usize), OccDrop(usize), VacInsert(usize), VacDrop(usize), AssignMut(usize), AssignAll, Take, Refill, ModInsert(usize) }

fn step<K: Dom, T: Led>(o: &mut Map<K, T>, m: &mut Model, op: Own, next: &mut u32) -> Result<(), String> {
    use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
    let mut fresh = || { *next += 1; *next };
    let back = |got: Option<T>, want: Option<u32>, m: &Model| -> Result<(), String> {
        // handed back: alive and ours
        let g = got.as_ref().map(Val::id);
        if g != want { return Err(format!("{op:?} handed back {g:?}, expected {want:?}")); }
        alive(held(m).chain(want), &format!("{op:?}, value handed back"))?;
        drop(got);
        alive(held(m), &format!("{op:?}, value handed back and dropped"))
    };
    match op {
        Own::Insert(k) => { let id = fresh(); let old = m[k].replace(id); let got = o.insert(K::at(k), T::new(id)); back(got, old, m) }
        Own::Remove(k) => { let old = m[k].take(); let got = o.remove(K::at(k)); back(got, old, m) }
        Own::Clear => { m.iter_mut().for_each(|v| *v = None); o.clear(); alive(held(m), "clear") }
        Own::RetainNot(_) | Own::RetainOnly(_) | Own::RetainNone => {
            for i in 0..m.len() { if !match op { Own::RetainNot(k) => i != k, Own::RetainOnly(k) => i == k, _ => false } { m[i] = None; } }
            o.retain(|i, _| match op { Own::RetainNot(k) => i.idx() != k, Own::RetainOnly(k) => i.idx() == k, _ => false });
            alive(held(m), "retain")
        }
        Own::OrInsert(k) | Own::OrWith(k) | Own::OrKey(k) => {
            let id = fresh();
            let old = *m[k].get_or_insert(id);
            let e = o.entry(K::at(k));
            let r = match op { Own::OrInsert(_) => e.or_insert(T::new(id)), Own::OrWith(_) => e.or_insert_with(|| T::new(id)), _ => e.or_insert_with_key(|_| T::new(id)) };
            if r.id() != old { return Err(format!("{op:?} refers to {}", r.id())); }
            alive(held(m), "entry or_insert")
        }
        Own::ModInsert(k) => {
            let (a, b) = (fresh(), fresh());
            m[k] = Some(if m[k].is_some() { a } else { b });
            let r = o.entry(K::at(k)).and_modify(|v| *v = T::new(a)).or_insert(T::new(b));
            if Some(r.id()) != m[k] { return Err(format!("{op:?} refers to {}", r.id())); }
            alive(held(m), "and_modify().or_insert()")
        }
        Own::OccInsert(k) | Own::OccRemove(k) | Own::OccDrop(k) => match o.entry(K::at(k)) {
            Entry::Occupied(mut e) => {
                let old = m[k];
                match op {
                    Own::OccInsert(_) => { let id = fresh(); m[k] = Some(id); let got = Some(e.insert(T::new(id))); back(got, old, m)?; drop(e); }
                    Own::OccRemove(_) => { m[k] = None; let got = Some(e.remove()); back(got, old, m)?; }
                    _ => drop(e),
                }
                alive(held(m), "occupied entry")
            }
            Entry::Vacant(e) => { drop(e); alive(held(m), "unused vacant entry") }
        },
        Own::VacInsert(k) | Own::VacDrop(k) => match o.entry(K::at(k)) {
            Entry::Vacant(e) => {
                if let Own::VacInsert(_) = op { let id = fresh(); m[k] = Some(id); let r = e.insert(T::new(id)); if r.id() != id { return Err("vacant insert".into()); } alive(held(m), "vacant insert") }
                else { drop(e); alive(held(m), "unused vacant entry") }
            }
            Entry::Occupied(e) => { let r = e.into_mut(); if Some(r.id()) != m[k] { return Err("into_mut".into()); } alive(held(m), "into_mut") }
        },
        Own::AssignMut(k) => { if let Some(r) = o.get_mut(K::at(k)) { let id = fresh(); m[k] = Some(id); *r = T::new(id); } alive(held(m), "assignment through get_mut") }
        Own::AssignAll => {
            let mut old = Vec::new();
            let mut ids = Vec::new();
            for (k, v) in o.iter_mut() { let id = fresh(); ids.push((k.idx(), id)); old.push(std::mem::replace(v, T::new(id))); }
            let was: Vec<u32> = held(m).collect();
            for (k, id) in ids { m[k] = Some(id); }
            alive(held(m).chain(was), "replacing all values")?;
            drop(old);
            alive(held(m), "dropping all replaced values")
        }
        Own::Take => { let old = std::mem::take(o); alive(held(m), "mem::take")?; drop(old); m.iter_mut().for_each(|v| *v = None); alive(held(m), "dropping a map") }
        Own::Refill => {
            // every key twice: superseded values are dropped
            let ids: Vec<u32> = (0..2 * m.len()).map(|_| fresh()).collect();
            let n = m.len();
            *o = (0..2 * n).map(|i| (K::at(i % n), T::new(ids[i]))).collect();
            for i in 0..n { m[i] = Some(ids[n + i]); }
            alive(held(m), "assigning a collected map")
        }
    }
}

fn run<K: Dom, T: Led>(hist: &[Own], inf: &Info, end: impl FnOnce(Map<K, T>, Model) -> Result<(), String>) -> Result<(), String> {
    reset();
    guard(|| {
        let mut o: Map<K, T> = Map::new();
        let mut m: Model = vec![None; inf.n];
        let mut next = 100;
        // long prefixes of insertions into large types are checked at their end only
        let plain = if inf.n > 12 { hist.iter().take_while(|h| matches!(h, Own::Insert(_))).count().saturating_sub(2) } else { 0 };
        for op in &hist[..plain] { if let Own::Insert(k) = op { next += 1; m[*k] = Some(next); if o.insert(K::at(*k), T::new(next)).is_some() { return Err("insert handed back a value".into()); } } }
        if plain > 0 { alive(held(&m), "inserted")?; }
        for (i, op) in hist.iter().enumerate().skip(plain) { step(&mut o, &mut m, *op, &mut next).map_err(|e| format!("step {i}: {e}"))?; }
        end(o, m)?;
        alive(std::iter::empty(), "at the end")
    })
}
fn keys_ops(n: usize, few: bool) -> Vec<Own> {
    let mut v = vec![Own::Clear, Own::RetainNone, Own::AssignAll, Own::Take, Own::Refill];
    for k in (0..n).filter(|k| !few || *k < 2 || k % 16 == 0 || *k + 2 > n) {
        v.extend([Own::Insert(k), Own::Remove(k), Own::RetainNot(k), Own::RetainOnly(k), Own::OrInsert(k), Own::OrWith(k), Own::OrKey(k), Own::OccInsert(k), Own::OccRemove(k), Own::OccDrop(k), Own::VacInsert(k), Own::VacDrop(k), Own::AssignMut(k), Own::ModInsert(k)]);
    }
    v
}
type Eaten<K, T> = fn(Map<K, T>, &Model, usize, usize) -> Result<(), String>;
type Into<K, T> = fn(Map<K, T>, &Model, u32, usize, bool) -> Result<(), String>;

fn unit<K: Dom, T: Led>(w: &mut W, name: &'static str, de: bool, into: Into<K, T>, eaten: Eaten<K, T>) where K::MapStorage<T>: Clone + PartialEq {
    let inf = info::<K>(name);
    let n = inf.n;
    let subs = thin(subsets(n, if w.thorough { 9 } else { 6 }, 0), if w.thorough { 140 } else { 20 });
    let ops = keys_ops(n, n > 10);
    for sub in &subs {
        w.stats.states += 1;
        let base: Vec<Own> = skeys(sub).into_iter().map(Own::Insert).collect();
        // every operation, then every second operation for small types, then drop
        for op in &ops {
            let mut h = base.clone();
            h.push(*op);
            w.begin(|| format!("{h:?}"));
            w.stats.transitions += 1;
            w.stats.traces += 1;
            if let Err(e) = run::<K, T>(&h, &inf, |o, _| { drop(o); Ok(()) }) { w.fail(format!("{h:?}"), e); return; }
            if n <= 3 || w.thorough && n <= 5 {
                for op2 in &ops {
                    h.push(*op2);
                    w.begin(|| format!("{h:?}"));
                    w.stats.transitions += 1;
                    w.stats.traces += 1;
                    if let Err(e) = run::<K, T>(&h, &inf, |o, _| { drop(o); Ok(()) }) { w.fail(format!("{h:?}"), e); return; }
                    h.pop();
                }
            }
        }
        // owning iterators: every pattern of takes, then drop; taken values stay alive until dropped
        let p = base.len();
        let pats: Vec<(u32, usize)> = if p <= if w.thorough { 9 } else { 6 } { (0..=p + 1).flat_map(|len| (0..if de { 1u32 << len } else { 1 }).map(move |b| (b, len))).collect() }
            else { (0..=p + 1).filter(|l| p < 40 || w.thorough || l % if p > 150 { 64 } else { 16 } == 0 || l + 2 > p).flat_map(|len| if de { vec![(0, len), (!0, len), (0x5555_5555, len)] } else { vec![(0, len)] }).collect() };
        for (b, len) in pats {
            for keep in [false, true] {
                w.begin(|| format!("{base:?}, then {len} steps {b:b}"));
                w.stats.transitions += 1;
                w.stats.traces += 1;
                if let Err(e) = run::<K, T>(&base, &inf, |o, m| into(o, &m, b, len, keep)) { w.fail(format!("{base:?}, owning iterator, {len} steps {b:b}, taken values kept: {keep}"), e); return; }
            }
        }
        // methods that consume the owning iterator, or a part of it
        let js: Vec<usize> = (0..=p + 1).filter(|j| p <= if w.thorough { 40 } else { 7 } || *j < 2 || j + 2 > p || *j == p / 2).collect();
        for how in 0..if de { EATS + EATS_BACK + EATS } else { EATS } {
            let indexed = if de { how < EATS_BACK && how != 3 || how >= EATS_BACK && (how - EATS_BACK) % EATS < 12 } else { how < 12 };
            for &j in if indexed { &js[..] } else { &js[..1] } {
                w.begin(|| format!("{base:?}, then way {how} of consuming the owning iterator, {j}"));
                w.stats.transitions += 1;
                w.stats.traces += 1;
                if let Err(e) = run::<K, T>(&base, &inf, |o, m| eaten(o, &m, how, j)) { w.fail(format!("{base:?}, owning iterator, way {how} of consuming it, {j}"), e); return; }
            }
        }
        // clones and comparison leave ownership alone; clone then drop in both orders
        let r = run::<K, T>(&base, &inf, |o, m| {
            let c = o.clone();
            alive(held(&m).chain(held(&m)), "after clone")?;
            let _ = c == o;
            alive(held(&m).chain(held(&m)), "after ==")?;
            if n % 2 == 0 { drop(o); } else { let mut o = o; o.clear(); drop(o); }
            alive(held(&m), "after dropping the original")?;
            drop(c);
            Ok(())
        });
        w.stats.transitions += 1;
        if let Err(e) = r { w.fail(format!("{base:?}, clone"), e); return; }
        // values by position, and unused iterators of all kinds
        let r = run::<K, T>(&base, &inf, |mut o, m| {
            drop((o.iter(), o.keys(), o.values()));
            drop(o.iter_mut());
            drop(o.values_mut());
            alive(held(&m), "unused iterators")?;
            let it = o.into_iter();
            alive(held(&m), "unused owning iterator")?;
            drop(it);
            Ok(())
        });
        if let Err(e) = r { w.fail(format!("{base:?}, unused iterators"), e); return; }
    }
    // all unmerged sequences of the main operations
    if n <= 4 {
        let main: Vec<Own> = (0..n).flat_map(|k| [Own::Insert(k), Own::Remove(k), Own::OccRemove(k), Own::VacInsert(k)]).chain([Own::Clear]).collect();
        let depth = depth_for(main.len(), if w.thorough { 1_000_000 } else { 20_000 }, 6);
        let mut ix = vec![0; depth];
        'all: loop {
            let h: Vec<Own> = ix.iter().map(|&i| main[i]).collect();
            w.begin(|| format!("{h:?}"));
            w.stats.traces += 1;
            w.extra("unmerged_sequences", 1);
            if let Err(e) = run::<K, T>(&h, &inf, |o, _| { drop(o); Ok(()) }) { w.fail(format!("{h:?}"), e); return; }
            let mut p = depth;
            loop { if p == 0 { break 'all; } p -= 1; ix[p] += 1; if ix[p] < main.len() { break; } ix[p] = 0; }
        }
    }
    w.sample(|| format!("{name}: {} contents x {} operations, ledger compared after every one", subs.len(), ops.len()));
}

// ---- methods that consume the owning iterator, or a part of it ---------------------------------------
const EATS: usize = 20;
/// Eats the owning iterator in way `how` (the first few up to or including position `j`); values handed
/// back stay alive until dropped, all others are dropped at once.
fn eat<K, T: Led>(mut it: impl Iterator<Item = (K, T)>, m: &Model, how: usize, j: usize) -> Result<(), String> {
    let all: Vec<u32> = held(m).collect();
    let p = all.len();
    // how many are alive, and that none is damaged
    let count = |want: usize, when: &str| {
        let got = live_ids();
        if got.len() != want || got.iter().any(|g| !all.contains(g)) { return Err(format!("{when}: values alive are {got:?} of {all:?}, expected {want} of them")); }
        let e = errors();
        if e.is_empty() { Ok(()) } else { Err(format!("{when}: {e:?}")) }
    };
    let rest = p.saturating_sub(j + 1);
    let dropper = |n: &mut usize, v: T| { *n += 1; drop(v); count(p - *n, "inside the function") };
    let mut n = 0;
    let mut bad = Ok(());
    match how {
        0 => { let got = it.nth(j); count(rest + usize::from(got.is_some()), "nth")?; if got.is_some() != (j < p) { return Err("nth".into()); } drop(got); count(rest, "nth, handed back and dropped")?; drop(it); }
        1 => { let a = it.next(); let got = it.nth(j); count(p.saturating_sub(j + 2) + usize::from(a.is_some()) + usize::from(got.is_some()), "next, nth")?; drop(it); count(usize::from(a.is_some()) + usize::from(got.is_some()), "next, nth, iterator dropped")?; }
        2 => { while let Some((_, v)) = it.nth(j) { let id = v.id(); count(live_ids().len(), "nth repeated")?; if !all.contains(&id) { return Err(format!("yielded {id}")); } n += j + 1; drop(v); count(p.saturating_sub(n), "nth repeated")?; } count(0, "nth to the end")?; drop(it); }
        3 => { let got = it.any({ let mut i = 0; move |_| { i += 1; i > j } }); if got != (j < p) { return Err("any".into()); } count(rest, "any")?; drop(it); }
        4 => { let got = it.find({ let mut i = 0; move |_| { i += 1; i > j } }); count(rest + usize::from(got.is_some()), "find")?; drop(it); count(usize::from(got.is_some()), "find, iterator dropped")?; }
        5 => { let got = it.try_fold(0, |i, (_, v)| { drop(v); if i < j { Ok(i + 1) } else { Err(i) } }); if got.is_err() != (j < p) { return Err("try_fold".into()); } count(rest, "try_fold")?; drop(it); }
        6 => { let got = it.position({ let mut i = 0; move |_| { i += 1; i > j } }); if got != (j < p).then_some(j) { return Err(format!("position {got:?}")); } count(rest, "position")?; drop(it); }
        7 => { let v: Vec<(K, T)> = it.by_ref().take(j).collect(); count(p, "by_ref().take()")?; drop(it); count(v.len(), "by_ref().take(), iterator dropped")?; if v.len() != j.min(p) { return Err("take".into()); } }
        8 => { let v: Vec<(K, T)> = it.skip(j).collect(); count(v.len(), "skip")?; if v.len() != p.saturating_sub(j) { return Err("skip".into()); } }
        9 => { let v: Vec<(K, T)> = it.step_by(j + 1).collect(); count(v.len(), "step_by")?; if v.len() != p.div_ceil(j + 1) { return Err("step_by".into()); } }
        10 => { let v: Vec<((K, T), usize)> = it.zip(0..j).collect(); count(v.len(), "zip")?; if v.len() != j.min(p) { return Err("zip".into()); } }
        11 => { let mut it = it.peekable(); let some = it.peek().is_some(); if some != (p > 0) { return Err("peek".into()); } count(p, "peek")?; let got = it.nth(j); count(rest + usize::from(got.is_some()), "peek, nth")?; drop(it); count(usize::from(got.is_some()), "peek, nth, iterator dropped")?; }
        12 => { let got = it.count(); if got != p { return Err(format!("count {got}")); } count(0, "count")?; }
        13 => { let got = it.last(); if got.is_some() != (p > 0) { return Err("last".into()); } count(p.min(1), "last")?; }
        14 => { bad = it.fold(Ok(()), |r, (_, v)| r.and(dropper(&mut n, v))); }
        15 => { it.for_each(|(_, v)| if let Err(e) = dropper(&mut n, v) { if bad.is_ok() { bad = Err(e); } }); }
        16 => { let (a, b): (Vec<K>, Vec<T>) = it.unzip(); count(p, "unzip")?; drop(b); drop(a); }
        17 => { let (a, b): (Vec<(K, T)>, Vec<(K, T)>) = it.partition(|(_, v)| v.id() % 2 == 0); count(p, "partition")?; drop(a); count(b.len(), "half of a partition")?; }
        18 => { let got = it.max_by_key(|(_, v)| v.id()); count(p.min(1), "max_by_key")?; if got.map(|(_, v)| v.id()) != all.iter().copied().max() { return Err("max_by_key".into()); } }
        _ => { let got = it.reduce(|a, b| if a.1.id() < b.1.id() { a } else { b }); count(p.min(1), "reduce")?; if got.map(|(_, v)| v.id()) != all.iter().copied().min() { return Err("reduce".into()); } }
    }
    bad?;
    alive(std::iter::empty(), "everything dropped")
}
const EATS_BACK: usize = 6;
fn eat_back<K, T: Led>(mut it: impl DoubleEndedIterator<Item = (K, T)>, m: &Model, how: usize, j: usize) -> Result<(), String> {
    if how >= EATS_BACK { return eat(it.rev(), m, how - EATS_BACK, j); }
    let all: Vec<u32> = held(m).collect();
    let p = all.len();
    let rest = p.saturating_sub(j + 1);
    match how {
        0 => { let got = it.nth_back(j); if got.as_ref().map(|g| g.1.id()) != all.iter().rev().nth(j).copied() { return Err("nth_back".into()); } alive(all[..rest].iter().copied().chain(got.iter().map(|g| g.1.id())), "nth_back")?; drop(it); }
        1 => { let got = it.rfind({ let mut i = 0; move |_| { i += 1; i > j } }); alive(all[..rest].iter().copied().chain(got.iter().map(|g| g.1.id())), "rfind")?; drop(it); }
        2 => { let got = it.try_rfold(0, |i, (_, v)| { drop(v); if i < j { Ok(i + 1) } else { Err(i) } }); if got.is_err() != (j < p) { return Err("try_rfold".into()); } alive(all[..rest].iter().copied(), "try_rfold")?; drop(it); }
        3 => { let mut n = p; it.rfold(Ok(()), |r: Result<(), String>, (_, v)| { n -= 1; drop(v); r.and(alive(all[..n].iter().copied(), "rfold")) })?; }
        4 => { let (a, b) = (it.nth(j), it.nth_back(j)); if a.is_some() != (j < p) || b.is_some() != (2 * j + 1 < p) { return Err("nth, nth_back".into()); } let mid = if b.is_some() { &all[j + 1..p - 1 - j] } else { &[] }; alive(mid.iter().copied().chain(a.iter().chain(&b).map(|g| g.1.id())), "nth, nth_back")?; drop(it); }
        _ => { let (b, a) = (it.nth_back(j), it.nth(j)); if b.is_some() != (j < p) || a.is_some() != (2 * j + 1 < p) { return Err("nth_back, nth".into()); } let mid = if a.is_some() { &all[j + 1..p - 1 - j] } else { &[] }; alive(mid.iter().copied().chain(a.iter().chain(&b).map(|g| g.1.id())), "nth_back, nth")?; drop(it); }
    }
    alive(std::iter::empty(), "everything dropped")
}

// ---- a zero-sized value with a destructor --------------------------------------------------------
thread_local! { static BORN: Cell<i64> = const { Cell::new(0) }; static DIED: Cell<i64> = const { Cell::new(0) }; }
struct Zt;
impl Zt { fn new() -> Zt { BORN.with(|b| b.set(b.get() + 1)); Zt } }
impl Drop for Zt { fn drop(&mut self) { DIED.with(|b| b.set(b.get() + 1)); } }
fn zst<K: Dom>(w: &mut W, name: &'static str) {
    let n = K::N;
    if n > 8 { return; }
    for sub in subsets(n, 8, 0) {
        let p = skeys(&sub).len() as i64;
        for what in 0..9 {
            w.begin(|| format!("zero-sized values {sub:?} {what}"));
            w.stats.transitions += 1;
            let r = guard(|| {
                BORN.with(|b| b.set(0)); DIED.with(|b| b.set(0));
                let left = || BORN.with(|b| b.get()) - DIED.with(|b| b.get());
                let is = |want: i64, when: &str| if left() == want { Ok(()) } else { Err(format!("{when}: {} zero-sized values alive, expected {want}", left())) };
                let mut o: Map<K, Zt> = Map::new();
                for k in skeys(&sub) { if o.insert(K::at(k), Zt::new()).is_some() { return Err("insert".into()); } }
                is(p, "inserted")?;
                match what {
                    0 => { for k in 0..n { let r = o.remove(K::at(k)); if r.is_some() != sub[k] { return Err("remove".into()); } is(p - skeys(&sub[..k].to_vec()).len() as i64, "handed back")?; } is(0, "removed")?; }
                    1 => { o.clear(); is(0, "clear")?; }
                    2 => { o.retain(|k, _| k.idx() % 2 == 0); is(skeys(&sub).iter().filter(|k| *k % 2 == 0).count() as i64, "retain")?; }
                    3 => { for k in 0..n { let r = o.insert(K::at(k), Zt::new()); if r.is_some() != sub[k] { return Err("insert".into()); } } is(n as i64, "overwritten")?; }
                    4 => { for k in 0..n { o.entry(K::at(k)).or_insert(Zt::new()); } is(n as i64, "or_insert")?; }
                    5 => { for k in 0..n { use fixed_map::map::{Entry, OccupiedEntry, VacantEntry}; match o.entry(K::at(k)) { Entry::Occupied(e) => { e.remove(); } Entry::Vacant(e) => { e.insert(Zt::new()); } } } is(n as i64 - p, "entries toggled")?; }
                    6 => { let mut it = o.into_iter(); let a = it.next(); is(p, "one taken")?; drop(a); is((p - 1).max(0), "one dropped")?; drop(it); is(0, "iterator dropped")?; return Ok(()); }
                    7 => { let v: Vec<(K, Zt)> = o.into_iter().collect(); is(p, "collected")?; if v.len() as i64 != p { return Err("into_iter".into()); } drop(v); is(0, "dropped")?; return Ok(()); }
                    _ => { if o.len() as i64 != p || o.iter().count() as i64 != p || o.values_mut().count() as i64 != p { return Err("iteration".into()); } }
                }
                drop(o);
                is(0, "dropped")
            });
            if let Err(e) = r { w.fail(format!("zero-sized values, contents {sub:?}, case {what}"), e); return; }
        }
    }
    let _ = name;
}

fn main() {
    let mut c = Ctx::new("C12", "model_checking");
    c.rule = "values recorded in a ledger (creation, reads, drops): from every contents of every key type every operation (small types: every pair of operations), the set of live values compared with the reference after every step and after dropping each value handed back; every pattern of taking from owning iterators, every stopping point, with taken values dropped or kept; all unmerged sequences up to a depth; zero-sized values with destructors; every consuming or skipping iterator method, from both ends".into();
    macro_rules! into_fn {
        ($t:ty, $v:ty, $back:expr) => {
            |o: Map<$t, $v>, m: &Model, pat: u32, len: usize, keep: bool| {
                let mut it = o.into_iter();
                let mut left: Vec<u32> = held(m).collect();
                let mut kept: Vec<$v> = Vec::new();
                for i in 0..len {
                    let front = pat >> (i % 32) & 1 == 0;
                    let got = if front { it.next() } else { $back(&mut it) };
                    match got {
                        None => { if !left.is_empty() { return Err("ended early".into()); } }
                        Some((_, v)) => {
                            let Some(p) = left.iter().position(|x| *x == v.id()) else { return Err(format!("yielded {} again", v.id())) };
                            left.swap_remove(p);
                            alive(left.iter().copied().chain(kept.iter().map(|v| v.id())).chain([v.id()]), "value taken")?;
                            if keep { kept.push(v); } else { drop(v); }
                            alive(left.iter().copied().chain(kept.iter().map(|v| v.id())), "value taken and kept or dropped")?;
                        }
                    }
                }
                drop(it);
                alive(kept.iter().map(|v| v.id()), "iterator dropped")?;
                drop(kept);
                Ok(())
            }
        };
    }
    macro_rules! stat { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| { unit::<$t, Tok>(w, $n, true, into_fn!($t, Tok, |it: &mut fixed_map::map::IntoIter<$t, Tok>| it.next_back()), |o, m, how, j| if how < EATS_BACK + EATS { eat_back(o.into_iter(), m, how, j) } else { eat(o.into_iter(), m, how - EATS_BACK - EATS, j) }); if !w.failed() { zst::<$t>(w, $n) } }); )* } }
    macro_rules! dynamic { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| { unit::<$t, Tok>(w, $n, false, into_fn!($t, Tok, |it: &mut fixed_map::map::IntoIter<$t, Tok>| it.next()), |o, m, how, j| eat(o.into_iter(), m, how, j)); if !w.failed() { zst::<$t>(w, $n) } }); )* } }
    fmcheck::zoo_large!(stat);
    fmcheck::zoo_base!(stat);
    fmcheck::zoo_small!(stat);
    fmcheck::zoo_dynprim!(dynamic);
    fmcheck::zoo_dyncomp!(dynamic);
    macro_rules! big { ($([$t:ty, $n:literal]),*) => { $( c.job(concat!($n, "/BigTok"), |w| unit::<$t, BigTok>(w, concat!($n, "/BigTok"), true, into_fn!($t, BigTok, |it: &mut fixed_map::map::IntoIter<$t, BigTok>| it.next_back()), |o, m, how, j| if how < EATS_BACK + EATS { eat_back(o.into_iter(), m, how, j) } else { eat(o.into_iter(), m, how - EATS_BACK - EATS, j) })); )* } }
    big!([(), "()"], [bool, "bool"], [Option<bool>, "Option<bool>"], [Option<Option<bool>>, "Option<Option<bool>>"], [fmcheck::zoo::U3, "U3"], [fmcheck::zoo::K3, "K3"], [fmcheck::zoo::NestA, "NestA"], [fmcheck::zoo::NestB, "NestB"], [fmcheck::zoo::C3UBS, "C3UBS"], [fmcheck::zoo::C2OE, "C2OE"]);
    macro_rules! dynbig { ($([$t:ty, $n:literal]),*) => { $( c.job(concat!($n, "/BigTok"), |w| unit::<$t, BigTok>(w, concat!($n, "/BigTok"), false, into_fn!($t, BigTok, |it: &mut fixed_map::map::IntoIter<$t, BigTok>| it.next()), |o, m, how, j| eat(o.into_iter(), m, how, j))); )* } }
    dynbig!([u8, "u8"], [Option<&'static str>, "Option<&str>"], [fmcheck::zoo::DA, "DA"]);
    c.finish()
}
