//! Building collections from sequences.
use fmcheck::prelude::*;
use std::cell::Cell;
use std::rc::Rc;

/// A source that counts calls, may announce any length, and resumes after its first end.
struct Src<T> { items: std::vec::IntoIter<T>, ended: bool, calls: Rc<Cell<usize>>, hint: (usize, Option<usize>), resume: Option<T> }
impl<T> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.calls.set(self.calls.get() + 1);
        if self.ended { return self.resume.take(); }
        let r = self.items.next();
        if r.is_none() { self.ended = true; }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}
const HINTS: [(usize, Option<usize>); 8] = [(0, None), (usize::MAX, None), (usize::MAX, Some(usize::MAX)), (0, Some(0)), (1, Some(1)), (usize::MAX, Some(0)), (5, Some(2)), (1 << 40, None)];

fn alive(m: &Model, when: &str) -> Result<(), String> {
    let mut want: Vec<u32> = m.iter().flatten().copied().collect();
    want.sort_unstable();
    let got = live_ids();
    if got != want { return Err(format!("{when}: values alive are {got:?}, expected {want:?}")); }
    if !errors().is_empty() { return Err(format!("{when}: {:?}", errors())); }
    Ok(())
}
fn id(i: usize) -> u32 { 100 + i as u32 }

/// One sequence of keys, through every way of building.
fn seq<K: Dom, T: Led>(inf: &Info, s: &[usize], runs: &mut u64, deep: bool) -> Result<(), String> where K::MapStorage<T>: PartialEq, K::SetStorage: PartialEq {
    let n = inf.n;
    let mut want: Model = vec![None; n];
    for (i, &k) in s.iter().enumerate() { want[k] = Some(id(i)); }
    let swant: SModel = want.iter().map(Option::is_some).collect();
    let src = |len: usize| s[..len].iter().enumerate().map(|(i, &k)| (K::at(k), T::new(id(i)))).collect::<Vec<_>>();
    let check = |m: Map<K, T>, what: &str| -> Result<(), String> {
        alive(&want, what)?;
        let o = MapW { m };
        observe(inf, &o, &want, &mut Seq::new()).map_err(|e| format!("{what}: {e}"))?;
        drop(o);
        alive(&vec![None; n], &format!("{what}, dropped"))
    };
    reset();
    *runs += 1;
    check(src(s.len()).into_iter().collect(), "collect")?;
    // one by one
    {
        let a: Map<K, T> = Map::from_iter(src(s.len()));
        let mut b: Map<K, T> = Map::new();
        for (k, v) in src(s.len()) { b.insert(k, v); }
        if a != b || b != a { return Err("collected and inserted maps differ".into()); }
        let (sa, mut sb): (Set<K>, Set<K>) = (s.iter().map(|&k| K::at(k)).collect(), Set::default());
        for &k in s { sb.insert(K::at(k)); }
        if sa != sb || sb != sa { return Err("collected and inserted sets differ".into()); }
        observe_set(inf, sa, &swant).map_err(|e| format!("collected set: {e}"))?;
    }
    // the announced length does not matter; the source is read to its first end and no further
    let hints: &[(usize, Option<usize>)] = if deep { &HINTS } else { &HINTS[1..2] };
    for &hint in hints {
        *runs += 2;
        reset();
        let calls = Rc::new(Cell::new(0));
        let extra = if n > 0 { Some((K::at(n - 1), T::new(9))) } else { None };
        let mut it = Src { items: src(s.len()).into_iter(), ended: false, calls: calls.clone(), hint, resume: extra };
        let m: Map<K, T> = it.by_ref().collect();
        if calls.get() != s.len() + 1 { return Err(format!("a source of {} entries announcing {hint:?} was asked {} times", s.len(), calls.get())); }
        drop(it);
        check(m, &format!("source announcing {hint:?}"))?;
        let calls = Rc::new(Cell::new(0));
        let it = Src { items: s.iter().map(|&k| K::at(k)).collect::<Vec<_>>().into_iter(), ended: false, calls: calls.clone(), hint, resume: if n > 0 { Some(K::at(0)) } else { None } };
        let x: Set<K> = Set::from_iter(it);
        if calls.get() != s.len() + 1 { return Err(format!("a source of {} keys announcing {hint:?} was asked {} times", s.len(), calls.get())); }
        observe_set(inf, x, &swant).map_err(|e| format!("set from a source announcing {hint:?}: {e}"))?;
    }
    if !deep { return Ok(()); }
    // the source ends early by an error or a missing item
    for stop in 0..s.len() {
        *runs += 3;
        reset();
        let part = |from: usize| (from..s.len()).map(move |i| if i == stop { Err(i) } else { Ok((K::at(s[i]), T::new(id(i)))) });
        let mut it = part(0);
        let r: Result<Map<K, T>, usize> = it.by_ref().collect();
        if r.err() != Some(stop) { return Err(format!("collecting with an error at {stop}")); }
        if it.len() != s.len() - stop - 1 { return Err(format!("{} items left after an error at {stop}", it.len())); }
        alive(&vec![None; n], &format!("error at {stop}"))?;
        let r: Option<Set<K>> = (0..s.len()).map(|i| (i != stop).then(|| K::at(s[i]))).collect();
        if r.is_some() { return Err(format!("collecting with a missing item at {stop}")); }
        let m: Map<K, T> = part(0).map_while(Result::ok).collect();
        let mut w: Model = vec![None; n];
        for i in 0..stop { w[s[i]] = Some(id(i)); }
        alive(&w, "first part")?;
        observe(inf, &MapW { m }, &w, &mut Seq::new()).map_err(|e| format!("first {stop}: {e}"))?;
    }
    // through other collections and adaptors
    *runs += 4;
    reset();
    let m: Map<K, T> = src(s.len()).into_iter().collect();
    let ks: Set<K> = m.keys().collect();
    observe_set(inf, ks, &swant).map_err(|e| format!("set of the keys: {e}"))?;
    let again: Map<K, T> = m.into_iter().collect();
    check(again, "collected from a map")?;
    let (a, b) = s.split_at(s.len() / 2);
    let x: Set<K> = a.iter().chain(b).map(|&k| K::at(k)).inspect(|_| ()).collect();
    let y: Set<K> = x.into_iter().collect();
    observe_set(inf, y, &swant).map_err(|e| format!("set collected from a set: {e}"))?;
    let m: Map<K, usize> = s.iter().rev().map(|&k| (K::at(k), s.iter().position(|&x| x == k).unwrap())).collect();
    for (i, &k) in s.iter().enumerate() { if m.get(K::at(k)) != Some(&s.iter().position(|&x| x == k).unwrap()) { return Err(format!("plain values, item {i}")); } }
    Ok(())
}
fn array<K: Dom, const L: usize>(inf: &Info, s: &[usize]) -> Result<(), String> where K::SetStorage: PartialEq {
    let arr: [K; L] = std::array::from_fn(|i| K::at(s[i]));
    let mut want: SModel = vec![false; inf.n];
    for &k in s { want[k] = true; }
    let x = Set::from(arr);
    let y: Set<K> = arr.into();
    if x != y || x != arr.into_iter().collect::<Set<K>>() { return Err(format!("array of {L} keys: not equal to the collected set")); }
    observe_set(inf, x, &want).map_err(|e| format!("array of {L} keys: {e}"))?;
    Ok(())
}

fn unit<K: Dom, T: Led>(w: &mut W, name: &'static str) where K::MapStorage<T>: PartialEq + Clone, K::SetStorage: PartialEq + Clone {
    let inf = info::<K>(name);
    let n = inf.n;
    // empty collections
    let r = guard(|| {
        let (e, se) = (vec![None; n], vec![false; n]);
        reset();
        for m in [Map::<K, T>::new(), Map::default(), std::iter::empty().collect(), Map::from_iter(None), std::mem::take(&mut Map::new())] { if !m.is_empty() || m != Map::new() || Map::default() != m { return Err("an empty map differs from an empty map".into()); } observe(&inf, &MapW { m }, &e, &mut Seq::new())?; }
        for s in [Set::<K>::new(), Set::default(), std::iter::empty().collect(), Set::from([]), std::mem::take(&mut Set::new())] { if s != Set::new() { return Err("an empty set differs from an empty set".into()); } observe_set(&inf, s, &se)?; }
        Ok(())
    });
    if let Err(e) = r { w.fail("empty".into(), e); return; }
    if n == 0 { return; }
    let mut go = |w: &mut W, s: &[usize], deep: bool| -> bool {
        w.begin(|| format!("{s:?}"));
        w.stats.traces += 1;
        w.stats.states += 1;
        let mut runs = 0;
        let r = guard(|| {
            seq::<K, T>(&inf, s, &mut runs, deep)?;
            match s.len() { 0 => array::<K, 0>(&inf, s), 1 => array::<K, 1>(&inf, s), 2 => array::<K, 2>(&inf, s), 3 => array::<K, 3>(&inf, s), 4 => array::<K, 4>(&inf, s), 5 => array::<K, 5>(&inf, s), 6 => array::<K, 6>(&inf, s), 7 => array::<K, 7>(&inf, s), 8 => array::<K, 8>(&inf, s), 9 => array::<K, 9>(&inf, s), 33 => array::<K, 33>(&inf, s), 300 => array::<K, 300>(&inf, s), _ => Ok(()) }
        });
        w.stats.transitions += runs;
        if let Err(e) = r { w.fail(format!("{s:?}"), e); return false; }
        true
    };
    // every sequence of keys up to a length
    let max = depth_for(n, if w.thorough { 300_000 } else if n > 20 { 300 } else { 6_000 }, 9);
    let small = n <= 6;
    for len in 0..=max {
        let mut ix = vec![0usize; len];
        'seqs: loop {
            if !go(w, &ix, small || len <= 1 || ix[0] == ix[len - 1]) { return; }
            let mut p = len;
            loop { if p == 0 { break 'seqs; } p -= 1; ix[p] += 1; if ix[p] < n { break; } ix[p] = 0; }
        }
    }
    w.extra("longest_exhaustive_sequence_total", max as u64);
    // long sequences: all keys in several orders, repeated, and every pair at a distance
    let all: Vec<usize> = (0..n).collect();
    let rev: Vec<usize> = (0..n).rev().collect();
    let mix: Vec<usize> = (0..300).map(|i| (i * i + i / 3) % n).collect();
    let saw: Vec<usize> = (0..33).map(|i| if i % 2 == 0 { 0 } else { i % n }).collect();
    let twice: Vec<usize> = all.iter().chain(&rev).copied().collect();
    let evens: Vec<usize> = (0..n).step_by(2).chain((0..n).step_by(3)).collect();
    for s in [all.clone(), rev, mix, saw, twice, evens] { if !go(w, &s, s.len() < 70) { return; } }
    if n > 6 { for k in 0..n { let mut s = all.clone(); s.push(k); if n > 60 { s.drain(..n - 20); } if !go(w, &s, n < 40 && k % 8 == 0) { return; } } }
    w.sample(|| format!("{name}: every sequence of up to {max} of {n} keys"));
}

fn main() {
    let mut c = Ctx::new("C20", "model_checking");
    c.rule = "every sequence of keys up to a length (up to 9 for small types), each entry with its own recorded value, collected into maps and sets through sources that announce wrong lengths and resume after their end, that stop by an error at every position, and through arrays; compared with inserting one by one, with the ledger of live values and with the reference".into();
    macro_rules! go { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| unit::<$t, Tok>(w, $n)); )* } }
    fmcheck::zoo_large!(go);
    fmcheck::zoo_base!(go);
    fmcheck::zoo_small!(go);
    fmcheck::zoo_dynprim!(go);
    fmcheck::zoo_dyncomp!(go);
    macro_rules! big { ($([$t:ty, $n:literal]),*) => { $( c.job(concat!($n, "/BigTok"), |w| unit::<$t, BigTok>(w, concat!($n, "/BigTok"))); )* } }
    big!([(), "()"], [bool, "bool"], [Option<bool>, "Option<bool>"], [fmcheck::zoo::U3, "U3"], [fmcheck::zoo::NestB, "NestB"], [fmcheck::zoo::C3UBS, "C3UBS"], [u8, "u8"], [fmcheck::zoo::DA, "DA"]);
    c.finish()
}
