//! Type-erased iterators and the exploration of stepping patterns over them.
use crate::obj::NOKEY;

pub type Item = (usize, u32);

pub trait ItObj<'a> {
    fn next(&mut self) -> Option<Item>;
    /// Outer `None`: not double-ended.
    fn next_back(&mut self) -> Option<Option<Item>>;
    fn hint(&self) -> (usize, Option<usize>);
    fn nth(&mut self, n: usize) -> Option<Item>;
    fn nth_back(&mut self, n: usize) -> Option<Option<Item>>;
    fn dup(&self) -> Option<Box<dyn ItObj<'a> + 'a>>;
    /// Consumes the iterator through a library adaptor; `None` if not available.
    fn finish(self: Box<Self>, how: usize) -> Option<Vec<Item>>;
}

pub const FINISHERS: [&str; 12] = ["fold", "for_each", "count", "last", "step_by(2)", "try_fold", "find", "rfold", "rev", "rev().step_by(2)", "rfind", "take(1)+rest"];

/// What a finisher must produce from the remaining items.
pub fn finisher_model(rest: &[Item], how: usize) -> Vec<Item> {
    let r = || rest.iter().rev().copied();
    match how {
        0 | 1 | 11 => rest.to_vec(),
        2 => vec![(rest.len(), 0)],
        3 => rest.last().copied().into_iter().collect(),
        4 => rest.iter().step_by(2).copied().collect(),
        5 => rest.iter().take(2).copied().collect(),
        6 => rest.iter().skip(1).take(1).copied().collect(),
        7 | 8 => r().collect(),
        9 => r().step_by(2).collect(),
        10 => r().skip(1).take(1).collect(),
        _ => unreachable!(),
    }
}
const CAP: usize = 2000;

pub fn finish_fwd<I: Iterator>(mut it: I, f: impl Fn(I::Item) -> Item, how: usize) -> Option<Vec<Item>> {
    let mut out = Vec::new();
    match how {
        0 => { it.fold((), |(), x| { out.push(f(x)); assert!(out.len() < CAP, "endless fold"); }); }
        1 => it.for_each(|x| { out.push(f(x)); assert!(out.len() < CAP, "endless for_each"); }),
        2 => out.push((it.count(), 0)),
        3 => out.extend(it.last().map(f)),
        4 => out.extend(it.step_by(2).take(CAP).map(f)),
        5 => { let _ = it.try_fold(0, |n, x| { out.push(f(x)); if n + 1 == 2 { Err(()) } else { Ok(n + 1) } }); }
        6 => { let mut n = 0; out.extend(it.find(|_| { n += 1; n == 2 }).map(f)); }
        11 => { out.extend(it.by_ref().take(1).map(&f)); out.extend(it.take(CAP).map(f)); }
        _ => return None,
    }
    Some(out)
}
pub fn finish_de<I: DoubleEndedIterator>(mut it: I, f: impl Fn(I::Item) -> Item, how: usize) -> Option<Vec<Item>> {
    let mut out = Vec::new();
    match how {
        7 => { it.rfold((), |(), x| { out.push(f(x)); assert!(out.len() < CAP, "endless rfold"); }); }
        8 => out.extend(it.rev().take(CAP).map(f)),
        9 => out.extend(it.rev().step_by(2).take(CAP).map(f)),
        10 => { let mut n = 0; out.extend(it.rfind(|_| { n += 1; n == 2 }).map(f)); }
        _ => return finish_fwd(it, f, how),
    }
    Some(out)
}

macro_rules! wrapper {
    ($name:ident, [$($bound:tt)*], $de:literal, $back:expr, $nthback:expr, $dup:expr, $fin:ident) => {
        pub struct $name<I, F> { pub it: I, pub f: F }
        impl<'a, I: $($bound)* + 'a, F: Fn(I::Item) -> Item + Copy + 'a> ItObj<'a> for $name<I, F> {
            fn next(&mut self) -> Option<Item> { self.it.next().map(self.f) }
            fn next_back(&mut self) -> Option<Option<Item>> { let b: fn(&mut Self) -> Option<Option<Item>> = $back; b(self) }
            fn hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
            fn nth(&mut self, n: usize) -> Option<Item> { self.it.nth(n).map(self.f) }
            fn nth_back(&mut self, n: usize) -> Option<Option<Item>> { let b: fn(&mut Self, usize) -> Option<Option<Item>> = $nthback; b(self, n) }
            fn dup(&self) -> Option<Box<dyn ItObj<'a> + 'a>> { let b: fn(&Self) -> Option<Box<dyn ItObj<'a> + 'a>> = $dup; b(self) }
            fn finish(self: Box<Self>, how: usize) -> Option<Vec<Item>> { let s = *self; $fin(s.it, s.f, how) }
        }
    };
}
wrapper!(Fw, [Iterator], false, |_| None, |_, _| None, |_| None, finish_fwd);
wrapper!(Fc, [Iterator + Clone], false, |_| None, |_, _| None, |s| Some(Box::new(Fc { it: s.it.clone(), f: s.f })), finish_fwd);
wrapper!(De, [DoubleEndedIterator], true, |s| Some(s.it.next_back().map(s.f)), |s, n| Some(s.it.nth_back(n).map(s.f)), |_| None, finish_de);
wrapper!(Dc, [DoubleEndedIterator + Clone], true, |s| Some(s.it.next_back().map(s.f)), |s, n| Some(s.it.nth_back(n).map(s.f)), |s| Some(Box::new(Dc { it: s.it.clone(), f: s.f })), finish_de);

pub fn no_key(v: u32) -> Item { (NOKEY, v) }

/// Gives `f` a fresh iterator over the same contents.
pub type Source<'s> = dyn FnMut(&mut dyn FnMut(Box<dyn ItObj<'_> + '_>)) + 's;

fn hint_ok(it: &dyn ItObj<'_>, rest: usize) -> Result<(), String> {
    let (lo, hi) = it.hint();
    if lo > rest || hi.is_some_and(|h| h < rest) { return Err(format!("size_hint {:?} with {rest} left", (lo, hi))); }
    Ok(())
}

/// Takes from the front (true) or back (false) as told, checking each item and the bounds.
fn steps(it: &mut dyn ItObj<'_>, seq: &[Item], lo: &mut usize, hi: &mut usize, pat: &[bool]) -> Result<(), String> {
    for (i, &front) in pat.iter().enumerate() {
        hint_ok(it, *hi - *lo)?;
        let want = if lo == hi { None } else if front { *lo += 1; Some(seq[*lo - 1]) } else { *hi -= 1; Some(seq[*hi]) };
        let got = if front { it.next() } else { it.next_back().expect("double-ended") };
        if got != want { return Err(format!("step {i} ({}) of {} gave {got:?}, expected {want:?}", if front { "front" } else { "back" }, show(pat))); }
    }
    hint_ok(it, *hi - *lo)
}
fn show(p: &[bool]) -> String { p.iter().map(|b| if *b { 'F' } else { 'B' }).collect() }

pub struct Counts { pub patterns: u64, pub steps: u64 }

/// All stepping patterns over an iterator that must yield `seq`: every interleaving of front and back
/// past exhaustion; and, after prefixes, every adaptor, nth, nth_back and clone. `all_prefixes`:
/// also do the latter after every interleaving rather than the canonical ones.
pub fn explore(source: &mut Source<'_>, seq: &[Item], de: bool, all_prefixes: bool, max_full: usize, c: &mut Counts, tick: &mut dyn FnMut(&str)) -> Result<(), String> {
    let n = seq.len();
    let mut res: Result<(), String> = Ok(());
    // interleavings, run past the end
    let mut pats: Vec<Vec<bool>> = Vec::new();
    if !de { pats.push(vec![true; n + 3]); }
    else if n <= max_full {
        let len = n + 2;
        for b in 0..1u32 << len { pats.push((0..len).map(|i| b >> i & 1 == 0).collect()); }
    } else {
        for period in [1usize, 2, 3, 5] { for phase in [false, true] { pats.push((0..n + 2).map(|i| (i % (period + 1) == 0) ^ phase).collect()); } }
        for cut in [0, 1, n / 2, n - 1, n, n + 1] { for f in [true, false] { pats.push((0..n + 2).map(|i| (i < cut) == f).collect()); } }
    }
    for p in &pats {
        tick(&show(p));
        c.patterns += 1;
        c.steps += p.len() as u64;
        source(&mut |mut it| {
            let (mut lo, mut hi) = (0, n);
            res = steps(&mut *it, seq, &mut lo, &mut hi, p).and_then(|()| {
                // stays exhausted, from both ends
                for _ in 0..2 {
                    if it.next().is_some() { return Err(format!("next() yields again after {}", show(p))); }
                    if de && it.next_back() != Some(None) { return Err(format!("next_back() yields again after {}", show(p))); }
                }
                hint_ok(&*it, 0)
            });
        });
        res.clone()?;
    }
    // prefixes
    let mut prefixes: Vec<Vec<bool>> = Vec::new();
    if de && all_prefixes && n <= max_full { for len in 0..=n + 1 { for b in 0..1u32 << len { prefixes.push((0..len).map(|i| b >> i & 1 == 0).collect()); } } }
    else {
        let cuts: Vec<usize> = if n <= 10 { (0..=n + 1).collect() } else { vec![0, 1, 2, n / 2, n - 1, n, n + 1] };
        for &i in &cuts {
            prefixes.push(vec![true; i]);
            if de {
                prefixes.push(vec![false; i]);
                for &j in &cuts { if i > 0 && j > 0 && i + j <= n + 1 && (n <= 6 || i + j == n || i + j <= 4) {
                    let mut p = vec![true; i]; p.extend(vec![false; j]); prefixes.push(p.clone());
                    p.reverse(); prefixes.push(p);
                } }
                if i > 1 { prefixes.push((0..i).map(|x| x % 2 == 0).collect()); }
            }
        }
        prefixes.sort();
        prefixes.dedup();
    }
    for p in &prefixes {
        for act in 0..FINISHERS.len() + 3 {
            let js: Vec<usize> = if act >= FINISHERS.len() + 1 { if n <= 8 { (0..=n + 1).collect() } else { vec![0, 1, n / 2, n] } } else { vec![0] };
            for j in js {
                tick(&show(p));
                c.patterns += 1;
                c.steps += p.len() as u64 + 1;
                let mut r: Result<(), String> = Ok(());
                source(&mut |mut it| {
                    let (mut lo, mut hi) = (0, n);
                    r = (|| {
                        steps(&mut *it, seq, &mut lo, &mut hi, p)?;
                        if act < FINISHERS.len() {
                            if let Some(got) = it.finish(act) {
                                let want = finisher_model(&seq[lo..hi], act);
                                if got != want { return Err(format!("{} after {} gave {got:?}, expected {want:?}", FINISHERS[act], show(p))); }
                            }
                        } else if act == FINISHERS.len() {
                            // clone: both halves yield the same remainder, whichever is run first
                            if let Some(mut d) = it.dup() {
                                hint_ok(&*d, hi - lo)?;
                                let tail: Vec<bool> = (0..hi - lo + 1).map(|i| !de || i % 2 == 0).collect();
                                let (mut l2, mut h2) = (lo, hi);
                                steps(&mut *d, seq, &mut l2, &mut h2, &tail).map_err(|e| format!("clone after {}: {e}", show(p)))?;
                                let (mut l2, mut h2) = (lo, hi);
                                let tail: Vec<bool> = (0..hi - lo + 1).map(|i| !de || i % 2 == 1).collect();
                                steps(&mut *it, seq, &mut l2, &mut h2, &tail).map_err(|e| format!("original after cloning after {}: {e}", show(p)))?;
                            }
                        } else if act == FINISHERS.len() + 1 {
                            let got = it.nth(j);
                            let want = if lo + j < hi { Some(seq[lo + j]) } else { None };
                            lo = (lo + j + 1).min(hi);
                            if got != want { return Err(format!("nth({j}) after {} gave {got:?}, expected {want:?}", show(p))); }
                            let rest: Vec<bool> = vec![true; hi - lo + 1];
                            steps(&mut *it, seq, &mut lo, &mut hi, &rest).map_err(|e| format!("after nth({j}) after {}: {e}", show(p)))?;
                        } else if let Some(got) = it.nth_back(j) {
                            let want = if lo + j < hi { Some(seq[hi - 1 - j]) } else { None };
                            hi = hi.saturating_sub(j + 1).max(lo);
                            if got != want { return Err(format!("nth_back({j}) after {} gave {got:?}, expected {want:?}", show(p))); }
                            let rest: Vec<bool> = vec![true; hi - lo + 1];
                            steps(&mut *it, seq, &mut lo, &mut hi, &rest).map_err(|e| format!("after nth_back({j}) after {}: {e}", show(p)))?;
                        }
                        Ok(())
                    })();
                });
                r?;
            }
        }
    }
    Ok(())
}
