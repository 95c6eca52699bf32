use fmcheck::prelude::*;
use std::cmp::Ordering::{self, *};

/// The order a standard ordered collection with keys in declaration order would give.
fn ref_map<V: PartialOrd + Copy>(a: &[(usize, V)], b: &[(usize, V)]) -> Option<Ordering> {
    for (x, y) in a.iter().zip(b) {
        if x.0 != y.0 { return Some(x.0.cmp(&y.0)); }
        match x.1.partial_cmp(&y.1) { Some(Equal) => {} o => return o }
    }
    Some(a.len().cmp(&b.len()))
}

/// All operators of one pair against the expected order.
fn ops<T: PartialOrd>(a: &T, b: &T, want: Option<Ordering>) -> Result<(), String> {
    let got = a.partial_cmp(b);
    if got != want { return Err(format!("partial_cmp is {got:?}, expected {want:?}")); }
    let l = (a < b, a <= b, a > b, a >= b);
    let e = (want == Some(Less), matches!(want, Some(Less | Equal)), want == Some(Greater), matches!(want, Some(Greater | Equal)));
    if l != e { return Err(format!("(<, <=, >, >=) are {l:?}, expected {e:?}")); }
    Ok(())
}
fn total<T: Ord + Clone>(a: &T, b: &T, want: Ordering) -> Result<(), String> {
    if a.cmp(b) != want { return Err(format!("cmp is {:?}, expected {want:?}", a.cmp(b))); }
    if (a == b) != (want == Equal) { return Err(format!("== is {}, but the order is {want:?}", a == b)); }
    let (lo, hi) = if want == Greater { (b, a) } else { (a, b) };
    if a.clone().max(b.clone()) != *hi || b.clone().max(a.clone()) != *hi { return Err("max".into()); }
    if a.clone().min(b.clone()) != *lo || b.clone().min(a.clone()) != *lo { return Err("min".into()); }
    Ok(())
}
fn clamp<T: Ord + Clone>(items: &[T]) -> Result<u64, String> {
    // items are in increasing order
    let mut n = 0;
    for (i, x) in items.iter().enumerate() {
        for (l, lo) in items.iter().enumerate() {
            for (h, hi) in items.iter().enumerate().skip(l) {
                n += 1;
                if x.clone().clamp(lo.clone(), hi.clone()) != items[i.clamp(l, h)] { return Err(format!("clamp of item {i} to {l}..={h}")); }
            }
        }
    }
    Ok(n)
}

/// Values of which only half counts for comparison: equal collections can still be told apart.
#[derive(Clone, Copy, Debug)]
struct Half(u32);
impl PartialEq for Half { fn eq(&self, o: &Half) -> bool { self.0 / 2 == o.0 / 2 } }
impl Eq for Half {}
impl PartialOrd for Half { fn partial_cmp(&self, o: &Half) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Half { fn cmp(&self, o: &Half) -> Ordering { (self.0 / 2).cmp(&(o.0 / 2)) } }
/// Maximum and minimum return the very collection a standard ordered map would.
fn ties<K: Dom>(w: &mut W) where K::MapStorage<Half>: Ord + Clone {
    let n = K::N;
    if n > 3 { return; }
    type B = std::collections::BTreeMap<usize, Half>;
    let ms = all_models(n, if n <= 2 { &[0, 1, 2, 3] } else { &[0, 1, 2] });
    let es: Vec<B> = ms.iter().map(|m| entries(m).into_iter().map(|(k, v)| (k, Half(v))).collect()).collect();
    let built: Vec<Map<K, Half>> = es.iter().map(|e| e.iter().map(|(&k, &v)| (K::at(k), v)).collect()).collect();
    let show = |m: &Map<K, Half>| m.iter().map(|(k, v)| (k.idx(), v.0)).collect::<Vec<_>>();
    let want = |m: &B| m.iter().map(|(k, v)| (*k, v.0)).collect::<Vec<_>>();
    for i in 0..ms.len() {
        w.begin(|| format!("map {:?} against all", es[i]));
        for j in 0..ms.len() {
            w.stats.transitions += 1;
            let (a, b, x, y) = (&built[i], &built[j], &es[i], &es[j]);
            let r = guard(|| {
                ops(a, b, Some(x.cmp(y)))?;
                total(a, b, x.cmp(y))?;
                let got = (show(&a.clone().max(b.clone())), show(&a.clone().min(b.clone())));
                let exp = (want(&x.clone().max(y.clone())), want(&x.clone().min(y.clone())));
                if got != exp { return Err(format!("max and min are {got:?}, expected {exp:?}")); }
                Ok(())
            });
            if let Err(e) = r { w.fail(format!("maps {x:?} and {y:?}"), e); return; }
        }
    }
}

fn sets<K: Dom>(w: &mut W, name: &'static str) where K::SetStorage: Ord + Clone {
    let n = K::N;
    let mut subs = if n <= 8 { subsets(n, 8, 0) } else { thin(large_subsets(n, 0), if w.thorough { 1000 } else { 20 }) };
    // pairs and neighbours near every position
    if n > 8 { for i in 0..n - 1 { if !w.thorough && i % 4 > 1 && n > 40 { continue; } subs.push((0..n).map(|k| k == i || k == i + 1).collect()); subs.push((0..n).map(|k| k <= i).collect()); } }
    let built: Vec<Set<K>> = { let mut v = Vec::new(); for (i, s) in subs.iter().enumerate() { let r = sroutes(n, s); let h = &r[i % r.len()]; w.begin(|| format!("{h:?}")); match guard(|| Ok(set_by::<K>(h))) { Ok(o) => v.push(o), Err(e) => { w.fail(format!("{h:?}"), e); return; } } } v };
    let keys: Vec<Vec<usize>> = subs.iter().map(skeys).collect();
    w.stats.states += subs.len() as u64;
    for i in 0..subs.len() {
        w.begin(|| format!("set {:?} against all", keys[i]));
        for j in 0..subs.len() {
            w.stats.transitions += 1;
            let want = keys[i].cmp(&keys[j]);
            let r = guard(|| { ops(&built[i], &built[j], Some(want))?; total(&built[i], &built[j], want) });
            if let Err(e) = r { w.fail(format!("sets {:?} and {:?}", keys[i], keys[j]), e); return; }
        }
    }
    w.stats.traces += subs.len() as u64;
    // sorting and clamping
    let mut ix: Vec<usize> = (0..subs.len()).collect();
    ix.sort_by(|&a, &b| keys[a].cmp(&keys[b]));
    ix.dedup_by(|a, b| keys[*a] == keys[*b]);
    let sorted: Vec<Set<K>> = ix.iter().map(|&i| built[i].clone()).collect();
    let r = guard(|| {
        let mut v: Vec<Set<K>> = sorted.iter().rev().cloned().collect();
        v.sort();
        if v != sorted { return Err("sorting a vector of sets".to_string()); }
        let part: Vec<Set<K>> = sorted.iter().step_by(sorted.len().div_ceil(40).max(1)).cloned().collect();
        clamp(&part)
    });
    match r { Ok(k) => w.extra("clamp_triples", k), Err(e) => w.fail("sets".into(), e) }
    w.sample(|| format!("{name}: {} sets compared pairwise with lists of key positions", subs.len()));
}

fn maps<K: Dom>(w: &mut W, name: &'static str) where K::MapStorage<u32>: Ord + Clone, K::MapStorage<f64>: PartialOrd + Clone, K::MapStorage<()>: Ord + Clone, K::MapStorage<Half>: Ord + Clone {
    ties::<K>(w);
    let n = K::N;
    let models: Vec<Model> = match n {
        0..=3 => all_models(n, &[1, 2, 3]),
        4 | 5 => all_models(n, &[1, 2]),
        6..=8 if w.thorough && n == 6 => all_models(n, &[1, 2]),
        6..=8 => subsets(n, 8, 0).iter().enumerate().map(|(j, s)| s.iter().enumerate().map(|(i, b)| b.then_some(1 + (i as u32 + j as u32) % 2)).collect()).collect(),
        _ => {
            let mut v: Vec<Model> = thin(large_subsets(n, 0), if w.thorough { 60 } else { 20 }).iter().map(|s| tagged(s)).collect();
            for i in 0..n { if !w.thorough && i % 4 > 1 && n > 40 { continue; } let mut m = tagged(&vec![true; n]); m[i] = Some(7); v.push(m.clone()); m[i] = Some(9999); v.push(m.clone()); let mut m: Model = vec![None; n]; m[i] = Some(1); v.push(m.clone()); m[i] = Some(2); v.push(m.clone()); if i + 1 < n { m[i + 1] = Some(1); v.push(m); } }
            v
        }
    };
    let built: Vec<Map<K, u32>> = { let mut v = Vec::new(); for (i, m) in models.iter().enumerate() { let r = routes(n, m, 7); let h = &r[i % r.len()]; w.begin(|| format!("{h:?}")); match guard(|| Ok(map_by::<K, u32>(h))) { Ok(o) => v.push(o), Err(e) => { w.fail(format!("{h:?}"), e); return; } } } v };
    let es: Vec<Seq> = models.iter().map(entries).collect();
    w.stats.states += models.len() as u64;
    w.stats.traces += models.len() as u64;
    for i in 0..models.len() {
        w.begin(|| format!("map {:?} against all", es[i]));
        for j in 0..models.len() {
            w.stats.transitions += 1;
            let want = es[i].cmp(&es[j]);
            let r = guard(|| { ops(&built[i], &built[j], Some(want))?; total(&built[i], &built[j], want) });
            if let Err(e) = r { w.fail(format!("maps {:?} and {:?}", es[i], es[j]), e); return; }
        }
    }
    let mut ix: Vec<usize> = (0..models.len()).collect();
    ix.sort_by(|&a, &b| es[a].cmp(&es[b]));
    ix.dedup_by(|a, b| es[*a] == es[*b]);
    let part: Vec<Map<K, u32>> = ix.iter().step_by(ix.len().div_ceil(40).max(1)).map(|&i| built[i].clone()).collect();
    match guard(|| clamp(&part)) { Ok(k) => w.extra("clamp_triples", k), Err(e) => w.fail("maps".into(), e) }
    // values that are only partially ordered
    if n <= 4 {
        const T: [f64; 4] = [f64::NAN, 1.0, 2.0, -0.0];
        let vals: &[u32] = if n <= 2 { &[0, 1, 2, 3] } else { &[0, 1, 2] };
        let ms = all_models(n, vals);
        let es: Vec<Vec<(usize, f64)>> = ms.iter().map(|m| entries(m).into_iter().map(|(k, v)| (k, T[v as usize])).collect()).collect();
        let built: Vec<Map<K, f64>> = es.iter().map(|e| e.iter().rev().map(|&(k, v)| (K::at(k), v)).collect()).collect();
        for i in 0..ms.len() {
            w.begin(|| format!("map {:?} against all", es[i]));
            for j in 0..ms.len() {
                w.stats.transitions += 1;
                let want = ref_map(&es[i], &es[j]);
                if let Err(e) = guard(|| ops(&built[i], &built[j], want)) { w.fail(format!("maps {:?} and {:?}", es[i], es[j]), e); return; }
            }
        }
    }
    // unit values: maps order like sets
    if n <= 8 {
        let subs = subsets(n, 8, 0);
        let built: Vec<Map<K, ()>> = subs.iter().map(|s| skeys(s).into_iter().map(|k| (K::at(k), ())).collect()).collect();
        for i in 0..subs.len() {
            w.begin(|| format!("map of () {:?} against all", subs[i]));
            for j in 0..subs.len() {
                w.stats.transitions += 1;
                let want = skeys(&subs[i]).cmp(&skeys(&subs[j]));
                if let Err(e) = guard(|| { ops(&built[i], &built[j], Some(want))?; total(&built[i], &built[j], want) }) { w.fail(format!("maps of () {:?} and {:?}", subs[i], subs[j]), e); return; }
            }
        }
    }
    w.sample(|| format!("{name}: {} maps compared pairwise with sorted lists of entries", models.len()));
}

fn main() {
    let mut c = Ctx::new("C08", "model_checking");
    c.rule = "every pair of contents of every orderable key type (field-less enums with and without bitset storage up to 257 variants, and sets of ()): partial_cmp, cmp, all operators, max, min, against lexicographic order of the lists of (position, value); NaN values; sorting; clamp over triples. Agreement with a total order on every pair implies transitivity".into();
    macro_rules! go { ($([$t:ty, $n:literal]),*) => { $(
        c.job(concat!("set ", $n), |w| sets::<$t>(w, $n));
        c.job(concat!("map ", $n), |w| maps::<$t>(w, $n));
    )* } }
    fmcheck::zoo_unit!(go);
    c.job("set ()", |w| sets::<()>(w, "()"));
    c.finish()
}
