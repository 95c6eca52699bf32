use fmcheck::prelude::*;

fn alphabet(n: usize) -> Vec<SOp> {
    let mut ops: Vec<SOp> = (0..n).map(SOp::Insert).collect();
    ops.extend((0..n).map(SOp::Remove));
    ops.push(SOp::Clear);
    if n <= 5 { for b in 0..1u32 << n { ops.push(SOp::Retain((0..n).map(|i| b >> i & 1 == 1).collect())); } }
    else { for k in 0..n { ops.push(SOp::Retain((0..n).map(|i| i == k).collect())); ops.push(SOp::Retain((0..n).map(|i| i != k).collect())); } ops.push(SOp::Retain(vec![false; n])); }
    ops
}

fn unit<K: Dom>(w: &mut W, name: &'static str) {
    let sys = SetSys { info: info::<K>(name), mk: SetW::<K>::boxed };
    let n = K::N;
    if n <= 10 {
        let states = bfs(&sys, &alphabet(n), &|_| true, w);
        if w.failed() { return; }
        for (s, _) in states { histories(&sys, sroutes(n, &s).into_iter(), w); if w.failed() { return; } }
        let ops: Vec<SOp> = (0..n).map(SOp::Insert).chain((0..n).map(SOp::Remove)).chain([SOp::Clear]).collect();
        let budget = if w.thorough { 5_000_000 } else { 100_000 };
        sequences(&sys, &ops, depth_for(ops.len(), budget, 10), w);
        if n <= 4 { let ops = alphabet(n); sequences(&sys, &ops, depth_for(ops.len(), budget, 7), w); }
    } else {
        for s in large_subsets(n, if w.thorough { 130 } else { 40 }) {
            w.stats.states += 1;
            histories(&sys, sroutes(n, &s).into_iter(), w);
            if w.failed() { return; }
            let p = skeys(&s).len();
            let sized = at_size(&s, p);
            if p <= 1 || p + 1 >= n || sized {
                let e: Vec<SOp> = skeys(&s).into_iter().map(SOp::Insert).collect();
                for k in 0..n {
                    let near = sized && (k < 2 || k + 1 == n || k + 2 > p && k < p + 2);
                    if sized && !near || !(near || w.thorough || p == 0 || p == n || s[k] == (p == 1) || k % 8 == 0) { continue; }
                    for op in [SOp::Insert(k), SOp::Remove(k), SOp::Retain((0..n).map(|i| i != k).collect())] {
                        let mut h = e.clone();
                        h.push(op);
                        w.stats.transitions += 1;
                        histories(&sys, std::iter::once(h), w);
                    }
                }
            }
        }
    }
}

fn main() {
    let mut c = Ctx::new("C02", "model_checking");
    c.rule = "breadth-first search over all subsets of each key type's keys (large types: at most 2 present or 1 absent, halves, strides); every (state, operation) executed on the real set, the return value and all accessors compared with a reference; plus 7 construction routes per state and all unmerged operation sequences up to a depth".into();
    macro_rules! go { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| unit::<$t>(w, $n)); )* } }
    fmcheck::zoo_large!(go);
    fmcheck::zoo_base!(go);
    fmcheck::zoo_small!(go);
    fmcheck::zoo_dynprim!(go);
    fmcheck::zoo_dyncomp!(go);
    c.finish()
}
