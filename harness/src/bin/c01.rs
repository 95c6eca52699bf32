use fmcheck::prelude::*;







/// All operations on a domain of `n` keys with the given value ids.
fn alphabet(n: usize, vals: &[u32]) -> Vec<Op> {
    let mut ops = Vec::new();
    for k in 0..n { for &v in vals { ops.push(Op::Insert(k, v)); } }
    for k in 0..n { ops.push(Op::Remove(k)); }
    ops.push(Op::Clear);
    for k in 0..n { ops.push(Op::GetMut(k, vals.last().copied())); }
    for k in 0..n { ops.push(Op::Entry(k, EOp::OrInsert(vals[0], None))); }
    for k in 0..n { ops.push(Op::Entry(k, EOp::Match(vec![], EEnd::Remove, None))); }
    for k in 0..n { ops.push(Op::Entry(k, EOp::Match(vec![EStep::Replace(vals[vals.len() - 1])], EEnd::Drop, None))); }
    for k in 0..n {
        ops.push(Op::Retain((0..n).map(|i| i == k).collect(), None));
        ops.push(Op::Retain((0..n).map(|i| i != k).collect(), vals.last().copied()));
    }
    ops.push(Op::Retain(vec![false; n], None));
    for kind in 0..3 { ops.push(Op::SetAll(kind, vals[0])); }
    ops
}
/// A few operations per key, for unmerged sequences.
fn small_alphabet(n: usize, vals: &[u32]) -> Vec<Op> {
    let mut ops = Vec::new();
    for k in 0..n { ops.push(Op::Insert(k, vals[k % vals.len()])); }
    for k in 0..n { ops.push(Op::Remove(k)); }
    ops.push(Op::Clear);
    ops
}

fn unit<K: Dom, V: Val>(w: &mut W, name: &'static str) {
    let info = info::<K>(name);
    let n = info.n;
    let sys = MapSys { info, mk: MapW::<K, V>::boxed };
    let vals: Vec<u32> = (0..V::CARD.min(if n <= 5 { 3 } else { 2 }).min(if n <= if w.thorough { 8 } else { 6 } { 3 } else { 1 })).map(|v| v + u32::from(V::CARD > 8)).collect();
    if n <= 10 {
        let vals = if n <= 4 { &vals[..] } else { &vals[..vals.len().min(2)] };
        let states = bfs(&sys, &alphabet(n, vals), &|_| true, w);
        if w.failed() { return; }
        let other = if V::CARD > 8 { 9 } else { vals[0] };
        for (s, _) in states { histories(&sys, routes(n, &s, other).into_iter(), w); if w.failed() { return; } }
        let ops = small_alphabet(n, vals);
        sequences(&sys, &ops, depth_for(ops.len(), if w.thorough { 3_000_000 } else { 60_000 }, 9), w);
        if n <= 3 { let ops = alphabet(n, vals); sequences(&sys, &ops, depth_for(ops.len(), if w.thorough { 3_000_000 } else { 60_000 }, 6), w); }
    } else {
        for sub in thin(large_subsets(n, if w.thorough { 130 } else { 34 }), if w.thorough { 1000 } else { 130 }) {
            w.stats.states += 1;
            let m: Model = sub.iter().enumerate().map(|(i, b)| b.then_some(if V::CARD > 8 { i as u32 + 10 } else { (i as u32) % V::CARD })).collect();
            let rs = routes(n, &m, if V::CARD > 8 { 5 } else { 0 });
            let all = w.thorough || n < 70;
            histories(&sys, rs.into_iter().enumerate().filter(|(i, _)| all || [0, 3].contains(i)).map(|x| x.1), w);
            if w.failed() { return; }
            // every operation from the extreme states
            let p = present(&m);
            let sized = at_size(&sub, p);
            if p <= 1 || p + 1 >= n || sized {
                let e: Vec<Op> = entries(&m).iter().map(|&(k, v)| Op::Insert(k, v)).collect();
                for k in 0..n {
                    let near = sized && (k < 2 || k + 1 == n || k + 2 > p && k < p + 2);
                    if sized && !near || !(near || w.thorough || p == 0 || p == n || m[k].is_some() == (p == 1) || k % 8 == 0) { continue; }
                    let v = if V::CARD > 8 { 3 } else { 0 };
                    for op in [Op::Insert(k, v), Op::Remove(k), Op::GetMut(k, Some(v)), Op::Entry(k, EOp::OrInsert(v, None))] {
                        let mut h = e.clone();
                        h.push(op);
                        w.stats.transitions += 1;
                        histories(&sys, std::iter::once(h), w);
                    }
                }
            }
        }
    }
}

fn main() {
    let mut c = Ctx::new("C01", "model_checking");
    c.rule = "breadth-first search over all contents reachable for each key type (large types: at most 2 present or 1 absent, halves, strides); every (state, operation) executed on the real map and compared with a reference table through all accessors; plus 9 construction routes per state and all unmerged operation sequences up to a depth".into();
    macro_rules! go { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| unit::<$t, Tok>(w, $n)); )* } }
    fmcheck::zoo_large!(go);
    fmcheck::zoo_base!(go);
    fmcheck::zoo_small!(go);
    fmcheck::zoo_dynprim!(go);
    fmcheck::zoo_dyncomp!(go);
    macro_rules! val { ($k:ty, $kn:literal, $([$v:ty, $n:literal]),*) => { $( c.job(concat!($kn, "/", $n), |w| unit::<$k, $v>(w, concat!($kn, "/", $n))); )* } }
    macro_rules! vals { ($([$t:ty, $n:literal]),*) => { $( fmcore::each_val!(val, $t, $n); )* } }
    vals!([(), "()"], [bool, "bool"], [Option<bool>, "Option<bool>"], [fmcheck::zoo::U3, "U3"], [fmcheck::zoo::K3, "K3"], [fmcheck::zoo::NestB, "NestB"], [fmcheck::zoo::C3UBS, "C3UBS"], [u8, "u8"], [fmcheck::zoo::DA, "DA"]);
    c.finish()
}
