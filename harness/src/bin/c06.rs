use fmcheck::prelude::*;

/// What the predicate does with each visited entry: rejects, keeps, keeps with a new value, rejects
/// after writing a new value.
fn map_unit<K: Dom, V: Val>(w: &mut W, name: &'static str) {
    let sys = MapSys { info: info::<K>(name), mk: MapW::<K, V>::boxed };
    let n = K::N;
    let c = |v: u32| v % V::CARD;
    let tagged = |s: &[bool]| -> Model { tagged(s).into_iter().map(|v| v.map(c)).collect() };
    let full = if w.thorough { 8 } else { 6 };
    for sub in thin(subsets(n, full, 0), if w.thorough { 1000 } else { 130 }) {
        let m = tagged(&sub);
        w.stats.states += 1;
        let base: Vec<Op> = entries(&m).into_iter().map(|(k, v)| Op::Insert(k, v)).collect();
        // every accept/reject assignment over all keys (absent ones too: they must not be asked)
        let keeps: Vec<Vec<bool>> = if n <= full { subsets(n, full, 0) } else {
            let mut v = vec![vec![true; n], vec![false; n], (0..n).map(|i| i % 2 == 0).collect(), (0..n).map(|i| i % 3 == 1).collect()];
            if w.thorough || present(&m) <= 1 { for k in (0..n).step_by(7).chain([n - 1]) { v.push((0..n).map(|i| i != k).collect()); v.push((0..n).map(|i| i == k).collect()); } }
            v
        };
        for keep in keeps {
            for wr in [None, Some(c(70))] {
                for twice in [false, true] {
                    if twice && (wr.is_some() || n > 4) { continue; }
                    let mut h = base.clone();
                    h.push(Op::Retain(keep.clone(), wr));
                    if twice { h.push(Op::Retain(keep.iter().map(|b| !b).collect(), Some(c(71)))); }
                    w.begin(|| format!("{h:?}"));
                    w.stats.transitions += 1;
                    w.stats.traces += 1;
                    if let Err(e) = run_trace(&sys, &h, base.len()) { w.fail(format!("{h:?}"), e); return; }
                }
            }
        }
        if w.stats.states == 3 { w.sample(|| format!("map {name}: {m:?} x every accept/reject assignment")); }
    }
    // mixed decisions per key: reject / keep / keep+write / reject+write
    if n <= 4 {
        for sub in subsets(n, 4, 0) {
            let m = tagged(&sub);
            for code in 0..4usize.pow(n as u32) {
                let dec = |k: usize| (code / 4usize.pow(k as u32)) % 4;
                w.begin(|| format!("mixed {code} on {m:?}"));
                w.stats.transitions += 1;
                w.stats.traces += 1;
                let r = guard(|| {
                    let mut o = MapW::<K, V>::new();
                    for (k, v) in entries(&m) { o.insert(k, v); }
                    let mut seen = Vec::new();
                    o.retain(&mut |k, v| { seen.push((k, v)); if k == NOKEY { return (true, None); } let d = dec(k); (d == 1 || d == 2, (d >= 2).then_some(c(80 + k as u32))) });
                    seen.sort_unstable();
                    if seen != entries(&m) { return Err(format!("visited {seen:?}, expected {:?}", entries(&m))); }
                    let want: Model = (0..n).map(|k| m[k].and_then(|v| match dec(k) { 1 => Some(v), 2 => Some(c(80 + k as u32)), _ => None })).collect();
                    observe(&sys.info, &o, &want, &mut Seq::new())
                });
                if let Err(e) = r { w.fail(format!("mixed decisions {code} on {m:?}"), e); return; }
            }
        }
    }
}
/// A predicate with memory: answers by visit number, for both maps and sets.
fn stateful<K: Dom>(w: &mut W, name: &'static str) {
    let inf = info::<K>(name);
    let n = K::N;
    if n > 6 { return; }
    for sub in subsets(n, 6, 0) {
        let p = skeys(&sub).len();
        for ans in 0..1u32 << p {
            w.begin(|| format!("answers {ans:b} on {sub:?}"));
            w.stats.transitions += 2;
            w.stats.traces += 2;
            let r = guard(|| {
                let mut o = SetW::<K>::new();
                for k in skeys(&sub) { o.insert(k); }
                let mut seen = Vec::new();
                o.retain(&mut |k| { seen.push(k); ans >> (seen.len() - 1) & 1 == 1 });
                let mut want = vec![false; n];
                for (i, &k) in seen.iter().enumerate() { if k >= n { return Err("unknown key visited".into()); } want[k] = ans >> i & 1 == 1; }
                let mut s = seen.clone();
                s.sort_unstable();
                if s != skeys(&sub) { return Err(format!("set: visited {seen:?}, expected {:?}", skeys(&sub))); }
                sobserve(&inf, &o, &want, &mut Vec::new()).map_err(|e| format!("set, kept {want:?}: {e}"))?;
                let m = tagged(&sub);
                let mut o = MapW::<K, u32>::new();
                for (k, v) in entries(&m) { o.insert(k, v); }
                let mut seen = Vec::new();
                o.retain(&mut |k, v| { seen.push((k, v)); (ans >> (seen.len() - 1) & 1 == 1, None) });
                let mut want: Model = vec![None; n];
                for (i, &(k, v)) in seen.iter().enumerate() { if k >= n { return Err("unknown key visited".into()); } if ans >> i & 1 == 1 { want[k] = Some(v); } }
                seen.sort_unstable();
                if seen != entries(&m) { return Err(format!("map: visited {seen:?}")); }
                observe(&inf, &o, &want, &mut Seq::new()).map_err(|e| format!("map: {e}"))
            });
            if let Err(e) = r { w.fail(format!("answers {ans:b} on {sub:?}"), e); return; }
        }
    }
}
fn set_unit<K: Dom>(w: &mut W, name: &'static str) {
    let sys = SetSys { info: info::<K>(name), mk: SetW::<K>::boxed };
    let n = K::N;
    let full = if w.thorough { 10 } else { 7 };
    for sub in thin(subsets(n, full, if w.thorough { 130 } else { 0 }), if w.thorough { 1000 } else { 130 }) {
        w.stats.states += 1;
        let base: Vec<SOp> = skeys(&sub).into_iter().map(SOp::Insert).collect();
        let keeps: Vec<Vec<bool>> = if n <= full { subsets(n, full, 0) } else {
            let mut v = vec![vec![true; n], vec![false; n], (0..n).map(|i| i % 2 == 0).collect(), (0..n).map(|i| i % 3 == 1).collect()];
            for k in (0..n).step_by(if w.thorough { 1 } else { 5 }).chain([n - 1]) { v.push((0..n).map(|i| i != k).collect()); v.push((0..n).map(|i| i == k).collect()); }
            v
        };
        for keep in keeps {
            let mut h = base.clone();
            h.push(SOp::Retain(keep.clone()));
            if n <= 5 { h.push(SOp::Retain(keep.iter().map(|b| !b).collect())); }
            w.begin(|| format!("{h:?}"));
            w.stats.transitions += 1;
            w.stats.traces += 1;
            if let Err(e) = run_trace(&sys, &h, base.len()) { w.fail(format!("{h:?}"), e); return; }
        }
        if w.stats.states == 3 { w.sample(|| format!("set {name}: {sub:?} x every accept/reject assignment")); }
    }
    stateful::<K>(w, name);
}

fn main() {
    let mut c = Ctx::new("C06", "model_checking");
    c.rule = "for every contents of every key type, every accept/reject assignment to the keys (small types: all of them, with and without value updates, and mixed per-key decisions; large types: structured ones), retain run on the real map and set; visited entries, updates and resulting contents compared with a reference".into();
    macro_rules! go { ($([$t:ty, $n:literal]),*) => { $(
        c.job(concat!("map ", $n), |w| map_unit::<$t, Tok>(w, $n));
        c.job(concat!("set ", $n), |w| set_unit::<$t>(w, $n));
    )* } }
    fmcheck::zoo_large!(go);
    fmcheck::zoo_base!(go);
    fmcheck::zoo_small!(go);
    fmcheck::zoo_dynprim!(go);
    fmcheck::zoo_dyncomp!(go);
    macro_rules! val { ($k:ty, $kn:literal, $([$v:ty, $n:literal]),*) => { $( c.job(concat!("map ", $kn, "/", $n), |w| map_unit::<$k, $v>(w, concat!($kn, "/", $n))); )* } }
    macro_rules! vals { ($([$t:ty, $n:literal]),*) => { $( fmcore::each_val!(val, $t, $n); )* } }
    vals!([(), "()"], [bool, "bool"], [Option<bool>, "Option<bool>"], [fmcheck::zoo::U3, "U3"], [fmcheck::zoo::NestA, "NestA"], [fmcheck::zoo::C3UBS, "C3UBS"], [u8, "u8"], [fmcheck::zoo::DA, "DA"]);
    c.finish()
}
