use fmcheck::prelude::*;

/// Every entry operation with small arguments.
fn entry_ops() -> Vec<EOp> {
    let mut v = vec![EOp::Key];
    for w in [None, Some(61)] { v.push(EOp::OrInsert(51, w)); v.push(EOp::OrInsertWith(52, w)); v.push(EOp::OrInsertWithKey(53, w)); }
    v.push(EOp::AndModify(62));
    v.push(EOp::AndModifyOrInsert(63, 54));
    v.push(EOp::AndModify2OrWith(64, 65, 55));
    // every chain of up to three steps on an occupied entry, with every way of giving it up
    let steps = [EStep::Key, EStep::Get, EStep::GetMut(71), EStep::Replace(72)];
    let mut chains: Vec<Vec<EStep>> = vec![vec![]];
    let mut i = 0;
    while i < chains.len() { if chains[i].len() < 3 { for s in steps { let mut c = chains[i].clone(); c.push(match s { EStep::GetMut(w) => EStep::GetMut(w + 2 * c.len() as u32), EStep::Replace(w) => EStep::Replace(w + 2 * c.len() as u32), s => s }); chains.push(c); } } i += 1; }
    for c in chains {
        for end in [EEnd::Drop, EEnd::IntoMut(None), EEnd::IntoMut(Some(81)), EEnd::Remove] {
            let vac = match end { EEnd::Drop => None, EEnd::Remove => Some((91, Some(92))), _ => Some((91, None)) };
            v.push(EOp::Match(c.clone(), end, vac));
        }
    }
    v
}

/// `or_default` needs a default value: exercised with the ledger type directly.
fn or_default<K: Dom>(w: &mut W) {
    for sub in thin(subsets(K::N, 6, 0), if w.thorough { 1000 } else { 20 }) {
        for k in 0..K::N {
            if K::N > 20 && k % 4 != 0 && k + 1 != K::N { continue; }
            let m0 = tagged(&sub);
            w.begin(|| format!("or_default({k}) on {m0:?}"));
            w.stats.traces += 1;
            let r = guard(|| {
                let mut o = MapW::<K, Tok>::new();
                for (i, v) in entries(&m0) { o.m.insert(K::at(i), Tok::new(v)); }
                reset_calls();
                let mut m = m0.clone();
                let d = calls(site::DEFAULT);
                {
                    let r = o.m.entry(K::at(k)).or_default();
                    let want = m0[k].unwrap_or(7);
                    if r.id() != want { return Err(format!("or_default gave {}, expected {want}", r.id())); }
                    *r = Tok::new(66);
                }
                let called = calls(site::DEFAULT) - d;
                if called != u32::from(m0[k].is_none()) { return Err(format!("default evaluated {called} times")); }
                m[k] = Some(66);
                observe(&info::<K>("-"), &o, &m, &mut Seq::new())
            });
            if let Err(e) = r { w.fail(format!("or_default({k}) on {m0:?}"), e); return; }
        }
    }
}

fn unit<K: Dom>(w: &mut W, name: &'static str) {
    let sys = MapSys { info: info::<K>(name), mk: MapW::<K, Tok>::boxed };
    let n = K::N;
    let ops = entry_ops();
    let full = if w.thorough { 8 } else { 5 };
    for sub in thin(subsets(n, full, 0), if w.thorough { 1000 } else { 20 }) {
        let m = tagged(&sub);
        w.stats.states += 1;
        let p = present(&m);
        let base: Vec<Op> = entries(&m).into_iter().map(|(k, v)| Op::Insert(k, v)).collect();
        for k in 0..n {
            let big = n > full;
            if big && !(w.thorough || p == 0 || p == n || k % 16 == 0 || (p == 1 && m[k].is_some()) || (p + 1 == n && m[k].is_none()) || k + 1 == n) { continue; }
            for (i, op) in ops.iter().enumerate() {
                if big && i > 14 && (i + k) % 41 != 0 { continue; }
                let mut h = base.clone();
                h.push(Op::Entry(k, op.clone()));
                w.begin(|| format!("{h:?}"));
                w.stats.transitions += 1;
                w.stats.traces += 1;
                if let Err(e) = run_trace(&sys, &h, usize::MAX) { w.fail(format!("{h:?}"), e); return; }
            }
        }
        if w.stats.states == 2 { w.sample(|| format!("{name}: {m:?} x {} entry operations x {n} keys", ops.len())); }
    }
    // unmerged sequences of entry operations only
    let few = [EOp::OrInsert(1, None), EOp::AndModify(2), EOp::Match(vec![EStep::Replace(3)], EEnd::Remove, Some((4, None))), EOp::Match(vec![EStep::GetMut(5)], EEnd::IntoMut(Some(6)), None)];
    let seq: Vec<Op> = (0..n).flat_map(|k| few.iter().map(move |e| Op::Entry(k, e.clone()))).collect();
    sequences(&sys, &seq, depth_for(seq.len(), if w.thorough { 1_000_000 } else { 20_000 }, 7), w);
    or_default::<K>(w);
}

/// The same operations on values with other representations.
fn other<K: Dom, V: Val>(w: &mut W, name: &'static str) {
    let sys = MapSys { info: info::<K>(name), mk: MapW::<K, V>::boxed };
    let c = |v: u32| v % V::CARD;
    for sub in subsets(K::N, 6, 0) {
        let base: Vec<Op> = skeys(&sub).into_iter().map(|k| Op::Insert(k, c(k as u32))).collect();
        w.stats.states += 1;
        for k in 0..K::N {
            for v in 0..V::CARD.min(3) {
                for op in [EOp::Key, EOp::OrInsert(v, Some(c(v + 1))), EOp::OrInsertWith(v, None), EOp::OrInsertWithKey(v, Some(c(v + 1))), EOp::AndModify(v), EOp::AndModifyOrInsert(v, c(v + 1)), EOp::Match(vec![EStep::Get, EStep::Replace(v), EStep::GetMut(c(v + 1))], EEnd::Remove, Some((v, None))), EOp::Match(vec![EStep::Replace(v)], EEnd::IntoMut(Some(c(v + 1))), Some((v, Some(c(v + 1)))))] {
                    let mut h = base.clone();
                    h.push(Op::Entry(k, op));
                    w.begin(|| format!("{h:?}"));
                    w.stats.transitions += 1;
                    w.stats.traces += 1;
                    if let Err(e) = run_trace(&sys, &h, usize::MAX) { w.fail(format!("{h:?}"), e); return; }
                }
            }
        }
    }
}

/// The documented utility the entries of field-less enums are built on.
fn bucket(w: &mut W) {
    use fixed_map::option_bucket::OptionBucket;
    for init in [None, Some(1u32)] {
        for path in 0..6 {
            w.begin(|| format!("bucket path {path} on {init:?}"));
            w.stats.states += 1;
            w.stats.transitions += 1;
            w.stats.traces += 1;
            let r = guard(|| {
                let mut slot = init.map(Tok::new);
                let (got, want) = match OptionBucket::new(&mut slot) {
                    OptionBucket::Some(mut b) => match path {
                        0 => (b.as_ref().id(), 1),
                        1 => { b.as_mut().put(5); (b.as_ref().id(), 5) }
                        2 => (b.replace(Tok::new(6)).id(), 1),
                        3 => (b.take().id(), 1),
                        4 => { let r = b.into_mut(); r.put(7); (r.id(), 7) }
                        _ => { let a = b.replace(Tok::new(8)).id(); let c = b.replace(Tok::new(9)).id(); (a * 10 + c, 18) }
                    },
                    OptionBucket::None(b) => { let r = b.insert(Tok::new(2)); r.put(r.id() + path); (r.id(), 2 + path) }
                };
                if got != want { return Err(format!("read {got}, expected {want}")); }
                let end = slot.as_ref().map(Tok::id);
                let exp = match (init, path) { (None, p) => Some(2 + p), (_, 0) => Some(1), (_, 1) => Some(5), (_, 2) => Some(6), (_, 3) => None, (_, 4) => Some(7), _ => Some(9) };
                if end != exp { return Err(format!("slot ends as {end:?}, expected {exp:?}")); }
                Ok(())
            });
            if let Err(e) = r { w.fail(format!("bucket path {path} on {init:?}"), e); }
        }
    }
}

fn main() {
    let mut c = Ctx::new("C03", "model_checking");
    c.rule = "for every contents (with distinct values) of every key type, every key and every entry operation (including every chain of up to 3 steps on an occupied entry and every way of giving it up), executed on the real map, with reads, callback counts and resulting contents compared with a reference; plus unmerged sequences of entry operations".into();
    macro_rules! go { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| unit::<$t>(w, $n)); )* } }
    fmcheck::zoo_large!(go);
    fmcheck::zoo_base!(go);
    fmcheck::zoo_small!(go);
    fmcheck::zoo_dynprim!(go);
    fmcheck::zoo_dyncomp!(go);
    macro_rules! val { ($k:ty, $kn:literal, $([$v:ty, $n:literal]),*) => { $( c.job(concat!($kn, "/", $n), |w| other::<$k, $v>(w, concat!($kn, "/", $n))); )* } }
    macro_rules! vals { ($([$t:ty, $n:literal]),*) => { $( fmcore::each_val!(val, $t, $n); )* } }
    vals!([(), "()"], [bool, "bool"], [Option<bool>, "Option<bool>"], [fmcheck::zoo::U3, "U3"], [fmcheck::zoo::K3, "K3"], [fmcheck::zoo::NestB, "NestB"], [fmcheck::zoo::C3UBS, "C3UBS"], [u8, "u8"], [fmcheck::zoo::DA, "DA"]);
    c.job("bucket", bucket);
    c.finish()
}
