use fmcheck::prelude::*;

/// Not equal to anything, itself included, and of no size.
struct Never;
impl PartialEq for Never { fn eq(&self, _: &Never) -> bool { false } }
fn map_with<K: Dom, V>(s: &SModel, v: impl Fn() -> V) -> Map<K, V> { skeys(s).into_iter().map(|k| (K::at(k), v())).collect() }

fn unit<K: Dom>(w: &mut W, name: &'static str)
where K::MapStorage<u32>: PartialEq + Clone, K::MapStorage<Tok>: PartialEq + Clone, K::MapStorage<f64>: PartialEq + Clone, K::MapStorage<()>: PartialEq, K::MapStorage<Never>: PartialEq, K::SetStorage: PartialEq + Clone {
    let inf = info::<K>(name);
    let n = inf.n;
    let step = if n < 100 || w.thorough { 5 } else { 32 };
    // ---- equality: every pair of contents, every pair of routes
    let models: Vec<Model> = if n <= if w.thorough { 6 } else { 5 } { all_models(n, &[1, 2]) } else {
        thin(subsets(n, if w.thorough { 10 } else { 9 }, 0), 40).iter().map(|s| s.iter().enumerate().map(|(i, b)| b.then_some(1 + i as u32 % 2)).collect()).collect()
    };
    let mut maps: Vec<(usize, usize, Map<K, u32>)> = Vec::new();
    for (i, m) in models.iter().enumerate() {
        w.stats.states += 1;
        w.begin(|| format!("building {m:?}"));
        let rs = routes(n, m, 7);
        let pick: Vec<usize> = if n <= 3 { (0..rs.len()).collect() } else if models.len() < 300 { vec![0, 1 + i % (rs.len() - 1)] } else { vec![i % rs.len()] };
        for r in pick {
            match guard(|| Ok(map_by::<K, u32>(&rs[r]))) { Ok(o) => maps.push((i, r, o)), Err(e) => { w.fail(format!("{:?}", rs[r]), e); return; } }
        }
    }
    for (i, r, a) in &maps {
        w.begin(|| format!("map {i} {r} against all"));
        for (j, q, b) in &maps {
            w.stats.transitions += 1;
            let want = models[*i] == models[*j];
            if (a == b) != want || (a != b) == want {
                w.fail(format!("map == of {:?} and {:?}", routes(n, &models[*i], 7)[*r], routes(n, &models[*j], 7)[*q]), format!("== is {}, != is {}, contents {} equal", a == b, a != b, if want { "are" } else { "are not" }));
                return;
            }
        }
    }
    // contents differing in a single value only, or a single key, of large types: covered pairwise
    if n > 5 {
        for sub in thin(large_subsets(n, 0), if w.thorough { 130 } else { 40 }) {
            let m = tagged(&sub);
            let p = present(&m);
            let every = w.thorough || n < 70 || p == 0 || p == n;
            w.begin(|| format!("neighbours of {m:?}"));
            let r = guard(|| {
                let a = map_of::<K, u32>(&m);
                for k in (0..n).filter(|k| every || k % 8 == 7 || k + 1 == n) {
                    let mut m2 = m.clone();
                    m2[k] = match m2[k] { Some(v) => Some(v + 1), None => Some(3) };
                    let b = map_of::<K, u32>(&m2);
                    if a == b || b == a || !(a != b) { return Err(format!("equal to {m2:?}")); }
                    if m[k].is_some() { m2[k] = None; let b = map_of::<K, u32>(&m2); if a == b || b == a { return Err(format!("equal to {m2:?}")); } }
                }
                if every && a != map_by::<K, u32>(&routes(n, &m, 7)[3]) { return Err("not equal to the same contents built differently".into()); }
                Ok(())
            });
            w.stats.transitions += 2 * n as u64;
            if let Err(e) = r { w.fail(format!("neighbours of {m:?}"), e); return; }
        }
    }
    // sets
    let subs = thin(subsets(n, if w.thorough { 10 } else { 9 }, 0), if w.thorough { 70 } else { 40 });
    let mut sets: Vec<(usize, usize, Set<K>)> = Vec::new();
    for (i, s) in subs.iter().enumerate() {
        w.stats.states += 1;
        let rs = sroutes(n, s);
        let pick: Vec<usize> = if n <= 4 { (0..rs.len()).collect() } else { vec![i % rs.len()] };
        for r in pick {
            w.begin(|| format!("{:?}", rs[r]));
            match guard(|| Ok(set_by::<K>(&rs[r]))) { Ok(o) => sets.push((i, r, o)), Err(e) => { w.fail(format!("{:?}", rs[r]), e); return; } }
        }
    }
    for (i, r, a) in &sets {
        w.begin(|| format!("set {i} {r} against all"));
        for (j, q, b) in &sets {
            w.stats.transitions += 1;
            let want = subs[*i] == subs[*j];
            if (a == b) != want || (a != b) == want {
                w.fail(format!("set == of {:?} and {:?}", sroutes(n, &subs[*i])[*r], sroutes(n, &subs[*j])[*q]), format!("== is {}, contents {} equal", a == b, if want { "are" } else { "are not" }));
                return;
            }
        }
    }
    // ---- values without reflexive equality
    if n <= 4 {
        let mk = |m: &Model| { let mut o: Map<K, f64> = Map::new(); for (k, v) in entries(m) { o.insert(K::at(k), if v == 1 { f64::NAN } else { 0.5 }); } o };
        for m in all_models(n, &[1, 2]) {
            for m2 in all_models(n, &[1, 2]) {
                w.stats.transitions += 1;
                let want = m == m2 && entries(&m).iter().all(|e| e.1 != 1);
                let (a, b) = (mk(&m), mk(&m2));
                if (a == b) != want || (a != b) == want { w.fail(format!("== of {m:?} and {m2:?}, 1 standing for NaN"), format!("is {}", a == b)); return; }
            }
            let a = mk(&m);
            #[allow(clippy::eq_op)]
            if (a == a) != entries(&m).iter().all(|e| e.1 != 1) { w.fail(format!("a == a for {m:?}, 1 standing for NaN"), format!("is {}", a == a)); return; }
        }
    }
    // ---- values of no size, equal to nothing or to everything
    if n <= 6 {
        let subs = subsets(n, 6, 0);
        for x in &subs {
            for y in &subs {
                w.begin(|| format!("values of no size, {x:?} and {y:?}"));
                w.stats.transitions += 1;
                let (a, b) = (map_with::<K, Never>(x, || Never), map_with::<K, Never>(y, || Never));
                let want = x == y && skeys(x).is_empty();
                if (a == b) != want || (a != b) == want { w.fail(format!("== of {x:?} and {y:?}, of a value of no size that is not equal to itself"), format!("is {}", a == b)); return; }
                let (a, b) = (map_with::<K, ()>(x, || ()), map_with::<K, ()>(y, || ()));
                if (a == b) != (x == y) || (a != b) == (x == y) { w.fail(format!("== of {x:?} and {y:?}, of ()"), format!("is {}", a == b)); return; }
            }
        }
    }
    // ---- clones
    let subs = thin(subsets(n, if w.thorough { 8 } else { 6 }, 0), 40);
    for sub in &subs {
        let m = tagged(sub);
        let ops: Vec<Op> = {
            let mut v: Vec<Op> = (0..n).filter(|k| n <= 8 || k % step == 0 || k + 2 > n).flat_map(|k| [Op::Insert(k, 90), Op::Remove(k), Op::GetMut(k, Some(91)), Op::Entry(k, EOp::OrInsert(92, Some(93)))]).collect();
            v.extend([Op::Clear, Op::Retain(vec![false; n], None), Op::Retain(vec![true; n], Some(94)), Op::SetAll(0, 95), Op::SetAll(1, 96)]);
            v
        };
        for op in ops {
            for on_clone in [false, true] {
                w.begin(|| format!("clone of {m:?}, {op:?} on the clone: {on_clone}"));
                w.stats.transitions += 1;
                w.stats.traces += 1;
                reset();
                let r = guard(|| {
                    let a = map_of::<K, Tok>(&m);
                    let b = a.clone();
                    if !(a == b && b == a) || a != b { return Err("clone is not equal to the original".into()); }
                    let b = observe_map(&inf, b, &m).map_err(|e| format!("clone: {e}"))?;
                    let a = observe_map(&inf, a, &m).map_err(|e| format!("original after cloning: {e}"))?;
                    let (mut x, y) = if on_clone { (MapW { m: b }, a) } else { (MapW { m: a }, b) };
                    let mut want = m.clone();
                    let res = apply_model(&mut want, &op);
                    let got = apply_real(&mut x, &op);
                    if res != got { return Err(format!("{op:?} returned {got:?}, expected {res:?}")); }
                    let y = observe_map(&inf, y, &m).map_err(|e| format!("the other one changed: {e}"))?;
                    observe(&inf, &x, &want, &mut Seq::new())?;
                    if (x.m == y) != (want == m) { return Err(format!("== is {} afterwards", x.m == y)); }
                    drop(x);
                    let y = observe_map(&inf, y, &m).map_err(|e| format!("after dropping the other one: {e}"))?;
                    drop(y);
                    if live() != 0 || !errors().is_empty() { return Err(format!("values: {} alive afterwards, {:?}", live(), errors())); }
                    Ok(())
                });
                if let Err(e) = r { w.fail(format!("clone of {m:?}, {op:?} on the {}", if on_clone { "clone" } else { "original" }), e); return; }
            }
        }
        // set clones
        for k in (0..n).filter(|k| n <= 8 || k % step == 0 || k + 2 > n) {
            for op in [SOp::Insert(k), SOp::Remove(k), SOp::Clear, SOp::Retain((0..n).map(|i| i != k).collect())] {
                for on_clone in [false, true] {
                    w.begin(|| format!("clone of {sub:?}, {op:?}"));
                    w.stats.transitions += 1;
                    let r = guard(|| {
                        let a = set_of::<K>(sub);
                        let b = a.clone();
                        if a != b || b != a { return Err("clone is not equal to the original".into()); }
                        let b = observe_set(&inf, b, sub)?;
                        let (mut x, y) = if on_clone { (SetW { s: b }, a) } else { (SetW { s: a }, b) };
                        let mut want = sub.clone();
                        sapply_model(&mut want, &op);
                        sapply_real(&mut x, &op);
                        let y = observe_set(&inf, y, sub).map_err(|e| format!("the other one changed: {e}"))?;
                        sobserve(&inf, &x, &want, &mut Vec::new())?;
                        if (x.s == y) != (want == *sub) { return Err("== afterwards".into()); }
                        Ok(())
                    });
                    if let Err(e) = r { w.fail(format!("set clone of {sub:?}, {op:?} on the {}", if on_clone { "clone" } else { "original" }), e); return; }
                }
            }
        }
    }
    // clone_from between every pair of contents
    if n <= 8 {
        let subs = subsets(n, if w.thorough { 8 } else { 5 }, 0);
        for sa in &subs {
            for sb in &subs {
                w.begin(|| format!("clone_from {sa:?} {sb:?}"));
                w.stats.transitions += 2;
                reset();
                let ma: Model = tagged(sa);
                let mb: Model = sb.iter().enumerate().map(|(i, b)| b.then_some(i as u32 + 50)).collect();
                let r = guard(|| {
                    let mut a = map_of::<K, Tok>(&ma);
                    let b = map_of::<K, Tok>(&mb);
                    a.clone_from(&b);
                    if a != b { return Err("not equal".into()); }
                    let a = observe_map(&inf, a, &mb)?;
                    let b = observe_map(&inf, b, &mb)?;
                    if live() != 2 * present(&mb) { return Err(format!("{} values alive, expected {}", live(), 2 * present(&mb))); }
                    drop((a, b));
                    if live() != 0 || !errors().is_empty() { return Err(format!("values: {} alive afterwards, {:?}", live(), errors())); }
                    let mut a = set_of::<K>(sa);
                    let b = set_of::<K>(sb);
                    a.clone_from(&b);
                    if a != b { return Err("sets not equal".into()); }
                    observe_set(&inf, a, sb)?;
                    Ok(())
                });
                if let Err(e) = r { w.fail(format!("clone_from, {ma:?} from {mb:?}"), e); return; }
            }
        }
    }
    w.sample(|| format!("{name}: {} maps and {} sets compared pairwise", maps.len(), sets.len()));
    w.stats.traces += (maps.len() + sets.len()) as u64;
}

/// Copies, where collections can be copied.
fn copies<K: Dom>(w: &mut W, name: &'static str) where K::MapStorage<u32>: Copy + PartialEq, K::SetStorage: Copy + PartialEq {
    let inf = info::<K>(name);
    let n = inf.n;
    let step = if n < 100 || w.thorough { 5 } else { 32 };
    for sub in thin(subsets(n, 8, 0), 40) {
        let m = tagged(&sub);
        w.stats.states += 1;
        w.begin(|| format!("copy of {m:?}"));
        let r = guard(|| {
            for k in (0..n).filter(|k| n <= 8 || k % step == 0 || k + 2 > n) {
                for op in [Op::Insert(k, 90), Op::Remove(k), Op::GetMut(k, Some(91)), Op::Clear] {
                    let a = map_of::<K, u32>(&m);
                    let mut x = MapW { m: a };
                    let y = x.m;
                    if x.m != y { return Err("copy is not equal".to_string()); }
                    let mut want = m.clone();
                    apply_model(&mut want, &op);
                    apply_real(&mut x, &op);
                    observe(&inf, &x, &want, &mut Seq::new())?;
                    observe_map(&inf, y, &m).map_err(|e| format!("the copy changed after {op:?}: {e}"))?;
                    let mut y = MapW { m: y };
                    apply_real(&mut y, &op);
                    observe(&inf, &y, &want, &mut Seq::new())?;
                }
                let a = set_of::<K>(&sub);
                let mut x = SetW { s: a };
                let y = x.s;
                if x.s != y { return Err("set copy is not equal".to_string()); }
                if sub[k] { x.remove(k); } else { x.insert(k); }
                observe_set(&inf, y, &sub).map_err(|e| format!("the set copy changed: {e}"))?;
            }
            Ok(())
        });
        w.stats.transitions += 8 * n as u64;
        if let Err(e) = r { w.fail(format!("copy of {m:?}"), e); return; }
    }
}

fn main() {
    let mut c = Ctx::new("C07", "model_checking");
    c.rule = "every pair of contents of every key type (small: all contents over two values, built by up to 9 different histories each; large: structured contents and all their one-entry neighbours), maps and sets, == and != against equality of the reference contents; NaN values; every operation on either side of every clone and copy; clone_from between every pair of contents".into();
    macro_rules! stat { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| { unit::<$t>(w, $n); if !w.failed() { copies::<$t>(w, $n) } }); )* } }
    macro_rules! dynamic { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| unit::<$t>(w, $n)); )* } }
    fmcheck::zoo_large!(stat);
    fmcheck::zoo_base!(stat);
    fmcheck::zoo_small!(stat);
    fmcheck::zoo_dynprim!(dynamic);
    fmcheck::zoo_dyncomp!(dynamic);
    c.finish()
}
