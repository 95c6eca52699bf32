use fmcheck::prelude::*;

/// Every way of walking over a map, stepped and folded; the mutable ones overwrite nothing.
fn walks<K: Dom, V: Val + Clone>(mut m: Map<K, V>, mut each: impl FnMut(&'static str, bool, bool, &Seq) -> Result<(), String>) -> Result<(), String> {
    let mut out = Seq::new();
    macro_rules! walk {
        ($name:literal, $keyed:literal, $valued:literal, $it:expr, |$x:pat_param| $e:expr) => {
            out.clear();
            for $x in $it.take(CAP) { out.push($e); }
            each($name, $keyed, $valued, &out)?;
            out.clear();
            $it.for_each(|$x| { assert!(out.len() < CAP, "endless"); out.push($e) });
            each(concat!($name, " (for_each)"), $keyed, $valued, &out)?;
            out.clear();
            {
                let mut it = $it;
                loop { match it.next() { Some($x) if out.len() < CAP => out.push($e), _ => break } }
            }
            each(concat!($name, " (next)"), $keyed, $valued, &out)?;
            // the ways of consuming an iterator that need not step through it
            if $it.count() != out.len() { return Err(format!("{}: count() is {}, of {} items", $name, $it.count(), out.len())); }
            let last = $it.last().map(|$x| $e);
            if last != out.last().copied() { return Err(format!("{}: last() gives {last:?}, stepping ends with {:?}", $name, out.last())); }
            for i in [0, 1, 2, out.len() / 2, out.len()] {
                let nth = $it.nth(i).map(|$x| $e);
                if nth != out.get(i).copied() { return Err(format!("{}: nth({i}) gives {nth:?}, stepping gives {:?}", $name, out.get(i))); }
            }
        };
    }
    walk!("iter", true, true, m.iter(), |(k, v)| (k.idx(), v.id()));
    walk!("keys", true, false, m.keys(), |k| (k.idx(), 0));
    walk!("values", false, true, m.values(), |v| (NOKEY, v.id()));
    walk!("&map", true, true, (&m).into_iter(), |(k, v)| (k.idx(), v.id()));
    walk!("iter_mut", true, true, m.iter_mut(), |(k, v)| (k.idx(), v.id()));
    walk!("values_mut", false, true, m.values_mut(), |v| (NOKEY, v.id()));
    walk!("&mut map", true, true, (&mut m).into_iter(), |(k, v)| (k.idx(), v.id()));
    out.clear();
    for (k, v) in m.into_iter().take(CAP) { out.push((k.idx(), v.id())); }
    each("into_iter", true, true, &out)
}
fn swalks<K: Dom>(s: Set<K>, folded: bool, mut each: impl FnMut(&'static str, &[usize]) -> Result<(), String>) -> Result<(), String> {
    let mut out = Vec::new();
    for k in s.iter().take(CAP) { out.push(k.idx()); }
    each("iter", &out)?;
    out.clear();
    for k in &s { assert!(out.len() < CAP, "endless"); out.push(k.idx()); }
    each("&set", &out)?;
    out.clear();
    s.iter().for_each(|k| { assert!(out.len() < CAP, "endless"); out.push(k.idx()) });
    each("iter (for_each)", &out)?;
    out.clear();
    if folded { s.into_iter().for_each(|k| { assert!(out.len() < CAP, "endless"); out.push(k.idx()) }); }
    else { for k in s.into_iter().take(CAP) { out.push(k.idx()); } }
    each("into_iter", &out)
}

fn unit<K: Dom, V: Val + Clone>(w: &mut W, name: &'static str) {
    let inf = info::<K>(name);
    let n = inf.n;
    let full = if w.thorough { 12 } else { 10 };
    let subs = subsets(n, full, if w.thorough { 300 } else { 40 });
    let subs = if w.thorough { subs } else { thin(subs, 257) };
    for sub in subs {
        w.stats.states += 1;
        let m: Model = sub.iter().enumerate().map(|(i, b)| b.then_some(if V::CARD > 8 { i as u32 + 10 } else { i as u32 % V::CARD })).collect();
        let rs = routes(n, &m, if V::CARD > 8 { 5 } else { 0 });
        let nr = if n <= 6 || w.thorough { rs.len() } else { 1 };
        // the first route, then (for larger types) the remaining ones in rotation over the states
        let pick: Vec<usize> = if nr > 1 { (0..nr).collect() } else { vec![0, 1 + w.stats.states as usize % (rs.len() - 1)] };
        for r in pick {
            w.begin(|| format!("{:?}", rs[r]));
            w.stats.traces += 1;
            let mut walked = 0;
            let res = guard(|| walks(map_by::<K, V>(&rs[r]), |kind, keyed, valued, got| { walked += 1; check_seq(&inf, &m, kind, keyed, valued, got) }));
            w.stats.transitions += walked;
            if let Err(e) = res { w.fail(format!("map {:?}", rs[r]), e); return; }
            // iterating gives what a consuming iteration of the same map gives
            let res = guard(|| {
                let o = map_by::<K, V>(&rs[r]);
                let a: Seq = o.iter().take(CAP).map(|(k, v)| (k.idx(), v.id())).collect();
                let b: Seq = o.into_iter().map(|(k, v)| (k.idx(), v.id())).take(CAP).collect();
                if a != b { return Err(format!("iter gives {a:?}, into_iter of the same map {b:?}")); }
                Ok(())
            });
            if let Err(e) = res { w.fail(format!("map {:?}", rs[r]), e); return; }
        }
        if V::CARD < 8 { continue; }
        let rs = sroutes(n, &sub);
        let pick: Vec<usize> = if nr > 1 { (0..rs.len()).collect() } else { vec![0, 1 + w.stats.states as usize % (rs.len() - 1)] };
        for r in pick {
            w.begin(|| format!("{:?}", rs[r]));
            w.stats.traces += 2;
            for folded in [false, true] {
                let mut walked = 0;
                let res = guard(|| swalks(set_by::<K>(&rs[r]), folded, |kind, got| { walked += 1; scheck_seq(&inf, &sub, kind, got) }));
                w.stats.transitions += walked;
                if let Err(e) = res { w.fail(format!("set {:?}", rs[r]), e); return; }
            }
        }
        if w.stats.states == 6 { w.sample(|| format!("{name}: contents {m:?}: every walk must yield {:?}", entries(&m))); }
    }
}

fn main() {
    let mut c = Ctx::new("C04", "model_checking");
    c.rule = "every contents of every key type (large types: up to 2 present, 1 absent, halves, strides), built by several histories; every iterator of the real map and set walked by for loop, internal iteration and explicit stepping; items and order compared with those computed from the declaration".into();
    c.assumptions.push("values of dynamically stored keys of one variant may come in any order; the order among variants is checked".into());
    macro_rules! go { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| unit::<$t, u32>(w, $n)); )* } }
    fmcheck::zoo_large!(go);
    fmcheck::zoo_base!(go);
    fmcheck::zoo_small!(go);
    fmcheck::zoo_dynprim!(go);
    fmcheck::zoo_dyncomp!(go);
    macro_rules! val { ($k:ty, $kn:literal, $([$v:ty, $n:literal]),*) => { $( c.job(concat!($kn, "/", $n), |w| unit::<$k, $v>(w, concat!($kn, "/", $n))); )* } }
    macro_rules! vals { ($([$t:ty, $n:literal]),*) => { $( fmcore::each_val!(val, $t, $n); )* } }
    vals!([(), "()"], [bool, "bool"], [Option<bool>, "Option<bool>"], [fmcheck::zoo::U3, "U3"], [fmcheck::zoo::K3, "K3"], [fmcheck::zoo::NestB, "NestB"], [fmcheck::zoo::C3UBS, "C3UBS"], [u8, "u8"], [fmcheck::zoo::DA, "DA"]);
    c.finish()
}
