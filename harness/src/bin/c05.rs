use fmcheck::iters::*;
use fmcheck::prelude::*;

const KINDS: [&str; 8] = ["iter", "keys", "values", "&map", "iter_mut", "values_mut", "&mut map", "into_iter"];
const SKINDS: [&str; 3] = ["set iter", "&set", "set into_iter"];

/// Fresh iterators over given contents, one kind at a time.
type MapSource = fn(&Model, usize, &mut dyn FnMut(&mut Source<'_>));
type SetSource = fn(&[bool], usize, &mut dyn FnMut(&mut Source<'_>));

fn kv<K: Dom>((k, v): (K, &u32)) -> Item { (k.idx(), *v) }
fn kvm<K: Dom>((k, v): (K, &mut u32)) -> Item { (k.idx(), *v) }
fn kvo<K: Dom>((k, v): (K, u32)) -> Item { (k.idx(), v) }
fn key<K: Dom>(k: K) -> Item { (k.idx(), 0) }
fn val(v: &u32) -> Item { (NOKEY, *v) }
fn valm(v: &mut u32) -> Item { (NOKEY, *v) }
fn kvt<K: Dom>((k, v): (K, Tok)) -> Item { (k.idx(), v.id()) }
fn map<K: Dom>(m: &Model) -> Map<K, u32> { let mut o = Map::new(); for (k, v) in entries(m) { o.insert(K::at(k), v); } o }

macro_rules! sources {
    ($t:ty, $s:ident, $c:ident) => {{
        fn maps(m: &Model, kind: usize, run: &mut dyn FnMut(&mut Source<'_>)) {
            let mut o: Map<$t, u32> = map(m);
            match kind {
                0 => run(&mut |f| f(Box::new($c { it: o.iter(), f: kv::<$t> as fn((_, &_)) -> Item }))),
                1 => run(&mut |f| f(Box::new($c { it: o.keys(), f: key::<$t> }))),
                2 => run(&mut |f| f(Box::new($c { it: o.values(), f: val as fn(&_) -> Item }))),
                3 => run(&mut |f| f(Box::new($c { it: (&o).into_iter(), f: kv::<$t> as fn((_, &_)) -> Item }))),
                4 => run(&mut |f| f(Box::new($s { it: o.iter_mut(), f: kvm::<$t> as fn((_, &mut _)) -> Item }))),
                5 => run(&mut |f| f(Box::new($s { it: o.values_mut(), f: valm as fn(&mut _) -> Item }))),
                6 => run(&mut |f| f(Box::new($s { it: (&mut o).into_iter(), f: kvm::<$t> as fn((_, &mut _)) -> Item }))),
                7 => run(&mut |f| f(Box::new(into!($s, $t, map::<$t>(m))))),
                _ => run(&mut |f| { let mut o: Map<$t, Tok> = Map::new(); for (k, v) in entries(m) { o.insert(<$t>::at(k), Tok::new(v)); } f(Box::new($s { it: o.into_iter(), f: kvt::<$t> })) }),
            }
        }
        fn sets(m: &[bool], kind: usize, run: &mut dyn FnMut(&mut Source<'_>)) {
            let mut o: Set<$t> = Set::new();
            for (k, b) in m.iter().enumerate() { if *b { o.insert(<$t>::at(k)); } }
            match kind {
                0 => run(&mut |f| f(Box::new($c { it: o.iter(), f: key::<$t> }))),
                1 => run(&mut |f| f(Box::new($c { it: (&o).into_iter(), f: key::<$t> }))),
                _ => run(&mut |f| { let o: Set<$t> = o.iter().collect(); f(Box::new(into!(@set $s, $t, o))) }),
            }
        }
        (maps as MapSource, sets as SetSource)
    }};
}
/// Owning iterators of statically stored maps and sets can be cloned; dynamic ones cannot.
macro_rules! into {
    (De, $t:ty, $m:expr) => { Dc { it: $m.into_iter(), f: kvo::<$t> } };
    (Fw, $t:ty, $m:expr) => { Fw { it: $m.into_iter(), f: kvo::<$t> } };
    (@set De, $t:ty, $m:expr) => { Dc { it: $m.into_iter(), f: key::<$t> } };
    (@set Fw, $t:ty, $m:expr) => { Fw { it: $m.into_iter(), f: key::<$t> } };
}

fn unit<K: Dom>(w: &mut W, name: &'static str, de: bool, (maps, sets): (MapSource, SetSource)) {
    let inf = info::<K>(name);
    let n = inf.n;
    let (full, all) = if w.thorough { (8, n <= 5) } else { (6, n <= 3) };
    let subs = thin(subsets(n, if w.thorough { 9 } else { 6 }, 0), if w.thorough { 1000 } else { 20 });
    for sub in subs {
        w.stats.states += 1;
        let m = tagged(&sub);
        for kind in 0..12 {
            let label = if kind < 8 { KINDS[kind] } else if kind == 8 { "into_iter with drops" } else { SKINDS[kind - 9] };
            let keyed = !matches!(kind, 2 | 5);
            let valued = !matches!(kind, 1 | 9..);
            if kind == 8 && n > 5 { continue; }
            let mut c = Counts { patterns: 0, steps: 0 };
            reset();
            let r = guard(|| {
                let mut out = Ok(());
                let mut run = |src: &mut Source<'_>| {
                    let seq: Seq = if inf.is_static {
                        entries(&m).into_iter().map(|(k, v)| (if keyed { k } else { NOKEY }, if valued { v } else { 0 })).collect()
                    } else {
                        // dynamic order is arbitrary but fixed for one map: take it from one walk
                        let mut s = Vec::new();
                        src(&mut |mut it| { s.clear(); while let Some(x) = it.next() { s.push(x); if s.len() > 4000 { break; } } });
                        s
                    };
                    if !inf.is_static {
                        if kind < 9 { out = check_seq(&inf, &m, label, keyed, valued, &seq); }
                        else { let ks: Vec<usize> = seq.iter().map(|x| x.0).collect(); out = scheck_seq(&inf, &sub, label, &ks); }
                        if out.is_err() { return; }
                        // owning iterators are rebuilt each time and so may change order
                        if matches!(kind, 7 | 8 | 11) { return; }
                    }
                    out = explore(src, &seq, de, all, full, &mut c, &mut |p| w.begin(|| format!("{label} {p} on {m:?}")));
                };
                if kind < 9 { maps(&m, kind, &mut run) } else { sets(&sub, kind - 9, &mut run) }
                let e = errors();
                if out.is_ok() && (!e.is_empty() || live() != 0) { out = Err(format!("values: {} alive afterwards, {e:?}", live())); }
                out
            });
            w.stats.transitions += c.steps;
            w.stats.traces += c.patterns;
            if let Err(e) = r { w.fail(format!("{label} on {m:?}"), e); return; }
        }
        if w.stats.states == 4 { w.sample(|| format!("{name}: contents {m:?}, all interleavings of front/back for every iterator kind")); }
    }
}

/// Where an exact length is offered it must be exact at every point.
fn exact(w: &mut W) {
    for b in 0..4u32 {
        for pat in 0..16u32 {
            w.begin(|| format!("exact {b} {pat}"));
            w.stats.states += 1; w.stats.transitions += 4; w.stats.traces += 1;
            let r = guard(|| {
                let mut m = Map::new();
                let mut s = Set::new();
                for (i, k) in [true, false].into_iter().enumerate() { if b >> i & 1 == 1 { m.insert(k, 1u32); s.insert(k); } }
                let mut keys = m.keys();
                let mut it = s.iter();
                let mut into = s.clone().into_iter();
                let mut left = b.count_ones() as usize;
                for i in 0..=4 {
                    if keys.len() != left || it.len() != left || into.len() != left { return Err(format!("len() {} {} {} with {left} left", keys.len(), it.len(), into.len())); }
                    if keys.size_hint() != (left, Some(left)) || it.size_hint() != (left, Some(left)) { return Err("size_hint is not exact".into()); }
                    if i == 4 { break; }
                    let got = if pat >> i & 1 == 0 { (keys.next(), it.next(), into.next()) } else { (keys.next_back(), it.next_back(), into.next_back()) };
                    if got.0 != got.1 || got.1 != got.2 || got.0.is_some() != (left > 0) { return Err(format!("{got:?} with {left} left")); }
                    left = left.saturating_sub(1);
                }
                Ok(())
            });
            if let Err(e) = r { w.fail(format!("exact size, contents {b}, pattern {pat}"), e); }
        }
    }
    for b in [false, true] {
        let r = guard(|| {
            let mut m = Map::new();
            let mut s = Set::new();
            if b { m.insert((), 1u32); s.insert(()); }
            let n = usize::from(b);
            if m.iter().len() != n || m.keys().len() != n || m.values().len() != n || m.iter_mut().len() != n || m.values_mut().len() != n || s.iter().len() != n { return Err("len() of a singleton iterator".into()); }
            if m.into_iter().len() != n || s.into_iter().len() != n { return Err("len() of a singleton owning iterator".into()); }
            Ok(())
        });
        if let Err(e) = r { w.fail(format!("exact size, singleton, present {b}"), e); }
    }
}

fn main() {
    let mut c = Ctx::new("C05", "model_checking");
    c.rule = "for every contents of every key type and each of 12 iterator kinds: every interleaving of front and back steps to past exhaustion (with size_hint at each step), and after prefixes every adaptor (fold, rfold, rev, count, last, step_by, find, ...), every nth/nth_back and a clone run against its original; expected items computed from the contents".into();
    macro_rules! stat { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| unit::<$t>(w, $n, true, sources!($t, De, Dc))); )* } }
    macro_rules! dynamic { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| unit::<$t>(w, $n, false, sources!($t, Fw, Fc))); )* } }
    fmcheck::zoo_large!(stat);
    fmcheck::zoo_base!(stat);
    fmcheck::zoo_small!(stat);
    fmcheck::zoo_dynprim!(dynamic);
    fmcheck::zoo_dyncomp!(dynamic);
    c.job("exact", exact);
    c.finish()
}
