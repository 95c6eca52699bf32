use fixed_map::raw::RawStorage;
use fmcheck::prelude::*;
use std::collections::HashMap;
use std::hash::Hash;

type Walk<K> = fn(&Set<K>, u64) -> Vec<Option<usize>>;

/// Everything observable of a set.
#[derive(PartialEq, Debug)]
struct Obs { contains: Vec<bool>, len: usize, empty: bool, iter: Vec<usize>, by_ref: Vec<usize>, into: Vec<usize>, mixed: Vec<Vec<Option<usize>>>, debug: String, pretty: String, collected: bool }
fn obs<K: Dom>(s: &Set<K>, walk: Walk<K>) -> Obs where K::SetStorage: Ord + Clone {
    let n = K::N;
    Obs {
        contains: (0..n).map(|i| s.contains(K::at(i))).collect(), len: s.len(), empty: s.is_empty(),
        iter: s.iter().take(CAP).map(|k| k.idx()).collect(), by_ref: (&*s).into_iter().take(CAP).map(|k| k.idx()).collect(),
        into: s.clone().into_iter().take(CAP).map(|k| k.idx()).collect(),
        mixed: [0u64, !0, 0x5555_5555_5555_5555, 0x3333_3333_3333_3333, 0x1249_2492_4924_9249].iter().map(|p| walk(s, *p)).collect(),
        debug: format!("{s:?}"), pretty: if n <= 16 { format!("{s:#?}") } else { String::new() }, collected: s.iter().collect::<Set<K>>() == *s,
    }
}
fn bytes(n: usize) -> usize { match n { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 } }

fn sets<U: Dom, K: Dom>(w: &mut W, wu: Walk<U>, wk: Walk<K>)
where U::SetStorage: Ord + Clone, K::SetStorage: Ord + Clone + RawStorage, <K::SetStorage as RawStorage>::Value: Copy + Eq + Hash + std::fmt::Debug {
    let n = U::N;
    assert_eq!(n, K::N);
    let (ssz, rsz) = (std::mem::size_of::<Set<K>>(), std::mem::size_of::<<K::SetStorage as RawStorage>::Value>());
    if ssz > bytes(n) { w.fail("size".into(), format!("a set of {n} keys takes {ssz} bytes, {} would do", bytes(n))); return; }
    if rsz > bytes(n) { w.fail("raw size".into(), format!("the raw value of a set of {n} keys takes {rsz} bytes, {} would do", bytes(n))); return; }
    let full = if w.thorough { 9 } else { 8 };
    let subs = subsets(n, full, if w.thorough { 130 } else { 0 });
    let subs = if w.thorough { subs } else { thin(subs, 66) };
    let mut raws: HashMap<<K::SetStorage as RawStorage>::Value, Vec<bool>> = HashMap::new();
    for (si, s) in subs.iter().enumerate() {
        w.stats.states += 1;
        let rs = sroutes(n, s);
        for (r, h) in rs.iter().enumerate() {
            if n > 8 && !w.thorough && r != 0 && r != 1 + si % (rs.len() - 1) { continue; }
            w.begin(|| format!("{h:?}"));
            w.stats.traces += 1;
            let raws = &mut raws;
            let res = guard(|| {
                let (mut u, mut k) = (SetW::<U>::new(), SetW::<K>::new());
                let mut m = vec![false; n];
                for (i, op) in h.iter().enumerate() {
                    let (a, b, c) = (sapply_real(&mut u, op), sapply_real(&mut k, op), sapply_model(&mut m, op));
                    if a != b { return Err(format!("step {i} {op:?} returned {b:?}, with ordinary storage {a:?}")); }
                    if b != c { return Err(format!("step {i} {op:?} returned {b:?}, expected {c:?}")); }
                }
                sobserve(&info::<K>("bitset"), &k, &m, &mut Vec::new())?;
                let (a, b) = (obs(&u.s, wu), obs(&k.s, wk));
                if a != b { return Err(format!("{b:?}; with ordinary storage {a:?}")); }
                // raw round trip
                let raw = k.s.as_raw();
                let mut t = SetW { s: Set::<K>::from_raw(raw) };
                if t.s != k.s || k.s != t.s || t.s.cmp(&k.s).is_ne() { return Err(format!("from_raw({raw:?}) is not equal to the set it came from")); }
                if t.s.as_raw() != raw { return Err(format!("from_raw({raw:?}).as_raw() is {:?}", t.s.as_raw())); }
                let c = obs(&t.s, wk);
                if c != b { return Err(format!("from_raw({raw:?}) gives {c:?}, the set it came from {b:?}")); }
                if let Some(other) = raws.insert(raw, m.clone()) { if other != m { return Err(format!("raw value {raw:?} also stands for {other:?}")); } }
                // the rebuilt set behaves the same
                let step = if n > 16 { 1 + n / 9 } else { 1 };
                for key in (0..n).filter(|k| k % step == 0 || *k + 1 == n) {
                    for op in [SOp::Remove(key), SOp::Insert(key), SOp::Insert(key), SOp::Remove(key)] {
                        let (a, b, c) = (sapply_real(&mut u, &op), sapply_real(&mut k, &op), sapply_real(&mut t, &op));
                        if a != b || b != c || u.len() != k.len() || k.len() != t.len() || t.s != k.s || t.s.as_raw() != k.s.as_raw() { return Err(format!("{op:?} on ordinary, bitset, rebuilt: {a:?}, {b:?}, {c:?}")); }
                        if n <= 16 && obs(&k.s, wk) != obs(&t.s, wk) { return Err(format!("after {op:?} the rebuilt set is {:?} instead of {:?}", obs(&t.s, wk), obs(&k.s, wk))); }
                    }
                    if m[key] { u.insert(key); k.insert(key); t.insert(key); }
                }
                if obs(&u.s, wu) != obs(&k.s, wk) || t.s != k.s { return Err("after toggling every key".into()); }
                k.clear(); t.clear();
                if k.s != t.s || !t.is_empty() || t.s != Set::new() || t.s.as_raw() != Set::<K>::new().as_raw() { return Err("after clear".into()); }
                Ok(())
            });
            w.stats.transitions += (h.len() + 8 * n) as u64;
            if let Err(e) = res { w.fail(format!("{h:?}"), e); return; }
        }
    }
    // pairs
    let subs = if n <= 6 || w.thorough && n <= 8 { subs } else { thin(large_subsets(n, 0), 8) };
    let us: Vec<Set<U>> = subs.iter().map(|s| set_of(s)).collect();
    let ks: Vec<Set<K>> = subs.iter().map(|s| set_of(s)).collect();
    for i in 0..subs.len() {
        w.begin(|| format!("{:?} against all", subs[i]));
        for j in 0..subs.len() {
            w.stats.transitions += 1;
            let a = (us[i] == us[j], us[i].cmp(&us[j]), us[i].partial_cmp(&us[j]), us[i] < us[j], us[i] >= us[j], us[i].intersection(&us[j]).take(CAP).map(|k| k.idx()).collect::<Vec<_>>());
            let b = (ks[i] == ks[j], ks[i].cmp(&ks[j]), ks[i].partial_cmp(&ks[j]), ks[i] < ks[j], ks[i] >= ks[j], ks[i].intersection(&ks[j]).take(CAP).map(|k| k.idx()).collect::<Vec<_>>());
            if a != b { w.fail(format!("{:?} against {:?}", skeys(&subs[i]), skeys(&subs[j])), format!("(==, cmp, partial_cmp, <, >=, intersection) are {b:?}, with ordinary storage {a:?}")); return; }
            if (ks[i].as_raw() == ks[j].as_raw()) != (subs[i] == subs[j]) { w.fail(format!("{:?} against {:?}", skeys(&subs[i]), skeys(&subs[j])), "raw values equal for different sets".into()); return; }
        }
    }
    // every accept/reject assignment, and unmerged sequences, in lockstep
    if n <= 6 {
        let ops: Vec<SOp> = (0..n).map(SOp::Insert).chain((0..n).map(SOp::Remove)).chain([SOp::Clear]).collect();
        sequences(&SetSys { info: info::<K>("bitset"), mk: SetW::<K>::boxed }, &ops, depth_for(ops.len(), if w.thorough { 2_000_000 } else { 50_000 }, 8), w);
        let subs = subsets(n, 6, 0);
        for s in &subs { for keep in &subs {
            let (mut u, mut k) = (SetW { s: set_of::<U>(s) }, SetW { s: set_of::<K>(s) });
            let op = SOp::Retain(keep.clone());
            let (a, b) = (sapply_real(&mut u, &op), sapply_real(&mut k, &op));
            w.stats.transitions += 1;
            if a != b || obs(&u.s, wu) != obs(&k.s, wk) { w.fail(format!("{s:?} retain {keep:?}"), format!("{b:?} {:?}; with ordinary storage {a:?} {:?}", obs(&k.s, wk), obs(&u.s, wu))); return; }
        } }
    }
    w.sample(|| format!("{n} variants: {} sets with bitset and ordinary storage in lockstep, {} distinct raw values", w_states(&raws), raws.len()));
}
fn w_states<A, B>(m: &HashMap<A, B>) -> usize { m.len() }

/// Maps keyed by the same enum with and without bitset storage.
fn maps<U: Dom, K: Dom>(w: &mut W) where U::MapStorage<u32>: Ord + Clone, K::MapStorage<u32>: Ord + Clone {
    let n = U::N;
    let subs = thin(subsets(n, 6, 0), if w.thorough { 70 } else { 17 });
    let all = |o: &MapW<U, u32>, p: &MapW<K, u32>| -> Result<(), String> {
        let (mut a, mut b) = (Seq::new(), Seq::new());
        for kind in 0..4 { o.seq(kind, &mut a); p.seq(kind, &mut b); if a != b { return Err(format!("{} yields {b:?}, with ordinary storage {a:?}", SEQ_KINDS[kind])); } }
        for k in 0..n { if o.get(k) != p.get(k) || o.contains(k) != p.contains(k) { return Err(format!("get/contains_key {k}")); } }
        if o.len() != p.len() || o.is_empty() != p.is_empty() || format!("{:?}", o.m) != format!("{:?}", p.m) { return Err("len, is_empty or Debug".into()); }
        Ok(())
    };
    for s in &subs {
        w.stats.states += 1;
        let m = tagged(s);
        let base: Vec<Op> = entries(&m).into_iter().map(|(k, v)| Op::Insert(k, v)).collect();
        let mut ops: Vec<Op> = vec![Op::Clear, Op::SetAll(0, 7), Op::SetAll(1, 7), Op::Retain((0..n).map(|i| i % 2 == 0).collect(), Some(9)), Op::Retain(vec![false; n], None)];
        for k in (0..n).filter(|k| n <= 16 || k % 8 == 7 || k + 1 == n) {
            ops.extend([Op::Insert(k, 1), Op::Remove(k), Op::GetMut(k, Some(3)), Op::Entry(k, EOp::OrInsert(4, Some(5))), Op::Entry(k, EOp::AndModify(6)), Op::Entry(k, EOp::Match(vec![EStep::Replace(8)], EEnd::Remove, Some((2, None)))), Op::Retain((0..n).map(|i| i != k).collect(), None)]);
        }
        for op in ops {
            w.begin(|| format!("{base:?} {op:?}"));
            w.stats.transitions += 1;
            let r = guard(|| {
                let (mut u, mut k) = (MapW::<U, u32>::new(), MapW::<K, u32>::new());
                for op in base.iter().chain([&op]) {
                    let (a, b) = (apply_real(&mut u, op), apply_real(&mut k, op));
                    if a != b { return Err(format!("{op:?} returned {b:?}, with ordinary storage {a:?}")); }
                }
                all(&u, &k)?;
                let (x, y) = (map_of::<U, u32>(&m), map_of::<K, u32>(&m));
                if (u.m == x, u.m.cmp(&x)) != (k.m == y, k.m.cmp(&y)) { return Err("== or cmp".into()); }
                Ok(())
            });
            if let Err(e) = r { w.fail(format!("map {base:?} {op:?}"), e); return; }
        }
        w.stats.traces += 1;
    }
}

/// The attribute among others, in any position, in any form the language has for it.
mod attrs {
    use fixed_map::Key;
    macro_rules! en { ($n:ident, $(#[$m:meta])*) => { #[derive(Clone, Copy, PartialEq, Debug, Key)] $(#[$m])* #[allow(dead_code)] pub enum $n { A, B, C, D, E, F, G, H, I, J, K, L } } }
    en!(Plain, #[key(bitset)]);
    en!(DocBefore, #[doc = "documented"] #[key(bitset)]);
    en!(DocAfter, #[key(bitset)] #[doc = "documented"]);
    en!(ReprBefore, #[repr(u8)] #[doc(alias = "key")] #[key(bitset)]);
    en!(Among, #[must_use] #[repr(u16)] #[key(bitset)] #[non_exhaustive] #[doc(hidden)]);
    en!(Cfg, #[cfg_attr(all(), key(bitset))]);
    en!(CfgOther, #[cfg_attr(all(), doc = "documented", key(bitset), allow(unused))]);
    en!(Comma, #[key(bitset,)]);
    /// Documented
    /// on several lines.
    #[derive(Debug)]
    #[derive(Clone, Copy, PartialEq, Key)]
    /// and between
    #[key(bitset)]
    #[derive(PartialOrd, Eq)]
    #[allow(dead_code)]
    pub enum Lines {
        /// documented
        A,
        #[doc(hidden)] B, #[deprecated] C, D, E, F, G, H, I, J, K, /** last */ L }
    #[derive(Clone, Copy, PartialEq, Debug, Key)] #[allow(dead_code)] pub enum Without { A, B, C, D, E, F, G, H, I, J, K, L }
}
fn attributes(w: &mut W) {
    macro_rules! each { ($($t:ident),*) => { $({
        w.begin(|| stringify!($t).into());
        w.stats.states += 1;
        w.stats.transitions += 1;
        w.stats.traces += 1;
        let got = std::mem::size_of::<Set<attrs::$t>>();
        if got > 2 { w.fail(format!("enum {} (see mod attrs)", stringify!($t)), format!("a bitset of 12 variants takes {got} bytes, like one without the attribute ({})", std::mem::size_of::<Set<attrs::Without>>())); return; }
        let r = guard(|| {
            let mut s = Set::<attrs::$t>::new();
            if !s.insert(attrs::$t::L) || s.insert(attrs::$t::L) || !s.insert(attrs::$t::A) || s.len() != 2 || !s.iter().eq([attrs::$t::A, attrs::$t::L]) { return Err("insert".into()); }
            if !s.remove(attrs::$t::A) || s.contains(attrs::$t::A) || !s.contains(attrs::$t::L) { return Err("remove".into()); }
            Ok(())
        });
        if let Err(e) = r { w.fail(format!("enum {}", stringify!($t)), e); return; }
    })* } }
    each!(Plain, DocBefore, DocAfter, ReprBefore, Among, Cfg, CfgOther, Comma, Lines);
}

fn main() {
    let mut c = Ctx::new("C11", "model_checking");
    c.rule = "for every variant count 0..=6, 8, 7, 9, 15..17, 24, 31..33, 48, 63..65, 96, 127, 128: the same histories run in lockstep on an enum with and without bitset storage (all contents up to 8 variants, structured contents above, 7 construction histories); all results, iteration patterns, comparisons and formatting equal; raw values round-trip, are injective over all explored contents, and the rebuilt set is run in lockstep with the original; the attribute among others and in every position".into();
    macro_rules! go { ($([$u:ident, $k:ident]),* $(,)?) => { $(
        c.job(concat!("sets ", stringify!($k)), |w| sets::<fmcheck::zoo::$u, fmcheck::zoo::$k>(w,
            |s, p| { let mut it = s.iter(); (0..s.len() as u64 + 2).map(|i| if p >> (i % 64) & 1 == 0 { it.next() } else { it.next_back() }.map(|k| k.idx())).collect() },
            |s, p| { let mut it = s.iter(); (0..s.len() as u64 + 2).map(|i| if p >> (i % 64) & 1 == 0 { it.next() } else { it.next_back() }.map(|k| k.idx())).collect() }));
        c.job(concat!("maps ", stringify!($k)), |w| maps::<fmcheck::zoo::$u, fmcheck::zoo::$k>(w));
    )* } }
    go!([L128, LK128], [L127, LK127], [L96, LK96], [L65, LK65], [L64, LK64], [L63, LK63], [L48, LK48], [L33, LK33], [L32, LK32], [L31, LK31], [L24, LK24], [L17, LK17], [L16, LK16], [L15, LK15], [L9, LK9], [L7, LK7],
        [U0, K0], [U1, K1], [U2, K2], [U3, K3], [U4, K4], [U5, K5], [U6, K6], [U8, K8], [DiscU, DiscK]);
    c.job("attributes", attributes);
    c.finish()
}
