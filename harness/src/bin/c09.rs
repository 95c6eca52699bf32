use fmcheck::prelude::*;
use std::collections::HashSet;
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};

/// Records everything it is fed, with the kind of each call.
#[derive(Default, Clone, PartialEq)]
struct Rec(Vec<u8>);
macro_rules! rec { ($($f:ident: $t:ty = $tag:literal),*) => { $( fn $f(&mut self, x: $t) { self.0.push($tag); self.0.extend(x.to_le_bytes()); } )* } }
impl Hasher for Rec {
    fn finish(&self) -> u64 { self.0.iter().fold(0xcbf29ce484222325, |h, b| (h ^ u64::from(*b)).wrapping_mul(0x100000001b3)) }
    fn write(&mut self, b: &[u8]) { self.0.push(1); self.0.extend(b.len().to_le_bytes()); self.0.extend(b); }
    rec!(write_u8: u8 = 2, write_u16: u16 = 3, write_u32: u32 = 4, write_u64: u64 = 5, write_u128: u128 = 6, write_usize: usize = 7, write_i8: i8 = 8, write_i16: i16 = 9, write_i32: i32 = 10, write_i64: i64 = 11, write_i128: i128 = 12, write_isize: isize = 13);
}
fn rec<T: Hash + ?Sized>(x: &T) -> Rec { let mut h = Rec::default(); x.hash(&mut h); h }

/// Equal and hashed by the first field only.
#[derive(Clone, Debug)]
struct Ci(u32, #[allow(dead_code)] u32);
impl PartialEq for Ci { fn eq(&self, o: &Ci) -> bool { self.0 == o.0 } }
impl Eq for Ci {}
impl Hash for Ci { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }

fn sets<K: Dom>(w: &mut W, name: &'static str) where K::SetStorage: Hash + Eq {
    let n = K::N;
    let subs = thin(subsets(n, 9, if w.thorough { 130 } else { 0 }), if w.thorough { 1000 } else { 66 });
    let mut all: Vec<(usize, usize, Set<K>)> = Vec::new();
    for (i, s) in subs.iter().enumerate() {
        w.stats.states += 1;
        let rs = sroutes(n, s);
        let mut first: Option<(Set<K>, Rec)> = None;
        for (r, h) in rs.iter().enumerate() {
            w.begin(|| format!("{h:?}"));
            w.stats.traces += 1;
            w.stats.transitions += 1;
            let res = guard(|| {
                let o = set_by::<K>(h);
                let a = rec(&o);
                if a != rec(&o) { return Err("hashing twice feeds different data".into()); }
                if let Some((x, b)) = &first {
                    if *x == o && *b != a { return Err(format!("equal to the one built by {:?} but hashed as {:?} instead of {:?}", rs[0], a.0, b.0)); }
                    if *x != o { return Err(format!("not equal to the one built by {:?}", rs[0])); }
                }
                Ok((o, a))
            });
            match res {
                Ok((o, a)) => { if n <= 4 || (n <= 9 && r == i % rs.len()) { all.push((i, r, set_by::<K>(h))); } first.get_or_insert((o, a)); }
                Err(e) => { w.fail(format!("set {h:?}"), e); return; }
            }
        }
    }
    // equal => same data, over all pairs; and lookup in hashed containers
    let recs: Vec<Rec> = all.iter().map(|x| rec(&x.2)).collect();
    for i in 0..all.len() {
        w.begin(|| format!("set {i} against all"));
        for j in 0..all.len() {
            w.stats.transitions += 1;
            if all[i].2 == all[j].2 && recs[i] != recs[j] { w.fail(format!("sets {:?} route {} and {:?} route {}", subs[all[i].0], all[i].1, subs[all[j].0], all[j].1), "equal but hashed differently".into()); return; }
        }
    }
    if n <= 9 {
        let r = guard(|| {
            let a: HashSet<Set<K>> = subs.iter().map(|s| set_by::<K>(&sroutes(n, s)[0])).collect();
            let b: HashSet<Set<K>, BuildHasherDefault<Rec>> = subs.iter().map(|s| set_by::<K>(&sroutes(n, s)[0])).collect();
            for (i, r, s) in &all { if !a.contains(s) || !b.contains(s) { return Err(format!("{:?} built by {:?} is not found", subs[*i], sroutes(n, &subs[*i])[*r])); } }
            Ok(())
        });
        if let Err(e) = r { w.fail("lookup of sets in a hashed set".into(), e); return; }
        let pick = |o: usize| -> Vec<Set<K>> { subs.iter().enumerate().map(|(i, s)| set_by::<K>(&sroutes(n, s)[(i + o) % 7])).collect() };
        w.begin(|| "slices".into());
        let r = guard(|| {
            slices(&pick(0), &pick(3), &std::iter::once(Set::new()).chain(pick(5)).collect::<Vec<_>>())?;
            for s in subs.iter().step_by(1 + subs.len() / 6) { windows::<Set<K>>(&(0..600).map(|i| set_by::<K>(&sroutes(n, s)[i % 7])).collect::<Vec<_>>())?; }
            Ok(())
        });
        w.stats.transitions += 6 * subs.len() as u64 + 4200;
        if let Err(e) = r { w.fail("slices of sets".into(), e); return; }
        let st = std::hash::RandomState::new();
        for (i, r, s) in &all { let t = set_by::<K>(&sroutes(n, &subs[*i])[(*r + 3) % 7]); if st.hash_one([s]) != st.hash_one([&t]) { w.fail(format!("{:?}", subs[*i]), "slices hash differently".into()); return; } }
    }
    w.sample(|| format!("{name}: {} sets, 7 histories each, identical data fed to a recording hasher", subs.len()));
}

/// A slice of copies hashes alike wherever it lies.
fn windows<T: Hash>(copies: &[T]) -> Result<(), String> {
    let first = rec(&copies[..3]);
    for (i, x) in copies.windows(3).enumerate() { if rec(x) != first { return Err(format!("a slice of three copies hashes differently at offset {i}")); } }
    Ok(())
}
/// Slices and arrays of equal contents built by different histories.
fn slices<T: Hash + Eq>(a: &Vec<T>, b: &[T], shifted: &[T]) -> Result<(), String> {
    if a != b { return Err("built by different histories, slices are not equal".into()); }
    if rec(a) != rec(&a[..]) { return Err("a vector hashes differently from its slice".into()); }
    for len in [0, 1, 2, 3, 5, a.len()] {
        for (i, x) in a.windows(len.max(1)).enumerate() {
            let l = len.min(a.len());
            if len > a.len() { break; }
            let (x, y, z) = (&x[..l], &b[i..i + l], &shifted[i + 1..i + 1 + l]);
            if rec(x) != rec(y) || rec(y) != rec(z) { return Err(format!("slices of {l} at {i} are equal but hashed differently")); }
        }
    }
    Ok(())
}
fn maps<K: Dom>(w: &mut W, name: &'static str) where K::MapStorage<u32>: Hash + Eq, K::MapStorage<()>: Hash + Eq, K::MapStorage<Ci>: Hash + Eq, K::MapStorage<Option<bool>>: Hash + Eq {
    let n = K::N;
    let models: Vec<Model> = match n { 0..=4 => all_models(n, &[1, 2]), _ => thin(subsets(n, 9, 0), 66).iter().map(|s| tagged(s)).collect() };
    for m in &models {
        w.stats.states += 1;
        let rs = routes(n, m, 7);
        let mut first: Option<(Map<K, u32>, Rec)> = None;
        for h in &rs {
            w.begin(|| format!("{h:?}"));
            w.stats.traces += 1;
            w.stats.transitions += 1;
            let res = guard(|| {
                let o = map_by::<K, u32>(h);
                let a = rec(&o);
                if let Some((x, b)) = &first {
                    if *x == o && *b != a { return Err(format!("equal to the one built by {:?} but hashed as {:?} instead of {:?}", rs[0], a.0, b.0)); }
                    if *x != o { return Err(format!("not equal to the one built by {:?}", rs[0])); }
                }
                Ok((o, a))
            });
            match res { Ok(x) => { first.get_or_insert(x); } Err(e) => { w.fail(format!("map {h:?}"), e); return; } }
        }
        // values that are equal without being identical, left over in slots or not
        let r = guard(|| {
            let mk = |hidden: u32, over: bool| {
                let mut o: Map<K, Ci> = Map::new();
                if over { for k in 0..n { o.insert(K::at(k), Ci(99, hidden)); } for k in 0..n { if m[k].is_none() { o.remove(K::at(k)); } } }
                for (k, v) in entries(m) { o.insert(K::at(k), Ci(v, hidden + k as u32)); }
                o
            };
            let (a, b, c) = (mk(1, false), mk(100, true), mk(7, true));
            if a != b || b != c { return Err("maps with equal values differ".into()); }
            if rec(&a) != rec(&b) || rec(&b) != rec(&c) { return Err("maps with equal values hash differently".to_string()); }
            Ok(())
        });
        w.stats.transitions += 3;
        if let Err(e) = r { w.fail(format!("map {m:?}"), e); return; }
    }
    let small: Vec<&Model> = models.iter().take(600).collect();
    let built: Vec<(Map<K, u32>, Rec)> = small.iter().enumerate().map(|(i, m)| { let r = routes(n, m, 7); let o = map_by::<K, u32>(&r[i % r.len()]); let h = rec(&o); (o, h) }).collect();
    for i in 0..built.len() {
        w.begin(|| format!("map {:?} against all", small[i]));
        for j in 0..built.len() { w.stats.transitions += 1; if built[i].0 == built[j].0 && built[i].1 != built[j].1 { w.fail(format!("maps {:?} and {:?}", small[i], small[j]), "equal but hashed differently".into()); return; } }
    }
    let r = guard(|| {
        let a: HashSet<Map<K, u32>> = models.iter().map(|m| map_by::<K, u32>(&routes(n, m, 7)[0])).collect();
        for (i, m) in models.iter().enumerate() { let r = routes(n, m, 7); let h = &r[1 + i % (r.len() - 1)]; if !a.contains(&map_by::<K, u32>(h)) { return Err(format!("{m:?} built by {h:?} is not found")); } }
        Ok(())
    });
    if let Err(e) = r { w.fail("lookup of maps in a hashed set".into(), e); return; }
    w.begin(|| "slices".into());
    let r = guard(|| {
        let pick = |o: usize| -> Vec<Map<K, u32>> { small.iter().enumerate().map(|(i, m)| { let r = routes(n, m, 7); map_by::<K, u32>(&r[(i + o) % r.len()]) }).collect() };
        if n <= 16 { slices(&pick(0), &pick(4), &std::iter::once(Map::new()).chain(pick(5)).collect::<Vec<_>>())?; }
        for m in small.iter().step_by(1 + small.len() / 6) { let r = routes(n, m, 7); windows::<Map<K, u32>>(&(0..if n <= 16 { 300 } else { 20 }).map(|i| map_by::<K, u32>(&r[i % r.len()])).collect::<Vec<_>>())?; }
        Ok(())
    });
    w.stats.transitions += 6 * small.len() as u64 + 2000;
    if let Err(e) = r { w.fail("slices of maps".into(), e); return; }
    // other value types: unit and niche-filled
    if n <= 5 {
        for m in all_models(n, if n <= 4 { &[0, 1, 2] } else { &[0, 2] }) {
            w.begin(|| format!("Option<bool> values {m:?}"));
            w.stats.transitions += 2;
            let r = guard(|| {
                let rs = routes(n, &m, 1);
                let x = rec(&map_by::<K, Option<bool>>(&rs[0]));
                for h in &rs { if rec(&map_by::<K, Option<bool>>(h)) != x { return Err(format!("built by {h:?} hashes differently")); } }
                let x = rec(&map_by::<K, ()>(&rs[0]));
                for h in &rs { if rec(&map_by::<K, ()>(h)) != x { return Err(format!("of (), built by {h:?} hashes differently")); } }
                Ok(())
            });
            if let Err(e) = r { w.fail(format!("map {m:?}"), e); return; }
        }
    }
    w.sample(|| format!("{name}: {} maps, 9 histories each, identical data fed to a recording hasher", models.len()));
}

fn main() {
    let mut c = Ctx::new("C09", "model_checking");
    c.rule = "every contents of every hashable key type (field-less enums with and without bitset storage up to 257 variants, and sets of ()), built by every construction history (9 for maps, 7 for sets): the sequence of calls made on a recording hasher is identical whenever the collections compare equal, over all pairs; lookup in hashed containers through differently built equal collections; slices, arrays and vectors of them at every offset".into();
    macro_rules! go { ($([$t:ty, $n:literal]),*) => { $(
        c.job(concat!("set ", $n), |w| sets::<$t>(w, $n));
        c.job(concat!("map ", $n), |w| maps::<$t>(w, $n));
    )* } }
    fmcheck::zoo_unit!(go);
    c.job("set ()", |w| sets::<()>(w, "()"));
    c.finish()
}
