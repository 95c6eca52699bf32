//! Debug output against the standard collections' formatting, under every combination of flags.
use fmcheck::prelude::*;
use std::cell::Cell;
use std::fmt::{self, Debug, Write};

type Put = fn(&dyn Debug, &mut dyn Write) -> fmt::Result;
macro_rules! puts { ($($f:literal)*) => { [$( ($f, (|d, w| write!(w, $f, d)) as Put) ),*] } }
/// Every kind of flag alone and in combination: alternate, fill and alignment, sign, zero, width, precision, hexadecimal.
fn formats() -> Vec<(&'static str, Put)> {
    let a = puts! {
        "{:?}" "{:#?}" "{:x?}" "{:X?}" "{:#x?}" "{:#X?}" "{:5?}" "{:#5?}" "{:05?}" "{:#05?}" "{:<5?}" "{:^5?}" "{:>5?}" "{:*<6?}" "{:*^#6?}" "{:->6?}"
        "{:+?}" "{:+#?}" "{:-?}" "{:-#?}" "{:.0?}" "{:.1?}" "{:.2?}" "{:#.2?}" "{:+06.1?}" "{:+#06.1?}" "{:_^+#012.3?}" "{:08x?}" "{:#08x?}" "{:+#8.2X?}" "{:<#4x?}" "{:1000?}" "{:#1000?}"
        "{0:?}{0:?}" "[{:?}]" "{:\u{1F600}>7?}" "{:\u{1F600}>#7?}"
    };
    let mut v = a.to_vec();
    v.push(("{:1$?}", |d, w| write!(w, "{:1$?}", d, 9)));
    v.push(("{:.1$?}", |d, w| write!(w, "{:.1$?}", d, 4)));
    v.push(("{:#.*?}", |d, w| write!(w, "{:#.*?}", 3, d)));
    v
}

/// A value that shows every flag it is formatted with, over several writes; it can fail.
#[derive(Clone, PartialEq)]
struct Probe(u32);
thread_local! { static FAIL: Cell<i64> = const { Cell::new(-1) }; }
impl Debug for Probe {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if FAIL.with(|x| { let v = x.get(); x.set(v - 1); v == 0 }) { return Err(fmt::Error); }
        f.write_str("P")?;
        let flags = (f.width(), f.precision(), f.fill(), f.alternate(), f.sign_plus(), f.sign_minus(), f.sign_aware_zero_pad());
        let align = match f.align() { Some(fmt::Alignment::Left) => 'l', Some(fmt::Alignment::Right) => 'r', Some(fmt::Alignment::Center) => 'c', None => '-' };
        write!(f, "{}{align}{flags:?}", self.0)?;
        if self.0 % 3 == 1 { f.write_str("\nsecond line\n")?; }
        Debug::fmt(&self.0, f)
    }
}
/// The standard library's formatting of the same entries.
struct RefM<'a, K, V>(&'a [(K, V)]);
impl<K: Debug, V: Debug> Debug for RefM<'_, K, V> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_map().entries(self.0.iter().map(|(k, v)| (k, v))).finish() } }
struct RefS<'a, K>(&'a [K]);
impl<K: Debug> Debug for RefS<'_, K> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_set().entries(self.0).finish() } }

/// Fails at write number `at`, and at that one only.
struct Failing { at: usize, n: usize, text: String, hit: bool }
impl Write for Failing {
    fn write_str(&mut self, s: &str) -> fmt::Result { let i = self.n; self.n += 1; if i == self.at { self.hit = true; return Err(fmt::Error); } self.text.push_str(s); Ok(()) }
}
fn sink(at: usize) -> Failing { Failing { at, n: 0, text: String::new(), hit: false } }

/// `got` must be formatted as `want`, under every format; then with a failure at every write.
fn same(got: &dyn Debug, want: &dyn Debug, fmts: &[(&'static str, Put)], faults: bool, runs: &mut u64) -> Result<(), String> {
    for (name, put) in fmts {
        *runs += 1;
        FAIL.with(|f| f.set(-1));
        let mut w = sink(usize::MAX);
        put(want, &mut w).map_err(|_| "reference failed".to_string())?;
        let (want_s, mut g) = (w.text, sink(usize::MAX));
        put(got, &mut g).map_err(|_| format!("{name} fails although the writer does not"))?;
        if g.text != want_s { return Err(format!("{name} gives {:?}, expected {want_s:?}", g.text)); }
    }
    if faults {
        for (name, put) in fmts.iter().take(2).chain(fmts.iter().skip(9).step_by(9)) {
            let mut w = sink(usize::MAX);
            put(got, &mut w).map_err(|_| "fails".to_string())?;
            let n = w.n;
            let step = if n > 400 { n / 200 } else { 1 };
            for at in (0..n).filter(|at| *at < 30 || at + 30 > n || at % step == 0) {
                *runs += 1;
                let mut g = sink(at);
                let r = put(got, &mut g);
                if r.is_ok() || !g.hit { return Err(format!("{name}: write {at} of {n} failed, but formatting succeeded")); }
                if !w.text.starts_with(&g.text) && g.n == at + 1 { return Err(format!("{name}: before failing write {at} the output was {:?}", g.text)); }
            }
        }
    }
    Ok(())
}

fn unit<K: Dom>(w: &mut W, name: &'static str) {
    let inf = info::<K>(name);
    let n = inf.n;
    let fmts = formats();
    let subs = if n <= 4 || w.thorough && n <= 8 { subsets(n, 8, 0) } else { thin(subsets(n, 6, 0), if w.thorough { 120 } else if n > 60 { 6 } else { 16 }) };
    for (si, sub) in subs.iter().enumerate() {
        let m = tagged(sub);
        let smod: SModel = sub.clone();
        w.stats.states += 1;
        let (rs, srs) = (routes(n, &m, 77), sroutes(n, &smod));
        for ri in 0..rs.len() {
            if ri > 0 && (n > 12 || !w.thorough && (si + ri) % 3 != 0) { continue; }
            w.begin(|| format!("{sub:?} history {ri}"));
            w.stats.traces += 1;
            let mut runs = 0u64;
            let all = ri == 0 && (n <= 12 || si % 4 == 0);
            let r = guard(|| {
                let fm: &[(&str, Put)] = if all { &fmts } else { &fmts[..2] };
                let map: Map<K, u32> = map_by::<K, u32>(&rs[ri]);
                let ent: Vec<(K, u32)> = map.iter().take(CAP).map(|(k, v)| (k, *v)).collect();
                check_seq(&inf, &m, "iter", true, true, &ent.iter().map(|(k, v)| (k.idx(), *v)).collect::<Vec<_>>())?;
                same(&map, &RefM(&ent), fm, ri == 0 && n <= 12, &mut runs).map_err(|e| format!("map: {e}"))?;
                let set: Set<K> = set_by::<K>(&srs[ri % srs.len()]);
                let keys: Vec<K> = set.iter().take(CAP).collect();
                scheck_seq(&inf, &smod, "iter", &keys.iter().map(|k| k.idx()).collect::<Vec<_>>())?;
                same(&set, &RefS(&keys), fm, ri == 0 && n <= 12, &mut runs).map_err(|e| format!("set: {e}"))?;
                if !all { return Ok(()); }
                // values that show the flags they are given, and fail at every position
                let probes: Map<K, Probe> = ent.iter().map(|(k, v)| (*k, Probe(*v))).collect();
                let pent: Vec<(K, Probe)> = probes.iter().map(|(k, v)| (k, v.clone())).collect();
                same(&probes, &RefM(&pent), fm, ri == 0 && n <= 8, &mut runs).map_err(|e| format!("map of flag probes: {e}"))?;
                for i in 0..pent.len().min(8) { for (_, put) in &fmts[..2] {
                    let mut outs = Vec::new();
                    for d in [&probes as &dyn Debug, &RefM(&pent)] { FAIL.with(|f| f.set(i as i64)); let mut o = sink(usize::MAX); let r = put(d, &mut o); FAIL.with(|f| f.set(-1)); runs += 1; if r.is_ok() { return Err(format!("value {i} fails to format, but the map does not")); } outs.push(o.text); }
                } }
                // collections inside collections, and inside other values
                let deep: Map<K, Map<bool, Set<K>>> = ent.iter().map(|(k, _)| (*k, Map::from_iter([(false, set_of::<K>(sub)), (true, Set::new())]))).collect();
                let (lo, hi) = (set_of::<K>(sub), Set::<K>::new());
                let (lo, hi): (Vec<K>, Vec<K>) = (lo.iter().collect(), hi.iter().collect());
                let inner = [(true, RefS(&hi)), (false, RefS(&lo))];
                let dent: Vec<(K, RefM<bool, RefS<K>>)> = deep.iter().map(|(k, _)| (k, RefM(&inner[..]))).collect();
                if n <= 8 || si % 4 == 0 && n < 70 { same(&deep, &RefM(&dent), &fmts[..6], false, &mut runs).map_err(|e| format!("nested map: {e}"))?; }
                same(&Some((&map, &set)), &Some((RefM(&ent), RefS(&keys))), fm, false, &mut runs).map_err(|e| format!("inside a tuple: {e}"))?;
                let text: Map<K, String> = ent.iter().map(|(k, v)| (*k, format!("{v}\"\n"))).collect();
                let tent: Vec<(K, &String)> = text.iter().collect();
                same(&text, &RefM(&tent), &fmts[..2], false, &mut runs).map_err(|e| format!("text values: {e}"))?;
                let fl: Map<K, f64> = ent.iter().map(|(k, v)| (*k, f64::from(*v) / 3.0 - 4.0)).collect();
                let fent: Vec<(K, f64)> = fl.iter().map(|(k, v)| (k, *v)).collect();
                same(&fl, &RefM(&fent), fm, false, &mut runs).map_err(|e| format!("floating point values: {e}"))?;
                let un: Map<K, ()> = ent.iter().map(|(k, _)| (*k, ())).collect();
                let uent: Vec<(K, ())> = un.iter().map(|(k, _)| (k, ())).collect();
                same(&un, &RefM(&uent), &fmts[..2], true, &mut runs).map_err(|e| format!("unit values: {e}"))
            });
            w.stats.transitions += runs;
            if let Err(e) = r { w.fail(format!("{sub:?}, history {ri}"), e); return; }
        }
    }
    w.sample(|| format!("{name}: {} contents x {} formats, failures at every write", subs.len(), fmts.len()));
}

fn main() {
    let mut c = Ctx::new("C18", "model_checking");
    c.rule = "every contents of small key types (structured contents of large ones) over several histories, formatted with 40 combinations of flags and compared with the standard library's formatting of the same entries; values that display every flag they receive; nested collections; a writer failing at each single write, and a value failing at each position".into();
    macro_rules! go { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| unit::<$t>(w, $n)); )* } }
    fmcheck::zoo_large!(go);
    fmcheck::zoo_base!(go);
    fmcheck::zoo_small!(go);
    fmcheck::zoo_dynprim!(go);
    fmcheck::zoo_dyncomp!(go);
    c.finish()
}
