use fmcheck::iters::*;
use fmcheck::prelude::*;

fn pair<K: Dom>(inf: &Info, a: &[bool], b: &[bool], ra: usize, rb: usize, all: bool, c: &mut Counts, tick: &mut dyn FnMut(&str)) -> Result<(), String> {
    let n = inf.n;
    let (sa, sb) = (a.to_vec(), b.to_vec());
    let x = set_by::<K>(&sroutes(n, &sa)[ra]);
    let y = set_by::<K>(&sroutes(n, &sb)[rb]);
    let want: SModel = (0..n).map(|i| a[i] && b[i]).collect();
    for (which, p, q) in [("a∩b", &x, &y), ("b∩a", &y, &x)] {
        let keys: Vec<usize> = p.intersection(q).take(CAP).map(|k| k.idx()).collect();
        scheck_seq(inf, &want, which, &keys)?;
        let seq: Vec<Item> = keys.iter().map(|&k| (k, 0)).collect();
        // every adaptor, cut point, clone and bound
        if all || which == "a∩b" {
            explore(&mut |f| f(Box::new(Fc { it: p.intersection(q), f: |k: K| (k.idx(), 0) })), &seq, false, all, 6, c, tick).map_err(|e| format!("{which}: {e}"))?;
        }
        // debug output of what is left, at every cut
        let list: Vec<K> = keys.iter().map(|&k| K::at(k)).collect();
        let mut it = p.intersection(q);
        for cut in 0..=list.len() {
            if cut > 3 && cut + 3 < list.len() { it.next(); continue; }
            for (got, exp) in [(format!("{it:?}"), format!("{:?}", &list[cut..])), (format!("{it:#?}"), format!("{:#?}", &list[cut..]))] {
                if got != exp { return Err(format!("{which}: debug output after {cut} steps is {got}, expected {exp}")); }
            }
            it.next();
        }
        let back: Set<K> = p.intersection(q).collect();
        observe_set(inf, back, &want).map_err(|e| format!("{which} collected: {e}"))?;
        let n1: usize = p.intersection(q).filter(|k| a[k.idx()]).count();
        if n1 != list.len() { return Err(format!("{which}: count is {n1}")); }
    }
    observe_set(inf, x, &sa).map_err(|e| format!("first set afterwards: {e}"))?;
    observe_set(inf, y, &sb).map_err(|e| format!("second set afterwards: {e}"))?;
    Ok(())
}

fn unit<K: Dom>(w: &mut W, name: &'static str) {
    let inf = info::<K>(name);
    let n = inf.n;
    let full = if w.thorough { 7 } else { 5 };
    let subs = if n <= full { subsets(n, full, 0) } else if n <= 9 && !w.thorough {
        // all sizes, without all 2^n
        (0..1u64 << n).filter(|b| b.count_ones() <= 1 || b.count_ones() as usize >= n - 1 || [0x55, 0xaa, 0x33, 0xcc, 0x0f, 0xf0, 0x1f8].contains(b)).map(|b| (0..n).map(|i| b >> i & 1 == 1).collect()).collect()
    } else { thin(subsets(n, 8, 0), 16) };
    let subs: Vec<Vec<bool>> = if n > 60 && !w.thorough { subs.into_iter().step_by(if n > 130 { 3 } else { 2 }).chain([vec![true; n]]).collect() } else { subs };
    for (i, a) in subs.iter().enumerate() {
        w.stats.states += 1;
        for (j, b) in subs.iter().enumerate() {
            let mut c = Counts { patterns: 0, steps: 0 };
            let r = guard(|| pair::<K>(&inf, a, b, (i + j) % 7, (i * 3 + j) % 7, n <= 3, &mut c, &mut |p| w.begin(|| format!("{a:?} with {b:?}: {p}"))));
            w.stats.transitions += c.steps;
            w.stats.traces += c.patterns + 1;
            if let Err(e) = r { w.fail(format!("{a:?} with {b:?}"), e); return; }
        }
    }
    // the same set on both sides
    for a in &subs {
        let r = guard(|| {
            let s = set_of::<K>(a);
            let keys: Vec<usize> = s.intersection(&s).take(CAP).map(|k| k.idx()).collect();
            scheck_seq(&inf, &a.clone(), "a∩a", &keys)
        });
        if let Err(e) = r { w.fail(format!("{a:?} with itself"), e); return; }
    }
    w.sample(|| format!("{name}: {} sets, every ordered pair", subs.len()));
}

fn main() {
    let mut c = Ctx::new("C10", "model_checking");
    c.rule = "every ordered pair of contents of every key type (large types: structured contents), built by varying histories; the intersection stepped, folded, counted, cloned at every cut, and formatted at every cut; both orders; both sets observed afterwards".into();
    macro_rules! go { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| unit::<$t>(w, $n)); )* } }
    fmcheck::zoo_large!(go);
    fmcheck::zoo_base!(go);
    fmcheck::zoo_small!(go);
    fmcheck::zoo_dynprim!(go);
    fmcheck::zoo_dyncomp!(go);
    c.finish()
}
