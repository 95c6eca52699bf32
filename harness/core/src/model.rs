//! The reference: a plain table from key index to value id.
use crate::Info;
use crate::obj::*;

pub type Model = Vec<Option<u32>>;

pub fn present(m: &Model) -> usize { m.iter().filter(|x| x.is_some()).count() }
pub fn entries(m: &Model) -> Seq { m.iter().enumerate().filter_map(|(i, v)| v.map(|v| (i, v))).collect() }

/// Map operations; ids are value ids.
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Insert(usize, u32),
    Remove(usize),
    GetMut(usize, Option<u32>),
    Clear,
    /// keep[key]; entries get the new value first if given
    Retain(Vec<bool>, Option<u32>),
    SetAll(usize, u32),
    Entry(usize, EOp),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res { Unit, Opt(Option<u32>), Seq(Seq), Entry(EOut) }

/// Applies an operation to the real map.
pub fn apply_real(o: &mut dyn MapObj, op: &Op) -> Res {
    match op {
        Op::Insert(k, v) => Res::Opt(o.insert(*k, *v)),
        Op::Remove(k) => Res::Opt(o.remove(*k)),
        Op::GetMut(k, w) => Res::Opt(o.get_mut(*k, *w)),
        Op::Clear => { o.clear(); Res::Unit }
        Op::Retain(keep, w) => {
            let mut seen = Vec::new();
            o.retain(&mut |k, v| { if seen.len() < CAP { seen.push((k, v)); } (keep.get(k).copied().unwrap_or(false), *w) });
            seen.sort_unstable();
            Res::Seq(seen)
        }
        Op::SetAll(kind, v) => {
            let mut seen = Vec::new();
            o.seq_mut(*kind, &mut |_, k, id| { seen.push((k, id)); Some(*v) });
            seen.sort_unstable();
            Res::Seq(seen)
        }
        Op::Entry(k, e) => Res::Entry(o.entry(*k, e)),
    }
}

/// Applies an operation to the reference.
pub fn apply_model(m: &mut Model, op: &Op) -> Res {
    match op {
        Op::Insert(k, v) => Res::Opt(m[*k].replace(*v)),
        Op::Remove(k) => Res::Opt(m[*k].take()),
        Op::GetMut(k, w) => { let old = m[*k]; if let (Some(_), Some(w)) = (old, w) { m[*k] = Some(*w); } Res::Opt(old) }
        Op::Clear => { m.iter_mut().for_each(|x| *x = None); Res::Unit }
        Op::Retain(keep, w) => {
            let seen = entries(m);
            for &(k, _) in &seen { if let Some(w) = w { m[k] = Some(*w); } if !keep[k] { m[k] = None; } }
            Res::Seq(seen)
        }
        Op::SetAll(kind, v) => {
            let mut seen = entries(m);
            for e in &mut seen { m[e.0] = Some(*v); if *kind == 1 { e.0 = NOKEY; } }
            seen.sort_unstable();
            Res::Seq(seen)
        }
        Op::Entry(k, e) => Res::Entry(entry_model(m, *k, e)),
    }
}

fn entry_model(m: &mut Model, k: usize, op: &EOp) -> EOut {
    let mut out = EOut { occupied: Some(m[k].is_some()), ..EOut::default() };
    let occ = m[k].is_some();
    let slot = &mut m[k];
    let fin = |slot: &mut Option<u32>, w: Option<u32>, read: &mut Vec<i64>| { read.push(slot.unwrap().into()); if let Some(w) = w { *slot = Some(w); read.push(w.into()); } };
    match op {
        EOp::Key => out.read.push(k as i64),
        EOp::OrInsert(v, w) => { slot.get_or_insert(*v); fin(slot, *w, &mut out.read); }
        EOp::OrInsertWith(v, w) => { out.calls = u32::from(!occ); slot.get_or_insert(*v); fin(slot, *w, &mut out.read); }
        EOp::OrInsertWithKey(v, w) => { out.calls = u32::from(!occ); slot.get_or_insert(*v); fin(slot, *w, &mut out.read); if !occ { out.read.push(k as i64); } }
        EOp::AndModify(w) => { out.read.push(k as i64); out.read.push(occ.into()); if let Some(v) = slot { out.read.push((*v).into()); *v = *w; out.calls = 1; } }
        EOp::AndModifyOrInsert(w, v) => { if occ { *slot = Some(*w); out.calls = 1; } else { *slot = Some(*v); } fin(slot, None, &mut out.read); }
        EOp::AndModify2OrWith(_, w2, v) => { if occ { *slot = Some(*w2); out.calls = 2; } else { *slot = Some(*v); out.calls = 16; } fin(slot, None, &mut out.read); }
        EOp::Match(steps, end, vac) => {
            if occ {
                for s in steps {
                    match s {
                        EStep::Key => out.read.push(k as i64),
                        EStep::Get => out.read.push(slot.unwrap().into()),
                        EStep::GetMut(w) => { out.read.push(slot.unwrap().into()); *slot = Some(*w); }
                        EStep::Replace(v) => out.read.push(slot.replace(*v).unwrap().into()),
                    }
                }
                match end {
                    EEnd::Drop => {}
                    EEnd::IntoMut(w) => fin(slot, *w, &mut out.read),
                    EEnd::Remove => out.read.push(slot.take().unwrap().into()),
                }
            } else {
                out.read.push(k as i64);
                if let Some((v, w)) = vac { *slot = Some(*v); fin(slot, *w, &mut out.read); }
            }
        }
    }
    out
}

/// Compares a walk over the map with the reference contents.
pub fn check_seq(info: &Info, m: &Model, kind: &str, keyed: bool, valued: bool, got: &Seq) -> Result<(), String> {
    let want: Seq = entries(m).into_iter().map(|(k, v)| (if keyed { k } else { NOKEY }, if valued { v } else { 0 })).collect();
    if info.is_static {
        if *got != want { return Err(format!("{kind} yielded {got:?}, expected {want:?}")); }
        return Ok(());
    }
    let mut g = got.clone();
    let mut w = want.clone();
    g.sort_unstable();
    w.sort_unstable();
    if g != w { return Err(format!("{kind} yielded {got:?}, expected in some order {want:?}")); }
    if keyed && got.windows(2).any(|p| info.ranks[p[0].0] > info.ranks[p[1].0]) {
        return Err(format!("{kind} yielded {got:?}: variants out of declaration order"));
    }
    Ok(())
}

/// Reads everything readable through shared access and compares it with the reference.
pub fn observe(info: &Info, o: &dyn MapObj, m: &Model, buf: &mut Seq) -> Result<(), String> {
    for k in 0..info.n {
        let g = o.get(k);
        if g != m[k] { return Err(format!("get({k}) = {g:?}, expected {:?}", m[k])); }
        let c = o.contains(k);
        if c != m[k].is_some() { return Err(format!("contains_key({k}) = {c}, expected {}", !c)); }
    }
    let n = present(m);
    if o.len() != n { return Err(format!("len() = {}, expected {n}", o.len())); }
    if o.is_empty() != (n == 0) { return Err(format!("is_empty() = {}, with {n} entries", o.is_empty())); }
    for (kind, name) in SEQ_KINDS.iter().enumerate() {
        o.seq(kind, buf);
        check_seq(info, m, name, kind != 2, kind != 1, buf)?;
    }
    Ok(())
}

// ---- sets --------------------------------------------------------------------------------------

pub type SModel = Vec<bool>;

#[derive(Clone, Debug, PartialEq)]
pub enum SOp { Insert(usize), Remove(usize), Clear, Retain(Vec<bool>) }

#[derive(Clone, Debug, PartialEq)]
pub enum SRes { Unit, Bool(bool), Seq(Vec<usize>) }

pub fn sapply_real(o: &mut dyn SetObj, op: &SOp) -> SRes {
    match op {
        SOp::Insert(k) => SRes::Bool(o.insert(*k)),
        SOp::Remove(k) => SRes::Bool(o.remove(*k)),
        SOp::Clear => { o.clear(); SRes::Unit }
        SOp::Retain(keep) => {
            let mut seen = Vec::new();
            o.retain(&mut |k| { if seen.len() < CAP { seen.push(k); } keep.get(k).copied().unwrap_or(false) });
            seen.sort_unstable();
            SRes::Seq(seen)
        }
    }
}
pub fn skeys(m: &SModel) -> Vec<usize> { (0..m.len()).filter(|&i| m[i]).collect() }
pub fn sapply_model(m: &mut SModel, op: &SOp) -> SRes {
    match op {
        SOp::Insert(k) => SRes::Bool(!std::mem::replace(&mut m[*k], true)),
        SOp::Remove(k) => SRes::Bool(std::mem::replace(&mut m[*k], false)),
        SOp::Clear => { m.iter_mut().for_each(|x| *x = false); SRes::Unit }
        SOp::Retain(keep) => { let seen = skeys(m); for k in 0..m.len() { m[k] &= keep[k]; } SRes::Seq(seen) }
    }
}
pub fn scheck_seq(info: &Info, m: &SModel, kind: &str, got: &[usize]) -> Result<(), String> {
    let want = skeys(m);
    if info.is_static {
        if got != want { return Err(format!("{kind} yielded {got:?}, expected {want:?}")); }
        return Ok(());
    }
    let mut g = got.to_vec();
    g.sort_unstable();
    if g != want { return Err(format!("{kind} yielded {got:?}, expected in some order {want:?}")); }
    if got.windows(2).any(|p| info.ranks[p[0]] > info.ranks[p[1]]) {
        return Err(format!("{kind} yielded {got:?}: variants out of declaration order"));
    }
    Ok(())
}
pub fn sobserve(info: &Info, o: &dyn SetObj, m: &SModel, buf: &mut Vec<usize>) -> Result<(), String> {
    for k in 0..info.n {
        let c = o.contains(k);
        if c != m[k] { return Err(format!("contains({k}) = {c}, expected {}", m[k])); }
    }
    let n = m.iter().filter(|x| **x).count();
    if o.len() != n { return Err(format!("len() = {}, expected {n}", o.len())); }
    if o.is_empty() != (n == 0) { return Err(format!("is_empty() = {}, with {n} keys", o.is_empty())); }
    for (kind, name) in ["iter", "&set"].iter().enumerate() {
        o.seq(kind, buf);
        scheck_seq(info, m, name, buf)?;
    }
    Ok(())
}
