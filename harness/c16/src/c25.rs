//! What a borrow allows: programs that hold something obtained from a collection across a use of the
//! collection, each compiled against the real crate; whether it is accepted is compared with the rule.
use fmcore::report::{guard, Ctx, W};
use std::collections::{BTreeMap, BTreeSet};
use std::process::Command;
use std::sync::Arc;

/// What something obtained from a collection still needs of it.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Hold { Nothing, Shared, Exclusive,
    /// Keys alone: an iterator over them may borrow the collection or hold a copy of which are present.
    Keys }
use Hold::*;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Use { Reads, Writes, Moves }
use Use::*;

#[derive(Clone)]
struct Prog { name: String, src: String, accept: Option<bool> }

/// Expressions over `m: Map<K, V>`, keys `k`, `q`, and a value `v()`.
const SOURCES: &[(&str, Hold)] = &[
    ("m.get(k)", Shared), ("m.get(k).unwrap()", Shared), ("m.iter()", Shared), ("m.iter().next()", Shared), ("m.iter().clone()", Shared), ("m.iter().map(|(_, v)| v).last()", Shared), ("m.iter().collect::<Vec<_>>()", Shared),
    ("m.keys()", Keys), ("m.keys().clone()", Keys), ("m.values()", Shared), ("m.values().next()", Shared), ("m.values().clone()", Shared), ("m.values().collect::<Vec<_>>()", Shared), ("(&m).into_iter()", Shared), ("(&m).into_iter().next()", Shared),
    ("m.iter().filter(|_| true)", Shared), ("m.iter().peekable()", Shared), ("&m", Shared), ("m.iter().enumerate().nth(1)", Shared), ("m.values().max_by_key(|v| v.len())", Shared),
    ("m.get_mut(k)", Exclusive), ("m.get_mut(k).unwrap()", Exclusive), ("m.iter_mut()", Exclusive), ("m.iter_mut().next()", Exclusive), ("m.iter_mut().collect::<Vec<_>>()", Exclusive), ("m.iter_mut().map(|(_, v)| v).last()", Exclusive),
    ("m.values_mut()", Exclusive), ("m.values_mut().next()", Exclusive), ("m.values_mut().collect::<Vec<_>>()", Exclusive), ("(&mut m).into_iter()", Exclusive), ("(&mut m).into_iter().next()", Exclusive), ("&mut m", Exclusive),
    ("m.entry(k)", Exclusive), ("m.entry(k).or_insert(v())", Exclusive), ("m.entry(k).or_insert_with(v)", Exclusive), ("m.entry(k).or_insert_with_key(|_| v())", Exclusive), ("m.entry(k).or_default()", Exclusive), ("m.entry(k).and_modify(|_| ())", Exclusive),
    ("m.entry(k).and_modify(|_| ()).or_insert_with(v)", Exclusive), ("&*m.entry(k).or_insert(v())", Exclusive), ("m.get_mut(k).map(|v| &*v)", Exclusive),
    ("(match m.entry(k) { Entry::Occupied(e) => Some(e), _ => None })", Exclusive), ("(match m.entry(k) { Entry::Occupied(e) => Some(e.into_mut()), _ => None })", Exclusive),
    ("(match m.entry(k) { Entry::Vacant(e) => Some(e), _ => None })", Exclusive), ("(match m.entry(k) { Entry::Vacant(e) => Some(e.insert(v())), _ => None })", Exclusive),
    ("m.contains_key(k)", Nothing), ("m.len()", Nothing), ("m.is_empty()", Nothing), ("m.insert(k, v())", Nothing), ("m.remove(k)", Nothing), ("m.get(k).cloned()", Nothing), ("m.clone()", Nothing), ("m.clone().into_iter()", Nothing), ("m.clone().into_iter().next()", Nothing),
    ("m.keys().next()", Nothing), ("m.keys().collect::<Vec<_>>()", Nothing), ("m.iter().next().map(|(k, _)| k)", Nothing), ("m.iter_mut().next().map(|(k, _)| k)", Nothing), ("m.entry(k).key()", Nothing), ("m.iter().map(|(k, v)| (k, v.clone())).collect::<Map<K, V>>()", Nothing),
    ("(match m.entry(k) { Entry::Occupied(e) => Some(e.remove()), _ => None })", Nothing), ("(match m.entry(k) { Entry::Occupied(mut e) => Some(e.insert(v())), _ => None })", Nothing), ("(match m.entry(k) { Entry::Occupied(e) => e.key(), Entry::Vacant(e) => e.key() })", Nothing), ("(match m.entry(k) { Entry::Occupied(e) => Some(e.get().clone()), _ => None })", Nothing),
    ("m.iter().size_hint()", Nothing), ("m == m", Nothing), ("format!(\"{:?}\", m)", Nothing), ("m.retain(|_, _| true)", Nothing), ("m.clear()", Nothing),
];
const USES: &[(&str, Use)] = &[
    ("let _ = m.get(q).is_some();", Reads), ("let _ = m.contains_key(q);", Reads), ("let _ = m.len();", Reads), ("let _ = m.is_empty();", Reads), ("let _ = m.iter().count();", Reads), ("let _ = m.keys().count();", Reads), ("let _ = m.values().count();", Reads), ("for _ in &m {}", Reads), ("let _ = m.clone();", Reads), ("let _ = m == m;", Reads), ("let _ = format!(\"{:?}\", m);", Reads), ("let _x = &m;", Reads),
    ("m.insert(q, v());", Writes), ("m.remove(q);", Writes), ("m.clear();", Writes), ("m.retain(|_, _| true);", Writes), ("let _ = m.get_mut(q).is_some();", Writes), ("for _ in m.iter_mut() {}", Writes), ("for _ in m.values_mut() {}", Writes), ("for _ in &mut m {}", Writes), ("m.entry(q).or_insert(v());", Writes), ("let _ = m.entry(q).key();", Writes), ("m.entry(q).and_modify(|_| ());", Writes), ("m.entry(q).or_default();", Writes), ("let _x = &mut m;", Writes), ("m = Map::new();", Writes), ("m.clone_from(&Map::new());", Writes), ("core::mem::take(&mut m);", Writes),
    ("drop(m);", Moves), ("let _x = m;", Moves), ("for _ in m {}", Moves), ("let _ = m.into_iter().next();", Moves),
];
const SETS: &[(&str, Hold)] = &[
    ("m.iter()", Keys), ("m.iter().clone()", Keys), ("(&m).into_iter()", Keys), ("m.intersection(&o)", Keys), ("o.intersection(&m)", Keys), ("m.intersection(&m)", Keys), ("m.iter().filter(|_| true)", Keys), ("&m", Shared), ("&mut m", Exclusive),
    ("m.contains(k)", Nothing), ("m.insert(k)", Nothing), ("m.remove(k)", Nothing), ("m.len()", Nothing), ("m.is_empty()", Nothing), ("m.clone()", Nothing), ("m.clone().into_iter()", Nothing), ("m.iter().next()", Nothing), ("m.iter().collect::<Vec<_>>()", Nothing), ("m.intersection(&o).next()", Nothing), ("m.intersection(&o).collect::<Set<K>>()", Nothing), ("m == o", Nothing), ("m.retain(|_| true)", Nothing), ("m.clear()", Nothing), ("format!(\"{:?}\", m)", Nothing),
];
const SUSES: &[(&str, Use)] = &[
    ("let _ = m.contains(q);", Reads), ("let _ = m.len();", Reads), ("let _ = m.is_empty();", Reads), ("let _ = m.iter().count();", Reads), ("for _ in &m {}", Reads), ("let _ = m.clone();", Reads), ("let _ = m == o;", Reads), ("let _ = m.intersection(&o).count();", Reads), ("let _ = o.intersection(&m).count();", Reads), ("let _ = format!(\"{:?}\", m);", Reads),
    ("m.insert(q);", Writes), ("m.remove(q);", Writes), ("m.clear();", Writes), ("m.retain(|_| true);", Writes), ("let _x = &mut m;", Writes), ("m = Set::new();", Writes), ("core::mem::take(&mut m);", Writes),
    ("drop(m);", Moves), ("let _x = m;", Moves), ("for _ in m {}", Moves), ("let _ = m.into_iter().next();", Moves),
];
fn compatible(h: Hold, u: Use) -> Option<bool> { match h { Nothing => Some(true), Shared => Some(u == Reads), Exclusive => Some(false), Keys => (u == Reads).then_some(true) } }

/// Programs written out: (body of a function of `m`, `k`, `q`; accepted).
const BODIES: &[(&str, bool)] = &[
    // several references out of one iterator
    ("let mut i = m.iter_mut(); let a = i.next(); let b = i.next(); used((a, b));", true),
    ("let mut i = m.values_mut(); let a = i.next(); let b = i.next(); drop(i); used((a, b));", true),
    ("let mut i = m.iter(); let a = i.next(); let j = i.clone(); let b = i.next(); used((a, b, j));", true),
    ("let mut i = m.iter_mut(); let a = i.next(); m.len(); used(a); used(i);", false),
    ("let a = { let mut i = m.iter_mut(); i.next() }; used(a);", true),
    ("let a = { let i = m.iter(); i.last() }; used(a);", true),
    ("let i = m.iter_mut(); let j = m.iter_mut(); used((i, j));", false),
    ("let i = m.iter(); let j = m.iter_mut(); used((i, j));", false),
    ("let i = m.iter(); let j = m.iter(); used((i, j));", true),
    ("let i = m.iter_mut(); let j = i; used(i); used(j);", false),
    ("let i = m.iter_mut(); used(i.clone());", false),
    ("let i = m.values_mut(); used(i.clone());", false),
    ("let a = m.get_mut(k); let b = m.get_mut(q); used((a, b));", false),
    ("let a = m.get_mut(k); used(a); let b = m.get_mut(q); used(b);", true),
    ("let a = m.get(k); let b = m.get(q); used((a, b));", true),
    ("let a = m.get(k).unwrap(); *a = v();", false),
    ("for (_, x) in m.iter() { *x = v(); }", false),
    ("for x in m.values() { x.push('x'); }", false),
    ("for (_, x) in &m { x.push('x'); }", false),
    ("for (_, x) in m.iter_mut() { x.push('x'); }", true),
    ("for x in m.values_mut() { *x = v(); }", true),
    ("for (_, x) in &mut m { x.push('x'); }", true),
    ("if let Some(x) = m.get_mut(k) { x.push('x'); *x = v(); }", true),
    ("for (k, _) in &m { m.remove(k); }", false),
    ("for k in m.keys().collect::<Vec<_>>() { m.remove(k); }", true),
    ("for (k, x) in m.clone() { m.insert(k, x); }", true),
    ("let x = m.get(k).unwrap(); let y: V = *x; used(y);", false),
    // entries
    ("if let Entry::Occupied(mut e) = m.entry(k) { let a = e.get_mut(); let b = e.get_mut(); used((a, b)); }", false),
    ("if let Entry::Occupied(mut e) = m.entry(k) { let a = e.get_mut(); used(a); let b = e.get_mut(); used(b); }", true),
    ("if let Entry::Occupied(mut e) = m.entry(k) { let a = e.get(); let b = e.get_mut(); used((a, b)); }", false),
    ("if let Entry::Occupied(e) = m.entry(k) { let a = e.get(); let b = e.get(); used((a, b)); }", true),
    ("if let Entry::Occupied(mut e) = m.entry(k) { let a = e.get_mut(); let b = e.get(); used(a); used(b); }", false),
    ("if let Entry::Occupied(e) = m.entry(k) { let a = e.get(); drop(e); used(a); }", false),
    ("if let Entry::Occupied(mut e) = m.entry(k) { let a = e.get_mut(); drop(e); used(a); }", false),
    ("if let Entry::Occupied(mut e) = m.entry(k) { let a = e.get_mut(); e.insert(v()); used(a); }", false),
    ("if let Entry::Occupied(mut e) = m.entry(k) { let a = e.get(); e.insert(v()); used(a); }", false),
    ("if let Entry::Occupied(e) = m.entry(k) { let a = e.get(); let b = e.remove(); used(a); used(b); }", false),
    ("if let Entry::Occupied(mut e) = m.entry(k) { let a = e.get_mut(); let b = e.remove(); used(a); used(b); }", false),
    ("if let Entry::Occupied(e) = m.entry(k) { let a = e.get(); let b = e.into_mut(); used(a); used(b); }", false),
    ("if let Entry::Occupied(mut e) = m.entry(k) { let a = e.get_mut(); let b = e.into_mut(); used(a); used(b); }", false),
    ("if let Entry::Occupied(e) = m.entry(k) { let a = e.key(); e.remove(); used(a); }", true),
    ("if let Entry::Occupied(mut e) = m.entry(k) { let a = e.insert(v()); e.remove(); used(a); }", true),
    ("if let Entry::Occupied(e) = m.entry(k) { e.remove(); e.get(); }", false),
    ("if let Entry::Occupied(e) = m.entry(k) { e.remove(); e.remove(); }", false),
    ("if let Entry::Occupied(e) = m.entry(k) { e.into_mut(); e.into_mut(); }", false),
    ("if let Entry::Occupied(e) = m.entry(k) { e.into_mut(); e.key(); }", false),
    ("if let Entry::Occupied(e) = m.entry(k) { e.get_mut(); }", false),
    ("if let Entry::Occupied(e) = m.entry(k) { e.insert(v()); }", false),
    ("if let Entry::Occupied(e) = m.entry(k) { let e2 = e; used(e); used(e2); }", false),
    ("if let Entry::Occupied(e) = m.entry(k) { m.len(); used(e); }", false),
    ("if let Entry::Occupied(e) = m.entry(k) { *e.get() = v(); }", false),
    ("if let Entry::Occupied(mut e) = m.entry(k) { *e.get_mut() = v(); e.get_mut().push('x'); }", true),
    ("if let Entry::Occupied(e) = m.entry(k) { let r = e.into_mut(); r.push('x'); *r = v(); }", true),
    ("let r = if let Entry::Occupied(e) = m.entry(k) { Some(e.into_mut()) } else { None }; used(r);", true),
    ("let r = if let Entry::Occupied(e) = m.entry(k) { Some(e.get()) } else { None }; used(r);", false),
    ("let r = if let Entry::Occupied(mut e) = m.entry(k) { Some(e.get_mut()) } else { None }; used(r);", false),
    ("let r = if let Entry::Vacant(e) = m.entry(k) { Some(e.insert(v())) } else { None }; used(r);", true),
    ("let r = if let Entry::Vacant(e) = m.entry(k) { Some(e.key()) } else { None }; m.len(); used(r);", true),
    ("if let Entry::Vacant(e) = m.entry(k) { let a = e.insert(v()); used(e.key()); used(a); }", false),
    ("if let Entry::Vacant(e) = m.entry(k) { e.insert(v()); e.insert(v()); }", false),
    ("if let Entry::Vacant(e) = m.entry(k) { let a = e.key(); e.insert(v()); used(a); }", true),
    ("if let Entry::Vacant(e) = m.entry(k) { m.insert(k, v()); used(e); }", false),
    ("let e = m.entry(k); e.or_insert(v()); e.key();", false),
    ("let e = m.entry(k); let a = e.key(); e.or_insert(v()); used(a);", true),
    ("let e = m.entry(k); let f = m.entry(q); used(e); used(f);", false),
    ("let a = m.entry(k).or_insert(v()); let b = m.entry(q).or_insert(v()); used((a, b));", false),
    ("let a = m.entry(k).or_insert(v()); used(a); let b = m.entry(q).or_insert(v()); used(b);", true),
    ("let x = v(); m.entry(k).or_insert(x); used(x);", false),
    ("let x = v(); m.insert(k, x); used(x);", false),
    ("m.insert(k, v()); used(k); m.remove(k); used(k); m.entry(k); used(k);", true),
    // closures
    ("m.retain(|_, _| m.len() > 0);", false),
    ("m.retain(|_, _| { m.clear(); true });", false),
    ("let mut r = None; m.retain(|_, x| { r = Some(x); true }); used(r);", false),
    ("let mut r = Vec::new(); m.retain(|k, _| { r.push(k); true }); m.clear(); used(r);", true),
    ("m.retain(|_, x| { x.push('x'); *x = v(); x.len() > 1 });", true),
    ("let mut r = None; m.entry(k).and_modify(|x| r = Some(x)); used(r);", false),
    ("m.entry(k).and_modify(|x| { x.push('x'); *x = v(); });", true),
    ("m.entry(k).and_modify(|_| { m.len(); });", false),
    ("m.entry(k).or_insert_with(|| { m.len(); v() });", false),
    ("m.entry(k).or_insert_with_key(|_| { m.clear(); v() });", false),
    ("let mut r = None; m.entry(k).or_insert_with_key(|k| { r = Some(k); v() }); m.clear(); used(r);", true),
    ("let x = v(); m.entry(k).or_insert_with(|| x); used(x);", false),
    ("let x = v(); m.entry(k).or_insert_with(|| x);", true),
    ("let x = v(); m.entry(k).and_modify(|y| *y = x);", true),
    // threads
    ("std::thread::scope(|s| { s.spawn(|| m.len()); s.spawn(|| m.get(k).is_some()); });", true),
    ("std::thread::scope(|s| { s.spawn(|| m.len()); s.spawn(|| m.clear()); });", false),
    ("std::thread::scope(|s| { for (_, x) in m.iter_mut() { s.spawn(move || x.push('x')); } });", true),
    ("std::thread::scope(|s| { for x in m.values() { s.spawn(move || x.len()); } });", true),
    ("let i = m.iter(); std::thread::spawn(move || i.count());", false),
    ("std::thread::spawn(move || m.len());", true),
    ("let n = std::sync::Arc::new(std::sync::Mutex::new(m)); let p = n.clone(); std::thread::spawn(move || p.lock().unwrap().clear()); n.lock().unwrap().insert(k, v());", true),
    // moves
    ("let n = m; m.len(); used(n);", false),
    ("let i = m.into_iter(); m.len(); used(i);", false),
    ("let n: Map<K, V> = m.into_iter().collect(); used(n);", true),
    ("let mut n = Map::new(); core::mem::swap(&mut m, &mut n); let a = m.get_mut(k); let b = n.get_mut(k); used((a, b));", true),
    ("let a = { let n = m.clone(); n.get(k) }; used(a);", false),
    ("let a = { let n = m.clone(); n.iter() }; used(a);", false),
    ("let a = { let n = m.clone(); n.keys().next() }; used(a);", true),
    ("let a = { let n = m.clone(); n.into_iter() }; used(a);", true),
    ("let a = { let mut n = m.clone(); n.entry(k) }; used(a);", false),
    ("let a = { let mut n = m.clone(); n.entry(k).or_insert(v()) }; used(a);", false),
    ("let a = { let mut n = m.clone(); n.iter_mut().next() }; used(a);", false),
    // through shared and nested references
    ("let r = &m; r.insert(k, v());", false),
    ("let r = &m; r.remove(k);", false),
    ("let r = &m; r.clear();", false),
    ("let r = &m; r.retain(|_, _| true);", false),
    ("let r = &m; r.get_mut(k);", false),
    ("let r = &m; r.iter_mut();", false),
    ("let r = &m; r.values_mut();", false),
    ("let r = &m; r.entry(k);", false),
    ("let r = &m; let s = r; used((r.get(k), s.len(), r.iter(), s.keys(), r.values()));", true),
    ("let r = &mut m; r.insert(k, v()); r.get_mut(k); used(r.len()); r.clear(); m.len();", true),
    ("let r = &mut m; m.len(); r.clear();", false),
    ("let n = Map::<K, V>::new(); n.insert(k, v());", false),
    ("let n = Map::<K, V>::new(); used(n.len());", true),
    // borrowed values
    ("let x = v(); let mut n = Map::<K, &str>::new(); n.insert(k, &x); drop(x); used(n.len());", false),
    ("let x = v(); let mut n = Map::<K, &str>::new(); n.insert(k, &x); used(n.len()); drop(n); drop(x);", true),
    ("let x = v(); let a = { let mut n = Map::<K, &str>::new(); n.insert(k, &x); n.get(k).copied() }; used(a); drop(x);", true),
    ("let x = v(); let a = { let mut n = Map::<K, &str>::new(); n.insert(k, &x); n.get(k) }; used(a);", false),
    ("let x = v(); let a = { let mut n = Map::<K, &str>::new(); n.insert(k, &x); n.remove(k) }; drop(x); used(a);", false),
    ("let x = v(); let a = { let mut n = Map::<K, &str>::new(); n.insert(k, &x); n.remove(k) }; used(a); drop(x);", true),
    ("let mut n = Map::<K, &str>::new(); { let x = v(); n.insert(k, &x); } used(n.len());", false),
    ("let mut n = Map::<K, &str>::new(); { let x = v(); n.entry(k).or_insert(&x); } used(n.len());", false),
    ("let mut n = Map::<K, &str>::new(); { let x = v(); *n.entry(k).or_default() = &x; } used(n.len());", false),
    ("let mut n = Map::<K, &str>::new(); { let x = v(); if let Some(r) = n.get_mut(k) { *r = &x; } } used(n.len());", false),
    ("let mut n = Map::<K, &str>::new(); { let x = v(); for r in n.values_mut() { *r = &x; } } used(n.len());", false),
    ("let mut n = Map::<K, &str>::new(); { let x = v(); for (_, r) in n.iter_mut() { *r = &x; } } used(n.len());", false),
    ("let mut n = Map::<K, &str>::new(); { let x = v(); n.retain(|_, r| { *r = &x; true }); } used(n.len());", false),
    ("let n: Map<K, &str> = { let x = v(); core::iter::once((k, &*x)).collect() }; used(n.len());", false),
    ("let mut x = v(); let mut n = Map::<K, &mut V>::new(); n.insert(k, &mut x); x.push('x'); used(n.len());", false),
    ("let mut x = v(); let mut n = Map::<K, &mut V>::new(); n.insert(k, &mut x); n.get_mut(k).unwrap().push('x'); used(n.len()); drop(n); x.push('x');", true),
    ("let mut x = v(); let mut n = Map::<K, &mut V>::new(); n.insert(k, &mut x); n.get(k).unwrap().push('x');", false),
    ("let mut x = v(); let mut n = Map::<K, &mut V>::new(); n.insert(k, &mut x); let o = n.clone(); used(o);", false),
    // closures may capture anything, by any kind of capture
    ("let mut n = 0; m.retain(|_, _| { n += 1; true }); used(n);", true),
    ("let mut n = 0; m.entry(k).or_insert_with(|| { n += 1; v() }); used(n);", true),
    ("let mut n = 0; m.entry(k).or_insert_with_key(|_| { n += 1; v() }); used(n);", true),
    ("let mut n = 0; m.entry(k).and_modify(|_| { n += 1; }); used(n);", true),
    ("let mut n = 0; let mut t: Set<K> = m.keys().collect(); t.retain(|_| { n += 1; true }); used(n);", true),
    ("let mut n = 0; let t: Map<K, V> = m.keys().map(|k| { n += 1; (k, v()) }).collect(); used(n);", true),
    ("let mut n = 0; let t: Set<K> = m.keys().inspect(|k| { n += 1; }).collect(); used(n);", true),
    ("let mut n = Vec::new(); m.retain(|_, _| { n.push(1); true }); used(n);", true),
    ("let mut n = Vec::new(); m.entry(k).or_insert_with(|| { n.push(1); v() }); used(n);", true),
    ("let mut n = Vec::new(); m.entry(k).or_insert_with_key(|_| { n.push(1); v() }); used(n);", true),
    ("let mut n = Vec::new(); m.entry(k).and_modify(|_| { n.push(1); }); used(n);", true),
    ("let mut n = Vec::new(); let mut t: Set<K> = m.keys().collect(); t.retain(|_| { n.push(1); true }); used(n);", true),
    ("let mut n = Vec::new(); let t: Map<K, V> = m.keys().map(|k| { n.push(1); (k, v()) }).collect(); used(n);", true),
    ("let mut n = Vec::new(); let t: Set<K> = m.keys().inspect(|k| { n.push(1); }).collect(); used(n);", true),
    ("let n = std::cell::Cell::new(1); m.retain(|_, _| { n.set(2); true }); used(n);", true),
    ("let n = std::cell::Cell::new(1); m.entry(k).or_insert_with(|| { n.set(2); v() }); used(n);", true),
    ("let n = std::cell::Cell::new(1); m.entry(k).or_insert_with_key(|_| { n.set(2); v() }); used(n);", true),
    ("let n = std::cell::Cell::new(1); m.entry(k).and_modify(|_| { n.set(2); }); used(n);", true),
    ("let n = std::cell::Cell::new(1); let mut t: Set<K> = m.keys().collect(); t.retain(|_| { n.set(2); true }); used(n);", true),
    ("let n = std::cell::Cell::new(1); let t: Map<K, V> = m.keys().map(|k| { n.set(2); (k, v()) }).collect(); used(n);", true),
    ("let n = std::cell::Cell::new(1); let t: Set<K> = m.keys().inspect(|k| { n.set(2); }).collect(); used(n);", true),
    ("let n = std::rc::Rc::new(1); m.retain(|_, _| { used(n.clone()); true }); used(n);", true),
    ("let n = std::rc::Rc::new(1); m.entry(k).or_insert_with(|| { used(n.clone()); v() }); used(n);", true),
    ("let n = std::rc::Rc::new(1); m.entry(k).or_insert_with_key(|_| { used(n.clone()); v() }); used(n);", true),
    ("let n = std::rc::Rc::new(1); m.entry(k).and_modify(|_| { used(n.clone()); }); used(n);", true),
    ("let n = std::rc::Rc::new(1); let mut t: Set<K> = m.keys().collect(); t.retain(|_| { used(n.clone()); true }); used(n);", true),
    ("let n = std::rc::Rc::new(1); let t: Map<K, V> = m.keys().map(|k| { used(n.clone()); (k, v()) }).collect(); used(n);", true),
    ("let n = std::rc::Rc::new(1); let t: Set<K> = m.keys().inspect(|k| { used(n.clone()); }).collect(); used(n);", true),
    ("let n = &q; m.retain(|_, _| { used(*n); true }); used(n);", true),
    ("let n = &q; m.entry(k).or_insert_with(|| { used(*n); v() }); used(n);", true),
    ("let n = &q; m.entry(k).or_insert_with_key(|_| { used(*n); v() }); used(n);", true),
    ("let n = &q; m.entry(k).and_modify(|_| { used(*n); }); used(n);", true),
    ("let n = &q; let mut t: Set<K> = m.keys().collect(); t.retain(|_| { used(*n); true }); used(n);", true),
    ("let n = &q; let t: Map<K, V> = m.keys().map(|k| { used(*n); (k, v()) }).collect(); used(n);", true),
    ("let n = &q; let t: Set<K> = m.keys().inspect(|k| { used(*n); }).collect(); used(n);", true),
    ("let s = v(); let n: &str = &s; m.retain(|_, _| { used(n.len()); true }); used(n);", true),
    ("let s = v(); let n: &str = &s; m.entry(k).or_insert_with(|| { used(n.len()); v() }); used(n);", true),
    ("let s = v(); let n: &str = &s; m.entry(k).or_insert_with_key(|_| { used(n.len()); v() }); used(n);", true),
    ("let s = v(); let n: &str = &s; m.entry(k).and_modify(|_| { used(n.len()); }); used(n);", true),
    ("let s = v(); let n: &str = &s; let mut t: Set<K> = m.keys().collect(); t.retain(|_| { used(n.len()); true }); used(n);", true),
    ("let s = v(); let n: &str = &s; let t: Map<K, V> = m.keys().map(|k| { used(n.len()); (k, v()) }).collect(); used(n);", true),
    ("let s = v(); let n: &str = &s; let t: Set<K> = m.keys().inspect(|k| { used(n.len()); }).collect(); used(n);", true),
    ("struct N; let n = N; m.entry(k).or_insert_with(move || { drop(n); v() });", true),
    ("let n: Box<dyn Fn()> = Box::new(|| ()); m.entry(k).or_insert_with(move || { drop(n); v() });", true),
    ("struct N; let n = N; m.entry(k).or_insert_with(move || { drop(n); v() }); used(n);", false),
    ("struct N; let n = N; m.entry(k).or_insert_with_key(move |_| { drop(n); v() });", true),
    ("let n: Box<dyn Fn()> = Box::new(|| ()); m.entry(k).or_insert_with_key(move |_| { drop(n); v() });", true),
    ("struct N; let n = N; m.entry(k).or_insert_with_key(move |_| { drop(n); v() }); used(n);", false),
    ("struct N; let n = N; m.entry(k).and_modify(move |_| drop(n));", true),
    ("let n: Box<dyn Fn()> = Box::new(|| ()); m.entry(k).and_modify(move |_| drop(n));", true),
    ("struct N; let n = N; m.entry(k).and_modify(move |_| drop(n)); used(n);", false),
    ("m.retain({ let mut left = 1; move |_, _| { left -= 1; left > 0 } });", true),
    ("let mut f: Box<dyn FnMut(K, &mut V) -> bool> = Box::new(|_, _| true); m.retain(&mut f); m.retain(f);", true),
    ("let mut f = |_: K, _: &mut V| true; m.retain(f); m.retain(&mut f);", true),
    ("fn keep(_: K, _: &mut V) -> bool { true } m.retain(keep);", true),
    ("fn change(_: &mut V) {} m.entry(k).and_modify(change).or_insert_with(V::new);", true),
    ("m.entry(k).or_insert_with(Default::default); m.entry(k).or_insert_with(V::default);", true),
    ("m.entry(k).or_insert_with(|| loop {});", true),
];
/// Whole functions; `@` stands for the name.
const FUNCTIONS: &[(&str, bool)] = &[
    ("fn @(m: &Map<K, V>, k: K) -> Option<&V> { m.get(k) }", true),
    ("fn @<'a>(m: &'a Map<K, V>, k: K, _: &V) -> Option<&'a V> { m.get(k) }", true),
    ("fn @(m: &mut Map<K, V>, k: K) -> Option<&mut V> { m.get_mut(k) }", true),
    ("fn @(m: &mut Map<K, V>, k: K) -> &mut V { m.entry(k).or_insert(v()) }", true),
    ("fn @(m: &mut Map<K, V>, k: K) -> &mut V { m.entry(k).or_insert_with(v) }", true),
    ("fn @(m: &mut Map<K, V>, k: K) -> &mut V { m.entry(k).or_default() }", true),
    ("fn @(m: &mut Map<K, V>, k: K) -> &mut V { match m.entry(k) { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(v()) } }", true),
    ("fn @(m: &mut Map<K, V>, k: K) -> Option<&V> { match m.entry(k) { Entry::Occupied(e) => Some(e.get()), _ => None } }", false),
    ("fn @(m: &mut Map<K, V>, k: K) -> Option<&mut V> { match m.entry(k) { Entry::Occupied(mut e) => Some(e.get_mut()), _ => None } }", false),
    ("fn @(m: &Map<K, V>) -> Option<&V> { m.values().next() }", true),
    ("fn @(m: &Map<K, V>) -> Option<(K, &V)> { m.iter().last() }", true),
    ("fn @(m: &mut Map<K, V>) -> Option<&mut V> { m.values_mut().next() }", true),
    ("fn @(m: &mut Map<K, V>) -> Option<(K, &mut V)> { m.iter_mut().last() }", true),
    ("fn @(m: &mut Map<K, V>) -> Vec<&mut V> { m.values_mut().collect() }", true),
    ("fn @(m: &Map<K, V>) -> impl Iterator<Item = (K, &V)> + Clone { m.iter() }", true),
    ("fn @<'a>(m: &'a mut Map<K, V>) -> impl Iterator<Item = &'a mut V> + 'a { m.values_mut() }", true),
    ("fn @(m: &Map<K, V>) -> fixed_map::map::Iter<'_, K, V> { m.iter() }", true),
    ("fn @(m: &Map<K, V>) -> fixed_map::map::Keys<'_, K, V> { m.keys() }", true),
    ("fn @(m: &Map<K, V>) -> fixed_map::map::Values<'_, K, V> { m.values() }", true),
    ("fn @(m: &mut Map<K, V>) -> fixed_map::map::IterMut<'_, K, V> { m.iter_mut() }", true),
    ("fn @(m: &mut Map<K, V>) -> fixed_map::map::ValuesMut<'_, K, V> { m.values_mut() }", true),
    ("fn @(m: Map<K, V>) -> fixed_map::map::IntoIter<K, V> { m.into_iter() }", true),
    ("fn @(m: &Map<K, V>) -> fixed_map::map::Iter<'static, K, V> { m.iter() }", false),
    ("fn @(m: &Map<K, V>) -> fixed_map::map::Values<'static, K, V> { m.values() }", false),
    ("fn @(m: &mut Map<K, V>) -> fixed_map::map::IterMut<'static, K, V> { m.iter_mut() }", false),
    ("fn @(m: &mut Map<K, V>) -> fixed_map::map::ValuesMut<'static, K, V> { m.values_mut() }", false),
    ("fn @(m: Map<K, V>) -> impl Iterator<Item = (K, V)> { m.into_iter() }", true),
    ("fn @(m: &Map<K, V>) -> Vec<K> { m.keys().collect() }", true),
    ("fn @(m: &Map<K, V>, k: K) -> Option<&'static V> { m.get(k) }", false),
    ("fn @(m: &mut Map<K, V>, k: K) -> Option<&'static mut V> { m.get_mut(k) }", false),
    ("fn @(m: &mut Map<K, V>, k: K) -> &'static mut V { m.entry(k).or_insert(v()) }", false),
    ("fn @(m: &mut Map<K, V>, k: K) -> &'static mut V { match m.entry(k) { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(v()) } }", false),
    ("fn @(m: &Map<K, V>) -> Option<&'static V> { m.values().next() }", false),
    ("fn @(m: &Map<K, V>) -> Option<(K, &'static V)> { m.iter().next() }", false),
    ("fn @(m: &mut Map<K, V>) -> Option<&'static mut V> { m.values_mut().next() }", false),
    ("fn @(m: &mut Map<K, V>) -> Option<(K, &'static mut V)> { m.iter_mut().next() }", false),
    ("fn @<'a>(m: Map<K, V>, k: K) -> Option<&'a V> { m.get(k) }", false),
    ("fn @<'a, 'b>(m: &'a Map<K, V>, _: &'b V, k: K) -> Option<&'b V> { m.get(k) }", false),
    ("fn @<'a, 'b>(m: &'a mut Map<K, V>, _: &'b V, k: K) -> &'b mut V { m.entry(k).or_insert(v()) }", false),
    ("fn @<'a, 'b>(m: &'b Map<K, &'a str>, k: K) -> Option<&'a str> { m.get(k).copied() }", true),
    ("fn @<'a, 'b>(m: &'b mut Map<K, &'a str>, k: K, s: &'b str) { m.insert(k, s); }", false),
    ("fn @<'a, 'b>(m: &'b mut Map<K, &'a str>, k: K, s: &'b str) { m.entry(k).or_insert(s); }", false),
    ("fn @<'a, 'b>(m: &'b mut Map<K, &'a str>, k: K, s: &'b str) { if let Some(x) = m.get_mut(k) { *x = s; } }", false),
    ("fn @<'a, 'b>(m: &'b mut Map<K, &'a str>, k: K, s: &'a str) { m.insert(k, s); m.entry(k).or_insert(s); }", true),
    ("fn @<'a, 'b>(m: &'a mut Map<K, &'b mut V>, k: K) -> Option<&'a mut V> { m.get_mut(k).map(|v| &mut **v) }", true),
    ("fn @<'a, 'b>(m: &'a Map<K, &'b mut V>, k: K) -> Option<&'b mut V> { m.get(k).map(|v| &mut **v) }", false),
    ("fn @<'a, 'b>(m: &'a mut Map<K, &'b mut V>, k: K) -> Option<&'b mut V> { m.get_mut(k).map(|v| &mut **v) }", false),
    ("fn @<'a, 'b>(m: &'a mut Map<K, &'b mut V>, k: K) -> Option<&'b mut V> { m.remove(k) }", true),
    ("fn @<'a, 'b>(m: &'a mut Map<K, &'b mut V>) -> Vec<&'b mut V> { m.values_mut().map(|v| &mut **v).collect() }", false),
    ("fn @<'b>(m: Map<K, &'b mut V>) -> Vec<&'b mut V> { m.into_iter().map(|(_, v)| v).collect() }", true),
    ("fn @(s: &Set<K>, t: &Set<K>) -> Vec<K> { s.intersection(t).collect() }", true),
    ("fn @<'a>(s: &'a Set<K>, t: &'a Set<K>) -> impl Iterator<Item = K> + 'a { s.intersection(t) }", true),
    ("fn @(mut s: Set<K>, mut t: Set<K>, k: K) { let i = s.intersection(&t); used(i); t.insert(k); s.clear(); }", true),
    ("fn @(s: &Set<K>) -> fixed_map::set::Iter<'_, K> { s.iter() }", true),
    ("fn @(s: Set<K>) -> fixed_map::set::IntoIter<K> { s.into_iter() }", true),
    ("fn @(s: &Set<K>, k: K) { s.insert(k); }", false), ("fn @(s: &Set<K>, k: K) { s.remove(k); }", false), ("fn @(s: &Set<K>) { s.clear(); }", false), ("fn @(s: &Set<K>) { s.retain(|_| true); }", false),
    ("fn @(mut s: Set<K>) { s.retain(|_| s.len() > 0); }", false),
    ("fn @(mut s: Set<K>) { for x in s.iter().collect::<Vec<_>>() { s.remove(x); } }", true),
    ("static @: fn() -> Map<K, V> = Map::new;", true),
    ("fn @() -> Map<K, std::rc::Rc<u8>> { let mut m = Map::new(); m.clear(); m }", true),
    ("fn @(m: Map<K, std::rc::Rc<u8>>) { std::thread::spawn(move || m.len()); }", false),
    ("fn @(m: &Map<K, std::cell::Cell<u8>>) { std::thread::scope(|s| { s.spawn(|| m.len()); }); }", false),
    ("fn @(mut m: Map<K, std::rc::Rc<u8>>) { std::thread::scope(|s| { s.spawn(|| m.iter_mut().count()); }); }", false),
    ("fn @<T>(m: &Map<K, T>) -> usize { m.len() + m.iter().count() + m.keys().count() + m.values().count() }", true),
    ("fn @<T>(m: &mut Map<K, T>, k: K, t: T) -> Option<T> { m.insert(k, t) }", true),
    ("fn @<T>(m: &mut Map<K, T>, k: K, t: T) -> &mut T { m.entry(k).or_insert(t) }", true),
    ("fn @<T>(m: &mut Map<K, T>, k: K) -> Option<T> { m.clear(); m.retain(|_, _| true); m.remove(k) }", true),
    ("fn @<T: Clone>(m: &Map<K, T>) -> Map<K, T> { m.clone() }", true),
    ("fn @<T>(m: &Map<K, T>) -> Map<K, T> { Map::clone(m) }", false),
    ("fn @<T>(m: &Map<K, T>) -> bool { m == m }", false),
    ("fn @<T: PartialEq>(m: &Map<K, T>) -> bool { m == m }", true),
    ("fn @<T>(m: Map<K, T>) -> Map<K, Option<T>> { m.into_iter().map(|(k, v)| (k, Some(v))).collect() }", true),
    // buckets
    ("fn @<'a>(o: &'a mut Option<V>) -> Option<&'a mut V> { use fixed_map::option_bucket::*; SomeBucket::new(o).map(|b| b.into_mut()) }", true),
    ("fn @<'a>(o: &'a mut Option<V>) -> Option<&'a mut V> { use fixed_map::option_bucket::*; SomeBucket::new(o).map(|mut b| b.as_mut()) }", false),
    ("fn @<'a>(o: &'a mut Option<V>) -> Option<&'a V> { use fixed_map::option_bucket::*; SomeBucket::new(o).map(|b| b.as_ref()) }", false),
    ("fn @<'a>(o: &'a mut Option<V>) -> Option<&'a mut V> { use fixed_map::option_bucket::*; NoneBucket::new(o).map(|b| b.insert(v())) }", true),
    ("fn @(mut o: Option<V>) { use fixed_map::option_bucket::*; let mut b = SomeBucket::new(&mut o).unwrap(); let x = b.as_mut(); let y = b.as_mut(); used((x, y)); }", false),
    ("fn @(mut o: Option<V>) { use fixed_map::option_bucket::*; let mut b = SomeBucket::new(&mut o).unwrap(); let x = b.as_ref(); let y = b.as_mut(); used((x, y)); }", false),
    ("fn @(mut o: Option<V>) { use fixed_map::option_bucket::*; let b = SomeBucket::new(&mut o).unwrap(); let x = b.as_ref(); let y = b.as_ref(); used((x, y)); }", true),
    ("fn @(mut o: Option<V>) { use fixed_map::option_bucket::*; let b = SomeBucket::new(&mut o).unwrap(); let x = b.as_ref(); let y = b.take(); used(x); used(y); }", false),
    ("fn @(mut o: Option<V>) { use fixed_map::option_bucket::*; let mut b = SomeBucket::new(&mut o).unwrap(); let x = b.as_mut(); b.replace(v()); used(x); }", false),
    ("fn @(mut o: Option<V>) { use fixed_map::option_bucket::*; let mut b = SomeBucket::new(&mut o).unwrap(); let x = b.replace(v()); b.take(); used(x); o = None; }", true),
    ("fn @(mut o: Option<V>) { use fixed_map::option_bucket::*; let b = SomeBucket::new(&mut o).unwrap(); o = None; used(b); }", false),
    ("fn @(mut o: Option<V>) { use fixed_map::option_bucket::*; let b = SomeBucket::new(&mut o).unwrap(); let x = b.into_mut(); o = None; used(x); }", false),
    ("fn @(mut o: Option<V>) { use fixed_map::option_bucket::*; let b = SomeBucket::new(&mut o).unwrap(); b.take(); b.take(); }", false),
    ("fn @(mut o: Option<V>) { use fixed_map::option_bucket::*; let b = NoneBucket::new(&mut o).unwrap(); let x = b.insert(v()); o = None; used(x); }", false),
    ("fn @(mut o: Option<V>) { use fixed_map::option_bucket::*; let b = NoneBucket::new(&mut o).unwrap(); b.insert(v()); b.insert(v()); }", false),
    ("fn @(mut o: Option<V>) { use fixed_map::option_bucket::*; let b = NoneBucket::new(&mut o).unwrap(); o = None; used(b); }", false),
    ("fn @(mut o: Option<V>) -> Option<V> { use fixed_map::option_bucket::*; match OptionBucket::new(&mut o) { OptionBucket::Some(mut b) => { b.as_mut().push('x'); } OptionBucket::None(b) => { b.insert(v()).push('x'); } } o }", true),
    ("fn @(mut o: Option<V>) { use fixed_map::option_bucket::*; let b = OptionBucket::new(&mut o); used(o.is_some()); used(b); }", false),
    ("fn @<'a>(o: &'a mut Option<V>) -> &'static mut V { use fixed_map::option_bucket::*; match OptionBucket::new(o) { OptionBucket::Some(b) => b.into_mut(), OptionBucket::None(b) => b.insert(v()) } }", false),
    ("fn @<'a>(o: &'a mut Option<V>) -> &'a mut V { use fixed_map::option_bucket::*; match OptionBucket::new(o) { OptionBucket::Some(b) => b.into_mut(), OptionBucket::None(b) => b.insert(v()) } }", true),
    ("fn @(o: &mut Option<V>) { use fixed_map::option_bucket::*; let b = unsafe { SomeBucket::new_unchecked(o) }; used(b); }", true),
    ("fn @(o: &mut Option<V>) { use fixed_map::option_bucket::*; let b = SomeBucket::new_unchecked(o); used(b); }", false),
    ("fn @(o: &mut Option<V>) { use fixed_map::option_bucket::*; let b = NoneBucket::new_unchecked(o); used(b); }", false),
];
const KINDS: &[(&str, &str)] = &[
    ("enum", "#[derive(Clone, Copy, Debug, Key)] pub enum K { A, B, C }"), ("bitset enum", "#[derive(Clone, Copy, Debug, Key)] #[key(bitset)] pub enum K { A, B, C }"), ("enum of one", "#[derive(Clone, Copy, Debug, Key)] pub enum K { A }"),
    ("enum with payload", "#[derive(Clone, Copy, Debug, Key)] pub enum K { A, B(bool), C(Option<P>), D(()) } #[derive(Clone, Copy, Debug, Key)] pub enum P { X, Y }"),
    ("enum with dynamic payload", "#[derive(Clone, Copy, Debug, Key)] pub enum K { A, B(u8), C(&'static str), D(Option<i64>) }"),
    ("bool", "pub type K = bool;"), ("unit", "pub type K = ();"), ("option", "pub type K = Option<bool>;"), ("option of enum", "pub type K = Option<P>; #[derive(Clone, Copy, Debug, Key)] pub enum P { X, Y(bool) }"),
    ("u32", "pub type K = u32;"), ("str", "pub type K = &'static str;"), ("bytes", "pub type K = &'static [u8];"), ("option of char", "pub type K = Option<char>;"),
];

fn space() -> Vec<Prog> {
    let mut v = Vec::new();
    for (s, h) in SOURCES { for (u, how) in USES {
        v.push(Prog { name: format!("holding {s} across {u}"), src: format!("fn @(mut m: Map<K, V>, k: K, q: K) {{ let r = {s}; {u} used(r); }}"), accept: compatible(*h, *how) });
        v.push(Prog { name: format!("{s} given up before {u}"), src: format!("fn @(mut m: Map<K, V>, k: K, q: K) {{ let r = {s}; used(r); {u} }}"), accept: Some(true) });
    } }
    // two things obtained one after the other and held together
    for (s, h) in SOURCES { for (t, g) in SOURCES {
        let writes = |x: &str| *g == Exclusive || x.contains("entry") || x.contains("_mut") || x.starts_with("m.insert") || x.starts_with("m.remove") || x.starts_with("m.retain") || x.starts_with("m.clear");
        v.push(Prog { name: format!("holding {s} and {t}"), src: format!("fn @(mut m: Map<K, V>, k: K) {{ let r = {s}; let t = {t}; used(r); used(t); }}"), accept: match h { Nothing => Some(true), Shared => Some(!writes(t)), Exclusive => Some(false), Keys => (!writes(t)).then_some(true) } });
    } }
    for (s, h) in SETS { for (u, how) in SUSES {
        v.push(Prog { name: format!("set: holding {s} across {u}"), src: format!("fn @(mut m: Set<K>, o: Set<K>, k: K, q: K) {{ let r = {s}; {u} used(r); }}"), accept: if *h == Shared && *how == Moves { None /* a set may be `Copy` */ } else { compatible(*h, *how) } });
        v.push(Prog { name: format!("set: {s} given up before {u}"), src: format!("fn @(mut m: Set<K>, o: Set<K>, k: K, q: K) {{ let r = {s}; used(r); {u} }}"), accept: Some(true) });
    } }
    for (b, accept) in BODIES { v.push(Prog { name: (*b).into(), src: format!("fn @(mut m: Map<K, V>, k: K, q: K) {{ {b} }}"), accept: Some(*accept) }); }
    for (f, accept) in FUNCTIONS { v.push(Prog { name: (*f).into(), src: (*f).into(), accept: Some(*accept) }); }
    v
}
const HEAD: &str = "#![allow(warnings)] use fixed_map::{Key, Map, Set}; use fixed_map::map::{Entry, OccupiedEntry, VacantEntry}; type V = String; fn v() -> V { V::new() } fn used<T>(_: T) {}";

struct Env { rustc: String, rlib: String, deps: String, dir: String }
impl Env {
    /// Compiles the programs, one per line; for each rejected one the first message about it.
    fn compile(&self, name: &str, head: &str, progs: &[(usize, &Prog)]) -> Result<BTreeMap<usize, String>, String> {
        let mut src = format!("{HEAD} {head}\n");
        for (i, p) in progs { src += &p.src.replace('@', &format!("p{i}")); src.push('\n'); }
        let path = format!("{}/{name}.rs", self.dir);
        std::fs::write(&path, &src).map_err(|e| format!("writing {path}: {e}"))?;
        let out = Command::new(&self.rustc)
            .args(["--crate-type", "lib", "--emit=metadata", "--cap-lints", "allow", "--error-format", "short", "--crate-name", "p", "--edition", "2021", "-o", &format!("{}/{name}.rmeta", self.dir), "-L", &format!("dependency={}", self.deps), "--extern", &format!("fixed_map={}", self.rlib), &path])
            .output().map_err(|e| format!("running rustc: {e}"))?;
        let err = String::from_utf8_lossy(&out.stderr).into_owned();
        let mut bad = BTreeMap::new();
        for l in err.lines() {
            let Some((at, msg)) = l.split_once(": error") else { continue };
            let Some(line) = at.strip_prefix(&format!("{path}:")).and_then(|x| x.split(':').next()).and_then(|x| x.parse::<usize>().ok()) else { continue };
            if line >= 2 && line - 2 < progs.len() { bad.entry(progs[line - 2].0).or_insert_with(|| format!("error{msg}")); }
        }
        if out.status.success() != bad.is_empty() || !out.status.success() && (out.status.code() != Some(1) || err.contains("internal compiler error") || err.contains("No space left")) { return Err(format!("rustc failed otherwise: {}", &err[..err.len().min(4000)])); }
        Ok(bad)
    }
}
fn is_borrow(e: &str) -> bool { ["E0381", "E0382", "E0499", "E0502", "E0503", "E0505", "E0506", "E0507", "E0515", "E0521", "E0594", "E0596", "E0597", "E0716", "E0373", "E0713"].iter().any(|c| e.contains(c)) || e.contains("lifetime may not live long enough") }

fn judge(w: &mut W, env: &Env, kind: &str, decl: &str, progs: &[Prog], part: usize) {
    w.begin(|| format!("programs over {kind}"));
    let mut left: Vec<(usize, &Prog)> = progs.iter().enumerate().collect();
    let mut errors: BTreeMap<usize, String> = BTreeMap::new();
    // an error before borrow checking can hide others: repeat without the rejected ones until nothing is rejected
    loop {
        w.stats.transitions += 1;
        let bad = match env.compile(&format!("{}{part}", kind.replace(' ', "_")), decl, &left) { Ok(b) => b, Err(e) => panic!("{e}") };
        if bad.is_empty() { break; }
        let early = bad.values().any(|e| !is_borrow(e));
        let gone: BTreeSet<usize> = bad.keys().copied().collect();
        errors.extend(bad);
        left.retain(|p| !gone.contains(&p.0));
        if !early { break; }
    }
    for (i, p) in progs.iter().enumerate() {
        w.stats.states += 1;
        w.stats.traces += 1;
        // entries of dynamic keys are hashbrown's own types here, whose inherent `key` lends the key instead
        let accept = if matches!(kind, "u32" | "str" | "bytes") && p.src.contains("e.key()") { None } else if kind == "unit" && p.src.contains("Entry::") && errors.get(&i).is_some_and(|e| e.contains("E0283") || e.contains("E0282")) { None /* the entry of a singleton does not determine its key type */ } else { p.accept };
        match (accept, errors.get(&i)) {
            (Some(true), Some(e)) => { w.fail(format!("{kind}: {}", p.name), format!("a correct program is rejected: {e}\n{decl}\n{}", p.src)); return; }
            (Some(false), None) => { w.fail(format!("{kind}: {}", p.name), format!("a program that must be rejected is accepted:\n{decl}\n{}", p.src)); return; }
            _ => {}
        }
    }
    w.sample(|| format!("{kind}: {} programs, {} accepted", progs.len(), progs.iter().filter(|p| p.accept == Some(true)).count()));
}

fn main() {
    let mut c = Ctx::new("C25", "model_checking");
    c.rule = "every pair of a way to obtain something from a map or set (references, iterators, their items, entries, results) and a use of the collection, the first held across the second or given up before it; every pair of ways, held together; and a table of programs about entries, closures, threads, escaping references and borrowed values; for every storage kind each program is compiled with the real crate and its acceptance compared with the rule for borrows: shared with shared, exclusive with nothing, owned results free".into();
    let var = |n: &str| std::env::var(n).unwrap_or_else(|_| panic!("{n} is not set"));
    let env = Arc::new(Env { rustc: var("C16_RUSTC"), rlib: var("C16_RLIB"), deps: var("C16_DEPS"), dir: var("C16_DIR") });
    match guard(|| env.compile("empty", "", &[])) { Ok(b) if b.is_empty() => {} o => { eprintln!("rustc does not work: {o:?}"); std::process::exit(3); } }
    let progs = Arc::new(space());
    let parts = 8;
    for (kind, decl) in KINDS { for part in 0..parts {
        let (env, progs) = (env.clone(), progs.clone());
        c.job(*kind, move |w| { let mine: Vec<Prog> = progs.iter().skip(part).step_by(parts).cloned().collect(); judge(w, &env, kind, decl, &mine, part) });
    } }
    c.finish()
}
