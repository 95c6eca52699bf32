//! A small in-memory data format with an error injected at any call.
use fmcheck::prelude::*;
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible, SerializeMap, SerializeSeq, Serializer};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::fmt;

#[derive(Clone, PartialEq, Debug)]
enum C { Unit, Bool(bool), U(u128), I(i128), Ch(char), Str(String), None, Some(Box<C>), Seq(Option<usize>, Vec<C>), Map(Option<usize>, Vec<(C, C)>) }

#[derive(Debug, PartialEq, Clone)]
struct E(String);
impl fmt::Display for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for E {}
impl ser::Error for E { fn custom<T: fmt::Display>(m: T) -> Self { E(m.to_string()) } }
impl de::Error for E { fn custom<T: fmt::Display>(m: T) -> Self { E(m.to_string()) } }

thread_local! { static LEFT: Cell<i64> = const { Cell::new(-1) }; static HITS: Cell<u64> = const { Cell::new(0) }; static AFTER: Cell<u64> = const { Cell::new(0) }; }
/// One call of the format; fails when its turn has come.
fn call() -> Result<(), E> {
    HITS.with(|h| h.set(h.get() + 1));
    let n = LEFT.with(|l| { let n = l.get(); if n >= 0 { l.set(n - 1); } n });
    if n == -2 { AFTER.with(|a| a.set(a.get() + 1)); }
    if n == 0 { LEFT.with(|l| l.set(-2)); return Err(E("injected".into())); }
    Ok(())
}
fn fail_at(n: i64) { LEFT.with(|l| l.set(n)); HITS.with(|h| h.set(0)); AFTER.with(|a| a.set(0)); }
fn has_failed() -> bool { LEFT.with(|l| l.get()) == -2 }

// ---- serializer ------------------------------------------------------------------------------------
struct S;
struct Col { len: Option<usize>, items: Vec<C>, key: Option<C>, map: Vec<(C, C)> }
macro_rules! sr { ($($f:ident: $t:ty => |$x:ident| $e:expr),* $(,)?) => { $( fn $f(self, $x: $t) -> Result<C, E> { call()?; Ok($e) } )* } }
impl Serializer for S {
    type Ok = C; type Error = E;
    fn is_human_readable(&self) -> bool { HUMAN.with(|h| h.get()) }
    type SerializeSeq = Col; type SerializeMap = Col;
    type SerializeTuple = Impossible<C, E>; type SerializeTupleStruct = Impossible<C, E>; type SerializeTupleVariant = Impossible<C, E>; type SerializeStruct = Impossible<C, E>; type SerializeStructVariant = Impossible<C, E>;
    sr! { serialize_bool: bool => |x| C::Bool(x), serialize_i8: i8 => |x| C::I(x.into()), serialize_i16: i16 => |x| C::I(x.into()), serialize_i32: i32 => |x| C::I(x.into()), serialize_i64: i64 => |x| C::I(x.into()), serialize_i128: i128 => |x| C::I(x),
        serialize_u8: u8 => |x| C::U(x.into()), serialize_u16: u16 => |x| C::U(x.into()), serialize_u32: u32 => |x| C::U(x.into()), serialize_u64: u64 => |x| C::U(x.into()), serialize_u128: u128 => |x| C::U(x), serialize_char: char => |x| C::Ch(x), serialize_str: &str => |x| C::Str(x.into()) }
    fn serialize_f32(self, _: f32) -> Result<C, E> { Err(E("f32".into())) }
    fn serialize_f64(self, _: f64) -> Result<C, E> { Err(E("f64".into())) }
    fn serialize_bytes(self, _: &[u8]) -> Result<C, E> { Err(E("bytes".into())) }
    fn serialize_none(self) -> Result<C, E> { call()?; Ok(C::None) }
    fn serialize_some<T: ?Sized + Serialize>(self, t: &T) -> Result<C, E> { call()?; Ok(C::Some(Box::new(t.serialize(S)?))) }
    fn serialize_unit(self) -> Result<C, E> { call()?; Ok(C::Unit) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<C, E> { Err(E("unit struct".into())) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<C, E> { Err(E("unit variant".into())) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<C, E> { Err(E("newtype struct".into())) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<C, E> { Err(E("newtype variant".into())) }
    fn serialize_seq(self, len: Option<usize>) -> Result<Col, E> { call()?; Ok(Col { len, items: vec![], key: None, map: vec![] }) }
    fn serialize_map(self, len: Option<usize>) -> Result<Col, E> { call()?; Ok(Col { len, items: vec![], key: None, map: vec![] }) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> { Err(E("tuple".into())) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { Err(E("tuple struct".into())) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E("tuple variant".into())) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { Err(E("struct".into())) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E("struct variant".into())) }
}
impl SerializeSeq for Col {
    type Ok = C; type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), E> { call()?; assert!(self.items.len() < CAP, "endless"); self.items.push(t.serialize(S)?); Ok(()) }
    fn end(self) -> Result<C, E> { call()?; Ok(C::Seq(self.len, self.items)) }
}
impl SerializeMap for Col {
    type Ok = C; type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), E> { call()?; if self.key.is_some() { return Err(E("two keys in a row".into())); } assert!(self.map.len() < CAP, "endless"); self.key = Some(t.serialize(S)?); Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), E> { call()?; let k = self.key.take().ok_or(E("value without key".into()))?; self.map.push((k, t.serialize(S)?)); Ok(()) }
    fn end(self) -> Result<C, E> { call()?; if self.key.is_some() { return Err(E("key without value".into())); } Ok(C::Map(self.len, self.map)) }
}
fn ser<T: Serialize + ?Sized>(t: &T) -> Result<C, E> { t.serialize(S) }

// ---- character of the format -----------------------------------------------------------------------
thread_local! { static HUMAN: Cell<bool> = const { Cell::new(true) }; static STRICT: Cell<bool> = const { Cell::new(false) }; }
/// Bit 0: for machines rather than people; bit 1: not self-describing.
fn format_kind(kind: usize) { HUMAN.with(|h| h.set(kind & 1 == 0)); STRICT.with(|h| h.set(kind & 2 != 0)); }

// ---- deserializer ----------------------------------------------------------------------------------
#[derive(Clone, Copy)]
struct D<'a> { c: &'a C, hint: u8 }
/// Which remaining length an access announces.
const HINTS: u8 = 4;
fn hint(kind: u8, left: usize) -> Option<usize> { match kind { 0 => None, 1 => Some(left), 2 => Some(0), _ => Some(usize::MAX) } }
struct Acc<'a> { seq: std::slice::Iter<'a, C>, map: std::slice::Iter<'a, (C, C)>, val: Option<&'a C>, hint: u8 }
impl<'de> D<'de> {
    fn typed<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        call()?;
        match self.c {
            C::Unit => v.visit_unit(), C::Bool(b) => v.visit_bool(*b), C::Ch(c) => v.visit_char(*c), C::Str(s) => v.visit_borrowed_str(s),
            C::U(x) => match u64::try_from(*x) { Ok(x) => v.visit_u64(x), _ => v.visit_u128(*x) },
            C::I(x) => match i64::try_from(*x) { Ok(x) => v.visit_i64(x), _ => v.visit_i128(*x) },
            C::None => v.visit_none(), C::Some(c) => v.visit_some(D { c, ..self }),
            C::Seq(_, s) => v.visit_seq(Acc { seq: s.iter(), map: [].iter(), val: None, hint: self.hint }),
            C::Map(_, m) => v.visit_map(Acc { seq: [].iter(), map: m.iter(), val: None, hint: self.hint }),
        }
    }
}
macro_rules! typed { ($($f:ident)*) => { $( fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.typed(v) } )* } }
impl<'de> Deserializer<'de> for D<'de> {
    type Error = E;
    fn is_human_readable(&self) -> bool { HUMAN.with(|h| h.get()) }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if STRICT.with(|h| h.get()) { return Err(E("the format is not self-describing".into())); }
        self.typed(v)
    }
    typed! { deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq deserialize_map }
    serde::forward_to_deserialize_any! { f32 f64 unit_struct newtype_struct tuple tuple_struct struct enum identifier ignored_any }
}
impl<'a> SeqAccess<'a> for Acc<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'a>>(&mut self, t: T) -> Result<Option<T::Value>, E> { call()?; match self.seq.next() { None => Ok(None), Some(c) => t.deserialize(D { c, hint: self.hint }).map(Some) } }
    fn size_hint(&self) -> Option<usize> { hint(self.hint, self.seq.len()) }
}
impl<'a> MapAccess<'a> for Acc<'a> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'a>>(&mut self, t: T) -> Result<Option<T::Value>, E> { call()?; match self.map.next() { None => Ok(None), Some((c, v)) => { self.val = Some(v); t.deserialize(D { c, hint: self.hint }).map(Some) } } }
    fn next_value_seed<T: DeserializeSeed<'a>>(&mut self, t: T) -> Result<T::Value, E> { call()?; t.deserialize(D { c: self.val.take().ok_or(E("value without key".into()))?, hint: self.hint }) }
    fn size_hint(&self) -> Option<usize> { hint(self.hint, self.map.len()) }
}

/// A recorded value.
#[derive(PartialEq, Clone)]
struct Sv(Tok);
impl Val for Sv { const CARD: u32 = u32::MAX; const NAME: &'static str = "Sv"; fn mk(id: u32) -> Self { Sv(Tok::new(id)) } fn id(&self) -> u32 { self.0.id() } }
impl Serialize for Sv { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(self.0.id()) } }
impl<'de> Deserialize<'de> for Sv {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        // created before it is known to be good: an error must drop it exactly once
        let t = Tok::new(0);
        let id = u32::deserialize(d)?;
        drop(t);
        if id == 666 { return Err(de::Error::custom("bad value")); }
        Ok(Sv(Tok::new(id)))
    }
}
fn clean() -> Result<(), String> { if live() != 0 { return Err(format!("{} values leaked", live())); } let e = errors(); if e.is_empty() { Ok(()) } else { Err(format!("{e:?}")) } }
/// Runs `f` with an error injected at every call in turn.
fn inject<T>(w: &mut W, what: &str, mut f: impl FnMut() -> Result<T, E>) -> Result<(), String> {
    let mut n = 0;
    loop {
        w.begin(|| format!("{what}, error at call {n}"));
        w.stats.transitions += 1;
        w.extra("errors_injected", 1);
        fail_at(n);
        let r = guard(|| Ok(f().map(drop)));
        let failed = has_failed();
        let more = AFTER.with(|a| a.get());
        fail_at(-1);
        match r {
            Err(e) => return Err(format!("error at call {n}: {e}")),
            Ok(Ok(_)) if failed => return Err(format!("error at call {n} was not returned")),
            Ok(Err(e)) if failed && e.0 != "injected" => return Err(format!("error at call {n} came back as {e:?}")),
            Ok(Err(e)) if !failed => return Err(format!("failed without an error injected: {e:?}")),
            _ => {}
        }
        if more > 0 { return Err(format!("{more} calls of the format after the error at call {n}")); }
        clean().map_err(|e| format!("error at call {n}: {e}"))?;
        if !failed { return Ok(()); }
        n += 1;
        if n > 60 && n % 16 != 0 { n += 15 - n % 16; }
    }
}

fn unit<K: Dom + Serialize + for<'d> Deserialize<'d>>(w: &mut W, name: &'static str) where K::MapStorage<Sv>: PartialEq, K::SetStorage: PartialEq { both::<K>(w, name, |c, h| Map::<K, Sv>::deserialize(D { c, hint: h }), |c, h| Set::<K>::deserialize(D { c, hint: h }), |c, h, p| Deserialize::deserialize_in_place(D { c, hint: h }, p), |c, h, p| Deserialize::deserialize_in_place(D { c, hint: h }, p)) }
type Dm<K> = fn(&C, u8) -> Result<Map<K, Sv>, E>;
type Ds<K> = fn(&C, u8) -> Result<Set<K>, E>;

type Dmi<K> = fn(&C, u8, &mut Map<K, Sv>) -> Result<(), E>;
type Dsi<K> = fn(&C, u8, &mut Set<K>) -> Result<(), E>;

fn both<K: Dom + Serialize>(w: &mut W, name: &'static str, dm: Dm<K>, ds: Ds<K>, dmi: Dmi<K>, dsi: Dsi<K>) where K::MapStorage<Sv>: PartialEq, K::SetStorage: PartialEq {
    let inf = info::<K>(name);
    let n = inf.n;
    let kc: Vec<C> = (0..n).map(|k| ser(&K::at(k)).unwrap()).collect();
    let subs = thin(subsets(n, if w.thorough { 10 } else { 7 }, 0), if w.thorough { 260 } else { 40 });
    for (i, sub) in subs.iter().enumerate() {
        let m = tagged(sub);
        w.stats.states += 1;
        reset();
        let rs = routes(n, &m, 7);
        let pick: Vec<usize> = if n <= 4 { (0..rs.len()).collect() } else { vec![i % rs.len()] };
        for r in pick {
            format_kind(r + i);
            w.begin(|| format!("map {:?}, format {}", rs[r], (r + i) % 4));
            w.stats.traces += 2;
            w.stats.transitions += 1 + u64::from(HINTS);
            let res = guard(|| {
                fail_at(-1);
                let o = map_by::<K, Sv>(&rs[r]);
                let got = ser(&o).map_err(|e| format!("serializing failed: {e}"))?;
                let order: Vec<C> = o.iter().take(CAP).map(|(k, v)| C::Map(None, vec![(kc[k.idx()].clone(), C::U(v.id().into()))])).collect();
                let C::Map(len, items) = &got else { return Err(format!("serialized as {got:?}")) };
                if *len != Some(items.len()) { return Err(format!("announced length {len:?}, {} entries emitted", items.len())); }
                let flat: Vec<C> = items.iter().map(|e| C::Map(None, vec![e.clone()])).collect();
                if flat != order { return Err(format!("serialized as {items:?}, iteration gives {order:?}")); }
                let want = entries(&m);
                let mut ids: Vec<(C, C)> = items.clone();
                if inf.is_static { let x: Vec<(C, C)> = want.iter().map(|(k, v)| (kc[*k].clone(), C::U((*v).into()))).collect(); if ids != x { return Err(format!("serialized as {ids:?}, expected {x:?}")); } }
                else { for (k, v) in &want { match ids.iter().position(|e| e.0 == kc[*k] && e.1 == C::U((*v).into())) { Some(p) => { ids.swap_remove(p); } None => return Err(format!("entry {k} missing from {items:?}")) } } if !ids.is_empty() { return Err(format!("too many entries in {items:?}")); } }
                for h in 0..HINTS {
                    let back = dm(&got, h).map_err(|e| format!("deserializing failed: {e}"))?;
                    if back != o || o != back { return Err(format!("round trip (hint {h}) gives something else")); }
                    observe_map(&inf, back, &m).map_err(|e| format!("round trip: {e}"))?;
                }
                // deserializing in place replaces what was there
                let full: Model = (0..n).map(|k| (k % 2 == i % 2).then_some(9000 + k as u32)).collect();
                let mut place = map_of::<K, Sv>(&full);
                dmi(&got, 1, &mut place).map_err(|e| format!("deserializing in place failed: {e}"))?;
                if place != o { return Err("deserializing in place gives something else".into()); }
                observe_map(&inf, place, &m).map_err(|e| format!("in place: {e}"))?;
                drop(o);
                clean()
            });
            if let Err(e) = res { w.fail(format!("map {:?}", rs[r]), e); return; }
        }
        let rs = sroutes(n, sub);
        let pick: Vec<usize> = if n <= 4 { (0..rs.len()).collect() } else { vec![i % rs.len()] };
        for r in pick {
            format_kind(r + i);
            w.begin(|| format!("set {:?}, format {}", rs[r], (r + i) % 4));
            w.stats.traces += 2;
            w.stats.transitions += 1 + u64::from(HINTS);
            let res = guard(|| {
                let o = set_by::<K>(&rs[r]);
                let got = ser(&o).map_err(|e| format!("serializing failed: {e}"))?;
                let C::Seq(len, items) = &got else { return Err(format!("serialized as {got:?}")) };
                if *len != Some(items.len()) { return Err(format!("announced length {len:?}, {} elements emitted", items.len())); }
                let order: Vec<C> = o.iter().take(CAP).map(|k| kc[k.idx()].clone()).collect();
                if *items != order { return Err(format!("serialized as {items:?}, iteration gives {order:?}")); }
                let ks: Vec<usize> = items.iter().map(|c| kc.iter().position(|k| k == c).unwrap_or(usize::MAX - 1)).collect();
                scheck_seq(&inf, sub, "serialization", &ks)?;
                for h in 0..HINTS {
                    let back = ds(&got, h).map_err(|e| format!("deserializing failed: {e}"))?;
                    if back != o || o != back { return Err("round trip gives something else".into()); }
                    observe_set(&inf, back, sub).map_err(|e| format!("round trip: {e}"))?;
                }
                let mut place = set_of::<K>(&(0..n).map(|k| k % 2 == i % 2).collect::<Vec<bool>>());
                dsi(&got, 1, &mut place).map_err(|e| format!("deserializing in place failed: {e}"))?;
                if place != o { return Err("deserializing in place gives something else".into()); }
                observe_set(&inf, place, sub).map_err(|e| format!("in place: {e}"))?;
                Ok(())
            });
            if let Err(e) = res { w.fail(format!("set {:?}", rs[r]), e); return; }
        }
        format_kind(i);
        // errors at every call
        if n <= 5 || present(&m) <= 1 || present(&m) + 1 >= n && (n < 40 || w.thorough || present(&m) == n) {
            reset();
            let (o, s) = (map_of::<K, u32>(&m), set_of::<K>(sub));
            let c = C::Map(None, entries(&m).iter().map(|(k, v)| (kc[*k].clone(), C::U((*v).into()))).collect());
            let cs = C::Seq(None, skeys(sub).iter().map(|k| kc[*k].clone()).collect());
            let r = inject(w, "serializing a map", || ser(&o)).map_err(|e| format!("serializing the map: {e}"))
                .and_then(|()| inject(w, "serializing a set", || ser(&s)).map_err(|e| format!("serializing the set: {e}")))
                .and_then(|()| inject(w, "deserializing a map", || dm(&c, 0)).map_err(|e| format!("deserializing the map: {e}")))
                .and_then(|()| inject(w, "deserializing a set", || ds(&cs, 1)).map_err(|e| format!("deserializing the set: {e}")));
            if let Err(e) = r { w.fail(format!("{m:?}"), e); return; }
            // a bad value, or a bad key, at every position
            for p in 0..=entries(&m).len() {
                if p > 8 && p % 16 != 0 { continue; }
                w.stats.transitions += 3;
                let C::Map(_, base) = &c else { unreachable!() };
                let mut bad = base.clone();
                bad.insert(p, (kc.first().cloned().unwrap_or(C::U(0)), C::U(666)));
                let mut badk = base.clone();
                badk.insert(p, (C::Seq(None, vec![C::U(1)]), C::U(5)));
                let C::Seq(_, base) = &cs else { unreachable!() };
                let mut bads = base.clone();
                bads.insert(p, C::Map(None, vec![]));
                let r = guard(|| {
                    if n > 0 { match dm(&C::Map(None, bad), 0) { Err(e) if e.0 == "bad value" => {} Err(e) => return Err(format!("bad value at {p}: error {e}")), Ok(_) => return Err(format!("bad value at {p} accepted")) } clean()?; }
                    if dm(&C::Map(None, badk), 0).is_ok() { return Err(format!("ill-typed key at {p} accepted")); }
                    clean()?;
                    if ds(&C::Seq(None, bads), 0).is_ok() { return Err(format!("ill-typed element at {p} accepted")); }
                    Ok(())
                });
                if let Err(e) = r { w.fail(format!("{m:?}"), e); return; }
            }
        }
    }
    // arbitrary sequences, with repetitions: the last one wins
    let budget = if w.thorough { 300_000 } else { 6_000 };
    if n > 0 && n <= 8 {
        let base = 2 * n;
        let top = depth_for(base, budget, 6);
        for len in 0..=top {
            for code in 0..(base as u64).pow(len as u32) {
                let mut x = code;
                let seq: Seq = (0..len).map(|i| { let d = (x % base as u64) as usize; x /= base as u64; (d / 2, 10 * (i as u32 + 1) + (d % 2) as u32) }).collect();
                w.begin(|| format!("input {seq:?}"));
                w.stats.transitions += 2;
                w.stats.traces += 2;
                format_kind(code as usize);
                let r = guard(|| {
                    reset();
                    let c = C::Map(None, seq.iter().map(|(k, v)| (kc[*k].clone(), C::U((*v).into()))).collect());
                    let mut want: Model = vec![None; n];
                    for (k, v) in &seq { want[*k] = Some(*v); }
                    let h = (code % u64::from(HINTS)) as u8;
                    let o = dm(&c, h).map_err(|e| format!("failed: {e}"))?;
                    let o = observe_map(&inf, o, &want)?;
                    if live() != present(&want) { return Err(format!("{} values alive, {} stored", live(), present(&want))); }
                    drop(o);
                    clean()?;
                    let c = C::Seq(None, seq.iter().map(|(k, _)| kc[*k].clone()).collect());
                    let s = ds(&c, h).map_err(|e| format!("set failed: {e}"))?;
                    observe_set(&inf, s, &want.iter().map(Option::is_some).collect())?;
                    Ok(())
                });
                if let Err(e) = r { w.fail(format!("input {seq:?}"), e); return; }
            }
        }
    }
    // input of another shape
    format_kind(0);
    for c in [C::Unit, C::Bool(true), C::U(1), C::Str("x".into()), C::None] {
        let r = guard(|| { if dm(&c, 0).is_ok() || ds(&c, 0).is_ok() { return Err("accepted".to_string()); } Ok(()) });
        if let Err(e) = r { w.fail(format!("input {c:?}"), e); return; }
    }
    let r = guard(|| { if dm(&C::Seq(None, vec![]), 0).is_ok() || ds(&C::Map(None, vec![]), 0).is_ok() { return Err("accepted".to_string()); } Ok(()) });
    if let Err(e) = r { w.fail("sequence for a map or map for a sequence".into(), e); }
    w.sample(|| format!("{name}: {} contents serialized, deserialized and interrupted at every call", subs.len()));
}

fn main() {
    let mut c = Ctx::new("C14", "model_checking");
    c.rule = "an in-memory data format driven through serde: every contents of every key type serialized and deserialized (announced length, order, equality; into nothing and in place over other contents; with formats for people or machines, self-describing or not); every input sequence of entries up to a length, with repetitions and four kinds of announced length; an error injected at every call of the serializer and deserializer, and a bad key or value at every position, with a ledger of live values".into();
    c.assumptions.push("&[u8] keys are not deserializable from this format (serde emits them as sequences) and are left out".into());
    macro_rules! go { ($([$t:ty, $n:literal]),*) => { $( c.job($n, |w| unit::<$t>(w, $n)); )* } }
    fmcheck::zoo_large!(go);
    fmcheck::zoo_base!(go);
    fmcheck::zoo_small!(go);
    go!([char, "char"], [u8, "u8"], [u32, "u32"], [u64, "u64"], [u128, "u128"], [usize, "usize"], [i8, "i8"], [i32, "i32"], [i64, "i64"], [i128, "i128"], [isize, "isize"]);
    fmcheck::zoo_dyncomp!(go);
    // borrowed keys: the tree outlives the collection
    c.job("&'static str", |w| both::<&'static str>(w, "&'static str",
        |c, h| Map::deserialize(D { c: Box::leak(Box::new(c.clone())), hint: h }), |c, h| Set::deserialize(D { c: Box::leak(Box::new(c.clone())), hint: h }),
        |c, h, p| Deserialize::deserialize_in_place(D { c: Box::leak(Box::new(c.clone())), hint: h }, p), |c, h, p| Deserialize::deserialize_in_place(D { c: Box::leak(Box::new(c.clone())), hint: h }, p)));
    c.finish()
}
