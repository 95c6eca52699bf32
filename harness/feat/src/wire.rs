//! Serialization under each feature set: every contents to tokens and back, and input with repetitions.
use super::*;
use serde::de::value::{Error, MapDeserializer, SeqDeserializer};
use serde::ser::{Error as _, Impossible, SerializeMap, SerializeSeq};
use serde::{Deserialize, Serialize, Serializer};

/// What was announced and what was emitted.
#[derive(Clone, PartialEq, Debug)]
enum Tok { Num(u64), Map(Option<usize>, Vec<Tok>), Seq(Option<usize>, Vec<Tok>) }
struct S;
struct Col(bool, Option<usize>, Vec<Tok>);
macro_rules! no { ($($f:ident($($t:ty),*) -> $r:ty);* $(;)?) => { $( fn $f(self $(, _: $t)*) -> Result<$r, Error> { Err(Error::custom(stringify!($f))) } )* } }
macro_rules! num { ($($f:ident: $t:ty),*) => { $( fn $f(self, x: $t) -> Result<Tok, Error> { Ok(Tok::Num(x as u64)) } )* } }
type Imp = Impossible<Tok, Error>;
impl Serializer for S {
    type Ok = Tok; type Error = Error;
    type SerializeSeq = Col; type SerializeMap = Col; type SerializeTuple = Imp; type SerializeTupleStruct = Imp; type SerializeTupleVariant = Imp; type SerializeStruct = Imp; type SerializeStructVariant = Imp;
    num!(serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_bool: bool);
    no! { serialize_f32(f32) -> Tok; serialize_f64(f64) -> Tok; serialize_char(char) -> Tok; serialize_str(&str) -> Tok; serialize_bytes(&[u8]) -> Tok; serialize_none() -> Tok; serialize_unit() -> Tok; serialize_unit_struct(&'static str) -> Tok; serialize_unit_variant(&'static str, u32, &'static str) -> Tok;
        serialize_tuple(usize) -> Imp; serialize_tuple_struct(&'static str, usize) -> Imp; serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Imp; serialize_struct(&'static str, usize) -> Imp; serialize_struct_variant(&'static str, u32, &'static str, usize) -> Imp }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Tok, Error> { Err(Error::custom("some")) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Tok, Error> { Err(Error::custom("newtype")) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Tok, Error> { Err(Error::custom("newtype")) }
    fn collect_str<T: ?Sized + std::fmt::Display>(self, _: &T) -> Result<Tok, Error> { Err(Error::custom("str")) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Col, Error> { Ok(Col(false, n, vec![])) }
    fn serialize_map(self, n: Option<usize>) -> Result<Col, Error> { Ok(Col(true, n, vec![])) }
}
impl Col { fn done(self) -> Tok { if self.0 { Tok::Map(self.1, self.2) } else { Tok::Seq(self.1, self.2) } } }
impl SerializeSeq for Col {
    type Ok = Tok; type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), Error> { self.2.push(t.serialize(S)?); Ok(()) }
    fn end(self) -> Result<Tok, Error> { Ok(self.done()) }
}
impl SerializeMap for Col {
    type Ok = Tok; type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), Error> { self.2.push(t.serialize(S)?); Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), Error> { self.2.push(t.serialize(S)?); Ok(()) }
    fn end(self) -> Result<Tok, Error> { Ok(self.done()) }
}

pub fn unit<K: Dom + Serialize + for<'d> Deserialize<'d>>(w: &mut W, name: &'static str) where K::MapStorage<u32>: PartialEq, K::SetStorage: PartialEq {
    let inf = info::<K>(name);
    let n = inf.n;
    for sub in contents(n) {
        let m = tagged(&sub);
        w.stats.states += 1;
        w.stats.transitions += 4;
        w.stats.traces += 4;
        w.begin(|| format!("serialization of {m:?}"));
        let r = guard(|| {
            let (o, s) = (map_of::<K, u32>(&m), set_of::<K>(&sub));
            let es = entries(&m);
            let want = Tok::Map(Some(es.len()), es.iter().flat_map(|&(k, v)| [Tok::Num(k as u64), Tok::Num(v.into())]).collect());
            let got = o.serialize(S).map_err(|e| e.to_string())?;
            if got != want { return Err(format!("map serialized as {got:?}, expected {want:?}")); }
            let want = Tok::Seq(Some(es.len()), es.iter().map(|&(k, _)| Tok::Num(k as u64)).collect());
            let got = s.serialize(S).map_err(|e| e.to_string())?;
            if got != want { return Err(format!("set serialized as {got:?}, expected {want:?}")); }
            // twice over, with other values first: the last one wins
            let input: Vec<(u64, u32)> = es.iter().map(|&(k, v)| (k as u64, v + 7)).chain(es.iter().rev().map(|&(k, v)| (k as u64, v))).collect();
            let back = Map::<K, u32>::deserialize(MapDeserializer::<_, Error>::new(input.iter().copied())).map_err(|e| e.to_string())?;
            if back != o { return Err(format!("{input:?} deserialized as {back:?}")); }
            let back = Set::<K>::deserialize(SeqDeserializer::<_, Error>::new(input.iter().map(|e| e.0))).map_err(|e| e.to_string())?;
            if back != s { return Err(format!("{input:?} deserialized as {back:?}")); }
            // a bad key at the end is an error
            if Map::<K, u32>::deserialize(MapDeserializer::<_, Error>::new(input.iter().copied().chain([(n as u64, 0)]))).is_ok() { return Err("a bad key is accepted in a map".into()); }
            if Set::<K>::deserialize(SeqDeserializer::<_, Error>::new(input.iter().map(|e| e.0).chain([n as u64]))).is_ok() { return Err("a bad key is accepted in a set".into()); }
            Ok(())
        });
        if let Err(e) = r { w.fail(format!("serialization of {m:?}"), e); return; }
    }
}
