//! Key domains: every key type used by the checks enumerates a finite table of its keys.
use fixed_map::Key;

/// `base + i`, keeping the "not in the table" marker.
#[inline]
pub fn off(base: usize, i: usize) -> usize {
    if i == usize::MAX { i } else { base + i }
}

/// A key type with an enumerated domain, in declaration order.
pub trait Dom: Key + core::fmt::Debug + Copy + 'static {
    /// Number of keys in the table.
    const N: usize;
    /// Statically stored throughout.
    const STATIC: bool;
    fn at(i: usize) -> Self;
    fn idx(self) -> usize;
    /// One rank per key: iteration yields non-decreasing ranks; equal ranks (dynamic keys of one
    /// variant) may come in any order.
    fn ranks(out: &mut Vec<u32>, next: &mut u32);
}

impl Dom for () {
    const N: usize = 1;
    const STATIC: bool = true;
    fn at(_: usize) -> Self {}
    fn idx(self) -> usize { 0 }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) { out.push(*next); *next += 1; }
}

impl Dom for bool {
    const N: usize = 2;
    const STATIC: bool = true;
    fn at(i: usize) -> Self { i == 0 }
    fn idx(self) -> usize { usize::from(!self) }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) { out.push(*next); out.push(*next + 1); *next += 2; }
}

impl<K: Dom> Dom for Option<K> {
    const N: usize = K::N + 1;
    const STATIC: bool = K::STATIC;
    fn at(i: usize) -> Self { if i < K::N { Some(K::at(i)) } else { None } }
    fn idx(self) -> usize { match self { Some(k) => k.idx(), None => K::N } }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) { K::ranks(out, next); out.push(*next); *next += 1; }
}

#[cfg(feature = "dyn")]
mod dynamic {
    use super::Dom;
    macro_rules! table {
        ($t:ty, [$($v:expr),* $(,)?]) => {
            impl Dom for $t {
                const N: usize = [$($v),*].len();
                const STATIC: bool = false;
                fn at(i: usize) -> Self { const T: &[$t] = &[$($v),*]; T[i] }
                fn idx(self) -> usize { const T: &[$t] = &[$($v),*]; T.iter().position(|x| *x == self).unwrap_or(usize::MAX) }
                fn ranks(out: &mut Vec<u32>, next: &mut u32) { for _ in 0..Self::N { out.push(*next); } *next += 1; }
            }
        };
    }
    table!(char, ['\0', 'a', '\u{10FFFF}', '\u{E000}']);
    table!(u8, [0, 1, 127, 255]);
    table!(u32, [0, 1, 1 << 16, u32::MAX]);
    table!(u64, [0, 1, 1 << 32, u64::MAX]);
    table!(u128, [0, 1 << 64, 1, u128::MAX]);
    /// Many keys, so that collections grow and shrink through several table sizes.
    impl Dom for usize {
        const N: usize = 300;
        const STATIC: bool = false;
        fn at(i: usize) -> Self { match i { 1 => usize::MAX, i if i % 2 == 0 => i, i => i << 48 } }
        fn idx(self) -> usize {
            let i = if self == usize::MAX { 1 } else if self >> 48 == 0 { self } else { self >> 48 };
            if i < Self::N && Self::at(i) == self { i } else { usize::MAX }
        }
        fn ranks(out: &mut Vec<u32>, next: &mut u32) { for _ in 0..Self::N { out.push(*next); } *next += 1; }
    }
    table!(i8, [0, -1, i8::MIN, i8::MAX]);
    table!(i32, [0, -1, i32::MIN, i32::MAX]);
    table!(i64, [0, -1, i64::MIN, i64::MAX]);
    table!(i128, [0, -1, i128::MIN, i128::MAX]);
    table!(isize, [0, -1, isize::MIN, isize::MAX, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 1 << 40]);
    table!(&'static str, ["", "a", "ab", "\0"]);
    table!(&'static [u8], [b"" as &[u8], b"a" as &[u8], b"ab" as &[u8], b"\0" as &[u8]]);
}

pub use fmcore::Info;

/// Describes a key type, checking its table.
pub fn info<K: Dom>(name: &'static str) -> Info {
    let mut ranks = Vec::new();
    K::ranks(&mut ranks, &mut 0);
    assert_eq!(ranks.len(), K::N);
    for i in 0..K::N {
        assert_eq!(K::at(i).idx(), i, "domain table of {name}");
    }
    Info { name, n: K::N, is_static: K::STATIC, ranks }
}

/// Keys of the zoo are serialized as their position.
#[macro_export]
macro_rules! key_serde {
    ($t:ident) => {
        impl serde::Serialize for $t {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64($crate::Dom::idx(*self) as u64) }
        }
        impl<'de> serde::Deserialize<'de> for $t {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let i = <u64 as serde::Deserialize>::deserialize(d)? as usize;
                if i < <$t as $crate::Dom>::N { Ok(<$t as $crate::Dom>::at(i)) } else { Err(serde::de::Error::custom("no such key")) }
            }
        }
    };
}
