//! Which traits collections and iterators have, for every key type and a table of value types.
use fixed_map::map::{IntoIter, Iter, IterMut, Keys, Values, ValuesMut};
use fixed_map::{map, set};
use fmcheck::prelude::*;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::fmt::Debug;
use std::hash::Hash;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::{Arc, MutexGuard};

/// Does a type have a trait? An inherent constant hides the trait's.
mod q {
    #![allow(non_snake_case, dead_code, unused_imports)]
    macro_rules! query { ($($m:ident: $b:path),*) => { $( pub mod $m {
        use std::marker::PhantomData;
        pub struct Q<T>(PhantomData<T>);
        pub trait No { const IS: bool = false; }
        impl<T> No for Q<T> {}
        impl<T: $b> Q<T> { pub const IS: bool = true; }
    } )* } }
    query!(Clone: std::clone::Clone, Copy: std::marker::Copy, PartialEq: std::cmp::PartialEq, Eq: std::cmp::Eq, Ord: std::cmp::Ord, PartialOrd: std::cmp::PartialOrd, Hash: std::hash::Hash, Debug: std::fmt::Debug, Default: std::default::Default, Send: std::marker::Send, Sync: std::marker::Sync, Unpin: std::marker::Unpin, UnwindSafe: std::panic::UnwindSafe, RefUnwindSafe: std::panic::RefUnwindSafe, DoubleEndedIterator: std::iter::DoubleEndedIterator);
    macro_rules! collects { ($($m:ident: $b:ident),*) => { $( pub mod $m {
        use super::Into_;
        use std::marker::PhantomData;
        pub struct Q<T, I>(PhantomData<(T, I)>);
        pub trait No { const IS: bool = false; }
        impl<T, I> No for Q<T, I> {}
        impl<T: $b<I>, I> Q<T, I> { pub const IS: bool = true; }
    } )* } }
    pub trait Into_<I> {}
    impl<T: IntoIterator<Item = I>, I> Into_<I> for T {}
    collects!(From: FromIterator, Into: Into_);
}
macro_rules! has {
    ($t:ty: $b:ident) => { { #[allow(unused_imports)] use q::$b::No; <q::$b::Q<$t>>::IS } };
    ($t:ty: $b:ident<$i:ty>) => { { #[allow(unused_imports)] use q::$b::No; <q::$b::Q<$t, $i>>::IS } };
}

/// Rules, not contents: what a value type has.
#[derive(Clone, Copy, Debug)]
struct Has { clone: bool, copy: bool, eq: bool, full_eq: bool, ord: bool, partial_ord: bool, hash: bool, debug: bool, send: bool, sync: bool, unpin: bool, unwind: bool, ref_unwind: bool }
macro_rules! traits_of { ($t:ty) => { Has { clone: has!($t: Clone), copy: has!($t: Copy), eq: has!($t: PartialEq), full_eq: has!($t: Eq), ord: has!($t: Ord), partial_ord: has!($t: PartialOrd), hash: has!($t: Hash), debug: has!($t: Debug), send: has!($t: Send), sync: has!($t: Sync), unpin: has!($t: Unpin), unwind: has!($t: UnwindSafe), ref_unwind: has!($t: RefUnwindSafe) } } }

/// Has no traits but the automatic ones.
struct Bare;
#[derive(Clone)]
struct OnlyClone;
#[derive(Clone, Copy)]
struct OnlyCopy;
#[derive(PartialEq)]
struct OnlyPartialEq;
#[derive(PartialEq, Eq)]
struct OnlyEq;
#[derive(PartialEq, Eq, Hash)]
struct EqHash;
#[derive(PartialEq, PartialOrd)]
struct OnlyPartialOrd;
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct OnlyOrd;
#[derive(Debug)]
struct OnlyDebug;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Everything;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct NotSend(PhantomData<*const u8>);
/// May be sent although it may not be shared, and the other way around.
struct NoSync(#[allow(dead_code)] Cell<u8>);
struct NoSend(#[allow(dead_code)] PhantomData<MutexGuard<'static, u8>>);
struct Pinned(#[allow(dead_code)] std::marker::PhantomPinned);

/// Keys with nothing but what every key has to have.
#[derive(Clone, Copy, Key)]
enum BU { A, B }
#[derive(Clone, Copy, Key)]
#[key(bitset)]
enum BK { A, B }
#[derive(Clone, Copy, Key)]
enum BL { A, B, C, D, E, F, G, H, I }
#[derive(Clone, Copy, Key)]
enum BC { A, B(BU), C(BK) }
#[derive(Clone, Copy, Key)]
enum BN { A(BC), B(Option<BU>) }
#[derive(Clone, Copy, Key)]
enum BB { A(bool), B(Option<bool>), C }
#[derive(Clone, Copy, Key)]
enum BD { A(u8), B(BU), C }
#[derive(Clone, Copy, Key)]
enum BS { A(&'static str), B(BC) }

/// Every query of one pair of types: what, the answer, and the answers the rule allows.
struct Ask { what: &'static str, got: bool, want: Option<bool> }

fn unit(w: &mut W, key: &'static str, val: &'static str, asks: &[Ask]) {
    w.stats.states += 1;
    for a in asks {
        w.stats.transitions += 1;
        w.stats.traces += 1;
        if let Some(want) = a.want { if a.got != want {
            let s = format!("{} with keys {key} and values {val}", a.what);
            w.begin(|| s.clone());
            w.fail(s, format!("{} {}, expected the opposite", a.what, if a.got { "holds" } else { "does not hold" }));
            return;
        } }
    }
    w.sample(|| format!("{key} to {val}: {}", asks.iter().filter(|a| a.got).map(|a| a.what).collect::<Vec<_>>().join(", ")));
}

/// For a map. `$unit`: the key type is an enum of plain variants, whose maps and sets are ordered and hashed.
macro_rules! map_asks { ($k:ty, $kind:expr, $unit:expr, $kdebug:expr, $v:ty) => { {
    let v = traits_of!($v);
    let (st, nonempty): (bool, bool) = $kind;
    let unit: bool = $unit;
    // only for plain enums is it said which maps are ordered and hashed; values that are not never make maps that are
    let only = |has: bool| if unit { Some(has) } else if has { None } else { Some(false) };
    macro_rules! ask { ($what:literal, $t:ty: $b:ident, $want:expr) => { Ask { what: $what, got: has!($t: $b), want: $want } }; ($what:literal, $t:ty: $b:ident<$i:ty>, $want:expr) => { Ask { what: $what, got: has!($t: $b<$i>), want: $want } } }
    vec![
        ask!("Map: Clone", Map<$k, $v>: Clone, Some(v.clone)),
        ask!("Map: Copy", Map<$k, $v>: Copy, Some(v.copy && st)),
        ask!("Map: PartialEq", Map<$k, $v>: PartialEq, Some(v.eq)),
        ask!("Map: Eq", Map<$k, $v>: Eq, Some(v.full_eq)),
        ask!("Map: Debug", Map<$k, $v>: Debug, Some(v.debug && $kdebug)),
        ask!("Map: Default", Map<$k, $v>: Default, Some(true)),
        ask!("Map: Hash", Map<$k, $v>: Hash, only(v.hash)),
        ask!("Map: PartialOrd", Map<$k, $v>: PartialOrd, only(v.partial_ord)),
        ask!("Map: Ord", Map<$k, $v>: Ord, only(v.ord)),
        ask!("Map: Send", Map<$k, $v>: Send, Some(v.send)),
        ask!("Map: Sync", Map<$k, $v>: Sync, Some(v.sync)),
        ask!("Map: Unpin", Map<$k, $v>: Unpin, if v.unpin { Some(true) } else { None }),
        ask!("Map: UnwindSafe", Map<$k, $v>: UnwindSafe, if v.unwind { Some(true) } else { None }),
        ask!("Map: RefUnwindSafe", Map<$k, $v>: RefUnwindSafe, Some(v.ref_unwind)),
        ask!("Map: FromIterator", Map<$k, $v>: From<($k, $v)>, Some(true)),
        ask!("Map: IntoIterator", Map<$k, $v>: Into<($k, $v)>, Some(true)),
        // shared iteration is as if by reference
        ask!("Iter: Clone", Iter<'static, $k, $v>: Clone, Some(true)),
        ask!("Keys: Clone", Keys<'static, $k, $v>: Clone, Some(true)),
        ask!("Values: Clone", Values<'static, $k, $v>: Clone, Some(true)),
        ask!("Iter: Send", Iter<'static, $k, $v>: Send, Some(v.sync)),
        ask!("Iter: Sync", Iter<'static, $k, $v>: Sync, Some(v.sync)),
        ask!("Values: Send", Values<'static, $k, $v>: Send, Some(v.sync)),
        ask!("Values: Sync", Values<'static, $k, $v>: Sync, Some(v.sync)),
        // mutable iteration is as if by mutable reference
        ask!("IterMut: Clone", IterMut<'static, $k, $v>: Clone, if !nonempty { None } else { Some(false) }),
        ask!("IterMut: Copy", IterMut<'static, $k, $v>: Copy, if !nonempty { None } else { Some(false) }),
        ask!("ValuesMut: Clone", ValuesMut<'static, $k, $v>: Clone, if !nonempty { None } else { Some(false) }),
        ask!("IterMut: Send", IterMut<'static, $k, $v>: Send, Some(v.send)),
        ask!("IterMut: Sync", IterMut<'static, $k, $v>: Sync, Some(v.sync)),
        ask!("ValuesMut: Send", ValuesMut<'static, $k, $v>: Send, Some(v.send)),
        ask!("ValuesMut: Sync", ValuesMut<'static, $k, $v>: Sync, Some(v.sync)),
        // consuming iteration is as if by value
        ask!("IntoIter: Clone", IntoIter<$k, $v>: Clone, if v.clone || !nonempty { None } else { Some(false) }),
        ask!("IntoIter: Send", IntoIter<$k, $v>: Send, Some(v.send)),
        ask!("IntoIter: Sync", IntoIter<$k, $v>: Sync, Some(v.sync)),
        // iterators from both ends, exactly for what is stored statically
        ask!("Iter: DoubleEndedIterator", Iter<'static, $k, $v>: DoubleEndedIterator, Some(st)),
        ask!("Keys: DoubleEndedIterator", Keys<'static, $k, $v>: DoubleEndedIterator, Some(st)),
        ask!("Values: DoubleEndedIterator", Values<'static, $k, $v>: DoubleEndedIterator, Some(st)),
        ask!("IterMut: DoubleEndedIterator", IterMut<'static, $k, $v>: DoubleEndedIterator, Some(st)),
        ask!("ValuesMut: DoubleEndedIterator", ValuesMut<'static, $k, $v>: DoubleEndedIterator, Some(st)),
        ask!("IntoIter: DoubleEndedIterator", IntoIter<$k, $v>: DoubleEndedIterator, Some(st)),
        // entries hold the map mutably
        ask!("Entry: Clone", Ent<$k, $v>: Clone, if !nonempty { None } else { Some(false) }),
        ask!("Entry: Send", Ent<$k, $v>: Send, Some(v.send)),
        ask!("Entry: Sync", Ent<$k, $v>: Sync, Some(v.sync)),
        ask!("&Map: IntoIterator", &'static Map<$k, $v>: Into<($k, &'static $v)>, Some(true)),
        ask!("&mut Map: IntoIterator", &'static mut Map<$k, $v>: Into<($k, &'static mut $v)>, Some(true)),
    ]
} } }
type Ent<K, V> = map::Entry<'static, <K as Key>::MapStorage<V>, K, V>;
macro_rules! set_asks { ($k:ty, $kind:expr, $unit:expr, $kdebug:expr) => { {
    let (st, _): (bool, bool) = $kind;
    let unit: bool = $unit;
    let only = if unit { Some(true) } else { None };
    macro_rules! ask { ($what:literal, $t:ty: $b:ident, $want:expr) => { Ask { what: $what, got: has!($t: $b), want: $want } }; ($what:literal, $t:ty: $b:ident<$i:ty>, $want:expr) => { Ask { what: $what, got: has!($t: $b<$i>), want: $want } } }
    vec![
        ask!("Set: Clone", Set<$k>: Clone, Some(true)),
        ask!("Set: Copy", Set<$k>: Copy, Some(st)),
        ask!("Set: PartialEq", Set<$k>: PartialEq, Some(true)),
        ask!("Set: Eq", Set<$k>: Eq, Some(true)),
        ask!("Set: Debug", Set<$k>: Debug, Some($kdebug)),
        ask!("Set: Default", Set<$k>: Default, Some(true)),
        ask!("Set: Hash", Set<$k>: Hash, only),
        ask!("Set: PartialOrd", Set<$k>: PartialOrd, only),
        ask!("Set: Ord", Set<$k>: Ord, only),
        ask!("Set: Send", Set<$k>: Send, Some(true)),
        ask!("Set: Sync", Set<$k>: Sync, Some(true)),
        ask!("Set: Unpin", Set<$k>: Unpin, Some(true)),
        ask!("Set: UnwindSafe", Set<$k>: UnwindSafe, Some(true)),
        ask!("Set: RefUnwindSafe", Set<$k>: RefUnwindSafe, Some(true)),
        ask!("Set: FromIterator", Set<$k>: From<$k>, Some(true)),
        ask!("Set: IntoIterator", Set<$k>: Into<$k>, Some(true)),
        ask!("&Set: IntoIterator", &'static Set<$k>: Into<$k>, Some(true)),
        ask!("Iter: Clone", set::Iter<'static, $k>: Clone, Some(true)),
        ask!("Iter: Send", set::Iter<'static, $k>: Send, Some(true)),
        ask!("Iter: Sync", set::Iter<'static, $k>: Sync, Some(true)),
        ask!("Iter: DoubleEndedIterator", set::Iter<'static, $k>: DoubleEndedIterator, Some(st)),
        ask!("IntoIter: Send", set::IntoIter<$k>: Send, Some(true)),
        ask!("IntoIter: Sync", set::IntoIter<$k>: Sync, Some(true)),
        ask!("IntoIter: DoubleEndedIterator", set::IntoIter<$k>: DoubleEndedIterator, Some(st)),
    ]
} } }

fn main() {
    let mut c = Ctx::new("C24", "model_checking");
    c.rule = "every pair of a key type (every storage kind, alone, nested and as payload) and a value type (every combination of Clone/Copy, PartialEq/Eq, PartialOrd/Ord, Hash, Debug, Send, Sync that matters); for each the presence of every trait on the map or set, its iterators and its entry compared with the rule; a query is decided by the compiler while the check is built".into();
    macro_rules! vals { ($k:ty, $kind:expr, $n:literal, $unit:expr, $w:ident; $($v:ty),* $(,)?) => { $( if !$w.failed() { unit($w, $n, stringify!($v), &map_asks!($k, $kind, $unit, has!($k: Debug), $v)); } )* } }
    macro_rules! job { ($unit:expr; $([$t:ty, $n:literal, $kind:expr]),*) => { $( c.job($n, |w| {
        unit(w, $n, "nothing", &set_asks!($t, $kind, $unit, has!($t: Debug)));
        vals!($t, $kind, $n, $unit, w; u32, (), bool, String, Box<u8>, Rc<u8>, Arc<u8>, Cell<u8>, RefCell<u8>, UnsafeCell<u8>, &'static str, &'static Cell<u8>, &'static mut u8, *const u8, f64, fn(), Option<Rc<u8>>, Vec<Cell<u8>>, [u8; 64], Bare, OnlyClone, OnlyCopy, OnlyPartialEq, OnlyEq, EqHash, OnlyPartialOrd, OnlyOrd, OnlyDebug, Everything, NotSend, NoSync, NoSend, Pinned);
    }); )* } }
    use fmcheck::zoo::*;
    macro_rules! plain { ($([$t:ty, $n:literal]),*) => { job!(true; $([$t, $n, (<$t as Dom>::STATIC, <$t as Dom>::N != 0)]),*) } }
    macro_rules! other { ($([$t:ty, $n:literal]),*) => { job!(false; $([$t, $n, (<$t as Dom>::STATIC, <$t as Dom>::N != 0)]),*) } }
    // keys which have nothing but what a key has to have
    macro_rules! bare { ($unit:expr, $st:expr; $([$t:ty, $n:literal]),*) => { job!($unit; $([$t, $n, ($st, true)]),*) } }
    plain!([U0, "U0"], [K0, "K0"], [U1, "U1"], [K1, "K1"], [U3, "U3"], [K3, "K3"], [L33, "L33"], [LK65, "LK65"], [L129, "L129"]);
    other!([(), "()"], [bool, "bool"], [Option<()>, "Option<()>"], [Option<bool>, "Option<bool>"], [Option<U2>, "Option<U2>"], [Option<K2>, "Option<K2>"], [Option<Option<U3>>, "Option<Option<U3>>"], [Option<NestA>, "Option<NestA>"]);
    other!([NestA, "NestA"], [NestB, "NestB"], [C1B, "C1B"], [C1K, "C1K"], [C1S, "C1S"], [C2UE, "C2UE"], [C3UBS, "C3UBS"], [LC16, "LC16"], [MC, "MC"]);
    other!([u8, "u8"], [char, "char"], [i128, "i128"], [&'static str, "&'static str"], [&'static [u8], "&'static [u8]"], [Option<u8>, "Option<u8>"], [Option<Option<&'static str>>, "Option<Option<&'static str>>"]);
    other!([DA, "DA"], [DB, "DB"], [DC, "DC"], [DE, "DE"], [DF, "DF"], [DG, "DG"], [Option<DA>, "Option<DA>"]);
    bare!(true, true; [BU, "bare U"], [BK, "bare K"], [BL, "bare L"]);
    bare!(false, true; [BC, "bare C"], [BN, "bare N"], [BB, "bare B"], [Option<BU>, "Option<bare U>"], [Option<BK>, "Option<bare K>"], [Option<BC>, "Option<bare C>"], [Option<Option<BB>>, "Option<Option<bare B>>"]);
    bare!(false, false; [BD, "bare D"], [BS, "bare S"], [Option<BD>, "Option<bare D>"]);
    c.finish()
}
