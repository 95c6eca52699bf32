//! Generated by gen4.py; do not edit.
#![allow(non_camel_case_types, dead_code, unexpected_cfgs)]
use crate::dom::{off, Dom};
use fixed_map::Key;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U0 {  }
impl Dom for U0 {
    const N: usize = 0;
    const STATIC: bool = true;
    fn at(_: usize) -> Self { panic!("no such key") }
    fn idx(self) -> usize { match self {} }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..0 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(U0);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U1 { V0 }
impl Dom for U1 {
    const N: usize = 1;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U1] = &[U1::V0];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U1::V0 => 0,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..1 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(U1);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U2 { V0, V1 }
impl Dom for U2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U2] = &[U2::V0, U2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U2::V0 => 0,
            U2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(U2);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U3 { V0, V1, V2 }
impl Dom for U3 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U3] = &[U3::V0, U3::V1, U3::V2];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U3::V0 => 0,
            U3::V1 => 1,
            U3::V2 => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(U3);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K1 { V0 }
impl Dom for K1 {
    const N: usize = 1;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K1] = &[K1::V0];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K1::V0 => 0,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..1 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(K1);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K2 { V0, V1 }
impl Dom for K2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K2] = &[K2::V0, K2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K2::V0 => 0,
            K2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(K2);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K3 { V0, V1, V2 }
impl Dom for K3 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K3] = &[K3::V0, K3::V1, K3::V2];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K3::V0 => 0,
            K3::V1 => 1,
            K3::V2 => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(K3);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K9 { V0, V1, V2, V3, V4, V5, V6, V7, V8 }
impl Dom for K9 {
    const N: usize = 9;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K9] = &[K9::V0, K9::V1, K9::V2, K9::V3, K9::V4, K9::V5, K9::V6, K9::V7, K9::V8];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K9::V0 => 0,
            K9::V1 => 1,
            K9::V2 => 2,
            K9::V3 => 3,
            K9::V4 => 4,
            K9::V5 => 5,
            K9::V6 => 6,
            K9::V7 => 7,
            K9::V8 => 8,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..9 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(K9);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum NestA { X(bool), Y }
impl Dom for NestA {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return NestA::X(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return NestA::Y; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            NestA::X(x) => off(0, <bool as Dom>::idx(x)),
            NestA::Y => 0 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(NestA);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum NestB { P, Q(NestA) }
impl Dom for NestB {
    const N: usize = 1 + <NestA as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return NestB::P; } i -= 1;
        if i < <NestA as Dom>::N { return NestB::Q(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            NestB::P => 0,
            NestB::Q(x) => off(1, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <NestA as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(NestB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1B { V0(bool) }
impl Dom for C1B {
    const N: usize = 0 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C1B::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1B::V0(x) => off(0, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C1B);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1O { V0(Option<bool>) }
impl Dom for C1O {
    const N: usize = 0 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return C1O::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1O::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C1O);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1S { V0(()) }
impl Dom for C1S {
    const N: usize = 0 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C1S::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1S::V0(x) => off(0, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C1S);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1K { V0(K2) }
impl Dom for C1K {
    const N: usize = 0 + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return C1K::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1K::V0(x) => off(0, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C1K);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2UB { V0, V1(bool) }
impl Dom for C2UB {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C2UB::V0; } i -= 1;
        if i < <bool as Dom>::N { return C2UB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2UB::V0 => 0,
            C2UB::V1(x) => off(1, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2UB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2BU { V0(bool), V1 }
impl Dom for C2BU {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C2BU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return C2BU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2BU::V0(x) => off(0, <bool as Dom>::idx(x)),
            C2BU::V1 => 0 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2BU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2US { V0, V1(()) }
impl Dom for C2US {
    const N: usize = 1 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C2US::V0; } i -= 1;
        if i < <() as Dom>::N { return C2US::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2US::V0 => 0,
            C2US::V1(x) => off(1, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2US);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2EU { V0(U2), V1 }
impl Dom for C2EU {
    const N: usize = 1 + <U2 as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return C2EU::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i == 0 { return C2EU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2EU::V0(x) => off(0, <U2 as Dom>::idx(x)),
            C2EU::V1 => 0 + <U2 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2EU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2UO { V0, V1(Option<bool>) }
impl Dom for C2UO {
    const N: usize = 1 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C2UO::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return C2UO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2UO::V0 => 0,
            C2UO::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2UO);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2UC { V0, V1(NestA) }
impl Dom for C2UC {
    const N: usize = 1 + <NestA as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C2UC::V0; } i -= 1;
        if i < <NestA as Dom>::N { return C2UC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2UC::V0 => 0,
            C2UC::V1(x) => off(1, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <NestA as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2UC);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DA { A(u8), B, C(u8) }
impl Dom for DA {
    const N: usize = 1 + <u8 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return DA::A(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return DA::B; } i -= 1;
        if i < <u8 as Dom>::N { return DA::C(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            DA::A(x) => off(0, <u8 as Dom>::idx(x)),
            DA::B => 0 + <u8 as Dom>::N,
            DA::C(x) => off(1 + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(DA);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DB { A(&'static str), B(bool) }
impl Dom for DB {
    const N: usize = 0 + <&'static str as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <&'static str as Dom>::N { return DB::A(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i < <bool as Dom>::N { return DB::B(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            DB::A(x) => off(0, <&'static str as Dom>::idx(x)),
            DB::B(x) => off(0 + <&'static str as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <&'static str as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(DB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum X3 { A = 7, B = 400, C = 2 }
impl Dom for X3 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[X3] = &[X3::A, X3::B, X3::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            X3::A => 0,
            X3::B => 1,
            X3::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(X3);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum KX3 { A = 64, B = 200, C = 9 }
impl Dom for KX3 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[KX3] = &[KX3::A, KX3::B, KX3::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            KX3::A => 0,
            KX3::B => 1,
            KX3::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(KX3);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[repr(i8)]
pub enum X4 { A = -3, B = i8::MAX, C = 0, D = 1 }
impl Dom for X4 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[X4] = &[X4::A, X4::B, X4::C, X4::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            X4::A => 0,
            X4::B => 1,
            X4::C => 2,
            X4::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(X4);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U17 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16 }
impl Dom for U17 {
    const N: usize = 17;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U17] = &[U17::V0, U17::V1, U17::V2, U17::V3, U17::V4, U17::V5, U17::V6, U17::V7, U17::V8, U17::V9, U17::V10, U17::V11, U17::V12, U17::V13, U17::V14, U17::V15, U17::V16];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U17::V0 => 0,
            U17::V1 => 1,
            U17::V2 => 2,
            U17::V3 => 3,
            U17::V4 => 4,
            U17::V5 => 5,
            U17::V6 => 6,
            U17::V7 => 7,
            U17::V8 => 8,
            U17::V9 => 9,
            U17::V10 => 10,
            U17::V11 => 11,
            U17::V12 => 12,
            U17::V13 => 13,
            U17::V14 => 14,
            U17::V15 => 15,
            U17::V16 => 16,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..17 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(U17);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U40 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39 }
impl Dom for U40 {
    const N: usize = 40;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U40] = &[U40::V0, U40::V1, U40::V2, U40::V3, U40::V4, U40::V5, U40::V6, U40::V7, U40::V8, U40::V9, U40::V10, U40::V11, U40::V12, U40::V13, U40::V14, U40::V15, U40::V16, U40::V17, U40::V18, U40::V19, U40::V20, U40::V21, U40::V22, U40::V23, U40::V24, U40::V25, U40::V26, U40::V27, U40::V28, U40::V29, U40::V30, U40::V31, U40::V32, U40::V33, U40::V34, U40::V35, U40::V36, U40::V37, U40::V38, U40::V39];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U40::V0 => 0,
            U40::V1 => 1,
            U40::V2 => 2,
            U40::V3 => 3,
            U40::V4 => 4,
            U40::V5 => 5,
            U40::V6 => 6,
            U40::V7 => 7,
            U40::V8 => 8,
            U40::V9 => 9,
            U40::V10 => 10,
            U40::V11 => 11,
            U40::V12 => 12,
            U40::V13 => 13,
            U40::V14 => 14,
            U40::V15 => 15,
            U40::V16 => 16,
            U40::V17 => 17,
            U40::V18 => 18,
            U40::V19 => 19,
            U40::V20 => 20,
            U40::V21 => 21,
            U40::V22 => 22,
            U40::V23 => 23,
            U40::V24 => 24,
            U40::V25 => 25,
            U40::V26 => 26,
            U40::V27 => 27,
            U40::V28 => 28,
            U40::V29 => 29,
            U40::V30 => 30,
            U40::V31 => 31,
            U40::V32 => 32,
            U40::V33 => 33,
            U40::V34 => 34,
            U40::V35 => 35,
            U40::V36 => 36,
            U40::V37 => 37,
            U40::V38 => 38,
            U40::V39 => 39,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..40 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(U40);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U130 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129 }
impl Dom for U130 {
    const N: usize = 130;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U130] = &[U130::V0, U130::V1, U130::V2, U130::V3, U130::V4, U130::V5, U130::V6, U130::V7, U130::V8, U130::V9, U130::V10, U130::V11, U130::V12, U130::V13, U130::V14, U130::V15, U130::V16, U130::V17, U130::V18, U130::V19, U130::V20, U130::V21, U130::V22, U130::V23, U130::V24, U130::V25, U130::V26, U130::V27, U130::V28, U130::V29, U130::V30, U130::V31, U130::V32, U130::V33, U130::V34, U130::V35, U130::V36, U130::V37, U130::V38, U130::V39, U130::V40, U130::V41, U130::V42, U130::V43, U130::V44, U130::V45, U130::V46, U130::V47, U130::V48, U130::V49, U130::V50, U130::V51, U130::V52, U130::V53, U130::V54, U130::V55, U130::V56, U130::V57, U130::V58, U130::V59, U130::V60, U130::V61, U130::V62, U130::V63, U130::V64, U130::V65, U130::V66, U130::V67, U130::V68, U130::V69, U130::V70, U130::V71, U130::V72, U130::V73, U130::V74, U130::V75, U130::V76, U130::V77, U130::V78, U130::V79, U130::V80, U130::V81, U130::V82, U130::V83, U130::V84, U130::V85, U130::V86, U130::V87, U130::V88, U130::V89, U130::V90, U130::V91, U130::V92, U130::V93, U130::V94, U130::V95, U130::V96, U130::V97, U130::V98, U130::V99, U130::V100, U130::V101, U130::V102, U130::V103, U130::V104, U130::V105, U130::V106, U130::V107, U130::V108, U130::V109, U130::V110, U130::V111, U130::V112, U130::V113, U130::V114, U130::V115, U130::V116, U130::V117, U130::V118, U130::V119, U130::V120, U130::V121, U130::V122, U130::V123, U130::V124, U130::V125, U130::V126, U130::V127, U130::V128, U130::V129];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U130::V0 => 0,
            U130::V1 => 1,
            U130::V2 => 2,
            U130::V3 => 3,
            U130::V4 => 4,
            U130::V5 => 5,
            U130::V6 => 6,
            U130::V7 => 7,
            U130::V8 => 8,
            U130::V9 => 9,
            U130::V10 => 10,
            U130::V11 => 11,
            U130::V12 => 12,
            U130::V13 => 13,
            U130::V14 => 14,
            U130::V15 => 15,
            U130::V16 => 16,
            U130::V17 => 17,
            U130::V18 => 18,
            U130::V19 => 19,
            U130::V20 => 20,
            U130::V21 => 21,
            U130::V22 => 22,
            U130::V23 => 23,
            U130::V24 => 24,
            U130::V25 => 25,
            U130::V26 => 26,
            U130::V27 => 27,
            U130::V28 => 28,
            U130::V29 => 29,
            U130::V30 => 30,
            U130::V31 => 31,
            U130::V32 => 32,
            U130::V33 => 33,
            U130::V34 => 34,
            U130::V35 => 35,
            U130::V36 => 36,
            U130::V37 => 37,
            U130::V38 => 38,
            U130::V39 => 39,
            U130::V40 => 40,
            U130::V41 => 41,
            U130::V42 => 42,
            U130::V43 => 43,
            U130::V44 => 44,
            U130::V45 => 45,
            U130::V46 => 46,
            U130::V47 => 47,
            U130::V48 => 48,
            U130::V49 => 49,
            U130::V50 => 50,
            U130::V51 => 51,
            U130::V52 => 52,
            U130::V53 => 53,
            U130::V54 => 54,
            U130::V55 => 55,
            U130::V56 => 56,
            U130::V57 => 57,
            U130::V58 => 58,
            U130::V59 => 59,
            U130::V60 => 60,
            U130::V61 => 61,
            U130::V62 => 62,
            U130::V63 => 63,
            U130::V64 => 64,
            U130::V65 => 65,
            U130::V66 => 66,
            U130::V67 => 67,
            U130::V68 => 68,
            U130::V69 => 69,
            U130::V70 => 70,
            U130::V71 => 71,
            U130::V72 => 72,
            U130::V73 => 73,
            U130::V74 => 74,
            U130::V75 => 75,
            U130::V76 => 76,
            U130::V77 => 77,
            U130::V78 => 78,
            U130::V79 => 79,
            U130::V80 => 80,
            U130::V81 => 81,
            U130::V82 => 82,
            U130::V83 => 83,
            U130::V84 => 84,
            U130::V85 => 85,
            U130::V86 => 86,
            U130::V87 => 87,
            U130::V88 => 88,
            U130::V89 => 89,
            U130::V90 => 90,
            U130::V91 => 91,
            U130::V92 => 92,
            U130::V93 => 93,
            U130::V94 => 94,
            U130::V95 => 95,
            U130::V96 => 96,
            U130::V97 => 97,
            U130::V98 => 98,
            U130::V99 => 99,
            U130::V100 => 100,
            U130::V101 => 101,
            U130::V102 => 102,
            U130::V103 => 103,
            U130::V104 => 104,
            U130::V105 => 105,
            U130::V106 => 106,
            U130::V107 => 107,
            U130::V108 => 108,
            U130::V109 => 109,
            U130::V110 => 110,
            U130::V111 => 111,
            U130::V112 => 112,
            U130::V113 => 113,
            U130::V114 => 114,
            U130::V115 => 115,
            U130::V116 => 116,
            U130::V117 => 117,
            U130::V118 => 118,
            U130::V119 => 119,
            U130::V120 => 120,
            U130::V121 => 121,
            U130::V122 => 122,
            U130::V123 => 123,
            U130::V124 => 124,
            U130::V125 => 125,
            U130::V126 => 126,
            U130::V127 => 127,
            U130::V128 => 128,
            U130::V129 => 129,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..130 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(U130);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U260 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257, V258, V259 }
impl Dom for U260 {
    const N: usize = 260;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U260] = &[U260::V0, U260::V1, U260::V2, U260::V3, U260::V4, U260::V5, U260::V6, U260::V7, U260::V8, U260::V9, U260::V10, U260::V11, U260::V12, U260::V13, U260::V14, U260::V15, U260::V16, U260::V17, U260::V18, U260::V19, U260::V20, U260::V21, U260::V22, U260::V23, U260::V24, U260::V25, U260::V26, U260::V27, U260::V28, U260::V29, U260::V30, U260::V31, U260::V32, U260::V33, U260::V34, U260::V35, U260::V36, U260::V37, U260::V38, U260::V39, U260::V40, U260::V41, U260::V42, U260::V43, U260::V44, U260::V45, U260::V46, U260::V47, U260::V48, U260::V49, U260::V50, U260::V51, U260::V52, U260::V53, U260::V54, U260::V55, U260::V56, U260::V57, U260::V58, U260::V59, U260::V60, U260::V61, U260::V62, U260::V63, U260::V64, U260::V65, U260::V66, U260::V67, U260::V68, U260::V69, U260::V70, U260::V71, U260::V72, U260::V73, U260::V74, U260::V75, U260::V76, U260::V77, U260::V78, U260::V79, U260::V80, U260::V81, U260::V82, U260::V83, U260::V84, U260::V85, U260::V86, U260::V87, U260::V88, U260::V89, U260::V90, U260::V91, U260::V92, U260::V93, U260::V94, U260::V95, U260::V96, U260::V97, U260::V98, U260::V99, U260::V100, U260::V101, U260::V102, U260::V103, U260::V104, U260::V105, U260::V106, U260::V107, U260::V108, U260::V109, U260::V110, U260::V111, U260::V112, U260::V113, U260::V114, U260::V115, U260::V116, U260::V117, U260::V118, U260::V119, U260::V120, U260::V121, U260::V122, U260::V123, U260::V124, U260::V125, U260::V126, U260::V127, U260::V128, U260::V129, U260::V130, U260::V131, U260::V132, U260::V133, U260::V134, U260::V135, U260::V136, U260::V137, U260::V138, U260::V139, U260::V140, U260::V141, U260::V142, U260::V143, U260::V144, U260::V145, U260::V146, U260::V147, U260::V148, U260::V149, U260::V150, U260::V151, U260::V152, U260::V153, U260::V154, U260::V155, U260::V156, U260::V157, U260::V158, U260::V159, U260::V160, U260::V161, U260::V162, U260::V163, U260::V164, U260::V165, U260::V166, U260::V167, U260::V168, U260::V169, U260::V170, U260::V171, U260::V172, U260::V173, U260::V174, U260::V175, U260::V176, U260::V177, U260::V178, U260::V179, U260::V180, U260::V181, U260::V182, U260::V183, U260::V184, U260::V185, U260::V186, U260::V187, U260::V188, U260::V189, U260::V190, U260::V191, U260::V192, U260::V193, U260::V194, U260::V195, U260::V196, U260::V197, U260::V198, U260::V199, U260::V200, U260::V201, U260::V202, U260::V203, U260::V204, U260::V205, U260::V206, U260::V207, U260::V208, U260::V209, U260::V210, U260::V211, U260::V212, U260::V213, U260::V214, U260::V215, U260::V216, U260::V217, U260::V218, U260::V219, U260::V220, U260::V221, U260::V222, U260::V223, U260::V224, U260::V225, U260::V226, U260::V227, U260::V228, U260::V229, U260::V230, U260::V231, U260::V232, U260::V233, U260::V234, U260::V235, U260::V236, U260::V237, U260::V238, U260::V239, U260::V240, U260::V241, U260::V242, U260::V243, U260::V244, U260::V245, U260::V246, U260::V247, U260::V248, U260::V249, U260::V250, U260::V251, U260::V252, U260::V253, U260::V254, U260::V255, U260::V256, U260::V257, U260::V258, U260::V259];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U260::V0 => 0,
            U260::V1 => 1,
            U260::V2 => 2,
            U260::V3 => 3,
            U260::V4 => 4,
            U260::V5 => 5,
            U260::V6 => 6,
            U260::V7 => 7,
            U260::V8 => 8,
            U260::V9 => 9,
            U260::V10 => 10,
            U260::V11 => 11,
            U260::V12 => 12,
            U260::V13 => 13,
            U260::V14 => 14,
            U260::V15 => 15,
            U260::V16 => 16,
            U260::V17 => 17,
            U260::V18 => 18,
            U260::V19 => 19,
            U260::V20 => 20,
            U260::V21 => 21,
            U260::V22 => 22,
            U260::V23 => 23,
            U260::V24 => 24,
            U260::V25 => 25,
            U260::V26 => 26,
            U260::V27 => 27,
            U260::V28 => 28,
            U260::V29 => 29,
            U260::V30 => 30,
            U260::V31 => 31,
            U260::V32 => 32,
            U260::V33 => 33,
            U260::V34 => 34,
            U260::V35 => 35,
            U260::V36 => 36,
            U260::V37 => 37,
            U260::V38 => 38,
            U260::V39 => 39,
            U260::V40 => 40,
            U260::V41 => 41,
            U260::V42 => 42,
            U260::V43 => 43,
            U260::V44 => 44,
            U260::V45 => 45,
            U260::V46 => 46,
            U260::V47 => 47,
            U260::V48 => 48,
            U260::V49 => 49,
            U260::V50 => 50,
            U260::V51 => 51,
            U260::V52 => 52,
            U260::V53 => 53,
            U260::V54 => 54,
            U260::V55 => 55,
            U260::V56 => 56,
            U260::V57 => 57,
            U260::V58 => 58,
            U260::V59 => 59,
            U260::V60 => 60,
            U260::V61 => 61,
            U260::V62 => 62,
            U260::V63 => 63,
            U260::V64 => 64,
            U260::V65 => 65,
            U260::V66 => 66,
            U260::V67 => 67,
            U260::V68 => 68,
            U260::V69 => 69,
            U260::V70 => 70,
            U260::V71 => 71,
            U260::V72 => 72,
            U260::V73 => 73,
            U260::V74 => 74,
            U260::V75 => 75,
            U260::V76 => 76,
            U260::V77 => 77,
            U260::V78 => 78,
            U260::V79 => 79,
            U260::V80 => 80,
            U260::V81 => 81,
            U260::V82 => 82,
            U260::V83 => 83,
            U260::V84 => 84,
            U260::V85 => 85,
            U260::V86 => 86,
            U260::V87 => 87,
            U260::V88 => 88,
            U260::V89 => 89,
            U260::V90 => 90,
            U260::V91 => 91,
            U260::V92 => 92,
            U260::V93 => 93,
            U260::V94 => 94,
            U260::V95 => 95,
            U260::V96 => 96,
            U260::V97 => 97,
            U260::V98 => 98,
            U260::V99 => 99,
            U260::V100 => 100,
            U260::V101 => 101,
            U260::V102 => 102,
            U260::V103 => 103,
            U260::V104 => 104,
            U260::V105 => 105,
            U260::V106 => 106,
            U260::V107 => 107,
            U260::V108 => 108,
            U260::V109 => 109,
            U260::V110 => 110,
            U260::V111 => 111,
            U260::V112 => 112,
            U260::V113 => 113,
            U260::V114 => 114,
            U260::V115 => 115,
            U260::V116 => 116,
            U260::V117 => 117,
            U260::V118 => 118,
            U260::V119 => 119,
            U260::V120 => 120,
            U260::V121 => 121,
            U260::V122 => 122,
            U260::V123 => 123,
            U260::V124 => 124,
            U260::V125 => 125,
            U260::V126 => 126,
            U260::V127 => 127,
            U260::V128 => 128,
            U260::V129 => 129,
            U260::V130 => 130,
            U260::V131 => 131,
            U260::V132 => 132,
            U260::V133 => 133,
            U260::V134 => 134,
            U260::V135 => 135,
            U260::V136 => 136,
            U260::V137 => 137,
            U260::V138 => 138,
            U260::V139 => 139,
            U260::V140 => 140,
            U260::V141 => 141,
            U260::V142 => 142,
            U260::V143 => 143,
            U260::V144 => 144,
            U260::V145 => 145,
            U260::V146 => 146,
            U260::V147 => 147,
            U260::V148 => 148,
            U260::V149 => 149,
            U260::V150 => 150,
            U260::V151 => 151,
            U260::V152 => 152,
            U260::V153 => 153,
            U260::V154 => 154,
            U260::V155 => 155,
            U260::V156 => 156,
            U260::V157 => 157,
            U260::V158 => 158,
            U260::V159 => 159,
            U260::V160 => 160,
            U260::V161 => 161,
            U260::V162 => 162,
            U260::V163 => 163,
            U260::V164 => 164,
            U260::V165 => 165,
            U260::V166 => 166,
            U260::V167 => 167,
            U260::V168 => 168,
            U260::V169 => 169,
            U260::V170 => 170,
            U260::V171 => 171,
            U260::V172 => 172,
            U260::V173 => 173,
            U260::V174 => 174,
            U260::V175 => 175,
            U260::V176 => 176,
            U260::V177 => 177,
            U260::V178 => 178,
            U260::V179 => 179,
            U260::V180 => 180,
            U260::V181 => 181,
            U260::V182 => 182,
            U260::V183 => 183,
            U260::V184 => 184,
            U260::V185 => 185,
            U260::V186 => 186,
            U260::V187 => 187,
            U260::V188 => 188,
            U260::V189 => 189,
            U260::V190 => 190,
            U260::V191 => 191,
            U260::V192 => 192,
            U260::V193 => 193,
            U260::V194 => 194,
            U260::V195 => 195,
            U260::V196 => 196,
            U260::V197 => 197,
            U260::V198 => 198,
            U260::V199 => 199,
            U260::V200 => 200,
            U260::V201 => 201,
            U260::V202 => 202,
            U260::V203 => 203,
            U260::V204 => 204,
            U260::V205 => 205,
            U260::V206 => 206,
            U260::V207 => 207,
            U260::V208 => 208,
            U260::V209 => 209,
            U260::V210 => 210,
            U260::V211 => 211,
            U260::V212 => 212,
            U260::V213 => 213,
            U260::V214 => 214,
            U260::V215 => 215,
            U260::V216 => 216,
            U260::V217 => 217,
            U260::V218 => 218,
            U260::V219 => 219,
            U260::V220 => 220,
            U260::V221 => 221,
            U260::V222 => 222,
            U260::V223 => 223,
            U260::V224 => 224,
            U260::V225 => 225,
            U260::V226 => 226,
            U260::V227 => 227,
            U260::V228 => 228,
            U260::V229 => 229,
            U260::V230 => 230,
            U260::V231 => 231,
            U260::V232 => 232,
            U260::V233 => 233,
            U260::V234 => 234,
            U260::V235 => 235,
            U260::V236 => 236,
            U260::V237 => 237,
            U260::V238 => 238,
            U260::V239 => 239,
            U260::V240 => 240,
            U260::V241 => 241,
            U260::V242 => 242,
            U260::V243 => 243,
            U260::V244 => 244,
            U260::V245 => 245,
            U260::V246 => 246,
            U260::V247 => 247,
            U260::V248 => 248,
            U260::V249 => 249,
            U260::V250 => 250,
            U260::V251 => 251,
            U260::V252 => 252,
            U260::V253 => 253,
            U260::V254 => 254,
            U260::V255 => 255,
            U260::V256 => 256,
            U260::V257 => 257,
            U260::V258 => 258,
            U260::V259 => 259,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..260 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(U260);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K17 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16 }
impl Dom for K17 {
    const N: usize = 17;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K17] = &[K17::V0, K17::V1, K17::V2, K17::V3, K17::V4, K17::V5, K17::V6, K17::V7, K17::V8, K17::V9, K17::V10, K17::V11, K17::V12, K17::V13, K17::V14, K17::V15, K17::V16];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K17::V0 => 0,
            K17::V1 => 1,
            K17::V2 => 2,
            K17::V3 => 3,
            K17::V4 => 4,
            K17::V5 => 5,
            K17::V6 => 6,
            K17::V7 => 7,
            K17::V8 => 8,
            K17::V9 => 9,
            K17::V10 => 10,
            K17::V11 => 11,
            K17::V12 => 12,
            K17::V13 => 13,
            K17::V14 => 14,
            K17::V15 => 15,
            K17::V16 => 16,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..17 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(K17);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K33 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32 }
impl Dom for K33 {
    const N: usize = 33;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K33] = &[K33::V0, K33::V1, K33::V2, K33::V3, K33::V4, K33::V5, K33::V6, K33::V7, K33::V8, K33::V9, K33::V10, K33::V11, K33::V12, K33::V13, K33::V14, K33::V15, K33::V16, K33::V17, K33::V18, K33::V19, K33::V20, K33::V21, K33::V22, K33::V23, K33::V24, K33::V25, K33::V26, K33::V27, K33::V28, K33::V29, K33::V30, K33::V31, K33::V32];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K33::V0 => 0,
            K33::V1 => 1,
            K33::V2 => 2,
            K33::V3 => 3,
            K33::V4 => 4,
            K33::V5 => 5,
            K33::V6 => 6,
            K33::V7 => 7,
            K33::V8 => 8,
            K33::V9 => 9,
            K33::V10 => 10,
            K33::V11 => 11,
            K33::V12 => 12,
            K33::V13 => 13,
            K33::V14 => 14,
            K33::V15 => 15,
            K33::V16 => 16,
            K33::V17 => 17,
            K33::V18 => 18,
            K33::V19 => 19,
            K33::V20 => 20,
            K33::V21 => 21,
            K33::V22 => 22,
            K33::V23 => 23,
            K33::V24 => 24,
            K33::V25 => 25,
            K33::V26 => 26,
            K33::V27 => 27,
            K33::V28 => 28,
            K33::V29 => 29,
            K33::V30 => 30,
            K33::V31 => 31,
            K33::V32 => 32,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..33 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(K33);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K128 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
impl Dom for K128 {
    const N: usize = 128;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K128] = &[K128::V0, K128::V1, K128::V2, K128::V3, K128::V4, K128::V5, K128::V6, K128::V7, K128::V8, K128::V9, K128::V10, K128::V11, K128::V12, K128::V13, K128::V14, K128::V15, K128::V16, K128::V17, K128::V18, K128::V19, K128::V20, K128::V21, K128::V22, K128::V23, K128::V24, K128::V25, K128::V26, K128::V27, K128::V28, K128::V29, K128::V30, K128::V31, K128::V32, K128::V33, K128::V34, K128::V35, K128::V36, K128::V37, K128::V38, K128::V39, K128::V40, K128::V41, K128::V42, K128::V43, K128::V44, K128::V45, K128::V46, K128::V47, K128::V48, K128::V49, K128::V50, K128::V51, K128::V52, K128::V53, K128::V54, K128::V55, K128::V56, K128::V57, K128::V58, K128::V59, K128::V60, K128::V61, K128::V62, K128::V63, K128::V64, K128::V65, K128::V66, K128::V67, K128::V68, K128::V69, K128::V70, K128::V71, K128::V72, K128::V73, K128::V74, K128::V75, K128::V76, K128::V77, K128::V78, K128::V79, K128::V80, K128::V81, K128::V82, K128::V83, K128::V84, K128::V85, K128::V86, K128::V87, K128::V88, K128::V89, K128::V90, K128::V91, K128::V92, K128::V93, K128::V94, K128::V95, K128::V96, K128::V97, K128::V98, K128::V99, K128::V100, K128::V101, K128::V102, K128::V103, K128::V104, K128::V105, K128::V106, K128::V107, K128::V108, K128::V109, K128::V110, K128::V111, K128::V112, K128::V113, K128::V114, K128::V115, K128::V116, K128::V117, K128::V118, K128::V119, K128::V120, K128::V121, K128::V122, K128::V123, K128::V124, K128::V125, K128::V126, K128::V127];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K128::V0 => 0,
            K128::V1 => 1,
            K128::V2 => 2,
            K128::V3 => 3,
            K128::V4 => 4,
            K128::V5 => 5,
            K128::V6 => 6,
            K128::V7 => 7,
            K128::V8 => 8,
            K128::V9 => 9,
            K128::V10 => 10,
            K128::V11 => 11,
            K128::V12 => 12,
            K128::V13 => 13,
            K128::V14 => 14,
            K128::V15 => 15,
            K128::V16 => 16,
            K128::V17 => 17,
            K128::V18 => 18,
            K128::V19 => 19,
            K128::V20 => 20,
            K128::V21 => 21,
            K128::V22 => 22,
            K128::V23 => 23,
            K128::V24 => 24,
            K128::V25 => 25,
            K128::V26 => 26,
            K128::V27 => 27,
            K128::V28 => 28,
            K128::V29 => 29,
            K128::V30 => 30,
            K128::V31 => 31,
            K128::V32 => 32,
            K128::V33 => 33,
            K128::V34 => 34,
            K128::V35 => 35,
            K128::V36 => 36,
            K128::V37 => 37,
            K128::V38 => 38,
            K128::V39 => 39,
            K128::V40 => 40,
            K128::V41 => 41,
            K128::V42 => 42,
            K128::V43 => 43,
            K128::V44 => 44,
            K128::V45 => 45,
            K128::V46 => 46,
            K128::V47 => 47,
            K128::V48 => 48,
            K128::V49 => 49,
            K128::V50 => 50,
            K128::V51 => 51,
            K128::V52 => 52,
            K128::V53 => 53,
            K128::V54 => 54,
            K128::V55 => 55,
            K128::V56 => 56,
            K128::V57 => 57,
            K128::V58 => 58,
            K128::V59 => 59,
            K128::V60 => 60,
            K128::V61 => 61,
            K128::V62 => 62,
            K128::V63 => 63,
            K128::V64 => 64,
            K128::V65 => 65,
            K128::V66 => 66,
            K128::V67 => 67,
            K128::V68 => 68,
            K128::V69 => 69,
            K128::V70 => 70,
            K128::V71 => 71,
            K128::V72 => 72,
            K128::V73 => 73,
            K128::V74 => 74,
            K128::V75 => 75,
            K128::V76 => 76,
            K128::V77 => 77,
            K128::V78 => 78,
            K128::V79 => 79,
            K128::V80 => 80,
            K128::V81 => 81,
            K128::V82 => 82,
            K128::V83 => 83,
            K128::V84 => 84,
            K128::V85 => 85,
            K128::V86 => 86,
            K128::V87 => 87,
            K128::V88 => 88,
            K128::V89 => 89,
            K128::V90 => 90,
            K128::V91 => 91,
            K128::V92 => 92,
            K128::V93 => 93,
            K128::V94 => 94,
            K128::V95 => 95,
            K128::V96 => 96,
            K128::V97 => 97,
            K128::V98 => 98,
            K128::V99 => 99,
            K128::V100 => 100,
            K128::V101 => 101,
            K128::V102 => 102,
            K128::V103 => 103,
            K128::V104 => 104,
            K128::V105 => 105,
            K128::V106 => 106,
            K128::V107 => 107,
            K128::V108 => 108,
            K128::V109 => 109,
            K128::V110 => 110,
            K128::V111 => 111,
            K128::V112 => 112,
            K128::V113 => 113,
            K128::V114 => 114,
            K128::V115 => 115,
            K128::V116 => 116,
            K128::V117 => 117,
            K128::V118 => 118,
            K128::V119 => 119,
            K128::V120 => 120,
            K128::V121 => 121,
            K128::V122 => 122,
            K128::V123 => 123,
            K128::V124 => 124,
            K128::V125 => 125,
            K128::V126 => 126,
            K128::V127 => 127,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..128 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(K128);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C40 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39(Option<bool>) }
impl Dom for C40 {
    const N: usize = 38 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C40::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return C40::V1; } i -= 1;
        if i == 0 { return C40::V2; } i -= 1;
        if i == 0 { return C40::V3; } i -= 1;
        if i == 0 { return C40::V4; } i -= 1;
        if i == 0 { return C40::V5; } i -= 1;
        if i == 0 { return C40::V6; } i -= 1;
        if i == 0 { return C40::V7; } i -= 1;
        if i == 0 { return C40::V8; } i -= 1;
        if i == 0 { return C40::V9; } i -= 1;
        if i == 0 { return C40::V10; } i -= 1;
        if i == 0 { return C40::V11; } i -= 1;
        if i == 0 { return C40::V12; } i -= 1;
        if i == 0 { return C40::V13; } i -= 1;
        if i == 0 { return C40::V14; } i -= 1;
        if i == 0 { return C40::V15; } i -= 1;
        if i == 0 { return C40::V16; } i -= 1;
        if i == 0 { return C40::V17; } i -= 1;
        if i == 0 { return C40::V18; } i -= 1;
        if i == 0 { return C40::V19; } i -= 1;
        if i == 0 { return C40::V20; } i -= 1;
        if i == 0 { return C40::V21; } i -= 1;
        if i == 0 { return C40::V22; } i -= 1;
        if i == 0 { return C40::V23; } i -= 1;
        if i == 0 { return C40::V24; } i -= 1;
        if i == 0 { return C40::V25; } i -= 1;
        if i == 0 { return C40::V26; } i -= 1;
        if i == 0 { return C40::V27; } i -= 1;
        if i == 0 { return C40::V28; } i -= 1;
        if i == 0 { return C40::V29; } i -= 1;
        if i == 0 { return C40::V30; } i -= 1;
        if i == 0 { return C40::V31; } i -= 1;
        if i == 0 { return C40::V32; } i -= 1;
        if i == 0 { return C40::V33; } i -= 1;
        if i == 0 { return C40::V34; } i -= 1;
        if i == 0 { return C40::V35; } i -= 1;
        if i == 0 { return C40::V36; } i -= 1;
        if i == 0 { return C40::V37; } i -= 1;
        if i == 0 { return C40::V38; } i -= 1;
        if i < <Option<bool> as Dom>::N { return C40::V39(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C40::V0(x) => off(0, <bool as Dom>::idx(x)),
            C40::V1 => 0 + <bool as Dom>::N,
            C40::V2 => 1 + <bool as Dom>::N,
            C40::V3 => 2 + <bool as Dom>::N,
            C40::V4 => 3 + <bool as Dom>::N,
            C40::V5 => 4 + <bool as Dom>::N,
            C40::V6 => 5 + <bool as Dom>::N,
            C40::V7 => 6 + <bool as Dom>::N,
            C40::V8 => 7 + <bool as Dom>::N,
            C40::V9 => 8 + <bool as Dom>::N,
            C40::V10 => 9 + <bool as Dom>::N,
            C40::V11 => 10 + <bool as Dom>::N,
            C40::V12 => 11 + <bool as Dom>::N,
            C40::V13 => 12 + <bool as Dom>::N,
            C40::V14 => 13 + <bool as Dom>::N,
            C40::V15 => 14 + <bool as Dom>::N,
            C40::V16 => 15 + <bool as Dom>::N,
            C40::V17 => 16 + <bool as Dom>::N,
            C40::V18 => 17 + <bool as Dom>::N,
            C40::V19 => 18 + <bool as Dom>::N,
            C40::V20 => 19 + <bool as Dom>::N,
            C40::V21 => 20 + <bool as Dom>::N,
            C40::V22 => 21 + <bool as Dom>::N,
            C40::V23 => 22 + <bool as Dom>::N,
            C40::V24 => 23 + <bool as Dom>::N,
            C40::V25 => 24 + <bool as Dom>::N,
            C40::V26 => 25 + <bool as Dom>::N,
            C40::V27 => 26 + <bool as Dom>::N,
            C40::V28 => 27 + <bool as Dom>::N,
            C40::V29 => 28 + <bool as Dom>::N,
            C40::V30 => 29 + <bool as Dom>::N,
            C40::V31 => 30 + <bool as Dom>::N,
            C40::V32 => 31 + <bool as Dom>::N,
            C40::V33 => 32 + <bool as Dom>::N,
            C40::V34 => 33 + <bool as Dom>::N,
            C40::V35 => 34 + <bool as Dom>::N,
            C40::V36 => 35 + <bool as Dom>::N,
            C40::V37 => 36 + <bool as Dom>::N,
            C40::V38 => 37 + <bool as Dom>::N,
            C40::V39(x) => off(38 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C40);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C9 { V0(bool), V1(U2), V2(K2), V3(()), V4(Option<bool>), V5(NestA), V6(bool), V7(U2), V8(K2) }
impl Dom for C9 {
    const N: usize = 0 + <bool as Dom>::N + <U2 as Dom>::N + <K2 as Dom>::N + <() as Dom>::N + <Option<bool> as Dom>::N + <NestA as Dom>::N + <bool as Dom>::N + <U2 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <U2 as Dom>::STATIC && <K2 as Dom>::STATIC && <() as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <NestA as Dom>::STATIC && <bool as Dom>::STATIC && <U2 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C9::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <U2 as Dom>::N { return C9::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <K2 as Dom>::N { return C9::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <() as Dom>::N { return C9::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <Option<bool> as Dom>::N { return C9::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <NestA as Dom>::N { return C9::V5(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <bool as Dom>::N { return C9::V6(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <U2 as Dom>::N { return C9::V7(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <K2 as Dom>::N { return C9::V8(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C9::V0(x) => off(0, <bool as Dom>::idx(x)),
            C9::V1(x) => off(0 + <bool as Dom>::N, <U2 as Dom>::idx(x)),
            C9::V2(x) => off(0 + <bool as Dom>::N + <U2 as Dom>::N, <K2 as Dom>::idx(x)),
            C9::V3(x) => off(0 + <bool as Dom>::N + <U2 as Dom>::N + <K2 as Dom>::N, <() as Dom>::idx(x)),
            C9::V4(x) => off(0 + <bool as Dom>::N + <U2 as Dom>::N + <K2 as Dom>::N + <() as Dom>::N, <Option<bool> as Dom>::idx(x)),
            C9::V5(x) => off(0 + <bool as Dom>::N + <U2 as Dom>::N + <K2 as Dom>::N + <() as Dom>::N + <Option<bool> as Dom>::N, <NestA as Dom>::idx(x)),
            C9::V6(x) => off(0 + <bool as Dom>::N + <U2 as Dom>::N + <K2 as Dom>::N + <() as Dom>::N + <Option<bool> as Dom>::N + <NestA as Dom>::N, <bool as Dom>::idx(x)),
            C9::V7(x) => off(0 + <bool as Dom>::N + <U2 as Dom>::N + <K2 as Dom>::N + <() as Dom>::N + <Option<bool> as Dom>::N + <NestA as Dom>::N + <bool as Dom>::N, <U2 as Dom>::idx(x)),
            C9::V8(x) => off(0 + <bool as Dom>::N + <U2 as Dom>::N + <K2 as Dom>::N + <() as Dom>::N + <Option<bool> as Dom>::N + <NestA as Dom>::N + <bool as Dom>::N + <U2 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C9);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DW { V0, V1(u8), V2, V3, V4(u8), V5, V6, V7(u8), V8, V9, V10(u8), V11, V12, V13(u8), V14, V15, V16(u8), V17 }
impl Dom for DW {
    const N: usize = 12 + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return DW::V0; } i -= 1;
        if i < <u8 as Dom>::N { return DW::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return DW::V2; } i -= 1;
        if i == 0 { return DW::V3; } i -= 1;
        if i < <u8 as Dom>::N { return DW::V4(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return DW::V5; } i -= 1;
        if i == 0 { return DW::V6; } i -= 1;
        if i < <u8 as Dom>::N { return DW::V7(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return DW::V8; } i -= 1;
        if i == 0 { return DW::V9; } i -= 1;
        if i < <u8 as Dom>::N { return DW::V10(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return DW::V11; } i -= 1;
        if i == 0 { return DW::V12; } i -= 1;
        if i < <u8 as Dom>::N { return DW::V13(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return DW::V14; } i -= 1;
        if i == 0 { return DW::V15; } i -= 1;
        if i < <u8 as Dom>::N { return DW::V16(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return DW::V17; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            DW::V0 => 0,
            DW::V1(x) => off(1, <u8 as Dom>::idx(x)),
            DW::V2 => 1 + <u8 as Dom>::N,
            DW::V3 => 2 + <u8 as Dom>::N,
            DW::V4(x) => off(3 + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
            DW::V5 => 3 + <u8 as Dom>::N + <u8 as Dom>::N,
            DW::V6 => 4 + <u8 as Dom>::N + <u8 as Dom>::N,
            DW::V7(x) => off(5 + <u8 as Dom>::N + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
            DW::V8 => 5 + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N,
            DW::V9 => 6 + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N,
            DW::V10(x) => off(7 + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
            DW::V11 => 7 + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N,
            DW::V12 => 8 + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N,
            DW::V13(x) => off(9 + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
            DW::V14 => 9 + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N,
            DW::V15 => 10 + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N,
            DW::V16(x) => off(11 + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
            DW::V17 => 11 + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(DW);

#[macro_export]
macro_rules! zoo_unit { ($m:ident) => { $m! { [$crate::zoo::U0, "U0"], [$crate::zoo::U1, "U1"], [$crate::zoo::U2, "U2"], [$crate::zoo::U3, "U3"], [$crate::zoo::K1, "K1"], [$crate::zoo::K2, "K2"], [$crate::zoo::K3, "K3"], [$crate::zoo::K9, "K9"], [$crate::zoo::X3, "X3"], [$crate::zoo::KX3, "KX3"] } } }
#[macro_export]
macro_rules! zoo_comp { ($m:ident) => { $m! { [$crate::zoo::NestA, "NestA"], [$crate::zoo::NestB, "NestB"], [$crate::zoo::C1B, "C1B"], [$crate::zoo::C1O, "C1O"], [$crate::zoo::C1S, "C1S"], [$crate::zoo::C1K, "C1K"], [$crate::zoo::C2UB, "C2UB"], [$crate::zoo::C2BU, "C2BU"], [$crate::zoo::C2US, "C2US"], [$crate::zoo::C2EU, "C2EU"], [$crate::zoo::C2UO, "C2UO"], [$crate::zoo::C2UC, "C2UC"] } } }
#[macro_export]
macro_rules! zoo_base { ($m:ident) => { $m! { [(), "()"], [bool, "bool"], [Option<()>, "Option<()>"], [Option<bool>, "Option<bool>"], [Option<Option<bool>>, "Option<Option<bool>>"], [Option<$crate::zoo::U2>, "Option<U2>"], [Option<$crate::zoo::NestA>, "Option<NestA>"] } } }
#[macro_export]
macro_rules! zoo_dynamic { ($m:ident) => { $m! { [$crate::zoo::DA, "DA"], [$crate::zoo::DB, "DB"], [u8, "u8"], [u128, "u128"], [char, "char"], [&'static str, "&'static str"], [&'static [u8], "&'static [u8]"], [Option<u8>, "Option<u8>"] } } }
#[macro_export]
macro_rules! zoo_wide { ($m:ident) => { $m! { [$crate::zoo::X4, "X4"], [$crate::zoo::U17, "U17"], [$crate::zoo::U40, "U40"], [$crate::zoo::U130, "U130"], [$crate::zoo::U260, "U260"], [$crate::zoo::K17, "K17"], [$crate::zoo::K33, "K33"], [$crate::zoo::K128, "K128"], [$crate::zoo::C40, "C40"], [$crate::zoo::C9, "C9"], [$crate::zoo::DW, "DW"] } } }
