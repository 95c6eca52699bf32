//! Generated by gen.py; do not edit.
#![allow(non_camel_case_types, dead_code)]
use crate::dom::{off, Dom};
use fixed_map::Key;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U0 {  }
impl Dom for U0 {
    const N: usize = 0;
    const STATIC: bool = true;
    fn at(_: usize) -> Self { panic!("no such key") }
    fn idx(self) -> usize { match self {} }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..0 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(U0);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K0 {  }
impl Dom for K0 {
    const N: usize = 0;
    const STATIC: bool = true;
    fn at(_: usize) -> Self { panic!("no such key") }
    fn idx(self) -> usize { match self {} }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..0 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(K0);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U1 { V0 }
impl Dom for U1 {
    const N: usize = 1;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U1] = &[U1::V0];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U1::V0 => 0,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..1 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(U1);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K1 { V0 }
impl Dom for K1 {
    const N: usize = 1;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K1] = &[K1::V0];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K1::V0 => 0,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..1 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(K1);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U2 { V0, V1 }
impl Dom for U2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U2] = &[U2::V0, U2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U2::V0 => 0,
            U2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(U2);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K2 { V0, V1 }
impl Dom for K2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K2] = &[K2::V0, K2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K2::V0 => 0,
            K2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(K2);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U3 { V0, V1, V2 }
impl Dom for U3 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U3] = &[U3::V0, U3::V1, U3::V2];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U3::V0 => 0,
            U3::V1 => 1,
            U3::V2 => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(U3);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K3 { V0, V1, V2 }
impl Dom for K3 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K3] = &[K3::V0, K3::V1, K3::V2];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K3::V0 => 0,
            K3::V1 => 1,
            K3::V2 => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(K3);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U4 { V0, V1, V2, V3 }
impl Dom for U4 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U4] = &[U4::V0, U4::V1, U4::V2, U4::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U4::V0 => 0,
            U4::V1 => 1,
            U4::V2 => 2,
            U4::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(U4);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K4 { V0, V1, V2, V3 }
impl Dom for K4 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K4] = &[K4::V0, K4::V1, K4::V2, K4::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K4::V0 => 0,
            K4::V1 => 1,
            K4::V2 => 2,
            K4::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(K4);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U5 { V0, V1, V2, V3, V4 }
impl Dom for U5 {
    const N: usize = 5;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U5] = &[U5::V0, U5::V1, U5::V2, U5::V3, U5::V4];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U5::V0 => 0,
            U5::V1 => 1,
            U5::V2 => 2,
            U5::V3 => 3,
            U5::V4 => 4,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..5 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(U5);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K5 { V0, V1, V2, V3, V4 }
impl Dom for K5 {
    const N: usize = 5;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K5] = &[K5::V0, K5::V1, K5::V2, K5::V3, K5::V4];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K5::V0 => 0,
            K5::V1 => 1,
            K5::V2 => 2,
            K5::V3 => 3,
            K5::V4 => 4,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..5 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(K5);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U6 { V0, V1, V2, V3, V4, V5 }
impl Dom for U6 {
    const N: usize = 6;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U6] = &[U6::V0, U6::V1, U6::V2, U6::V3, U6::V4, U6::V5];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U6::V0 => 0,
            U6::V1 => 1,
            U6::V2 => 2,
            U6::V3 => 3,
            U6::V4 => 4,
            U6::V5 => 5,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..6 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(U6);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K6 { V0, V1, V2, V3, V4, V5 }
impl Dom for K6 {
    const N: usize = 6;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K6] = &[K6::V0, K6::V1, K6::V2, K6::V3, K6::V4, K6::V5];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K6::V0 => 0,
            K6::V1 => 1,
            K6::V2 => 2,
            K6::V3 => 3,
            K6::V4 => 4,
            K6::V5 => 5,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..6 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(K6);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U8 { V0, V1, V2, V3, V4, V5, V6, V7 }
impl Dom for U8 {
    const N: usize = 8;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U8] = &[U8::V0, U8::V1, U8::V2, U8::V3, U8::V4, U8::V5, U8::V6, U8::V7];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U8::V0 => 0,
            U8::V1 => 1,
            U8::V2 => 2,
            U8::V3 => 3,
            U8::V4 => 4,
            U8::V5 => 5,
            U8::V6 => 6,
            U8::V7 => 7,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..8 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(U8);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K8 { V0, V1, V2, V3, V4, V5, V6, V7 }
impl Dom for K8 {
    const N: usize = 8;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K8] = &[K8::V0, K8::V1, K8::V2, K8::V3, K8::V4, K8::V5, K8::V6, K8::V7];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K8::V0 => 0,
            K8::V1 => 1,
            K8::V2 => 2,
            K8::V3 => 3,
            K8::V4 => 4,
            K8::V5 => 5,
            K8::V6 => 6,
            K8::V7 => 7,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..8 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(K8);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum NestA { X(bool), Y }
impl Dom for NestA {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return NestA::X(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return NestA::Y; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            NestA::X(x) => off(0, <bool as Dom>::idx(x)),
            NestA::Y => 0 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(NestA);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum NestB { P, Q(NestA), R(Option<U2>) }
impl Dom for NestB {
    const N: usize = 1 + <NestA as Dom>::N + <Option<U2> as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <Option<U2> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return NestB::P; } i -= 1;
        if i < <NestA as Dom>::N { return NestB::Q(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <Option<U2> as Dom>::N { return NestB::R(<Option<U2> as Dom>::at(i)); } i -= <Option<U2> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            NestB::P => 0,
            NestB::Q(x) => off(1, <NestA as Dom>::idx(x)),
            NestB::R(x) => off(1 + <NestA as Dom>::N, <Option<U2> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <NestA as Dom>::ranks(out, next);
        <Option<U2> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(NestB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum NestC { M(NestB), N(()) }
impl Dom for NestC {
    const N: usize = 0 + <NestB as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <NestB as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestB as Dom>::N { return NestC::M(<NestB as Dom>::at(i)); } i -= <NestB as Dom>::N;
        if i < <() as Dom>::N { return NestC::N(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            NestC::M(x) => off(0, <NestB as Dom>::idx(x)),
            NestC::N(x) => off(0 + <NestB as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestB as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(NestC);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1B { V0(bool) }
impl Dom for C1B {
    const N: usize = 0 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C1B::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1B::V0(x) => off(0, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C1B);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1S { V0(()) }
impl Dom for C1S {
    const N: usize = 0 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C1S::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1S::V0(x) => off(0, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C1S);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1O { V0(Option<bool>) }
impl Dom for C1O {
    const N: usize = 0 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return C1O::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1O::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C1O);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1E { V0(U2) }
impl Dom for C1E {
    const N: usize = 0 + <U2 as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return C1E::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1E::V0(x) => off(0, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C1E);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1K { V0(K2) }
impl Dom for C1K {
    const N: usize = 0 + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return C1K::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1K::V0(x) => off(0, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C1K);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1Z { V0(U0) }
impl Dom for C1Z {
    const N: usize = 0 + <U0 as Dom>::N;
    const STATIC: bool = true && <U0 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U0 as Dom>::N { return C1Z::V0(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1Z::V0(x) => off(0, <U0 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U0 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C1Z);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1C { V0(NestA) }
impl Dom for C1C {
    const N: usize = 0 + <NestA as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return C1C::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1C::V0(x) => off(0, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C1C);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1P { V0(Option<NestA>) }
impl Dom for C1P {
    const N: usize = 0 + <Option<NestA> as Dom>::N;
    const STATIC: bool = true && <Option<NestA> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<NestA> as Dom>::N { return C1P::V0(<Option<NestA> as Dom>::at(i)); } i -= <Option<NestA> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1P::V0(x) => off(0, <Option<NestA> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<NestA> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C1P);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2UB { V0, V1(bool) }
impl Dom for C2UB {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C2UB::V0; } i -= 1;
        if i < <bool as Dom>::N { return C2UB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2UB::V0 => 0,
            C2UB::V1(x) => off(1, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2UB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2US { V0, V1(()) }
impl Dom for C2US {
    const N: usize = 1 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C2US::V0; } i -= 1;
        if i < <() as Dom>::N { return C2US::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2US::V0 => 0,
            C2US::V1(x) => off(1, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2US);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2UO { V0, V1(Option<bool>) }
impl Dom for C2UO {
    const N: usize = 1 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C2UO::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return C2UO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2UO::V0 => 0,
            C2UO::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2UO);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2UE { V0, V1(U2) }
impl Dom for C2UE {
    const N: usize = 1 + <U2 as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C2UE::V0; } i -= 1;
        if i < <U2 as Dom>::N { return C2UE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2UE::V0 => 0,
            C2UE::V1(x) => off(1, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <U2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2UE);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2UC { V0, V1(NestA) }
impl Dom for C2UC {
    const N: usize = 1 + <NestA as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C2UC::V0; } i -= 1;
        if i < <NestA as Dom>::N { return C2UC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2UC::V0 => 0,
            C2UC::V1(x) => off(1, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <NestA as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2UC);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2BU { V0(bool), V1 }
impl Dom for C2BU {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C2BU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return C2BU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2BU::V0(x) => off(0, <bool as Dom>::idx(x)),
            C2BU::V1 => 0 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2BU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2BB { V0(bool), V1(bool) }
impl Dom for C2BB {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C2BB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return C2BB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2BB::V0(x) => off(0, <bool as Dom>::idx(x)),
            C2BB::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2BB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2BS { V0(bool), V1(()) }
impl Dom for C2BS {
    const N: usize = 0 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C2BS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return C2BS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2BS::V0(x) => off(0, <bool as Dom>::idx(x)),
            C2BS::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2BS);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2BO { V0(bool), V1(Option<bool>) }
impl Dom for C2BO {
    const N: usize = 0 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C2BO::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<bool> as Dom>::N { return C2BO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2BO::V0(x) => off(0, <bool as Dom>::idx(x)),
            C2BO::V1(x) => off(0 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2BO);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2BE { V0(bool), V1(U2) }
impl Dom for C2BE {
    const N: usize = 0 + <bool as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C2BE::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <U2 as Dom>::N { return C2BE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2BE::V0(x) => off(0, <bool as Dom>::idx(x)),
            C2BE::V1(x) => off(0 + <bool as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2BE);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2BC { V0(bool), V1(NestA) }
impl Dom for C2BC {
    const N: usize = 0 + <bool as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C2BC::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <NestA as Dom>::N { return C2BC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2BC::V0(x) => off(0, <bool as Dom>::idx(x)),
            C2BC::V1(x) => off(0 + <bool as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2BC);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2SU { V0(()), V1 }
impl Dom for C2SU {
    const N: usize = 1 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C2SU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return C2SU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2SU::V0(x) => off(0, <() as Dom>::idx(x)),
            C2SU::V1 => 0 + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2SU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2SB { V0(()), V1(bool) }
impl Dom for C2SB {
    const N: usize = 0 + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C2SB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return C2SB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2SB::V0(x) => off(0, <() as Dom>::idx(x)),
            C2SB::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2SB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2SS { V0(()), V1(()) }
impl Dom for C2SS {
    const N: usize = 0 + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C2SS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return C2SS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2SS::V0(x) => off(0, <() as Dom>::idx(x)),
            C2SS::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2SS);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2SO { V0(()), V1(Option<bool>) }
impl Dom for C2SO {
    const N: usize = 0 + <() as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C2SO::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <Option<bool> as Dom>::N { return C2SO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2SO::V0(x) => off(0, <() as Dom>::idx(x)),
            C2SO::V1(x) => off(0 + <() as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2SO);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2SE { V0(()), V1(U2) }
impl Dom for C2SE {
    const N: usize = 0 + <() as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C2SE::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <U2 as Dom>::N { return C2SE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2SE::V0(x) => off(0, <() as Dom>::idx(x)),
            C2SE::V1(x) => off(0 + <() as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2SE);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2SC { V0(()), V1(NestA) }
impl Dom for C2SC {
    const N: usize = 0 + <() as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C2SC::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <NestA as Dom>::N { return C2SC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2SC::V0(x) => off(0, <() as Dom>::idx(x)),
            C2SC::V1(x) => off(0 + <() as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2SC);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2OU { V0(Option<bool>), V1 }
impl Dom for C2OU {
    const N: usize = 1 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return C2OU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return C2OU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2OU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            C2OU::V1 => 0 + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2OU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2OB { V0(Option<bool>), V1(bool) }
impl Dom for C2OB {
    const N: usize = 0 + <Option<bool> as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return C2OB::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <bool as Dom>::N { return C2OB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2OB::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            C2OB::V1(x) => off(0 + <Option<bool> as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2OB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2OS { V0(Option<bool>), V1(()) }
impl Dom for C2OS {
    const N: usize = 0 + <Option<bool> as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return C2OS::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <() as Dom>::N { return C2OS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2OS::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            C2OS::V1(x) => off(0 + <Option<bool> as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2OS);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2OO { V0(Option<bool>), V1(Option<bool>) }
impl Dom for C2OO {
    const N: usize = 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return C2OO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return C2OO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2OO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            C2OO::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2OO);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2OE { V0(Option<bool>), V1(U2) }
impl Dom for C2OE {
    const N: usize = 0 + <Option<bool> as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return C2OE::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <U2 as Dom>::N { return C2OE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2OE::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            C2OE::V1(x) => off(0 + <Option<bool> as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2OE);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2OC { V0(Option<bool>), V1(NestA) }
impl Dom for C2OC {
    const N: usize = 0 + <Option<bool> as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return C2OC::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <NestA as Dom>::N { return C2OC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2OC::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            C2OC::V1(x) => off(0 + <Option<bool> as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2OC);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2EU { V0(U2), V1 }
impl Dom for C2EU {
    const N: usize = 1 + <U2 as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return C2EU::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i == 0 { return C2EU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2EU::V0(x) => off(0, <U2 as Dom>::idx(x)),
            C2EU::V1 => 0 + <U2 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2EU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2EB { V0(U2), V1(bool) }
impl Dom for C2EB {
    const N: usize = 0 + <U2 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return C2EB::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <bool as Dom>::N { return C2EB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2EB::V0(x) => off(0, <U2 as Dom>::idx(x)),
            C2EB::V1(x) => off(0 + <U2 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2EB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2ES { V0(U2), V1(()) }
impl Dom for C2ES {
    const N: usize = 0 + <U2 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return C2ES::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <() as Dom>::N { return C2ES::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2ES::V0(x) => off(0, <U2 as Dom>::idx(x)),
            C2ES::V1(x) => off(0 + <U2 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2ES);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2EO { V0(U2), V1(Option<bool>) }
impl Dom for C2EO {
    const N: usize = 0 + <U2 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return C2EO::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return C2EO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2EO::V0(x) => off(0, <U2 as Dom>::idx(x)),
            C2EO::V1(x) => off(0 + <U2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2EO);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2EE { V0(U2), V1(U2) }
impl Dom for C2EE {
    const N: usize = 0 + <U2 as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return C2EE::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <U2 as Dom>::N { return C2EE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2EE::V0(x) => off(0, <U2 as Dom>::idx(x)),
            C2EE::V1(x) => off(0 + <U2 as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2EE);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2EC { V0(U2), V1(NestA) }
impl Dom for C2EC {
    const N: usize = 0 + <U2 as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return C2EC::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <NestA as Dom>::N { return C2EC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2EC::V0(x) => off(0, <U2 as Dom>::idx(x)),
            C2EC::V1(x) => off(0 + <U2 as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2EC);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2CU { V0(NestA), V1 }
impl Dom for C2CU {
    const N: usize = 1 + <NestA as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return C2CU::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i == 0 { return C2CU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2CU::V0(x) => off(0, <NestA as Dom>::idx(x)),
            C2CU::V1 => 0 + <NestA as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2CU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2CB { V0(NestA), V1(bool) }
impl Dom for C2CB {
    const N: usize = 0 + <NestA as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return C2CB::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <bool as Dom>::N { return C2CB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2CB::V0(x) => off(0, <NestA as Dom>::idx(x)),
            C2CB::V1(x) => off(0 + <NestA as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2CB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2CS { V0(NestA), V1(()) }
impl Dom for C2CS {
    const N: usize = 0 + <NestA as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return C2CS::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <() as Dom>::N { return C2CS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2CS::V0(x) => off(0, <NestA as Dom>::idx(x)),
            C2CS::V1(x) => off(0 + <NestA as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2CS);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2CO { V0(NestA), V1(Option<bool>) }
impl Dom for C2CO {
    const N: usize = 0 + <NestA as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return C2CO::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <Option<bool> as Dom>::N { return C2CO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2CO::V0(x) => off(0, <NestA as Dom>::idx(x)),
            C2CO::V1(x) => off(0 + <NestA as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2CO);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2CE { V0(NestA), V1(U2) }
impl Dom for C2CE {
    const N: usize = 0 + <NestA as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return C2CE::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <U2 as Dom>::N { return C2CE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2CE::V0(x) => off(0, <NestA as Dom>::idx(x)),
            C2CE::V1(x) => off(0 + <NestA as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2CE);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2CC { V0(NestA), V1(NestA) }
impl Dom for C2CC {
    const N: usize = 0 + <NestA as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return C2CC::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <NestA as Dom>::N { return C2CC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2CC::V0(x) => off(0, <NestA as Dom>::idx(x)),
            C2CC::V1(x) => off(0 + <NestA as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C2CC);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3UUB { V0, V1, V2(bool) }
impl Dom for C3UUB {
    const N: usize = 2 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C3UUB::V0; } i -= 1;
        if i == 0 { return C3UUB::V1; } i -= 1;
        if i < <bool as Dom>::N { return C3UUB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3UUB::V0 => 0,
            C3UUB::V1 => 1,
            C3UUB::V2(x) => off(2, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3UUB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3UUS { V0, V1, V2(()) }
impl Dom for C3UUS {
    const N: usize = 2 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C3UUS::V0; } i -= 1;
        if i == 0 { return C3UUS::V1; } i -= 1;
        if i < <() as Dom>::N { return C3UUS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3UUS::V0 => 0,
            C3UUS::V1 => 1,
            C3UUS::V2(x) => off(2, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3UUS);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3UBU { V0, V1(bool), V2 }
impl Dom for C3UBU {
    const N: usize = 2 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C3UBU::V0; } i -= 1;
        if i < <bool as Dom>::N { return C3UBU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return C3UBU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3UBU::V0 => 0,
            C3UBU::V1(x) => off(1, <bool as Dom>::idx(x)),
            C3UBU::V2 => 1 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3UBU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3UBB { V0, V1(bool), V2(bool) }
impl Dom for C3UBB {
    const N: usize = 1 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C3UBB::V0; } i -= 1;
        if i < <bool as Dom>::N { return C3UBB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return C3UBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3UBB::V0 => 0,
            C3UBB::V1(x) => off(1, <bool as Dom>::idx(x)),
            C3UBB::V2(x) => off(1 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3UBB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3UBS { V0, V1(bool), V2(()) }
impl Dom for C3UBS {
    const N: usize = 1 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C3UBS::V0; } i -= 1;
        if i < <bool as Dom>::N { return C3UBS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return C3UBS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3UBS::V0 => 0,
            C3UBS::V1(x) => off(1, <bool as Dom>::idx(x)),
            C3UBS::V2(x) => off(1 + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3UBS);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3USU { V0, V1(()), V2 }
impl Dom for C3USU {
    const N: usize = 2 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C3USU::V0; } i -= 1;
        if i < <() as Dom>::N { return C3USU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return C3USU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3USU::V0 => 0,
            C3USU::V1(x) => off(1, <() as Dom>::idx(x)),
            C3USU::V2 => 1 + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3USU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3USB { V0, V1(()), V2(bool) }
impl Dom for C3USB {
    const N: usize = 1 + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C3USB::V0; } i -= 1;
        if i < <() as Dom>::N { return C3USB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return C3USB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3USB::V0 => 0,
            C3USB::V1(x) => off(1, <() as Dom>::idx(x)),
            C3USB::V2(x) => off(1 + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3USB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3USS { V0, V1(()), V2(()) }
impl Dom for C3USS {
    const N: usize = 1 + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C3USS::V0; } i -= 1;
        if i < <() as Dom>::N { return C3USS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return C3USS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3USS::V0 => 0,
            C3USS::V1(x) => off(1, <() as Dom>::idx(x)),
            C3USS::V2(x) => off(1 + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3USS);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3BUU { V0(bool), V1, V2 }
impl Dom for C3BUU {
    const N: usize = 2 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C3BUU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return C3BUU::V1; } i -= 1;
        if i == 0 { return C3BUU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3BUU::V0(x) => off(0, <bool as Dom>::idx(x)),
            C3BUU::V1 => 0 + <bool as Dom>::N,
            C3BUU::V2 => 1 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3BUU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3BUB { V0(bool), V1, V2(bool) }
impl Dom for C3BUB {
    const N: usize = 1 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C3BUB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return C3BUB::V1; } i -= 1;
        if i < <bool as Dom>::N { return C3BUB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3BUB::V0(x) => off(0, <bool as Dom>::idx(x)),
            C3BUB::V1 => 0 + <bool as Dom>::N,
            C3BUB::V2(x) => off(1 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3BUB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3BUS { V0(bool), V1, V2(()) }
impl Dom for C3BUS {
    const N: usize = 1 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C3BUS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return C3BUS::V1; } i -= 1;
        if i < <() as Dom>::N { return C3BUS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3BUS::V0(x) => off(0, <bool as Dom>::idx(x)),
            C3BUS::V1 => 0 + <bool as Dom>::N,
            C3BUS::V2(x) => off(1 + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3BUS);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3BBU { V0(bool), V1(bool), V2 }
impl Dom for C3BBU {
    const N: usize = 1 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C3BBU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return C3BBU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return C3BBU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3BBU::V0(x) => off(0, <bool as Dom>::idx(x)),
            C3BBU::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            C3BBU::V2 => 0 + <bool as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3BBU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3BBB { V0(bool), V1(bool), V2(bool) }
impl Dom for C3BBB {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C3BBB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return C3BBB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return C3BBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3BBB::V0(x) => off(0, <bool as Dom>::idx(x)),
            C3BBB::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            C3BBB::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3BBB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3BBS { V0(bool), V1(bool), V2(()) }
impl Dom for C3BBS {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C3BBS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return C3BBS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return C3BBS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3BBS::V0(x) => off(0, <bool as Dom>::idx(x)),
            C3BBS::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            C3BBS::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3BBS);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3BSU { V0(bool), V1(()), V2 }
impl Dom for C3BSU {
    const N: usize = 1 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C3BSU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return C3BSU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return C3BSU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3BSU::V0(x) => off(0, <bool as Dom>::idx(x)),
            C3BSU::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            C3BSU::V2 => 0 + <bool as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3BSU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3BSB { V0(bool), V1(()), V2(bool) }
impl Dom for C3BSB {
    const N: usize = 0 + <bool as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C3BSB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return C3BSB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return C3BSB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3BSB::V0(x) => off(0, <bool as Dom>::idx(x)),
            C3BSB::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            C3BSB::V2(x) => off(0 + <bool as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3BSB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3BSS { V0(bool), V1(()), V2(()) }
impl Dom for C3BSS {
    const N: usize = 0 + <bool as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C3BSS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return C3BSS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return C3BSS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3BSS::V0(x) => off(0, <bool as Dom>::idx(x)),
            C3BSS::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            C3BSS::V2(x) => off(0 + <bool as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3BSS);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3SUU { V0(()), V1, V2 }
impl Dom for C3SUU {
    const N: usize = 2 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C3SUU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return C3SUU::V1; } i -= 1;
        if i == 0 { return C3SUU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3SUU::V0(x) => off(0, <() as Dom>::idx(x)),
            C3SUU::V1 => 0 + <() as Dom>::N,
            C3SUU::V2 => 1 + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3SUU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3SUB { V0(()), V1, V2(bool) }
impl Dom for C3SUB {
    const N: usize = 1 + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C3SUB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return C3SUB::V1; } i -= 1;
        if i < <bool as Dom>::N { return C3SUB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3SUB::V0(x) => off(0, <() as Dom>::idx(x)),
            C3SUB::V1 => 0 + <() as Dom>::N,
            C3SUB::V2(x) => off(1 + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3SUB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3SUS { V0(()), V1, V2(()) }
impl Dom for C3SUS {
    const N: usize = 1 + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C3SUS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return C3SUS::V1; } i -= 1;
        if i < <() as Dom>::N { return C3SUS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3SUS::V0(x) => off(0, <() as Dom>::idx(x)),
            C3SUS::V1 => 0 + <() as Dom>::N,
            C3SUS::V2(x) => off(1 + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3SUS);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3SBU { V0(()), V1(bool), V2 }
impl Dom for C3SBU {
    const N: usize = 1 + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C3SBU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return C3SBU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return C3SBU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3SBU::V0(x) => off(0, <() as Dom>::idx(x)),
            C3SBU::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            C3SBU::V2 => 0 + <() as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3SBU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3SBB { V0(()), V1(bool), V2(bool) }
impl Dom for C3SBB {
    const N: usize = 0 + <() as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C3SBB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return C3SBB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return C3SBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3SBB::V0(x) => off(0, <() as Dom>::idx(x)),
            C3SBB::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            C3SBB::V2(x) => off(0 + <() as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3SBB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3SBS { V0(()), V1(bool), V2(()) }
impl Dom for C3SBS {
    const N: usize = 0 + <() as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C3SBS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return C3SBS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return C3SBS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3SBS::V0(x) => off(0, <() as Dom>::idx(x)),
            C3SBS::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            C3SBS::V2(x) => off(0 + <() as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3SBS);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3SSU { V0(()), V1(()), V2 }
impl Dom for C3SSU {
    const N: usize = 1 + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C3SSU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return C3SSU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return C3SSU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3SSU::V0(x) => off(0, <() as Dom>::idx(x)),
            C3SSU::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            C3SSU::V2 => 0 + <() as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3SSU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3SSB { V0(()), V1(()), V2(bool) }
impl Dom for C3SSB {
    const N: usize = 0 + <() as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C3SSB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return C3SSB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return C3SSB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3SSB::V0(x) => off(0, <() as Dom>::idx(x)),
            C3SSB::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            C3SSB::V2(x) => off(0 + <() as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3SSB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3SSS { V0(()), V1(()), V2(()) }
impl Dom for C3SSS {
    const N: usize = 0 + <() as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C3SSS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return C3SSS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return C3SSS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3SSS::V0(x) => off(0, <() as Dom>::idx(x)),
            C3SSS::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            C3SSS::V2(x) => off(0 + <() as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3SSS);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3UOE { V0, V1(Option<bool>), V2(U2) }
impl Dom for C3UOE {
    const N: usize = 1 + <Option<bool> as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C3UOE::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return C3UOE::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <U2 as Dom>::N { return C3UOE::V2(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3UOE::V0 => 0,
            C3UOE::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
            C3UOE::V2(x) => off(1 + <Option<bool> as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3UOE);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3EOU { V0(U2), V1(Option<bool>), V2 }
impl Dom for C3EOU {
    const N: usize = 1 + <U2 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return C3EOU::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return C3EOU::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return C3EOU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3EOU::V0(x) => off(0, <U2 as Dom>::idx(x)),
            C3EOU::V1(x) => off(0 + <U2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
            C3EOU::V2 => 0 + <U2 as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3EOU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3OUK { V0(Option<bool>), V1, V2(K2) }
impl Dom for C3OUK {
    const N: usize = 1 + <Option<bool> as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return C3OUK::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return C3OUK::V1; } i -= 1;
        if i < <K2 as Dom>::N { return C3OUK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3OUK::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            C3OUK::V1 => 0 + <Option<bool> as Dom>::N,
            C3OUK::V2(x) => off(1 + <Option<bool> as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <K2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3OUK);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3ZUB { V0(U0), V1, V2(bool) }
impl Dom for C3ZUB {
    const N: usize = 1 + <U0 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <U0 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U0 as Dom>::N { return C3ZUB::V0(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        if i == 0 { return C3ZUB::V1; } i -= 1;
        if i < <bool as Dom>::N { return C3ZUB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3ZUB::V0(x) => off(0, <U0 as Dom>::idx(x)),
            C3ZUB::V1 => 0 + <U0 as Dom>::N,
            C3ZUB::V2(x) => off(1 + <U0 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U0 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3ZUB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3UZB { V0, V1(U0), V2(bool) }
impl Dom for C3UZB {
    const N: usize = 1 + <U0 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <U0 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C3UZB::V0; } i -= 1;
        if i < <U0 as Dom>::N { return C3UZB::V1(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        if i < <bool as Dom>::N { return C3UZB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3UZB::V0 => 0,
            C3UZB::V1(x) => off(1, <U0 as Dom>::idx(x)),
            C3UZB::V2(x) => off(1 + <U0 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <U0 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3UZB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3BUZ { V0(bool), V1, V2(U0) }
impl Dom for C3BUZ {
    const N: usize = 1 + <bool as Dom>::N + <U0 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <U0 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C3BUZ::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return C3BUZ::V1; } i -= 1;
        if i < <U0 as Dom>::N { return C3BUZ::V2(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3BUZ::V0(x) => off(0, <bool as Dom>::idx(x)),
            C3BUZ::V1 => 0 + <bool as Dom>::N,
            C3BUZ::V2(x) => off(1 + <bool as Dom>::N, <U0 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <U0 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3BUZ);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3KUS { V0(K2), V1, V2(()) }
impl Dom for C3KUS {
    const N: usize = 1 + <K2 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return C3KUS::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i == 0 { return C3KUS::V1; } i -= 1;
        if i < <() as Dom>::N { return C3KUS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3KUS::V0(x) => off(0, <K2 as Dom>::idx(x)),
            C3KUS::V1 => 0 + <K2 as Dom>::N,
            C3KUS::V2(x) => off(1 + <K2 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C3KUS);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C4UBUB { V0, V1(bool), V2, V3(bool) }
impl Dom for C4UBUB {
    const N: usize = 2 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C4UBUB::V0; } i -= 1;
        if i < <bool as Dom>::N { return C4UBUB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return C4UBUB::V2; } i -= 1;
        if i < <bool as Dom>::N { return C4UBUB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C4UBUB::V0 => 0,
            C4UBUB::V1(x) => off(1, <bool as Dom>::idx(x)),
            C4UBUB::V2 => 1 + <bool as Dom>::N,
            C4UBUB::V3(x) => off(2 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C4UBUB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C4BUBU { V0(bool), V1, V2(bool), V3 }
impl Dom for C4BUBU {
    const N: usize = 2 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C4BUBU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return C4BUBU::V1; } i -= 1;
        if i < <bool as Dom>::N { return C4BUBU::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return C4BUBU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C4BUBU::V0(x) => off(0, <bool as Dom>::idx(x)),
            C4BUBU::V1 => 0 + <bool as Dom>::N,
            C4BUBU::V2(x) => off(1 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            C4BUBU::V3 => 1 + <bool as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C4BUBU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C4UUBB { V0, V1, V2(bool), V3(bool) }
impl Dom for C4UUBB {
    const N: usize = 2 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C4UUBB::V0; } i -= 1;
        if i == 0 { return C4UUBB::V1; } i -= 1;
        if i < <bool as Dom>::N { return C4UUBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return C4UUBB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C4UUBB::V0 => 0,
            C4UUBB::V1 => 1,
            C4UUBB::V2(x) => off(2, <bool as Dom>::idx(x)),
            C4UUBB::V3(x) => off(2 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C4UUBB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C4BBUU { V0(bool), V1(bool), V2, V3 }
impl Dom for C4BBUU {
    const N: usize = 2 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C4BBUU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return C4BBUU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return C4BBUU::V2; } i -= 1;
        if i == 0 { return C4BBUU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C4BBUU::V0(x) => off(0, <bool as Dom>::idx(x)),
            C4BBUU::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            C4BBUU::V2 => 0 + <bool as Dom>::N + <bool as Dom>::N,
            C4BBUU::V3 => 1 + <bool as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C4BBUU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C4SUSU { V0(()), V1, V2(()), V3 }
impl Dom for C4SUSU {
    const N: usize = 2 + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C4SUSU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return C4SUSU::V1; } i -= 1;
        if i < <() as Dom>::N { return C4SUSU::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return C4SUSU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C4SUSU::V0(x) => off(0, <() as Dom>::idx(x)),
            C4SUSU::V1 => 0 + <() as Dom>::N,
            C4SUSU::V2(x) => off(1 + <() as Dom>::N, <() as Dom>::idx(x)),
            C4SUSU::V3 => 1 + <() as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C4SUSU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C4USBO { V0, V1(()), V2(bool), V3(Option<bool>) }
impl Dom for C4USBO {
    const N: usize = 1 + <() as Dom>::N + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C4USBO::V0; } i -= 1;
        if i < <() as Dom>::N { return C4USBO::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return C4USBO::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<bool> as Dom>::N { return C4USBO::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C4USBO::V0 => 0,
            C4USBO::V1(x) => off(1, <() as Dom>::idx(x)),
            C4USBO::V2(x) => off(1 + <() as Dom>::N, <bool as Dom>::idx(x)),
            C4USBO::V3(x) => off(1 + <() as Dom>::N + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(C4USBO);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DiscU { A = 5, B = -3, C = 200, D }
impl Dom for DiscU {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DiscU] = &[DiscU::A, DiscU::B, DiscU::C, DiscU::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DiscU::A => 0,
            DiscU::B => 1,
            DiscU::C => 2,
            DiscU::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(DiscU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DiscK { A = 5, B = -3, C = 200, D }
impl Dom for DiscK {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DiscK] = &[DiscK::A, DiscK::B, DiscK::C, DiscK::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DiscK::A => 0,
            DiscK::B => 1,
            DiscK::C => 2,
            DiscK::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(DiscK);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum RawId { r#type, r#fn(bool), r#match }
impl Dom for RawId {
    const N: usize = 2 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return RawId::r#type; } i -= 1;
        if i < <bool as Dom>::N { return RawId::r#fn(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return RawId::r#match; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            RawId::r#type => 0,
            RawId::r#fn(x) => off(1, <bool as Dom>::idx(x)),
            RawId::r#match => 1 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(RawId);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Names { Some, None(bool), Ok, Err(()) }
impl Dom for Names {
    const N: usize = 2 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return Names::Some; } i -= 1;
        if i < <bool as Dom>::N { return Names::None(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return Names::Ok; } i -= 1;
        if i < <() as Dom>::N { return Names::Err(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            Names::Some => 0,
            Names::None(x) => off(1, <bool as Dom>::idx(x)),
            Names::Ok => 1 + <bool as Dom>::N,
            Names::Err(x) => off(2 + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(Names);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum NamesU { None, Some, data, _0 }
impl Dom for NamesU {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[NamesU] = &[NamesU::None, NamesU::Some, NamesU::data, NamesU::_0];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            NamesU::None => 0,
            NamesU::Some => 1,
            NamesU::data => 2,
            NamesU::_0 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(NamesU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L7 { V0, V1, V2, V3, V4, V5, V6 }
impl Dom for L7 {
    const N: usize = 7;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L7] = &[L7::V0, L7::V1, L7::V2, L7::V3, L7::V4, L7::V5, L7::V6];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L7::V0 => 0,
            L7::V1 => 1,
            L7::V2 => 2,
            L7::V3 => 3,
            L7::V4 => 4,
            L7::V5 => 5,
            L7::V6 => 6,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..7 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L7);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum LK7 { V0, V1, V2, V3, V4, V5, V6 }
impl Dom for LK7 {
    const N: usize = 7;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[LK7] = &[LK7::V0, LK7::V1, LK7::V2, LK7::V3, LK7::V4, LK7::V5, LK7::V6];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            LK7::V0 => 0,
            LK7::V1 => 1,
            LK7::V2 => 2,
            LK7::V3 => 3,
            LK7::V4 => 4,
            LK7::V5 => 5,
            LK7::V6 => 6,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..7 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LK7);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L9 { V0, V1, V2, V3, V4, V5, V6, V7, V8 }
impl Dom for L9 {
    const N: usize = 9;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L9] = &[L9::V0, L9::V1, L9::V2, L9::V3, L9::V4, L9::V5, L9::V6, L9::V7, L9::V8];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L9::V0 => 0,
            L9::V1 => 1,
            L9::V2 => 2,
            L9::V3 => 3,
            L9::V4 => 4,
            L9::V5 => 5,
            L9::V6 => 6,
            L9::V7 => 7,
            L9::V8 => 8,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..9 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L9);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum LK9 { V0, V1, V2, V3, V4, V5, V6, V7, V8 }
impl Dom for LK9 {
    const N: usize = 9;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[LK9] = &[LK9::V0, LK9::V1, LK9::V2, LK9::V3, LK9::V4, LK9::V5, LK9::V6, LK9::V7, LK9::V8];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            LK9::V0 => 0,
            LK9::V1 => 1,
            LK9::V2 => 2,
            LK9::V3 => 3,
            LK9::V4 => 4,
            LK9::V5 => 5,
            LK9::V6 => 6,
            LK9::V7 => 7,
            LK9::V8 => 8,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..9 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LK9);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L15 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14 }
impl Dom for L15 {
    const N: usize = 15;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L15] = &[L15::V0, L15::V1, L15::V2, L15::V3, L15::V4, L15::V5, L15::V6, L15::V7, L15::V8, L15::V9, L15::V10, L15::V11, L15::V12, L15::V13, L15::V14];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L15::V0 => 0,
            L15::V1 => 1,
            L15::V2 => 2,
            L15::V3 => 3,
            L15::V4 => 4,
            L15::V5 => 5,
            L15::V6 => 6,
            L15::V7 => 7,
            L15::V8 => 8,
            L15::V9 => 9,
            L15::V10 => 10,
            L15::V11 => 11,
            L15::V12 => 12,
            L15::V13 => 13,
            L15::V14 => 14,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..15 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L15);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum LK15 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14 }
impl Dom for LK15 {
    const N: usize = 15;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[LK15] = &[LK15::V0, LK15::V1, LK15::V2, LK15::V3, LK15::V4, LK15::V5, LK15::V6, LK15::V7, LK15::V8, LK15::V9, LK15::V10, LK15::V11, LK15::V12, LK15::V13, LK15::V14];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            LK15::V0 => 0,
            LK15::V1 => 1,
            LK15::V2 => 2,
            LK15::V3 => 3,
            LK15::V4 => 4,
            LK15::V5 => 5,
            LK15::V6 => 6,
            LK15::V7 => 7,
            LK15::V8 => 8,
            LK15::V9 => 9,
            LK15::V10 => 10,
            LK15::V11 => 11,
            LK15::V12 => 12,
            LK15::V13 => 13,
            LK15::V14 => 14,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..15 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LK15);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L16 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }
impl Dom for L16 {
    const N: usize = 16;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L16] = &[L16::V0, L16::V1, L16::V2, L16::V3, L16::V4, L16::V5, L16::V6, L16::V7, L16::V8, L16::V9, L16::V10, L16::V11, L16::V12, L16::V13, L16::V14, L16::V15];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L16::V0 => 0,
            L16::V1 => 1,
            L16::V2 => 2,
            L16::V3 => 3,
            L16::V4 => 4,
            L16::V5 => 5,
            L16::V6 => 6,
            L16::V7 => 7,
            L16::V8 => 8,
            L16::V9 => 9,
            L16::V10 => 10,
            L16::V11 => 11,
            L16::V12 => 12,
            L16::V13 => 13,
            L16::V14 => 14,
            L16::V15 => 15,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..16 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L16);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum LK16 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }
impl Dom for LK16 {
    const N: usize = 16;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[LK16] = &[LK16::V0, LK16::V1, LK16::V2, LK16::V3, LK16::V4, LK16::V5, LK16::V6, LK16::V7, LK16::V8, LK16::V9, LK16::V10, LK16::V11, LK16::V12, LK16::V13, LK16::V14, LK16::V15];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            LK16::V0 => 0,
            LK16::V1 => 1,
            LK16::V2 => 2,
            LK16::V3 => 3,
            LK16::V4 => 4,
            LK16::V5 => 5,
            LK16::V6 => 6,
            LK16::V7 => 7,
            LK16::V8 => 8,
            LK16::V9 => 9,
            LK16::V10 => 10,
            LK16::V11 => 11,
            LK16::V12 => 12,
            LK16::V13 => 13,
            LK16::V14 => 14,
            LK16::V15 => 15,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..16 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LK16);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L17 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16 }
impl Dom for L17 {
    const N: usize = 17;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L17] = &[L17::V0, L17::V1, L17::V2, L17::V3, L17::V4, L17::V5, L17::V6, L17::V7, L17::V8, L17::V9, L17::V10, L17::V11, L17::V12, L17::V13, L17::V14, L17::V15, L17::V16];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L17::V0 => 0,
            L17::V1 => 1,
            L17::V2 => 2,
            L17::V3 => 3,
            L17::V4 => 4,
            L17::V5 => 5,
            L17::V6 => 6,
            L17::V7 => 7,
            L17::V8 => 8,
            L17::V9 => 9,
            L17::V10 => 10,
            L17::V11 => 11,
            L17::V12 => 12,
            L17::V13 => 13,
            L17::V14 => 14,
            L17::V15 => 15,
            L17::V16 => 16,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..17 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L17);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum LK17 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16 }
impl Dom for LK17 {
    const N: usize = 17;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[LK17] = &[LK17::V0, LK17::V1, LK17::V2, LK17::V3, LK17::V4, LK17::V5, LK17::V6, LK17::V7, LK17::V8, LK17::V9, LK17::V10, LK17::V11, LK17::V12, LK17::V13, LK17::V14, LK17::V15, LK17::V16];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            LK17::V0 => 0,
            LK17::V1 => 1,
            LK17::V2 => 2,
            LK17::V3 => 3,
            LK17::V4 => 4,
            LK17::V5 => 5,
            LK17::V6 => 6,
            LK17::V7 => 7,
            LK17::V8 => 8,
            LK17::V9 => 9,
            LK17::V10 => 10,
            LK17::V11 => 11,
            LK17::V12 => 12,
            LK17::V13 => 13,
            LK17::V14 => 14,
            LK17::V15 => 15,
            LK17::V16 => 16,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..17 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LK17);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L24 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23 }
impl Dom for L24 {
    const N: usize = 24;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L24] = &[L24::V0, L24::V1, L24::V2, L24::V3, L24::V4, L24::V5, L24::V6, L24::V7, L24::V8, L24::V9, L24::V10, L24::V11, L24::V12, L24::V13, L24::V14, L24::V15, L24::V16, L24::V17, L24::V18, L24::V19, L24::V20, L24::V21, L24::V22, L24::V23];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L24::V0 => 0,
            L24::V1 => 1,
            L24::V2 => 2,
            L24::V3 => 3,
            L24::V4 => 4,
            L24::V5 => 5,
            L24::V6 => 6,
            L24::V7 => 7,
            L24::V8 => 8,
            L24::V9 => 9,
            L24::V10 => 10,
            L24::V11 => 11,
            L24::V12 => 12,
            L24::V13 => 13,
            L24::V14 => 14,
            L24::V15 => 15,
            L24::V16 => 16,
            L24::V17 => 17,
            L24::V18 => 18,
            L24::V19 => 19,
            L24::V20 => 20,
            L24::V21 => 21,
            L24::V22 => 22,
            L24::V23 => 23,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..24 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L24);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum LK24 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23 }
impl Dom for LK24 {
    const N: usize = 24;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[LK24] = &[LK24::V0, LK24::V1, LK24::V2, LK24::V3, LK24::V4, LK24::V5, LK24::V6, LK24::V7, LK24::V8, LK24::V9, LK24::V10, LK24::V11, LK24::V12, LK24::V13, LK24::V14, LK24::V15, LK24::V16, LK24::V17, LK24::V18, LK24::V19, LK24::V20, LK24::V21, LK24::V22, LK24::V23];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            LK24::V0 => 0,
            LK24::V1 => 1,
            LK24::V2 => 2,
            LK24::V3 => 3,
            LK24::V4 => 4,
            LK24::V5 => 5,
            LK24::V6 => 6,
            LK24::V7 => 7,
            LK24::V8 => 8,
            LK24::V9 => 9,
            LK24::V10 => 10,
            LK24::V11 => 11,
            LK24::V12 => 12,
            LK24::V13 => 13,
            LK24::V14 => 14,
            LK24::V15 => 15,
            LK24::V16 => 16,
            LK24::V17 => 17,
            LK24::V18 => 18,
            LK24::V19 => 19,
            LK24::V20 => 20,
            LK24::V21 => 21,
            LK24::V22 => 22,
            LK24::V23 => 23,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..24 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LK24);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L31 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30 }
impl Dom for L31 {
    const N: usize = 31;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L31] = &[L31::V0, L31::V1, L31::V2, L31::V3, L31::V4, L31::V5, L31::V6, L31::V7, L31::V8, L31::V9, L31::V10, L31::V11, L31::V12, L31::V13, L31::V14, L31::V15, L31::V16, L31::V17, L31::V18, L31::V19, L31::V20, L31::V21, L31::V22, L31::V23, L31::V24, L31::V25, L31::V26, L31::V27, L31::V28, L31::V29, L31::V30];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L31::V0 => 0,
            L31::V1 => 1,
            L31::V2 => 2,
            L31::V3 => 3,
            L31::V4 => 4,
            L31::V5 => 5,
            L31::V6 => 6,
            L31::V7 => 7,
            L31::V8 => 8,
            L31::V9 => 9,
            L31::V10 => 10,
            L31::V11 => 11,
            L31::V12 => 12,
            L31::V13 => 13,
            L31::V14 => 14,
            L31::V15 => 15,
            L31::V16 => 16,
            L31::V17 => 17,
            L31::V18 => 18,
            L31::V19 => 19,
            L31::V20 => 20,
            L31::V21 => 21,
            L31::V22 => 22,
            L31::V23 => 23,
            L31::V24 => 24,
            L31::V25 => 25,
            L31::V26 => 26,
            L31::V27 => 27,
            L31::V28 => 28,
            L31::V29 => 29,
            L31::V30 => 30,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..31 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L31);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum LK31 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30 }
impl Dom for LK31 {
    const N: usize = 31;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[LK31] = &[LK31::V0, LK31::V1, LK31::V2, LK31::V3, LK31::V4, LK31::V5, LK31::V6, LK31::V7, LK31::V8, LK31::V9, LK31::V10, LK31::V11, LK31::V12, LK31::V13, LK31::V14, LK31::V15, LK31::V16, LK31::V17, LK31::V18, LK31::V19, LK31::V20, LK31::V21, LK31::V22, LK31::V23, LK31::V24, LK31::V25, LK31::V26, LK31::V27, LK31::V28, LK31::V29, LK31::V30];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            LK31::V0 => 0,
            LK31::V1 => 1,
            LK31::V2 => 2,
            LK31::V3 => 3,
            LK31::V4 => 4,
            LK31::V5 => 5,
            LK31::V6 => 6,
            LK31::V7 => 7,
            LK31::V8 => 8,
            LK31::V9 => 9,
            LK31::V10 => 10,
            LK31::V11 => 11,
            LK31::V12 => 12,
            LK31::V13 => 13,
            LK31::V14 => 14,
            LK31::V15 => 15,
            LK31::V16 => 16,
            LK31::V17 => 17,
            LK31::V18 => 18,
            LK31::V19 => 19,
            LK31::V20 => 20,
            LK31::V21 => 21,
            LK31::V22 => 22,
            LK31::V23 => 23,
            LK31::V24 => 24,
            LK31::V25 => 25,
            LK31::V26 => 26,
            LK31::V27 => 27,
            LK31::V28 => 28,
            LK31::V29 => 29,
            LK31::V30 => 30,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..31 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LK31);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L32 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31 }
impl Dom for L32 {
    const N: usize = 32;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L32] = &[L32::V0, L32::V1, L32::V2, L32::V3, L32::V4, L32::V5, L32::V6, L32::V7, L32::V8, L32::V9, L32::V10, L32::V11, L32::V12, L32::V13, L32::V14, L32::V15, L32::V16, L32::V17, L32::V18, L32::V19, L32::V20, L32::V21, L32::V22, L32::V23, L32::V24, L32::V25, L32::V26, L32::V27, L32::V28, L32::V29, L32::V30, L32::V31];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L32::V0 => 0,
            L32::V1 => 1,
            L32::V2 => 2,
            L32::V3 => 3,
            L32::V4 => 4,
            L32::V5 => 5,
            L32::V6 => 6,
            L32::V7 => 7,
            L32::V8 => 8,
            L32::V9 => 9,
            L32::V10 => 10,
            L32::V11 => 11,
            L32::V12 => 12,
            L32::V13 => 13,
            L32::V14 => 14,
            L32::V15 => 15,
            L32::V16 => 16,
            L32::V17 => 17,
            L32::V18 => 18,
            L32::V19 => 19,
            L32::V20 => 20,
            L32::V21 => 21,
            L32::V22 => 22,
            L32::V23 => 23,
            L32::V24 => 24,
            L32::V25 => 25,
            L32::V26 => 26,
            L32::V27 => 27,
            L32::V28 => 28,
            L32::V29 => 29,
            L32::V30 => 30,
            L32::V31 => 31,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..32 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L32);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum LK32 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31 }
impl Dom for LK32 {
    const N: usize = 32;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[LK32] = &[LK32::V0, LK32::V1, LK32::V2, LK32::V3, LK32::V4, LK32::V5, LK32::V6, LK32::V7, LK32::V8, LK32::V9, LK32::V10, LK32::V11, LK32::V12, LK32::V13, LK32::V14, LK32::V15, LK32::V16, LK32::V17, LK32::V18, LK32::V19, LK32::V20, LK32::V21, LK32::V22, LK32::V23, LK32::V24, LK32::V25, LK32::V26, LK32::V27, LK32::V28, LK32::V29, LK32::V30, LK32::V31];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            LK32::V0 => 0,
            LK32::V1 => 1,
            LK32::V2 => 2,
            LK32::V3 => 3,
            LK32::V4 => 4,
            LK32::V5 => 5,
            LK32::V6 => 6,
            LK32::V7 => 7,
            LK32::V8 => 8,
            LK32::V9 => 9,
            LK32::V10 => 10,
            LK32::V11 => 11,
            LK32::V12 => 12,
            LK32::V13 => 13,
            LK32::V14 => 14,
            LK32::V15 => 15,
            LK32::V16 => 16,
            LK32::V17 => 17,
            LK32::V18 => 18,
            LK32::V19 => 19,
            LK32::V20 => 20,
            LK32::V21 => 21,
            LK32::V22 => 22,
            LK32::V23 => 23,
            LK32::V24 => 24,
            LK32::V25 => 25,
            LK32::V26 => 26,
            LK32::V27 => 27,
            LK32::V28 => 28,
            LK32::V29 => 29,
            LK32::V30 => 30,
            LK32::V31 => 31,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..32 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LK32);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L33 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32 }
impl Dom for L33 {
    const N: usize = 33;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L33] = &[L33::V0, L33::V1, L33::V2, L33::V3, L33::V4, L33::V5, L33::V6, L33::V7, L33::V8, L33::V9, L33::V10, L33::V11, L33::V12, L33::V13, L33::V14, L33::V15, L33::V16, L33::V17, L33::V18, L33::V19, L33::V20, L33::V21, L33::V22, L33::V23, L33::V24, L33::V25, L33::V26, L33::V27, L33::V28, L33::V29, L33::V30, L33::V31, L33::V32];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L33::V0 => 0,
            L33::V1 => 1,
            L33::V2 => 2,
            L33::V3 => 3,
            L33::V4 => 4,
            L33::V5 => 5,
            L33::V6 => 6,
            L33::V7 => 7,
            L33::V8 => 8,
            L33::V9 => 9,
            L33::V10 => 10,
            L33::V11 => 11,
            L33::V12 => 12,
            L33::V13 => 13,
            L33::V14 => 14,
            L33::V15 => 15,
            L33::V16 => 16,
            L33::V17 => 17,
            L33::V18 => 18,
            L33::V19 => 19,
            L33::V20 => 20,
            L33::V21 => 21,
            L33::V22 => 22,
            L33::V23 => 23,
            L33::V24 => 24,
            L33::V25 => 25,
            L33::V26 => 26,
            L33::V27 => 27,
            L33::V28 => 28,
            L33::V29 => 29,
            L33::V30 => 30,
            L33::V31 => 31,
            L33::V32 => 32,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..33 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L33);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum LK33 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32 }
impl Dom for LK33 {
    const N: usize = 33;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[LK33] = &[LK33::V0, LK33::V1, LK33::V2, LK33::V3, LK33::V4, LK33::V5, LK33::V6, LK33::V7, LK33::V8, LK33::V9, LK33::V10, LK33::V11, LK33::V12, LK33::V13, LK33::V14, LK33::V15, LK33::V16, LK33::V17, LK33::V18, LK33::V19, LK33::V20, LK33::V21, LK33::V22, LK33::V23, LK33::V24, LK33::V25, LK33::V26, LK33::V27, LK33::V28, LK33::V29, LK33::V30, LK33::V31, LK33::V32];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            LK33::V0 => 0,
            LK33::V1 => 1,
            LK33::V2 => 2,
            LK33::V3 => 3,
            LK33::V4 => 4,
            LK33::V5 => 5,
            LK33::V6 => 6,
            LK33::V7 => 7,
            LK33::V8 => 8,
            LK33::V9 => 9,
            LK33::V10 => 10,
            LK33::V11 => 11,
            LK33::V12 => 12,
            LK33::V13 => 13,
            LK33::V14 => 14,
            LK33::V15 => 15,
            LK33::V16 => 16,
            LK33::V17 => 17,
            LK33::V18 => 18,
            LK33::V19 => 19,
            LK33::V20 => 20,
            LK33::V21 => 21,
            LK33::V22 => 22,
            LK33::V23 => 23,
            LK33::V24 => 24,
            LK33::V25 => 25,
            LK33::V26 => 26,
            LK33::V27 => 27,
            LK33::V28 => 28,
            LK33::V29 => 29,
            LK33::V30 => 30,
            LK33::V31 => 31,
            LK33::V32 => 32,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..33 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LK33);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L48 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47 }
impl Dom for L48 {
    const N: usize = 48;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L48] = &[L48::V0, L48::V1, L48::V2, L48::V3, L48::V4, L48::V5, L48::V6, L48::V7, L48::V8, L48::V9, L48::V10, L48::V11, L48::V12, L48::V13, L48::V14, L48::V15, L48::V16, L48::V17, L48::V18, L48::V19, L48::V20, L48::V21, L48::V22, L48::V23, L48::V24, L48::V25, L48::V26, L48::V27, L48::V28, L48::V29, L48::V30, L48::V31, L48::V32, L48::V33, L48::V34, L48::V35, L48::V36, L48::V37, L48::V38, L48::V39, L48::V40, L48::V41, L48::V42, L48::V43, L48::V44, L48::V45, L48::V46, L48::V47];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L48::V0 => 0,
            L48::V1 => 1,
            L48::V2 => 2,
            L48::V3 => 3,
            L48::V4 => 4,
            L48::V5 => 5,
            L48::V6 => 6,
            L48::V7 => 7,
            L48::V8 => 8,
            L48::V9 => 9,
            L48::V10 => 10,
            L48::V11 => 11,
            L48::V12 => 12,
            L48::V13 => 13,
            L48::V14 => 14,
            L48::V15 => 15,
            L48::V16 => 16,
            L48::V17 => 17,
            L48::V18 => 18,
            L48::V19 => 19,
            L48::V20 => 20,
            L48::V21 => 21,
            L48::V22 => 22,
            L48::V23 => 23,
            L48::V24 => 24,
            L48::V25 => 25,
            L48::V26 => 26,
            L48::V27 => 27,
            L48::V28 => 28,
            L48::V29 => 29,
            L48::V30 => 30,
            L48::V31 => 31,
            L48::V32 => 32,
            L48::V33 => 33,
            L48::V34 => 34,
            L48::V35 => 35,
            L48::V36 => 36,
            L48::V37 => 37,
            L48::V38 => 38,
            L48::V39 => 39,
            L48::V40 => 40,
            L48::V41 => 41,
            L48::V42 => 42,
            L48::V43 => 43,
            L48::V44 => 44,
            L48::V45 => 45,
            L48::V46 => 46,
            L48::V47 => 47,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..48 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L48);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum LK48 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47 }
impl Dom for LK48 {
    const N: usize = 48;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[LK48] = &[LK48::V0, LK48::V1, LK48::V2, LK48::V3, LK48::V4, LK48::V5, LK48::V6, LK48::V7, LK48::V8, LK48::V9, LK48::V10, LK48::V11, LK48::V12, LK48::V13, LK48::V14, LK48::V15, LK48::V16, LK48::V17, LK48::V18, LK48::V19, LK48::V20, LK48::V21, LK48::V22, LK48::V23, LK48::V24, LK48::V25, LK48::V26, LK48::V27, LK48::V28, LK48::V29, LK48::V30, LK48::V31, LK48::V32, LK48::V33, LK48::V34, LK48::V35, LK48::V36, LK48::V37, LK48::V38, LK48::V39, LK48::V40, LK48::V41, LK48::V42, LK48::V43, LK48::V44, LK48::V45, LK48::V46, LK48::V47];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            LK48::V0 => 0,
            LK48::V1 => 1,
            LK48::V2 => 2,
            LK48::V3 => 3,
            LK48::V4 => 4,
            LK48::V5 => 5,
            LK48::V6 => 6,
            LK48::V7 => 7,
            LK48::V8 => 8,
            LK48::V9 => 9,
            LK48::V10 => 10,
            LK48::V11 => 11,
            LK48::V12 => 12,
            LK48::V13 => 13,
            LK48::V14 => 14,
            LK48::V15 => 15,
            LK48::V16 => 16,
            LK48::V17 => 17,
            LK48::V18 => 18,
            LK48::V19 => 19,
            LK48::V20 => 20,
            LK48::V21 => 21,
            LK48::V22 => 22,
            LK48::V23 => 23,
            LK48::V24 => 24,
            LK48::V25 => 25,
            LK48::V26 => 26,
            LK48::V27 => 27,
            LK48::V28 => 28,
            LK48::V29 => 29,
            LK48::V30 => 30,
            LK48::V31 => 31,
            LK48::V32 => 32,
            LK48::V33 => 33,
            LK48::V34 => 34,
            LK48::V35 => 35,
            LK48::V36 => 36,
            LK48::V37 => 37,
            LK48::V38 => 38,
            LK48::V39 => 39,
            LK48::V40 => 40,
            LK48::V41 => 41,
            LK48::V42 => 42,
            LK48::V43 => 43,
            LK48::V44 => 44,
            LK48::V45 => 45,
            LK48::V46 => 46,
            LK48::V47 => 47,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..48 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LK48);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L63 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62 }
impl Dom for L63 {
    const N: usize = 63;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L63] = &[L63::V0, L63::V1, L63::V2, L63::V3, L63::V4, L63::V5, L63::V6, L63::V7, L63::V8, L63::V9, L63::V10, L63::V11, L63::V12, L63::V13, L63::V14, L63::V15, L63::V16, L63::V17, L63::V18, L63::V19, L63::V20, L63::V21, L63::V22, L63::V23, L63::V24, L63::V25, L63::V26, L63::V27, L63::V28, L63::V29, L63::V30, L63::V31, L63::V32, L63::V33, L63::V34, L63::V35, L63::V36, L63::V37, L63::V38, L63::V39, L63::V40, L63::V41, L63::V42, L63::V43, L63::V44, L63::V45, L63::V46, L63::V47, L63::V48, L63::V49, L63::V50, L63::V51, L63::V52, L63::V53, L63::V54, L63::V55, L63::V56, L63::V57, L63::V58, L63::V59, L63::V60, L63::V61, L63::V62];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L63::V0 => 0,
            L63::V1 => 1,
            L63::V2 => 2,
            L63::V3 => 3,
            L63::V4 => 4,
            L63::V5 => 5,
            L63::V6 => 6,
            L63::V7 => 7,
            L63::V8 => 8,
            L63::V9 => 9,
            L63::V10 => 10,
            L63::V11 => 11,
            L63::V12 => 12,
            L63::V13 => 13,
            L63::V14 => 14,
            L63::V15 => 15,
            L63::V16 => 16,
            L63::V17 => 17,
            L63::V18 => 18,
            L63::V19 => 19,
            L63::V20 => 20,
            L63::V21 => 21,
            L63::V22 => 22,
            L63::V23 => 23,
            L63::V24 => 24,
            L63::V25 => 25,
            L63::V26 => 26,
            L63::V27 => 27,
            L63::V28 => 28,
            L63::V29 => 29,
            L63::V30 => 30,
            L63::V31 => 31,
            L63::V32 => 32,
            L63::V33 => 33,
            L63::V34 => 34,
            L63::V35 => 35,
            L63::V36 => 36,
            L63::V37 => 37,
            L63::V38 => 38,
            L63::V39 => 39,
            L63::V40 => 40,
            L63::V41 => 41,
            L63::V42 => 42,
            L63::V43 => 43,
            L63::V44 => 44,
            L63::V45 => 45,
            L63::V46 => 46,
            L63::V47 => 47,
            L63::V48 => 48,
            L63::V49 => 49,
            L63::V50 => 50,
            L63::V51 => 51,
            L63::V52 => 52,
            L63::V53 => 53,
            L63::V54 => 54,
            L63::V55 => 55,
            L63::V56 => 56,
            L63::V57 => 57,
            L63::V58 => 58,
            L63::V59 => 59,
            L63::V60 => 60,
            L63::V61 => 61,
            L63::V62 => 62,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..63 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L63);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum LK63 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62 }
impl Dom for LK63 {
    const N: usize = 63;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[LK63] = &[LK63::V0, LK63::V1, LK63::V2, LK63::V3, LK63::V4, LK63::V5, LK63::V6, LK63::V7, LK63::V8, LK63::V9, LK63::V10, LK63::V11, LK63::V12, LK63::V13, LK63::V14, LK63::V15, LK63::V16, LK63::V17, LK63::V18, LK63::V19, LK63::V20, LK63::V21, LK63::V22, LK63::V23, LK63::V24, LK63::V25, LK63::V26, LK63::V27, LK63::V28, LK63::V29, LK63::V30, LK63::V31, LK63::V32, LK63::V33, LK63::V34, LK63::V35, LK63::V36, LK63::V37, LK63::V38, LK63::V39, LK63::V40, LK63::V41, LK63::V42, LK63::V43, LK63::V44, LK63::V45, LK63::V46, LK63::V47, LK63::V48, LK63::V49, LK63::V50, LK63::V51, LK63::V52, LK63::V53, LK63::V54, LK63::V55, LK63::V56, LK63::V57, LK63::V58, LK63::V59, LK63::V60, LK63::V61, LK63::V62];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            LK63::V0 => 0,
            LK63::V1 => 1,
            LK63::V2 => 2,
            LK63::V3 => 3,
            LK63::V4 => 4,
            LK63::V5 => 5,
            LK63::V6 => 6,
            LK63::V7 => 7,
            LK63::V8 => 8,
            LK63::V9 => 9,
            LK63::V10 => 10,
            LK63::V11 => 11,
            LK63::V12 => 12,
            LK63::V13 => 13,
            LK63::V14 => 14,
            LK63::V15 => 15,
            LK63::V16 => 16,
            LK63::V17 => 17,
            LK63::V18 => 18,
            LK63::V19 => 19,
            LK63::V20 => 20,
            LK63::V21 => 21,
            LK63::V22 => 22,
            LK63::V23 => 23,
            LK63::V24 => 24,
            LK63::V25 => 25,
            LK63::V26 => 26,
            LK63::V27 => 27,
            LK63::V28 => 28,
            LK63::V29 => 29,
            LK63::V30 => 30,
            LK63::V31 => 31,
            LK63::V32 => 32,
            LK63::V33 => 33,
            LK63::V34 => 34,
            LK63::V35 => 35,
            LK63::V36 => 36,
            LK63::V37 => 37,
            LK63::V38 => 38,
            LK63::V39 => 39,
            LK63::V40 => 40,
            LK63::V41 => 41,
            LK63::V42 => 42,
            LK63::V43 => 43,
            LK63::V44 => 44,
            LK63::V45 => 45,
            LK63::V46 => 46,
            LK63::V47 => 47,
            LK63::V48 => 48,
            LK63::V49 => 49,
            LK63::V50 => 50,
            LK63::V51 => 51,
            LK63::V52 => 52,
            LK63::V53 => 53,
            LK63::V54 => 54,
            LK63::V55 => 55,
            LK63::V56 => 56,
            LK63::V57 => 57,
            LK63::V58 => 58,
            LK63::V59 => 59,
            LK63::V60 => 60,
            LK63::V61 => 61,
            LK63::V62 => 62,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..63 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LK63);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L64 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }
impl Dom for L64 {
    const N: usize = 64;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L64] = &[L64::V0, L64::V1, L64::V2, L64::V3, L64::V4, L64::V5, L64::V6, L64::V7, L64::V8, L64::V9, L64::V10, L64::V11, L64::V12, L64::V13, L64::V14, L64::V15, L64::V16, L64::V17, L64::V18, L64::V19, L64::V20, L64::V21, L64::V22, L64::V23, L64::V24, L64::V25, L64::V26, L64::V27, L64::V28, L64::V29, L64::V30, L64::V31, L64::V32, L64::V33, L64::V34, L64::V35, L64::V36, L64::V37, L64::V38, L64::V39, L64::V40, L64::V41, L64::V42, L64::V43, L64::V44, L64::V45, L64::V46, L64::V47, L64::V48, L64::V49, L64::V50, L64::V51, L64::V52, L64::V53, L64::V54, L64::V55, L64::V56, L64::V57, L64::V58, L64::V59, L64::V60, L64::V61, L64::V62, L64::V63];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L64::V0 => 0,
            L64::V1 => 1,
            L64::V2 => 2,
            L64::V3 => 3,
            L64::V4 => 4,
            L64::V5 => 5,
            L64::V6 => 6,
            L64::V7 => 7,
            L64::V8 => 8,
            L64::V9 => 9,
            L64::V10 => 10,
            L64::V11 => 11,
            L64::V12 => 12,
            L64::V13 => 13,
            L64::V14 => 14,
            L64::V15 => 15,
            L64::V16 => 16,
            L64::V17 => 17,
            L64::V18 => 18,
            L64::V19 => 19,
            L64::V20 => 20,
            L64::V21 => 21,
            L64::V22 => 22,
            L64::V23 => 23,
            L64::V24 => 24,
            L64::V25 => 25,
            L64::V26 => 26,
            L64::V27 => 27,
            L64::V28 => 28,
            L64::V29 => 29,
            L64::V30 => 30,
            L64::V31 => 31,
            L64::V32 => 32,
            L64::V33 => 33,
            L64::V34 => 34,
            L64::V35 => 35,
            L64::V36 => 36,
            L64::V37 => 37,
            L64::V38 => 38,
            L64::V39 => 39,
            L64::V40 => 40,
            L64::V41 => 41,
            L64::V42 => 42,
            L64::V43 => 43,
            L64::V44 => 44,
            L64::V45 => 45,
            L64::V46 => 46,
            L64::V47 => 47,
            L64::V48 => 48,
            L64::V49 => 49,
            L64::V50 => 50,
            L64::V51 => 51,
            L64::V52 => 52,
            L64::V53 => 53,
            L64::V54 => 54,
            L64::V55 => 55,
            L64::V56 => 56,
            L64::V57 => 57,
            L64::V58 => 58,
            L64::V59 => 59,
            L64::V60 => 60,
            L64::V61 => 61,
            L64::V62 => 62,
            L64::V63 => 63,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..64 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L64);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum LK64 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }
impl Dom for LK64 {
    const N: usize = 64;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[LK64] = &[LK64::V0, LK64::V1, LK64::V2, LK64::V3, LK64::V4, LK64::V5, LK64::V6, LK64::V7, LK64::V8, LK64::V9, LK64::V10, LK64::V11, LK64::V12, LK64::V13, LK64::V14, LK64::V15, LK64::V16, LK64::V17, LK64::V18, LK64::V19, LK64::V20, LK64::V21, LK64::V22, LK64::V23, LK64::V24, LK64::V25, LK64::V26, LK64::V27, LK64::V28, LK64::V29, LK64::V30, LK64::V31, LK64::V32, LK64::V33, LK64::V34, LK64::V35, LK64::V36, LK64::V37, LK64::V38, LK64::V39, LK64::V40, LK64::V41, LK64::V42, LK64::V43, LK64::V44, LK64::V45, LK64::V46, LK64::V47, LK64::V48, LK64::V49, LK64::V50, LK64::V51, LK64::V52, LK64::V53, LK64::V54, LK64::V55, LK64::V56, LK64::V57, LK64::V58, LK64::V59, LK64::V60, LK64::V61, LK64::V62, LK64::V63];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            LK64::V0 => 0,
            LK64::V1 => 1,
            LK64::V2 => 2,
            LK64::V3 => 3,
            LK64::V4 => 4,
            LK64::V5 => 5,
            LK64::V6 => 6,
            LK64::V7 => 7,
            LK64::V8 => 8,
            LK64::V9 => 9,
            LK64::V10 => 10,
            LK64::V11 => 11,
            LK64::V12 => 12,
            LK64::V13 => 13,
            LK64::V14 => 14,
            LK64::V15 => 15,
            LK64::V16 => 16,
            LK64::V17 => 17,
            LK64::V18 => 18,
            LK64::V19 => 19,
            LK64::V20 => 20,
            LK64::V21 => 21,
            LK64::V22 => 22,
            LK64::V23 => 23,
            LK64::V24 => 24,
            LK64::V25 => 25,
            LK64::V26 => 26,
            LK64::V27 => 27,
            LK64::V28 => 28,
            LK64::V29 => 29,
            LK64::V30 => 30,
            LK64::V31 => 31,
            LK64::V32 => 32,
            LK64::V33 => 33,
            LK64::V34 => 34,
            LK64::V35 => 35,
            LK64::V36 => 36,
            LK64::V37 => 37,
            LK64::V38 => 38,
            LK64::V39 => 39,
            LK64::V40 => 40,
            LK64::V41 => 41,
            LK64::V42 => 42,
            LK64::V43 => 43,
            LK64::V44 => 44,
            LK64::V45 => 45,
            LK64::V46 => 46,
            LK64::V47 => 47,
            LK64::V48 => 48,
            LK64::V49 => 49,
            LK64::V50 => 50,
            LK64::V51 => 51,
            LK64::V52 => 52,
            LK64::V53 => 53,
            LK64::V54 => 54,
            LK64::V55 => 55,
            LK64::V56 => 56,
            LK64::V57 => 57,
            LK64::V58 => 58,
            LK64::V59 => 59,
            LK64::V60 => 60,
            LK64::V61 => 61,
            LK64::V62 => 62,
            LK64::V63 => 63,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..64 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LK64);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L65 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64 }
impl Dom for L65 {
    const N: usize = 65;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L65] = &[L65::V0, L65::V1, L65::V2, L65::V3, L65::V4, L65::V5, L65::V6, L65::V7, L65::V8, L65::V9, L65::V10, L65::V11, L65::V12, L65::V13, L65::V14, L65::V15, L65::V16, L65::V17, L65::V18, L65::V19, L65::V20, L65::V21, L65::V22, L65::V23, L65::V24, L65::V25, L65::V26, L65::V27, L65::V28, L65::V29, L65::V30, L65::V31, L65::V32, L65::V33, L65::V34, L65::V35, L65::V36, L65::V37, L65::V38, L65::V39, L65::V40, L65::V41, L65::V42, L65::V43, L65::V44, L65::V45, L65::V46, L65::V47, L65::V48, L65::V49, L65::V50, L65::V51, L65::V52, L65::V53, L65::V54, L65::V55, L65::V56, L65::V57, L65::V58, L65::V59, L65::V60, L65::V61, L65::V62, L65::V63, L65::V64];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L65::V0 => 0,
            L65::V1 => 1,
            L65::V2 => 2,
            L65::V3 => 3,
            L65::V4 => 4,
            L65::V5 => 5,
            L65::V6 => 6,
            L65::V7 => 7,
            L65::V8 => 8,
            L65::V9 => 9,
            L65::V10 => 10,
            L65::V11 => 11,
            L65::V12 => 12,
            L65::V13 => 13,
            L65::V14 => 14,
            L65::V15 => 15,
            L65::V16 => 16,
            L65::V17 => 17,
            L65::V18 => 18,
            L65::V19 => 19,
            L65::V20 => 20,
            L65::V21 => 21,
            L65::V22 => 22,
            L65::V23 => 23,
            L65::V24 => 24,
            L65::V25 => 25,
            L65::V26 => 26,
            L65::V27 => 27,
            L65::V28 => 28,
            L65::V29 => 29,
            L65::V30 => 30,
            L65::V31 => 31,
            L65::V32 => 32,
            L65::V33 => 33,
            L65::V34 => 34,
            L65::V35 => 35,
            L65::V36 => 36,
            L65::V37 => 37,
            L65::V38 => 38,
            L65::V39 => 39,
            L65::V40 => 40,
            L65::V41 => 41,
            L65::V42 => 42,
            L65::V43 => 43,
            L65::V44 => 44,
            L65::V45 => 45,
            L65::V46 => 46,
            L65::V47 => 47,
            L65::V48 => 48,
            L65::V49 => 49,
            L65::V50 => 50,
            L65::V51 => 51,
            L65::V52 => 52,
            L65::V53 => 53,
            L65::V54 => 54,
            L65::V55 => 55,
            L65::V56 => 56,
            L65::V57 => 57,
            L65::V58 => 58,
            L65::V59 => 59,
            L65::V60 => 60,
            L65::V61 => 61,
            L65::V62 => 62,
            L65::V63 => 63,
            L65::V64 => 64,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..65 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L65);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum LK65 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64 }
impl Dom for LK65 {
    const N: usize = 65;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[LK65] = &[LK65::V0, LK65::V1, LK65::V2, LK65::V3, LK65::V4, LK65::V5, LK65::V6, LK65::V7, LK65::V8, LK65::V9, LK65::V10, LK65::V11, LK65::V12, LK65::V13, LK65::V14, LK65::V15, LK65::V16, LK65::V17, LK65::V18, LK65::V19, LK65::V20, LK65::V21, LK65::V22, LK65::V23, LK65::V24, LK65::V25, LK65::V26, LK65::V27, LK65::V28, LK65::V29, LK65::V30, LK65::V31, LK65::V32, LK65::V33, LK65::V34, LK65::V35, LK65::V36, LK65::V37, LK65::V38, LK65::V39, LK65::V40, LK65::V41, LK65::V42, LK65::V43, LK65::V44, LK65::V45, LK65::V46, LK65::V47, LK65::V48, LK65::V49, LK65::V50, LK65::V51, LK65::V52, LK65::V53, LK65::V54, LK65::V55, LK65::V56, LK65::V57, LK65::V58, LK65::V59, LK65::V60, LK65::V61, LK65::V62, LK65::V63, LK65::V64];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            LK65::V0 => 0,
            LK65::V1 => 1,
            LK65::V2 => 2,
            LK65::V3 => 3,
            LK65::V4 => 4,
            LK65::V5 => 5,
            LK65::V6 => 6,
            LK65::V7 => 7,
            LK65::V8 => 8,
            LK65::V9 => 9,
            LK65::V10 => 10,
            LK65::V11 => 11,
            LK65::V12 => 12,
            LK65::V13 => 13,
            LK65::V14 => 14,
            LK65::V15 => 15,
            LK65::V16 => 16,
            LK65::V17 => 17,
            LK65::V18 => 18,
            LK65::V19 => 19,
            LK65::V20 => 20,
            LK65::V21 => 21,
            LK65::V22 => 22,
            LK65::V23 => 23,
            LK65::V24 => 24,
            LK65::V25 => 25,
            LK65::V26 => 26,
            LK65::V27 => 27,
            LK65::V28 => 28,
            LK65::V29 => 29,
            LK65::V30 => 30,
            LK65::V31 => 31,
            LK65::V32 => 32,
            LK65::V33 => 33,
            LK65::V34 => 34,
            LK65::V35 => 35,
            LK65::V36 => 36,
            LK65::V37 => 37,
            LK65::V38 => 38,
            LK65::V39 => 39,
            LK65::V40 => 40,
            LK65::V41 => 41,
            LK65::V42 => 42,
            LK65::V43 => 43,
            LK65::V44 => 44,
            LK65::V45 => 45,
            LK65::V46 => 46,
            LK65::V47 => 47,
            LK65::V48 => 48,
            LK65::V49 => 49,
            LK65::V50 => 50,
            LK65::V51 => 51,
            LK65::V52 => 52,
            LK65::V53 => 53,
            LK65::V54 => 54,
            LK65::V55 => 55,
            LK65::V56 => 56,
            LK65::V57 => 57,
            LK65::V58 => 58,
            LK65::V59 => 59,
            LK65::V60 => 60,
            LK65::V61 => 61,
            LK65::V62 => 62,
            LK65::V63 => 63,
            LK65::V64 => 64,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..65 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LK65);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L96 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95 }
impl Dom for L96 {
    const N: usize = 96;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L96] = &[L96::V0, L96::V1, L96::V2, L96::V3, L96::V4, L96::V5, L96::V6, L96::V7, L96::V8, L96::V9, L96::V10, L96::V11, L96::V12, L96::V13, L96::V14, L96::V15, L96::V16, L96::V17, L96::V18, L96::V19, L96::V20, L96::V21, L96::V22, L96::V23, L96::V24, L96::V25, L96::V26, L96::V27, L96::V28, L96::V29, L96::V30, L96::V31, L96::V32, L96::V33, L96::V34, L96::V35, L96::V36, L96::V37, L96::V38, L96::V39, L96::V40, L96::V41, L96::V42, L96::V43, L96::V44, L96::V45, L96::V46, L96::V47, L96::V48, L96::V49, L96::V50, L96::V51, L96::V52, L96::V53, L96::V54, L96::V55, L96::V56, L96::V57, L96::V58, L96::V59, L96::V60, L96::V61, L96::V62, L96::V63, L96::V64, L96::V65, L96::V66, L96::V67, L96::V68, L96::V69, L96::V70, L96::V71, L96::V72, L96::V73, L96::V74, L96::V75, L96::V76, L96::V77, L96::V78, L96::V79, L96::V80, L96::V81, L96::V82, L96::V83, L96::V84, L96::V85, L96::V86, L96::V87, L96::V88, L96::V89, L96::V90, L96::V91, L96::V92, L96::V93, L96::V94, L96::V95];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L96::V0 => 0,
            L96::V1 => 1,
            L96::V2 => 2,
            L96::V3 => 3,
            L96::V4 => 4,
            L96::V5 => 5,
            L96::V6 => 6,
            L96::V7 => 7,
            L96::V8 => 8,
            L96::V9 => 9,
            L96::V10 => 10,
            L96::V11 => 11,
            L96::V12 => 12,
            L96::V13 => 13,
            L96::V14 => 14,
            L96::V15 => 15,
            L96::V16 => 16,
            L96::V17 => 17,
            L96::V18 => 18,
            L96::V19 => 19,
            L96::V20 => 20,
            L96::V21 => 21,
            L96::V22 => 22,
            L96::V23 => 23,
            L96::V24 => 24,
            L96::V25 => 25,
            L96::V26 => 26,
            L96::V27 => 27,
            L96::V28 => 28,
            L96::V29 => 29,
            L96::V30 => 30,
            L96::V31 => 31,
            L96::V32 => 32,
            L96::V33 => 33,
            L96::V34 => 34,
            L96::V35 => 35,
            L96::V36 => 36,
            L96::V37 => 37,
            L96::V38 => 38,
            L96::V39 => 39,
            L96::V40 => 40,
            L96::V41 => 41,
            L96::V42 => 42,
            L96::V43 => 43,
            L96::V44 => 44,
            L96::V45 => 45,
            L96::V46 => 46,
            L96::V47 => 47,
            L96::V48 => 48,
            L96::V49 => 49,
            L96::V50 => 50,
            L96::V51 => 51,
            L96::V52 => 52,
            L96::V53 => 53,
            L96::V54 => 54,
            L96::V55 => 55,
            L96::V56 => 56,
            L96::V57 => 57,
            L96::V58 => 58,
            L96::V59 => 59,
            L96::V60 => 60,
            L96::V61 => 61,
            L96::V62 => 62,
            L96::V63 => 63,
            L96::V64 => 64,
            L96::V65 => 65,
            L96::V66 => 66,
            L96::V67 => 67,
            L96::V68 => 68,
            L96::V69 => 69,
            L96::V70 => 70,
            L96::V71 => 71,
            L96::V72 => 72,
            L96::V73 => 73,
            L96::V74 => 74,
            L96::V75 => 75,
            L96::V76 => 76,
            L96::V77 => 77,
            L96::V78 => 78,
            L96::V79 => 79,
            L96::V80 => 80,
            L96::V81 => 81,
            L96::V82 => 82,
            L96::V83 => 83,
            L96::V84 => 84,
            L96::V85 => 85,
            L96::V86 => 86,
            L96::V87 => 87,
            L96::V88 => 88,
            L96::V89 => 89,
            L96::V90 => 90,
            L96::V91 => 91,
            L96::V92 => 92,
            L96::V93 => 93,
            L96::V94 => 94,
            L96::V95 => 95,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..96 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L96);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum LK96 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95 }
impl Dom for LK96 {
    const N: usize = 96;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[LK96] = &[LK96::V0, LK96::V1, LK96::V2, LK96::V3, LK96::V4, LK96::V5, LK96::V6, LK96::V7, LK96::V8, LK96::V9, LK96::V10, LK96::V11, LK96::V12, LK96::V13, LK96::V14, LK96::V15, LK96::V16, LK96::V17, LK96::V18, LK96::V19, LK96::V20, LK96::V21, LK96::V22, LK96::V23, LK96::V24, LK96::V25, LK96::V26, LK96::V27, LK96::V28, LK96::V29, LK96::V30, LK96::V31, LK96::V32, LK96::V33, LK96::V34, LK96::V35, LK96::V36, LK96::V37, LK96::V38, LK96::V39, LK96::V40, LK96::V41, LK96::V42, LK96::V43, LK96::V44, LK96::V45, LK96::V46, LK96::V47, LK96::V48, LK96::V49, LK96::V50, LK96::V51, LK96::V52, LK96::V53, LK96::V54, LK96::V55, LK96::V56, LK96::V57, LK96::V58, LK96::V59, LK96::V60, LK96::V61, LK96::V62, LK96::V63, LK96::V64, LK96::V65, LK96::V66, LK96::V67, LK96::V68, LK96::V69, LK96::V70, LK96::V71, LK96::V72, LK96::V73, LK96::V74, LK96::V75, LK96::V76, LK96::V77, LK96::V78, LK96::V79, LK96::V80, LK96::V81, LK96::V82, LK96::V83, LK96::V84, LK96::V85, LK96::V86, LK96::V87, LK96::V88, LK96::V89, LK96::V90, LK96::V91, LK96::V92, LK96::V93, LK96::V94, LK96::V95];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            LK96::V0 => 0,
            LK96::V1 => 1,
            LK96::V2 => 2,
            LK96::V3 => 3,
            LK96::V4 => 4,
            LK96::V5 => 5,
            LK96::V6 => 6,
            LK96::V7 => 7,
            LK96::V8 => 8,
            LK96::V9 => 9,
            LK96::V10 => 10,
            LK96::V11 => 11,
            LK96::V12 => 12,
            LK96::V13 => 13,
            LK96::V14 => 14,
            LK96::V15 => 15,
            LK96::V16 => 16,
            LK96::V17 => 17,
            LK96::V18 => 18,
            LK96::V19 => 19,
            LK96::V20 => 20,
            LK96::V21 => 21,
            LK96::V22 => 22,
            LK96::V23 => 23,
            LK96::V24 => 24,
            LK96::V25 => 25,
            LK96::V26 => 26,
            LK96::V27 => 27,
            LK96::V28 => 28,
            LK96::V29 => 29,
            LK96::V30 => 30,
            LK96::V31 => 31,
            LK96::V32 => 32,
            LK96::V33 => 33,
            LK96::V34 => 34,
            LK96::V35 => 35,
            LK96::V36 => 36,
            LK96::V37 => 37,
            LK96::V38 => 38,
            LK96::V39 => 39,
            LK96::V40 => 40,
            LK96::V41 => 41,
            LK96::V42 => 42,
            LK96::V43 => 43,
            LK96::V44 => 44,
            LK96::V45 => 45,
            LK96::V46 => 46,
            LK96::V47 => 47,
            LK96::V48 => 48,
            LK96::V49 => 49,
            LK96::V50 => 50,
            LK96::V51 => 51,
            LK96::V52 => 52,
            LK96::V53 => 53,
            LK96::V54 => 54,
            LK96::V55 => 55,
            LK96::V56 => 56,
            LK96::V57 => 57,
            LK96::V58 => 58,
            LK96::V59 => 59,
            LK96::V60 => 60,
            LK96::V61 => 61,
            LK96::V62 => 62,
            LK96::V63 => 63,
            LK96::V64 => 64,
            LK96::V65 => 65,
            LK96::V66 => 66,
            LK96::V67 => 67,
            LK96::V68 => 68,
            LK96::V69 => 69,
            LK96::V70 => 70,
            LK96::V71 => 71,
            LK96::V72 => 72,
            LK96::V73 => 73,
            LK96::V74 => 74,
            LK96::V75 => 75,
            LK96::V76 => 76,
            LK96::V77 => 77,
            LK96::V78 => 78,
            LK96::V79 => 79,
            LK96::V80 => 80,
            LK96::V81 => 81,
            LK96::V82 => 82,
            LK96::V83 => 83,
            LK96::V84 => 84,
            LK96::V85 => 85,
            LK96::V86 => 86,
            LK96::V87 => 87,
            LK96::V88 => 88,
            LK96::V89 => 89,
            LK96::V90 => 90,
            LK96::V91 => 91,
            LK96::V92 => 92,
            LK96::V93 => 93,
            LK96::V94 => 94,
            LK96::V95 => 95,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..96 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LK96);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L127 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126 }
impl Dom for L127 {
    const N: usize = 127;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L127] = &[L127::V0, L127::V1, L127::V2, L127::V3, L127::V4, L127::V5, L127::V6, L127::V7, L127::V8, L127::V9, L127::V10, L127::V11, L127::V12, L127::V13, L127::V14, L127::V15, L127::V16, L127::V17, L127::V18, L127::V19, L127::V20, L127::V21, L127::V22, L127::V23, L127::V24, L127::V25, L127::V26, L127::V27, L127::V28, L127::V29, L127::V30, L127::V31, L127::V32, L127::V33, L127::V34, L127::V35, L127::V36, L127::V37, L127::V38, L127::V39, L127::V40, L127::V41, L127::V42, L127::V43, L127::V44, L127::V45, L127::V46, L127::V47, L127::V48, L127::V49, L127::V50, L127::V51, L127::V52, L127::V53, L127::V54, L127::V55, L127::V56, L127::V57, L127::V58, L127::V59, L127::V60, L127::V61, L127::V62, L127::V63, L127::V64, L127::V65, L127::V66, L127::V67, L127::V68, L127::V69, L127::V70, L127::V71, L127::V72, L127::V73, L127::V74, L127::V75, L127::V76, L127::V77, L127::V78, L127::V79, L127::V80, L127::V81, L127::V82, L127::V83, L127::V84, L127::V85, L127::V86, L127::V87, L127::V88, L127::V89, L127::V90, L127::V91, L127::V92, L127::V93, L127::V94, L127::V95, L127::V96, L127::V97, L127::V98, L127::V99, L127::V100, L127::V101, L127::V102, L127::V103, L127::V104, L127::V105, L127::V106, L127::V107, L127::V108, L127::V109, L127::V110, L127::V111, L127::V112, L127::V113, L127::V114, L127::V115, L127::V116, L127::V117, L127::V118, L127::V119, L127::V120, L127::V121, L127::V122, L127::V123, L127::V124, L127::V125, L127::V126];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L127::V0 => 0,
            L127::V1 => 1,
            L127::V2 => 2,
            L127::V3 => 3,
            L127::V4 => 4,
            L127::V5 => 5,
            L127::V6 => 6,
            L127::V7 => 7,
            L127::V8 => 8,
            L127::V9 => 9,
            L127::V10 => 10,
            L127::V11 => 11,
            L127::V12 => 12,
            L127::V13 => 13,
            L127::V14 => 14,
            L127::V15 => 15,
            L127::V16 => 16,
            L127::V17 => 17,
            L127::V18 => 18,
            L127::V19 => 19,
            L127::V20 => 20,
            L127::V21 => 21,
            L127::V22 => 22,
            L127::V23 => 23,
            L127::V24 => 24,
            L127::V25 => 25,
            L127::V26 => 26,
            L127::V27 => 27,
            L127::V28 => 28,
            L127::V29 => 29,
            L127::V30 => 30,
            L127::V31 => 31,
            L127::V32 => 32,
            L127::V33 => 33,
            L127::V34 => 34,
            L127::V35 => 35,
            L127::V36 => 36,
            L127::V37 => 37,
            L127::V38 => 38,
            L127::V39 => 39,
            L127::V40 => 40,
            L127::V41 => 41,
            L127::V42 => 42,
            L127::V43 => 43,
            L127::V44 => 44,
            L127::V45 => 45,
            L127::V46 => 46,
            L127::V47 => 47,
            L127::V48 => 48,
            L127::V49 => 49,
            L127::V50 => 50,
            L127::V51 => 51,
            L127::V52 => 52,
            L127::V53 => 53,
            L127::V54 => 54,
            L127::V55 => 55,
            L127::V56 => 56,
            L127::V57 => 57,
            L127::V58 => 58,
            L127::V59 => 59,
            L127::V60 => 60,
            L127::V61 => 61,
            L127::V62 => 62,
            L127::V63 => 63,
            L127::V64 => 64,
            L127::V65 => 65,
            L127::V66 => 66,
            L127::V67 => 67,
            L127::V68 => 68,
            L127::V69 => 69,
            L127::V70 => 70,
            L127::V71 => 71,
            L127::V72 => 72,
            L127::V73 => 73,
            L127::V74 => 74,
            L127::V75 => 75,
            L127::V76 => 76,
            L127::V77 => 77,
            L127::V78 => 78,
            L127::V79 => 79,
            L127::V80 => 80,
            L127::V81 => 81,
            L127::V82 => 82,
            L127::V83 => 83,
            L127::V84 => 84,
            L127::V85 => 85,
            L127::V86 => 86,
            L127::V87 => 87,
            L127::V88 => 88,
            L127::V89 => 89,
            L127::V90 => 90,
            L127::V91 => 91,
            L127::V92 => 92,
            L127::V93 => 93,
            L127::V94 => 94,
            L127::V95 => 95,
            L127::V96 => 96,
            L127::V97 => 97,
            L127::V98 => 98,
            L127::V99 => 99,
            L127::V100 => 100,
            L127::V101 => 101,
            L127::V102 => 102,
            L127::V103 => 103,
            L127::V104 => 104,
            L127::V105 => 105,
            L127::V106 => 106,
            L127::V107 => 107,
            L127::V108 => 108,
            L127::V109 => 109,
            L127::V110 => 110,
            L127::V111 => 111,
            L127::V112 => 112,
            L127::V113 => 113,
            L127::V114 => 114,
            L127::V115 => 115,
            L127::V116 => 116,
            L127::V117 => 117,
            L127::V118 => 118,
            L127::V119 => 119,
            L127::V120 => 120,
            L127::V121 => 121,
            L127::V122 => 122,
            L127::V123 => 123,
            L127::V124 => 124,
            L127::V125 => 125,
            L127::V126 => 126,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..127 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L127);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum LK127 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126 }
impl Dom for LK127 {
    const N: usize = 127;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[LK127] = &[LK127::V0, LK127::V1, LK127::V2, LK127::V3, LK127::V4, LK127::V5, LK127::V6, LK127::V7, LK127::V8, LK127::V9, LK127::V10, LK127::V11, LK127::V12, LK127::V13, LK127::V14, LK127::V15, LK127::V16, LK127::V17, LK127::V18, LK127::V19, LK127::V20, LK127::V21, LK127::V22, LK127::V23, LK127::V24, LK127::V25, LK127::V26, LK127::V27, LK127::V28, LK127::V29, LK127::V30, LK127::V31, LK127::V32, LK127::V33, LK127::V34, LK127::V35, LK127::V36, LK127::V37, LK127::V38, LK127::V39, LK127::V40, LK127::V41, LK127::V42, LK127::V43, LK127::V44, LK127::V45, LK127::V46, LK127::V47, LK127::V48, LK127::V49, LK127::V50, LK127::V51, LK127::V52, LK127::V53, LK127::V54, LK127::V55, LK127::V56, LK127::V57, LK127::V58, LK127::V59, LK127::V60, LK127::V61, LK127::V62, LK127::V63, LK127::V64, LK127::V65, LK127::V66, LK127::V67, LK127::V68, LK127::V69, LK127::V70, LK127::V71, LK127::V72, LK127::V73, LK127::V74, LK127::V75, LK127::V76, LK127::V77, LK127::V78, LK127::V79, LK127::V80, LK127::V81, LK127::V82, LK127::V83, LK127::V84, LK127::V85, LK127::V86, LK127::V87, LK127::V88, LK127::V89, LK127::V90, LK127::V91, LK127::V92, LK127::V93, LK127::V94, LK127::V95, LK127::V96, LK127::V97, LK127::V98, LK127::V99, LK127::V100, LK127::V101, LK127::V102, LK127::V103, LK127::V104, LK127::V105, LK127::V106, LK127::V107, LK127::V108, LK127::V109, LK127::V110, LK127::V111, LK127::V112, LK127::V113, LK127::V114, LK127::V115, LK127::V116, LK127::V117, LK127::V118, LK127::V119, LK127::V120, LK127::V121, LK127::V122, LK127::V123, LK127::V124, LK127::V125, LK127::V126];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            LK127::V0 => 0,
            LK127::V1 => 1,
            LK127::V2 => 2,
            LK127::V3 => 3,
            LK127::V4 => 4,
            LK127::V5 => 5,
            LK127::V6 => 6,
            LK127::V7 => 7,
            LK127::V8 => 8,
            LK127::V9 => 9,
            LK127::V10 => 10,
            LK127::V11 => 11,
            LK127::V12 => 12,
            LK127::V13 => 13,
            LK127::V14 => 14,
            LK127::V15 => 15,
            LK127::V16 => 16,
            LK127::V17 => 17,
            LK127::V18 => 18,
            LK127::V19 => 19,
            LK127::V20 => 20,
            LK127::V21 => 21,
            LK127::V22 => 22,
            LK127::V23 => 23,
            LK127::V24 => 24,
            LK127::V25 => 25,
            LK127::V26 => 26,
            LK127::V27 => 27,
            LK127::V28 => 28,
            LK127::V29 => 29,
            LK127::V30 => 30,
            LK127::V31 => 31,
            LK127::V32 => 32,
            LK127::V33 => 33,
            LK127::V34 => 34,
            LK127::V35 => 35,
            LK127::V36 => 36,
            LK127::V37 => 37,
            LK127::V38 => 38,
            LK127::V39 => 39,
            LK127::V40 => 40,
            LK127::V41 => 41,
            LK127::V42 => 42,
            LK127::V43 => 43,
            LK127::V44 => 44,
            LK127::V45 => 45,
            LK127::V46 => 46,
            LK127::V47 => 47,
            LK127::V48 => 48,
            LK127::V49 => 49,
            LK127::V50 => 50,
            LK127::V51 => 51,
            LK127::V52 => 52,
            LK127::V53 => 53,
            LK127::V54 => 54,
            LK127::V55 => 55,
            LK127::V56 => 56,
            LK127::V57 => 57,
            LK127::V58 => 58,
            LK127::V59 => 59,
            LK127::V60 => 60,
            LK127::V61 => 61,
            LK127::V62 => 62,
            LK127::V63 => 63,
            LK127::V64 => 64,
            LK127::V65 => 65,
            LK127::V66 => 66,
            LK127::V67 => 67,
            LK127::V68 => 68,
            LK127::V69 => 69,
            LK127::V70 => 70,
            LK127::V71 => 71,
            LK127::V72 => 72,
            LK127::V73 => 73,
            LK127::V74 => 74,
            LK127::V75 => 75,
            LK127::V76 => 76,
            LK127::V77 => 77,
            LK127::V78 => 78,
            LK127::V79 => 79,
            LK127::V80 => 80,
            LK127::V81 => 81,
            LK127::V82 => 82,
            LK127::V83 => 83,
            LK127::V84 => 84,
            LK127::V85 => 85,
            LK127::V86 => 86,
            LK127::V87 => 87,
            LK127::V88 => 88,
            LK127::V89 => 89,
            LK127::V90 => 90,
            LK127::V91 => 91,
            LK127::V92 => 92,
            LK127::V93 => 93,
            LK127::V94 => 94,
            LK127::V95 => 95,
            LK127::V96 => 96,
            LK127::V97 => 97,
            LK127::V98 => 98,
            LK127::V99 => 99,
            LK127::V100 => 100,
            LK127::V101 => 101,
            LK127::V102 => 102,
            LK127::V103 => 103,
            LK127::V104 => 104,
            LK127::V105 => 105,
            LK127::V106 => 106,
            LK127::V107 => 107,
            LK127::V108 => 108,
            LK127::V109 => 109,
            LK127::V110 => 110,
            LK127::V111 => 111,
            LK127::V112 => 112,
            LK127::V113 => 113,
            LK127::V114 => 114,
            LK127::V115 => 115,
            LK127::V116 => 116,
            LK127::V117 => 117,
            LK127::V118 => 118,
            LK127::V119 => 119,
            LK127::V120 => 120,
            LK127::V121 => 121,
            LK127::V122 => 122,
            LK127::V123 => 123,
            LK127::V124 => 124,
            LK127::V125 => 125,
            LK127::V126 => 126,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..127 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LK127);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L128 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
impl Dom for L128 {
    const N: usize = 128;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L128] = &[L128::V0, L128::V1, L128::V2, L128::V3, L128::V4, L128::V5, L128::V6, L128::V7, L128::V8, L128::V9, L128::V10, L128::V11, L128::V12, L128::V13, L128::V14, L128::V15, L128::V16, L128::V17, L128::V18, L128::V19, L128::V20, L128::V21, L128::V22, L128::V23, L128::V24, L128::V25, L128::V26, L128::V27, L128::V28, L128::V29, L128::V30, L128::V31, L128::V32, L128::V33, L128::V34, L128::V35, L128::V36, L128::V37, L128::V38, L128::V39, L128::V40, L128::V41, L128::V42, L128::V43, L128::V44, L128::V45, L128::V46, L128::V47, L128::V48, L128::V49, L128::V50, L128::V51, L128::V52, L128::V53, L128::V54, L128::V55, L128::V56, L128::V57, L128::V58, L128::V59, L128::V60, L128::V61, L128::V62, L128::V63, L128::V64, L128::V65, L128::V66, L128::V67, L128::V68, L128::V69, L128::V70, L128::V71, L128::V72, L128::V73, L128::V74, L128::V75, L128::V76, L128::V77, L128::V78, L128::V79, L128::V80, L128::V81, L128::V82, L128::V83, L128::V84, L128::V85, L128::V86, L128::V87, L128::V88, L128::V89, L128::V90, L128::V91, L128::V92, L128::V93, L128::V94, L128::V95, L128::V96, L128::V97, L128::V98, L128::V99, L128::V100, L128::V101, L128::V102, L128::V103, L128::V104, L128::V105, L128::V106, L128::V107, L128::V108, L128::V109, L128::V110, L128::V111, L128::V112, L128::V113, L128::V114, L128::V115, L128::V116, L128::V117, L128::V118, L128::V119, L128::V120, L128::V121, L128::V122, L128::V123, L128::V124, L128::V125, L128::V126, L128::V127];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L128::V0 => 0,
            L128::V1 => 1,
            L128::V2 => 2,
            L128::V3 => 3,
            L128::V4 => 4,
            L128::V5 => 5,
            L128::V6 => 6,
            L128::V7 => 7,
            L128::V8 => 8,
            L128::V9 => 9,
            L128::V10 => 10,
            L128::V11 => 11,
            L128::V12 => 12,
            L128::V13 => 13,
            L128::V14 => 14,
            L128::V15 => 15,
            L128::V16 => 16,
            L128::V17 => 17,
            L128::V18 => 18,
            L128::V19 => 19,
            L128::V20 => 20,
            L128::V21 => 21,
            L128::V22 => 22,
            L128::V23 => 23,
            L128::V24 => 24,
            L128::V25 => 25,
            L128::V26 => 26,
            L128::V27 => 27,
            L128::V28 => 28,
            L128::V29 => 29,
            L128::V30 => 30,
            L128::V31 => 31,
            L128::V32 => 32,
            L128::V33 => 33,
            L128::V34 => 34,
            L128::V35 => 35,
            L128::V36 => 36,
            L128::V37 => 37,
            L128::V38 => 38,
            L128::V39 => 39,
            L128::V40 => 40,
            L128::V41 => 41,
            L128::V42 => 42,
            L128::V43 => 43,
            L128::V44 => 44,
            L128::V45 => 45,
            L128::V46 => 46,
            L128::V47 => 47,
            L128::V48 => 48,
            L128::V49 => 49,
            L128::V50 => 50,
            L128::V51 => 51,
            L128::V52 => 52,
            L128::V53 => 53,
            L128::V54 => 54,
            L128::V55 => 55,
            L128::V56 => 56,
            L128::V57 => 57,
            L128::V58 => 58,
            L128::V59 => 59,
            L128::V60 => 60,
            L128::V61 => 61,
            L128::V62 => 62,
            L128::V63 => 63,
            L128::V64 => 64,
            L128::V65 => 65,
            L128::V66 => 66,
            L128::V67 => 67,
            L128::V68 => 68,
            L128::V69 => 69,
            L128::V70 => 70,
            L128::V71 => 71,
            L128::V72 => 72,
            L128::V73 => 73,
            L128::V74 => 74,
            L128::V75 => 75,
            L128::V76 => 76,
            L128::V77 => 77,
            L128::V78 => 78,
            L128::V79 => 79,
            L128::V80 => 80,
            L128::V81 => 81,
            L128::V82 => 82,
            L128::V83 => 83,
            L128::V84 => 84,
            L128::V85 => 85,
            L128::V86 => 86,
            L128::V87 => 87,
            L128::V88 => 88,
            L128::V89 => 89,
            L128::V90 => 90,
            L128::V91 => 91,
            L128::V92 => 92,
            L128::V93 => 93,
            L128::V94 => 94,
            L128::V95 => 95,
            L128::V96 => 96,
            L128::V97 => 97,
            L128::V98 => 98,
            L128::V99 => 99,
            L128::V100 => 100,
            L128::V101 => 101,
            L128::V102 => 102,
            L128::V103 => 103,
            L128::V104 => 104,
            L128::V105 => 105,
            L128::V106 => 106,
            L128::V107 => 107,
            L128::V108 => 108,
            L128::V109 => 109,
            L128::V110 => 110,
            L128::V111 => 111,
            L128::V112 => 112,
            L128::V113 => 113,
            L128::V114 => 114,
            L128::V115 => 115,
            L128::V116 => 116,
            L128::V117 => 117,
            L128::V118 => 118,
            L128::V119 => 119,
            L128::V120 => 120,
            L128::V121 => 121,
            L128::V122 => 122,
            L128::V123 => 123,
            L128::V124 => 124,
            L128::V125 => 125,
            L128::V126 => 126,
            L128::V127 => 127,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..128 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L128);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum LK128 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
impl Dom for LK128 {
    const N: usize = 128;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[LK128] = &[LK128::V0, LK128::V1, LK128::V2, LK128::V3, LK128::V4, LK128::V5, LK128::V6, LK128::V7, LK128::V8, LK128::V9, LK128::V10, LK128::V11, LK128::V12, LK128::V13, LK128::V14, LK128::V15, LK128::V16, LK128::V17, LK128::V18, LK128::V19, LK128::V20, LK128::V21, LK128::V22, LK128::V23, LK128::V24, LK128::V25, LK128::V26, LK128::V27, LK128::V28, LK128::V29, LK128::V30, LK128::V31, LK128::V32, LK128::V33, LK128::V34, LK128::V35, LK128::V36, LK128::V37, LK128::V38, LK128::V39, LK128::V40, LK128::V41, LK128::V42, LK128::V43, LK128::V44, LK128::V45, LK128::V46, LK128::V47, LK128::V48, LK128::V49, LK128::V50, LK128::V51, LK128::V52, LK128::V53, LK128::V54, LK128::V55, LK128::V56, LK128::V57, LK128::V58, LK128::V59, LK128::V60, LK128::V61, LK128::V62, LK128::V63, LK128::V64, LK128::V65, LK128::V66, LK128::V67, LK128::V68, LK128::V69, LK128::V70, LK128::V71, LK128::V72, LK128::V73, LK128::V74, LK128::V75, LK128::V76, LK128::V77, LK128::V78, LK128::V79, LK128::V80, LK128::V81, LK128::V82, LK128::V83, LK128::V84, LK128::V85, LK128::V86, LK128::V87, LK128::V88, LK128::V89, LK128::V90, LK128::V91, LK128::V92, LK128::V93, LK128::V94, LK128::V95, LK128::V96, LK128::V97, LK128::V98, LK128::V99, LK128::V100, LK128::V101, LK128::V102, LK128::V103, LK128::V104, LK128::V105, LK128::V106, LK128::V107, LK128::V108, LK128::V109, LK128::V110, LK128::V111, LK128::V112, LK128::V113, LK128::V114, LK128::V115, LK128::V116, LK128::V117, LK128::V118, LK128::V119, LK128::V120, LK128::V121, LK128::V122, LK128::V123, LK128::V124, LK128::V125, LK128::V126, LK128::V127];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            LK128::V0 => 0,
            LK128::V1 => 1,
            LK128::V2 => 2,
            LK128::V3 => 3,
            LK128::V4 => 4,
            LK128::V5 => 5,
            LK128::V6 => 6,
            LK128::V7 => 7,
            LK128::V8 => 8,
            LK128::V9 => 9,
            LK128::V10 => 10,
            LK128::V11 => 11,
            LK128::V12 => 12,
            LK128::V13 => 13,
            LK128::V14 => 14,
            LK128::V15 => 15,
            LK128::V16 => 16,
            LK128::V17 => 17,
            LK128::V18 => 18,
            LK128::V19 => 19,
            LK128::V20 => 20,
            LK128::V21 => 21,
            LK128::V22 => 22,
            LK128::V23 => 23,
            LK128::V24 => 24,
            LK128::V25 => 25,
            LK128::V26 => 26,
            LK128::V27 => 27,
            LK128::V28 => 28,
            LK128::V29 => 29,
            LK128::V30 => 30,
            LK128::V31 => 31,
            LK128::V32 => 32,
            LK128::V33 => 33,
            LK128::V34 => 34,
            LK128::V35 => 35,
            LK128::V36 => 36,
            LK128::V37 => 37,
            LK128::V38 => 38,
            LK128::V39 => 39,
            LK128::V40 => 40,
            LK128::V41 => 41,
            LK128::V42 => 42,
            LK128::V43 => 43,
            LK128::V44 => 44,
            LK128::V45 => 45,
            LK128::V46 => 46,
            LK128::V47 => 47,
            LK128::V48 => 48,
            LK128::V49 => 49,
            LK128::V50 => 50,
            LK128::V51 => 51,
            LK128::V52 => 52,
            LK128::V53 => 53,
            LK128::V54 => 54,
            LK128::V55 => 55,
            LK128::V56 => 56,
            LK128::V57 => 57,
            LK128::V58 => 58,
            LK128::V59 => 59,
            LK128::V60 => 60,
            LK128::V61 => 61,
            LK128::V62 => 62,
            LK128::V63 => 63,
            LK128::V64 => 64,
            LK128::V65 => 65,
            LK128::V66 => 66,
            LK128::V67 => 67,
            LK128::V68 => 68,
            LK128::V69 => 69,
            LK128::V70 => 70,
            LK128::V71 => 71,
            LK128::V72 => 72,
            LK128::V73 => 73,
            LK128::V74 => 74,
            LK128::V75 => 75,
            LK128::V76 => 76,
            LK128::V77 => 77,
            LK128::V78 => 78,
            LK128::V79 => 79,
            LK128::V80 => 80,
            LK128::V81 => 81,
            LK128::V82 => 82,
            LK128::V83 => 83,
            LK128::V84 => 84,
            LK128::V85 => 85,
            LK128::V86 => 86,
            LK128::V87 => 87,
            LK128::V88 => 88,
            LK128::V89 => 89,
            LK128::V90 => 90,
            LK128::V91 => 91,
            LK128::V92 => 92,
            LK128::V93 => 93,
            LK128::V94 => 94,
            LK128::V95 => 95,
            LK128::V96 => 96,
            LK128::V97 => 97,
            LK128::V98 => 98,
            LK128::V99 => 99,
            LK128::V100 => 100,
            LK128::V101 => 101,
            LK128::V102 => 102,
            LK128::V103 => 103,
            LK128::V104 => 104,
            LK128::V105 => 105,
            LK128::V106 => 106,
            LK128::V107 => 107,
            LK128::V108 => 108,
            LK128::V109 => 109,
            LK128::V110 => 110,
            LK128::V111 => 111,
            LK128::V112 => 112,
            LK128::V113 => 113,
            LK128::V114 => 114,
            LK128::V115 => 115,
            LK128::V116 => 116,
            LK128::V117 => 117,
            LK128::V118 => 118,
            LK128::V119 => 119,
            LK128::V120 => 120,
            LK128::V121 => 121,
            LK128::V122 => 122,
            LK128::V123 => 123,
            LK128::V124 => 124,
            LK128::V125 => 125,
            LK128::V126 => 126,
            LK128::V127 => 127,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..128 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LK128);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L129 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128 }
impl Dom for L129 {
    const N: usize = 129;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L129] = &[L129::V0, L129::V1, L129::V2, L129::V3, L129::V4, L129::V5, L129::V6, L129::V7, L129::V8, L129::V9, L129::V10, L129::V11, L129::V12, L129::V13, L129::V14, L129::V15, L129::V16, L129::V17, L129::V18, L129::V19, L129::V20, L129::V21, L129::V22, L129::V23, L129::V24, L129::V25, L129::V26, L129::V27, L129::V28, L129::V29, L129::V30, L129::V31, L129::V32, L129::V33, L129::V34, L129::V35, L129::V36, L129::V37, L129::V38, L129::V39, L129::V40, L129::V41, L129::V42, L129::V43, L129::V44, L129::V45, L129::V46, L129::V47, L129::V48, L129::V49, L129::V50, L129::V51, L129::V52, L129::V53, L129::V54, L129::V55, L129::V56, L129::V57, L129::V58, L129::V59, L129::V60, L129::V61, L129::V62, L129::V63, L129::V64, L129::V65, L129::V66, L129::V67, L129::V68, L129::V69, L129::V70, L129::V71, L129::V72, L129::V73, L129::V74, L129::V75, L129::V76, L129::V77, L129::V78, L129::V79, L129::V80, L129::V81, L129::V82, L129::V83, L129::V84, L129::V85, L129::V86, L129::V87, L129::V88, L129::V89, L129::V90, L129::V91, L129::V92, L129::V93, L129::V94, L129::V95, L129::V96, L129::V97, L129::V98, L129::V99, L129::V100, L129::V101, L129::V102, L129::V103, L129::V104, L129::V105, L129::V106, L129::V107, L129::V108, L129::V109, L129::V110, L129::V111, L129::V112, L129::V113, L129::V114, L129::V115, L129::V116, L129::V117, L129::V118, L129::V119, L129::V120, L129::V121, L129::V122, L129::V123, L129::V124, L129::V125, L129::V126, L129::V127, L129::V128];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L129::V0 => 0,
            L129::V1 => 1,
            L129::V2 => 2,
            L129::V3 => 3,
            L129::V4 => 4,
            L129::V5 => 5,
            L129::V6 => 6,
            L129::V7 => 7,
            L129::V8 => 8,
            L129::V9 => 9,
            L129::V10 => 10,
            L129::V11 => 11,
            L129::V12 => 12,
            L129::V13 => 13,
            L129::V14 => 14,
            L129::V15 => 15,
            L129::V16 => 16,
            L129::V17 => 17,
            L129::V18 => 18,
            L129::V19 => 19,
            L129::V20 => 20,
            L129::V21 => 21,
            L129::V22 => 22,
            L129::V23 => 23,
            L129::V24 => 24,
            L129::V25 => 25,
            L129::V26 => 26,
            L129::V27 => 27,
            L129::V28 => 28,
            L129::V29 => 29,
            L129::V30 => 30,
            L129::V31 => 31,
            L129::V32 => 32,
            L129::V33 => 33,
            L129::V34 => 34,
            L129::V35 => 35,
            L129::V36 => 36,
            L129::V37 => 37,
            L129::V38 => 38,
            L129::V39 => 39,
            L129::V40 => 40,
            L129::V41 => 41,
            L129::V42 => 42,
            L129::V43 => 43,
            L129::V44 => 44,
            L129::V45 => 45,
            L129::V46 => 46,
            L129::V47 => 47,
            L129::V48 => 48,
            L129::V49 => 49,
            L129::V50 => 50,
            L129::V51 => 51,
            L129::V52 => 52,
            L129::V53 => 53,
            L129::V54 => 54,
            L129::V55 => 55,
            L129::V56 => 56,
            L129::V57 => 57,
            L129::V58 => 58,
            L129::V59 => 59,
            L129::V60 => 60,
            L129::V61 => 61,
            L129::V62 => 62,
            L129::V63 => 63,
            L129::V64 => 64,
            L129::V65 => 65,
            L129::V66 => 66,
            L129::V67 => 67,
            L129::V68 => 68,
            L129::V69 => 69,
            L129::V70 => 70,
            L129::V71 => 71,
            L129::V72 => 72,
            L129::V73 => 73,
            L129::V74 => 74,
            L129::V75 => 75,
            L129::V76 => 76,
            L129::V77 => 77,
            L129::V78 => 78,
            L129::V79 => 79,
            L129::V80 => 80,
            L129::V81 => 81,
            L129::V82 => 82,
            L129::V83 => 83,
            L129::V84 => 84,
            L129::V85 => 85,
            L129::V86 => 86,
            L129::V87 => 87,
            L129::V88 => 88,
            L129::V89 => 89,
            L129::V90 => 90,
            L129::V91 => 91,
            L129::V92 => 92,
            L129::V93 => 93,
            L129::V94 => 94,
            L129::V95 => 95,
            L129::V96 => 96,
            L129::V97 => 97,
            L129::V98 => 98,
            L129::V99 => 99,
            L129::V100 => 100,
            L129::V101 => 101,
            L129::V102 => 102,
            L129::V103 => 103,
            L129::V104 => 104,
            L129::V105 => 105,
            L129::V106 => 106,
            L129::V107 => 107,
            L129::V108 => 108,
            L129::V109 => 109,
            L129::V110 => 110,
            L129::V111 => 111,
            L129::V112 => 112,
            L129::V113 => 113,
            L129::V114 => 114,
            L129::V115 => 115,
            L129::V116 => 116,
            L129::V117 => 117,
            L129::V118 => 118,
            L129::V119 => 119,
            L129::V120 => 120,
            L129::V121 => 121,
            L129::V122 => 122,
            L129::V123 => 123,
            L129::V124 => 124,
            L129::V125 => 125,
            L129::V126 => 126,
            L129::V127 => 127,
            L129::V128 => 128,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..129 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L129);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L200 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199 }
impl Dom for L200 {
    const N: usize = 200;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L200] = &[L200::V0, L200::V1, L200::V2, L200::V3, L200::V4, L200::V5, L200::V6, L200::V7, L200::V8, L200::V9, L200::V10, L200::V11, L200::V12, L200::V13, L200::V14, L200::V15, L200::V16, L200::V17, L200::V18, L200::V19, L200::V20, L200::V21, L200::V22, L200::V23, L200::V24, L200::V25, L200::V26, L200::V27, L200::V28, L200::V29, L200::V30, L200::V31, L200::V32, L200::V33, L200::V34, L200::V35, L200::V36, L200::V37, L200::V38, L200::V39, L200::V40, L200::V41, L200::V42, L200::V43, L200::V44, L200::V45, L200::V46, L200::V47, L200::V48, L200::V49, L200::V50, L200::V51, L200::V52, L200::V53, L200::V54, L200::V55, L200::V56, L200::V57, L200::V58, L200::V59, L200::V60, L200::V61, L200::V62, L200::V63, L200::V64, L200::V65, L200::V66, L200::V67, L200::V68, L200::V69, L200::V70, L200::V71, L200::V72, L200::V73, L200::V74, L200::V75, L200::V76, L200::V77, L200::V78, L200::V79, L200::V80, L200::V81, L200::V82, L200::V83, L200::V84, L200::V85, L200::V86, L200::V87, L200::V88, L200::V89, L200::V90, L200::V91, L200::V92, L200::V93, L200::V94, L200::V95, L200::V96, L200::V97, L200::V98, L200::V99, L200::V100, L200::V101, L200::V102, L200::V103, L200::V104, L200::V105, L200::V106, L200::V107, L200::V108, L200::V109, L200::V110, L200::V111, L200::V112, L200::V113, L200::V114, L200::V115, L200::V116, L200::V117, L200::V118, L200::V119, L200::V120, L200::V121, L200::V122, L200::V123, L200::V124, L200::V125, L200::V126, L200::V127, L200::V128, L200::V129, L200::V130, L200::V131, L200::V132, L200::V133, L200::V134, L200::V135, L200::V136, L200::V137, L200::V138, L200::V139, L200::V140, L200::V141, L200::V142, L200::V143, L200::V144, L200::V145, L200::V146, L200::V147, L200::V148, L200::V149, L200::V150, L200::V151, L200::V152, L200::V153, L200::V154, L200::V155, L200::V156, L200::V157, L200::V158, L200::V159, L200::V160, L200::V161, L200::V162, L200::V163, L200::V164, L200::V165, L200::V166, L200::V167, L200::V168, L200::V169, L200::V170, L200::V171, L200::V172, L200::V173, L200::V174, L200::V175, L200::V176, L200::V177, L200::V178, L200::V179, L200::V180, L200::V181, L200::V182, L200::V183, L200::V184, L200::V185, L200::V186, L200::V187, L200::V188, L200::V189, L200::V190, L200::V191, L200::V192, L200::V193, L200::V194, L200::V195, L200::V196, L200::V197, L200::V198, L200::V199];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L200::V0 => 0,
            L200::V1 => 1,
            L200::V2 => 2,
            L200::V3 => 3,
            L200::V4 => 4,
            L200::V5 => 5,
            L200::V6 => 6,
            L200::V7 => 7,
            L200::V8 => 8,
            L200::V9 => 9,
            L200::V10 => 10,
            L200::V11 => 11,
            L200::V12 => 12,
            L200::V13 => 13,
            L200::V14 => 14,
            L200::V15 => 15,
            L200::V16 => 16,
            L200::V17 => 17,
            L200::V18 => 18,
            L200::V19 => 19,
            L200::V20 => 20,
            L200::V21 => 21,
            L200::V22 => 22,
            L200::V23 => 23,
            L200::V24 => 24,
            L200::V25 => 25,
            L200::V26 => 26,
            L200::V27 => 27,
            L200::V28 => 28,
            L200::V29 => 29,
            L200::V30 => 30,
            L200::V31 => 31,
            L200::V32 => 32,
            L200::V33 => 33,
            L200::V34 => 34,
            L200::V35 => 35,
            L200::V36 => 36,
            L200::V37 => 37,
            L200::V38 => 38,
            L200::V39 => 39,
            L200::V40 => 40,
            L200::V41 => 41,
            L200::V42 => 42,
            L200::V43 => 43,
            L200::V44 => 44,
            L200::V45 => 45,
            L200::V46 => 46,
            L200::V47 => 47,
            L200::V48 => 48,
            L200::V49 => 49,
            L200::V50 => 50,
            L200::V51 => 51,
            L200::V52 => 52,
            L200::V53 => 53,
            L200::V54 => 54,
            L200::V55 => 55,
            L200::V56 => 56,
            L200::V57 => 57,
            L200::V58 => 58,
            L200::V59 => 59,
            L200::V60 => 60,
            L200::V61 => 61,
            L200::V62 => 62,
            L200::V63 => 63,
            L200::V64 => 64,
            L200::V65 => 65,
            L200::V66 => 66,
            L200::V67 => 67,
            L200::V68 => 68,
            L200::V69 => 69,
            L200::V70 => 70,
            L200::V71 => 71,
            L200::V72 => 72,
            L200::V73 => 73,
            L200::V74 => 74,
            L200::V75 => 75,
            L200::V76 => 76,
            L200::V77 => 77,
            L200::V78 => 78,
            L200::V79 => 79,
            L200::V80 => 80,
            L200::V81 => 81,
            L200::V82 => 82,
            L200::V83 => 83,
            L200::V84 => 84,
            L200::V85 => 85,
            L200::V86 => 86,
            L200::V87 => 87,
            L200::V88 => 88,
            L200::V89 => 89,
            L200::V90 => 90,
            L200::V91 => 91,
            L200::V92 => 92,
            L200::V93 => 93,
            L200::V94 => 94,
            L200::V95 => 95,
            L200::V96 => 96,
            L200::V97 => 97,
            L200::V98 => 98,
            L200::V99 => 99,
            L200::V100 => 100,
            L200::V101 => 101,
            L200::V102 => 102,
            L200::V103 => 103,
            L200::V104 => 104,
            L200::V105 => 105,
            L200::V106 => 106,
            L200::V107 => 107,
            L200::V108 => 108,
            L200::V109 => 109,
            L200::V110 => 110,
            L200::V111 => 111,
            L200::V112 => 112,
            L200::V113 => 113,
            L200::V114 => 114,
            L200::V115 => 115,
            L200::V116 => 116,
            L200::V117 => 117,
            L200::V118 => 118,
            L200::V119 => 119,
            L200::V120 => 120,
            L200::V121 => 121,
            L200::V122 => 122,
            L200::V123 => 123,
            L200::V124 => 124,
            L200::V125 => 125,
            L200::V126 => 126,
            L200::V127 => 127,
            L200::V128 => 128,
            L200::V129 => 129,
            L200::V130 => 130,
            L200::V131 => 131,
            L200::V132 => 132,
            L200::V133 => 133,
            L200::V134 => 134,
            L200::V135 => 135,
            L200::V136 => 136,
            L200::V137 => 137,
            L200::V138 => 138,
            L200::V139 => 139,
            L200::V140 => 140,
            L200::V141 => 141,
            L200::V142 => 142,
            L200::V143 => 143,
            L200::V144 => 144,
            L200::V145 => 145,
            L200::V146 => 146,
            L200::V147 => 147,
            L200::V148 => 148,
            L200::V149 => 149,
            L200::V150 => 150,
            L200::V151 => 151,
            L200::V152 => 152,
            L200::V153 => 153,
            L200::V154 => 154,
            L200::V155 => 155,
            L200::V156 => 156,
            L200::V157 => 157,
            L200::V158 => 158,
            L200::V159 => 159,
            L200::V160 => 160,
            L200::V161 => 161,
            L200::V162 => 162,
            L200::V163 => 163,
            L200::V164 => 164,
            L200::V165 => 165,
            L200::V166 => 166,
            L200::V167 => 167,
            L200::V168 => 168,
            L200::V169 => 169,
            L200::V170 => 170,
            L200::V171 => 171,
            L200::V172 => 172,
            L200::V173 => 173,
            L200::V174 => 174,
            L200::V175 => 175,
            L200::V176 => 176,
            L200::V177 => 177,
            L200::V178 => 178,
            L200::V179 => 179,
            L200::V180 => 180,
            L200::V181 => 181,
            L200::V182 => 182,
            L200::V183 => 183,
            L200::V184 => 184,
            L200::V185 => 185,
            L200::V186 => 186,
            L200::V187 => 187,
            L200::V188 => 188,
            L200::V189 => 189,
            L200::V190 => 190,
            L200::V191 => 191,
            L200::V192 => 192,
            L200::V193 => 193,
            L200::V194 => 194,
            L200::V195 => 195,
            L200::V196 => 196,
            L200::V197 => 197,
            L200::V198 => 198,
            L200::V199 => 199,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..200 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L200);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum L257 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256 }
impl Dom for L257 {
    const N: usize = 257;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[L257] = &[L257::V0, L257::V1, L257::V2, L257::V3, L257::V4, L257::V5, L257::V6, L257::V7, L257::V8, L257::V9, L257::V10, L257::V11, L257::V12, L257::V13, L257::V14, L257::V15, L257::V16, L257::V17, L257::V18, L257::V19, L257::V20, L257::V21, L257::V22, L257::V23, L257::V24, L257::V25, L257::V26, L257::V27, L257::V28, L257::V29, L257::V30, L257::V31, L257::V32, L257::V33, L257::V34, L257::V35, L257::V36, L257::V37, L257::V38, L257::V39, L257::V40, L257::V41, L257::V42, L257::V43, L257::V44, L257::V45, L257::V46, L257::V47, L257::V48, L257::V49, L257::V50, L257::V51, L257::V52, L257::V53, L257::V54, L257::V55, L257::V56, L257::V57, L257::V58, L257::V59, L257::V60, L257::V61, L257::V62, L257::V63, L257::V64, L257::V65, L257::V66, L257::V67, L257::V68, L257::V69, L257::V70, L257::V71, L257::V72, L257::V73, L257::V74, L257::V75, L257::V76, L257::V77, L257::V78, L257::V79, L257::V80, L257::V81, L257::V82, L257::V83, L257::V84, L257::V85, L257::V86, L257::V87, L257::V88, L257::V89, L257::V90, L257::V91, L257::V92, L257::V93, L257::V94, L257::V95, L257::V96, L257::V97, L257::V98, L257::V99, L257::V100, L257::V101, L257::V102, L257::V103, L257::V104, L257::V105, L257::V106, L257::V107, L257::V108, L257::V109, L257::V110, L257::V111, L257::V112, L257::V113, L257::V114, L257::V115, L257::V116, L257::V117, L257::V118, L257::V119, L257::V120, L257::V121, L257::V122, L257::V123, L257::V124, L257::V125, L257::V126, L257::V127, L257::V128, L257::V129, L257::V130, L257::V131, L257::V132, L257::V133, L257::V134, L257::V135, L257::V136, L257::V137, L257::V138, L257::V139, L257::V140, L257::V141, L257::V142, L257::V143, L257::V144, L257::V145, L257::V146, L257::V147, L257::V148, L257::V149, L257::V150, L257::V151, L257::V152, L257::V153, L257::V154, L257::V155, L257::V156, L257::V157, L257::V158, L257::V159, L257::V160, L257::V161, L257::V162, L257::V163, L257::V164, L257::V165, L257::V166, L257::V167, L257::V168, L257::V169, L257::V170, L257::V171, L257::V172, L257::V173, L257::V174, L257::V175, L257::V176, L257::V177, L257::V178, L257::V179, L257::V180, L257::V181, L257::V182, L257::V183, L257::V184, L257::V185, L257::V186, L257::V187, L257::V188, L257::V189, L257::V190, L257::V191, L257::V192, L257::V193, L257::V194, L257::V195, L257::V196, L257::V197, L257::V198, L257::V199, L257::V200, L257::V201, L257::V202, L257::V203, L257::V204, L257::V205, L257::V206, L257::V207, L257::V208, L257::V209, L257::V210, L257::V211, L257::V212, L257::V213, L257::V214, L257::V215, L257::V216, L257::V217, L257::V218, L257::V219, L257::V220, L257::V221, L257::V222, L257::V223, L257::V224, L257::V225, L257::V226, L257::V227, L257::V228, L257::V229, L257::V230, L257::V231, L257::V232, L257::V233, L257::V234, L257::V235, L257::V236, L257::V237, L257::V238, L257::V239, L257::V240, L257::V241, L257::V242, L257::V243, L257::V244, L257::V245, L257::V246, L257::V247, L257::V248, L257::V249, L257::V250, L257::V251, L257::V252, L257::V253, L257::V254, L257::V255, L257::V256];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            L257::V0 => 0,
            L257::V1 => 1,
            L257::V2 => 2,
            L257::V3 => 3,
            L257::V4 => 4,
            L257::V5 => 5,
            L257::V6 => 6,
            L257::V7 => 7,
            L257::V8 => 8,
            L257::V9 => 9,
            L257::V10 => 10,
            L257::V11 => 11,
            L257::V12 => 12,
            L257::V13 => 13,
            L257::V14 => 14,
            L257::V15 => 15,
            L257::V16 => 16,
            L257::V17 => 17,
            L257::V18 => 18,
            L257::V19 => 19,
            L257::V20 => 20,
            L257::V21 => 21,
            L257::V22 => 22,
            L257::V23 => 23,
            L257::V24 => 24,
            L257::V25 => 25,
            L257::V26 => 26,
            L257::V27 => 27,
            L257::V28 => 28,
            L257::V29 => 29,
            L257::V30 => 30,
            L257::V31 => 31,
            L257::V32 => 32,
            L257::V33 => 33,
            L257::V34 => 34,
            L257::V35 => 35,
            L257::V36 => 36,
            L257::V37 => 37,
            L257::V38 => 38,
            L257::V39 => 39,
            L257::V40 => 40,
            L257::V41 => 41,
            L257::V42 => 42,
            L257::V43 => 43,
            L257::V44 => 44,
            L257::V45 => 45,
            L257::V46 => 46,
            L257::V47 => 47,
            L257::V48 => 48,
            L257::V49 => 49,
            L257::V50 => 50,
            L257::V51 => 51,
            L257::V52 => 52,
            L257::V53 => 53,
            L257::V54 => 54,
            L257::V55 => 55,
            L257::V56 => 56,
            L257::V57 => 57,
            L257::V58 => 58,
            L257::V59 => 59,
            L257::V60 => 60,
            L257::V61 => 61,
            L257::V62 => 62,
            L257::V63 => 63,
            L257::V64 => 64,
            L257::V65 => 65,
            L257::V66 => 66,
            L257::V67 => 67,
            L257::V68 => 68,
            L257::V69 => 69,
            L257::V70 => 70,
            L257::V71 => 71,
            L257::V72 => 72,
            L257::V73 => 73,
            L257::V74 => 74,
            L257::V75 => 75,
            L257::V76 => 76,
            L257::V77 => 77,
            L257::V78 => 78,
            L257::V79 => 79,
            L257::V80 => 80,
            L257::V81 => 81,
            L257::V82 => 82,
            L257::V83 => 83,
            L257::V84 => 84,
            L257::V85 => 85,
            L257::V86 => 86,
            L257::V87 => 87,
            L257::V88 => 88,
            L257::V89 => 89,
            L257::V90 => 90,
            L257::V91 => 91,
            L257::V92 => 92,
            L257::V93 => 93,
            L257::V94 => 94,
            L257::V95 => 95,
            L257::V96 => 96,
            L257::V97 => 97,
            L257::V98 => 98,
            L257::V99 => 99,
            L257::V100 => 100,
            L257::V101 => 101,
            L257::V102 => 102,
            L257::V103 => 103,
            L257::V104 => 104,
            L257::V105 => 105,
            L257::V106 => 106,
            L257::V107 => 107,
            L257::V108 => 108,
            L257::V109 => 109,
            L257::V110 => 110,
            L257::V111 => 111,
            L257::V112 => 112,
            L257::V113 => 113,
            L257::V114 => 114,
            L257::V115 => 115,
            L257::V116 => 116,
            L257::V117 => 117,
            L257::V118 => 118,
            L257::V119 => 119,
            L257::V120 => 120,
            L257::V121 => 121,
            L257::V122 => 122,
            L257::V123 => 123,
            L257::V124 => 124,
            L257::V125 => 125,
            L257::V126 => 126,
            L257::V127 => 127,
            L257::V128 => 128,
            L257::V129 => 129,
            L257::V130 => 130,
            L257::V131 => 131,
            L257::V132 => 132,
            L257::V133 => 133,
            L257::V134 => 134,
            L257::V135 => 135,
            L257::V136 => 136,
            L257::V137 => 137,
            L257::V138 => 138,
            L257::V139 => 139,
            L257::V140 => 140,
            L257::V141 => 141,
            L257::V142 => 142,
            L257::V143 => 143,
            L257::V144 => 144,
            L257::V145 => 145,
            L257::V146 => 146,
            L257::V147 => 147,
            L257::V148 => 148,
            L257::V149 => 149,
            L257::V150 => 150,
            L257::V151 => 151,
            L257::V152 => 152,
            L257::V153 => 153,
            L257::V154 => 154,
            L257::V155 => 155,
            L257::V156 => 156,
            L257::V157 => 157,
            L257::V158 => 158,
            L257::V159 => 159,
            L257::V160 => 160,
            L257::V161 => 161,
            L257::V162 => 162,
            L257::V163 => 163,
            L257::V164 => 164,
            L257::V165 => 165,
            L257::V166 => 166,
            L257::V167 => 167,
            L257::V168 => 168,
            L257::V169 => 169,
            L257::V170 => 170,
            L257::V171 => 171,
            L257::V172 => 172,
            L257::V173 => 173,
            L257::V174 => 174,
            L257::V175 => 175,
            L257::V176 => 176,
            L257::V177 => 177,
            L257::V178 => 178,
            L257::V179 => 179,
            L257::V180 => 180,
            L257::V181 => 181,
            L257::V182 => 182,
            L257::V183 => 183,
            L257::V184 => 184,
            L257::V185 => 185,
            L257::V186 => 186,
            L257::V187 => 187,
            L257::V188 => 188,
            L257::V189 => 189,
            L257::V190 => 190,
            L257::V191 => 191,
            L257::V192 => 192,
            L257::V193 => 193,
            L257::V194 => 194,
            L257::V195 => 195,
            L257::V196 => 196,
            L257::V197 => 197,
            L257::V198 => 198,
            L257::V199 => 199,
            L257::V200 => 200,
            L257::V201 => 201,
            L257::V202 => 202,
            L257::V203 => 203,
            L257::V204 => 204,
            L257::V205 => 205,
            L257::V206 => 206,
            L257::V207 => 207,
            L257::V208 => 208,
            L257::V209 => 209,
            L257::V210 => 210,
            L257::V211 => 211,
            L257::V212 => 212,
            L257::V213 => 213,
            L257::V214 => 214,
            L257::V215 => 215,
            L257::V216 => 216,
            L257::V217 => 217,
            L257::V218 => 218,
            L257::V219 => 219,
            L257::V220 => 220,
            L257::V221 => 221,
            L257::V222 => 222,
            L257::V223 => 223,
            L257::V224 => 224,
            L257::V225 => 225,
            L257::V226 => 226,
            L257::V227 => 227,
            L257::V228 => 228,
            L257::V229 => 229,
            L257::V230 => 230,
            L257::V231 => 231,
            L257::V232 => 232,
            L257::V233 => 233,
            L257::V234 => 234,
            L257::V235 => 235,
            L257::V236 => 236,
            L257::V237 => 237,
            L257::V238 => 238,
            L257::V239 => 239,
            L257::V240 => 240,
            L257::V241 => 241,
            L257::V242 => 242,
            L257::V243 => 243,
            L257::V244 => 244,
            L257::V245 => 245,
            L257::V246 => 246,
            L257::V247 => 247,
            L257::V248 => 248,
            L257::V249 => 249,
            L257::V250 => 250,
            L257::V251 => 251,
            L257::V252 => 252,
            L257::V253 => 253,
            L257::V254 => 254,
            L257::V255 => 255,
            L257::V256 => 256,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..257 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(L257);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum LC16 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8(Option<bool>), V9, V10, V11, V12, V13, V14, V15(U3) }
impl Dom for LC16 {
    const N: usize = 13 + <bool as Dom>::N + <Option<bool> as Dom>::N + <U3 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <U3 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return LC16::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return LC16::V1; } i -= 1;
        if i == 0 { return LC16::V2; } i -= 1;
        if i == 0 { return LC16::V3; } i -= 1;
        if i == 0 { return LC16::V4; } i -= 1;
        if i == 0 { return LC16::V5; } i -= 1;
        if i == 0 { return LC16::V6; } i -= 1;
        if i == 0 { return LC16::V7; } i -= 1;
        if i < <Option<bool> as Dom>::N { return LC16::V8(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return LC16::V9; } i -= 1;
        if i == 0 { return LC16::V10; } i -= 1;
        if i == 0 { return LC16::V11; } i -= 1;
        if i == 0 { return LC16::V12; } i -= 1;
        if i == 0 { return LC16::V13; } i -= 1;
        if i == 0 { return LC16::V14; } i -= 1;
        if i < <U3 as Dom>::N { return LC16::V15(<U3 as Dom>::at(i)); } i -= <U3 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            LC16::V0(x) => off(0, <bool as Dom>::idx(x)),
            LC16::V1 => 0 + <bool as Dom>::N,
            LC16::V2 => 1 + <bool as Dom>::N,
            LC16::V3 => 2 + <bool as Dom>::N,
            LC16::V4 => 3 + <bool as Dom>::N,
            LC16::V5 => 4 + <bool as Dom>::N,
            LC16::V6 => 5 + <bool as Dom>::N,
            LC16::V7 => 6 + <bool as Dom>::N,
            LC16::V8(x) => off(7 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
            LC16::V9 => 7 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC16::V10 => 8 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC16::V11 => 9 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC16::V12 => 10 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC16::V13 => 11 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC16::V14 => 12 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC16::V15(x) => off(13 + <bool as Dom>::N + <Option<bool> as Dom>::N, <U3 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <U3 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LC16);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum LC33 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16(Option<bool>), V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32(U3) }
impl Dom for LC33 {
    const N: usize = 30 + <bool as Dom>::N + <Option<bool> as Dom>::N + <U3 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <U3 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return LC33::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return LC33::V1; } i -= 1;
        if i == 0 { return LC33::V2; } i -= 1;
        if i == 0 { return LC33::V3; } i -= 1;
        if i == 0 { return LC33::V4; } i -= 1;
        if i == 0 { return LC33::V5; } i -= 1;
        if i == 0 { return LC33::V6; } i -= 1;
        if i == 0 { return LC33::V7; } i -= 1;
        if i == 0 { return LC33::V8; } i -= 1;
        if i == 0 { return LC33::V9; } i -= 1;
        if i == 0 { return LC33::V10; } i -= 1;
        if i == 0 { return LC33::V11; } i -= 1;
        if i == 0 { return LC33::V12; } i -= 1;
        if i == 0 { return LC33::V13; } i -= 1;
        if i == 0 { return LC33::V14; } i -= 1;
        if i == 0 { return LC33::V15; } i -= 1;
        if i < <Option<bool> as Dom>::N { return LC33::V16(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return LC33::V17; } i -= 1;
        if i == 0 { return LC33::V18; } i -= 1;
        if i == 0 { return LC33::V19; } i -= 1;
        if i == 0 { return LC33::V20; } i -= 1;
        if i == 0 { return LC33::V21; } i -= 1;
        if i == 0 { return LC33::V22; } i -= 1;
        if i == 0 { return LC33::V23; } i -= 1;
        if i == 0 { return LC33::V24; } i -= 1;
        if i == 0 { return LC33::V25; } i -= 1;
        if i == 0 { return LC33::V26; } i -= 1;
        if i == 0 { return LC33::V27; } i -= 1;
        if i == 0 { return LC33::V28; } i -= 1;
        if i == 0 { return LC33::V29; } i -= 1;
        if i == 0 { return LC33::V30; } i -= 1;
        if i == 0 { return LC33::V31; } i -= 1;
        if i < <U3 as Dom>::N { return LC33::V32(<U3 as Dom>::at(i)); } i -= <U3 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            LC33::V0(x) => off(0, <bool as Dom>::idx(x)),
            LC33::V1 => 0 + <bool as Dom>::N,
            LC33::V2 => 1 + <bool as Dom>::N,
            LC33::V3 => 2 + <bool as Dom>::N,
            LC33::V4 => 3 + <bool as Dom>::N,
            LC33::V5 => 4 + <bool as Dom>::N,
            LC33::V6 => 5 + <bool as Dom>::N,
            LC33::V7 => 6 + <bool as Dom>::N,
            LC33::V8 => 7 + <bool as Dom>::N,
            LC33::V9 => 8 + <bool as Dom>::N,
            LC33::V10 => 9 + <bool as Dom>::N,
            LC33::V11 => 10 + <bool as Dom>::N,
            LC33::V12 => 11 + <bool as Dom>::N,
            LC33::V13 => 12 + <bool as Dom>::N,
            LC33::V14 => 13 + <bool as Dom>::N,
            LC33::V15 => 14 + <bool as Dom>::N,
            LC33::V16(x) => off(15 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
            LC33::V17 => 15 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V18 => 16 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V19 => 17 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V20 => 18 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V21 => 19 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V22 => 20 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V23 => 21 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V24 => 22 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V25 => 23 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V26 => 24 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V27 => 25 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V28 => 26 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V29 => 27 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V30 => 28 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V31 => 29 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V32(x) => off(30 + <bool as Dom>::N + <Option<bool> as Dom>::N, <U3 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <U3 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LC33);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum LC70 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35(Option<bool>), V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69(U3) }
impl Dom for LC70 {
    const N: usize = 67 + <bool as Dom>::N + <Option<bool> as Dom>::N + <U3 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <U3 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return LC70::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return LC70::V1; } i -= 1;
        if i == 0 { return LC70::V2; } i -= 1;
        if i == 0 { return LC70::V3; } i -= 1;
        if i == 0 { return LC70::V4; } i -= 1;
        if i == 0 { return LC70::V5; } i -= 1;
        if i == 0 { return LC70::V6; } i -= 1;
        if i == 0 { return LC70::V7; } i -= 1;
        if i == 0 { return LC70::V8; } i -= 1;
        if i == 0 { return LC70::V9; } i -= 1;
        if i == 0 { return LC70::V10; } i -= 1;
        if i == 0 { return LC70::V11; } i -= 1;
        if i == 0 { return LC70::V12; } i -= 1;
        if i == 0 { return LC70::V13; } i -= 1;
        if i == 0 { return LC70::V14; } i -= 1;
        if i == 0 { return LC70::V15; } i -= 1;
        if i == 0 { return LC70::V16; } i -= 1;
        if i == 0 { return LC70::V17; } i -= 1;
        if i == 0 { return LC70::V18; } i -= 1;
        if i == 0 { return LC70::V19; } i -= 1;
        if i == 0 { return LC70::V20; } i -= 1;
        if i == 0 { return LC70::V21; } i -= 1;
        if i == 0 { return LC70::V22; } i -= 1;
        if i == 0 { return LC70::V23; } i -= 1;
        if i == 0 { return LC70::V24; } i -= 1;
        if i == 0 { return LC70::V25; } i -= 1;
        if i == 0 { return LC70::V26; } i -= 1;
        if i == 0 { return LC70::V27; } i -= 1;
        if i == 0 { return LC70::V28; } i -= 1;
        if i == 0 { return LC70::V29; } i -= 1;
        if i == 0 { return LC70::V30; } i -= 1;
        if i == 0 { return LC70::V31; } i -= 1;
        if i == 0 { return LC70::V32; } i -= 1;
        if i == 0 { return LC70::V33; } i -= 1;
        if i == 0 { return LC70::V34; } i -= 1;
        if i < <Option<bool> as Dom>::N { return LC70::V35(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return LC70::V36; } i -= 1;
        if i == 0 { return LC70::V37; } i -= 1;
        if i == 0 { return LC70::V38; } i -= 1;
        if i == 0 { return LC70::V39; } i -= 1;
        if i == 0 { return LC70::V40; } i -= 1;
        if i == 0 { return LC70::V41; } i -= 1;
        if i == 0 { return LC70::V42; } i -= 1;
        if i == 0 { return LC70::V43; } i -= 1;
        if i == 0 { return LC70::V44; } i -= 1;
        if i == 0 { return LC70::V45; } i -= 1;
        if i == 0 { return LC70::V46; } i -= 1;
        if i == 0 { return LC70::V47; } i -= 1;
        if i == 0 { return LC70::V48; } i -= 1;
        if i == 0 { return LC70::V49; } i -= 1;
        if i == 0 { return LC70::V50; } i -= 1;
        if i == 0 { return LC70::V51; } i -= 1;
        if i == 0 { return LC70::V52; } i -= 1;
        if i == 0 { return LC70::V53; } i -= 1;
        if i == 0 { return LC70::V54; } i -= 1;
        if i == 0 { return LC70::V55; } i -= 1;
        if i == 0 { return LC70::V56; } i -= 1;
        if i == 0 { return LC70::V57; } i -= 1;
        if i == 0 { return LC70::V58; } i -= 1;
        if i == 0 { return LC70::V59; } i -= 1;
        if i == 0 { return LC70::V60; } i -= 1;
        if i == 0 { return LC70::V61; } i -= 1;
        if i == 0 { return LC70::V62; } i -= 1;
        if i == 0 { return LC70::V63; } i -= 1;
        if i == 0 { return LC70::V64; } i -= 1;
        if i == 0 { return LC70::V65; } i -= 1;
        if i == 0 { return LC70::V66; } i -= 1;
        if i == 0 { return LC70::V67; } i -= 1;
        if i == 0 { return LC70::V68; } i -= 1;
        if i < <U3 as Dom>::N { return LC70::V69(<U3 as Dom>::at(i)); } i -= <U3 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            LC70::V0(x) => off(0, <bool as Dom>::idx(x)),
            LC70::V1 => 0 + <bool as Dom>::N,
            LC70::V2 => 1 + <bool as Dom>::N,
            LC70::V3 => 2 + <bool as Dom>::N,
            LC70::V4 => 3 + <bool as Dom>::N,
            LC70::V5 => 4 + <bool as Dom>::N,
            LC70::V6 => 5 + <bool as Dom>::N,
            LC70::V7 => 6 + <bool as Dom>::N,
            LC70::V8 => 7 + <bool as Dom>::N,
            LC70::V9 => 8 + <bool as Dom>::N,
            LC70::V10 => 9 + <bool as Dom>::N,
            LC70::V11 => 10 + <bool as Dom>::N,
            LC70::V12 => 11 + <bool as Dom>::N,
            LC70::V13 => 12 + <bool as Dom>::N,
            LC70::V14 => 13 + <bool as Dom>::N,
            LC70::V15 => 14 + <bool as Dom>::N,
            LC70::V16 => 15 + <bool as Dom>::N,
            LC70::V17 => 16 + <bool as Dom>::N,
            LC70::V18 => 17 + <bool as Dom>::N,
            LC70::V19 => 18 + <bool as Dom>::N,
            LC70::V20 => 19 + <bool as Dom>::N,
            LC70::V21 => 20 + <bool as Dom>::N,
            LC70::V22 => 21 + <bool as Dom>::N,
            LC70::V23 => 22 + <bool as Dom>::N,
            LC70::V24 => 23 + <bool as Dom>::N,
            LC70::V25 => 24 + <bool as Dom>::N,
            LC70::V26 => 25 + <bool as Dom>::N,
            LC70::V27 => 26 + <bool as Dom>::N,
            LC70::V28 => 27 + <bool as Dom>::N,
            LC70::V29 => 28 + <bool as Dom>::N,
            LC70::V30 => 29 + <bool as Dom>::N,
            LC70::V31 => 30 + <bool as Dom>::N,
            LC70::V32 => 31 + <bool as Dom>::N,
            LC70::V33 => 32 + <bool as Dom>::N,
            LC70::V34 => 33 + <bool as Dom>::N,
            LC70::V35(x) => off(34 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
            LC70::V36 => 34 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V37 => 35 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V38 => 36 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V39 => 37 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V40 => 38 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V41 => 39 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V42 => 40 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V43 => 41 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V44 => 42 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V45 => 43 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V46 => 44 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V47 => 45 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V48 => 46 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V49 => 47 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V50 => 48 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V51 => 49 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V52 => 50 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V53 => 51 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V54 => 52 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V55 => 53 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V56 => 54 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V57 => 55 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V58 => 56 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V59 => 57 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V60 => 58 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V61 => 59 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V62 => 60 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V63 => 61 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V64 => 62 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V65 => 63 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V66 => 64 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V67 => 65 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V68 => 66 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC70::V69(x) => off(67 + <bool as Dom>::N + <Option<bool> as Dom>::N, <U3 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <U3 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LC70);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum LC140 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70(Option<bool>), V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139(U3) }
impl Dom for LC140 {
    const N: usize = 137 + <bool as Dom>::N + <Option<bool> as Dom>::N + <U3 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <U3 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return LC140::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return LC140::V1; } i -= 1;
        if i == 0 { return LC140::V2; } i -= 1;
        if i == 0 { return LC140::V3; } i -= 1;
        if i == 0 { return LC140::V4; } i -= 1;
        if i == 0 { return LC140::V5; } i -= 1;
        if i == 0 { return LC140::V6; } i -= 1;
        if i == 0 { return LC140::V7; } i -= 1;
        if i == 0 { return LC140::V8; } i -= 1;
        if i == 0 { return LC140::V9; } i -= 1;
        if i == 0 { return LC140::V10; } i -= 1;
        if i == 0 { return LC140::V11; } i -= 1;
        if i == 0 { return LC140::V12; } i -= 1;
        if i == 0 { return LC140::V13; } i -= 1;
        if i == 0 { return LC140::V14; } i -= 1;
        if i == 0 { return LC140::V15; } i -= 1;
        if i == 0 { return LC140::V16; } i -= 1;
        if i == 0 { return LC140::V17; } i -= 1;
        if i == 0 { return LC140::V18; } i -= 1;
        if i == 0 { return LC140::V19; } i -= 1;
        if i == 0 { return LC140::V20; } i -= 1;
        if i == 0 { return LC140::V21; } i -= 1;
        if i == 0 { return LC140::V22; } i -= 1;
        if i == 0 { return LC140::V23; } i -= 1;
        if i == 0 { return LC140::V24; } i -= 1;
        if i == 0 { return LC140::V25; } i -= 1;
        if i == 0 { return LC140::V26; } i -= 1;
        if i == 0 { return LC140::V27; } i -= 1;
        if i == 0 { return LC140::V28; } i -= 1;
        if i == 0 { return LC140::V29; } i -= 1;
        if i == 0 { return LC140::V30; } i -= 1;
        if i == 0 { return LC140::V31; } i -= 1;
        if i == 0 { return LC140::V32; } i -= 1;
        if i == 0 { return LC140::V33; } i -= 1;
        if i == 0 { return LC140::V34; } i -= 1;
        if i == 0 { return LC140::V35; } i -= 1;
        if i == 0 { return LC140::V36; } i -= 1;
        if i == 0 { return LC140::V37; } i -= 1;
        if i == 0 { return LC140::V38; } i -= 1;
        if i == 0 { return LC140::V39; } i -= 1;
        if i == 0 { return LC140::V40; } i -= 1;
        if i == 0 { return LC140::V41; } i -= 1;
        if i == 0 { return LC140::V42; } i -= 1;
        if i == 0 { return LC140::V43; } i -= 1;
        if i == 0 { return LC140::V44; } i -= 1;
        if i == 0 { return LC140::V45; } i -= 1;
        if i == 0 { return LC140::V46; } i -= 1;
        if i == 0 { return LC140::V47; } i -= 1;
        if i == 0 { return LC140::V48; } i -= 1;
        if i == 0 { return LC140::V49; } i -= 1;
        if i == 0 { return LC140::V50; } i -= 1;
        if i == 0 { return LC140::V51; } i -= 1;
        if i == 0 { return LC140::V52; } i -= 1;
        if i == 0 { return LC140::V53; } i -= 1;
        if i == 0 { return LC140::V54; } i -= 1;
        if i == 0 { return LC140::V55; } i -= 1;
        if i == 0 { return LC140::V56; } i -= 1;
        if i == 0 { return LC140::V57; } i -= 1;
        if i == 0 { return LC140::V58; } i -= 1;
        if i == 0 { return LC140::V59; } i -= 1;
        if i == 0 { return LC140::V60; } i -= 1;
        if i == 0 { return LC140::V61; } i -= 1;
        if i == 0 { return LC140::V62; } i -= 1;
        if i == 0 { return LC140::V63; } i -= 1;
        if i == 0 { return LC140::V64; } i -= 1;
        if i == 0 { return LC140::V65; } i -= 1;
        if i == 0 { return LC140::V66; } i -= 1;
        if i == 0 { return LC140::V67; } i -= 1;
        if i == 0 { return LC140::V68; } i -= 1;
        if i == 0 { return LC140::V69; } i -= 1;
        if i < <Option<bool> as Dom>::N { return LC140::V70(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return LC140::V71; } i -= 1;
        if i == 0 { return LC140::V72; } i -= 1;
        if i == 0 { return LC140::V73; } i -= 1;
        if i == 0 { return LC140::V74; } i -= 1;
        if i == 0 { return LC140::V75; } i -= 1;
        if i == 0 { return LC140::V76; } i -= 1;
        if i == 0 { return LC140::V77; } i -= 1;
        if i == 0 { return LC140::V78; } i -= 1;
        if i == 0 { return LC140::V79; } i -= 1;
        if i == 0 { return LC140::V80; } i -= 1;
        if i == 0 { return LC140::V81; } i -= 1;
        if i == 0 { return LC140::V82; } i -= 1;
        if i == 0 { return LC140::V83; } i -= 1;
        if i == 0 { return LC140::V84; } i -= 1;
        if i == 0 { return LC140::V85; } i -= 1;
        if i == 0 { return LC140::V86; } i -= 1;
        if i == 0 { return LC140::V87; } i -= 1;
        if i == 0 { return LC140::V88; } i -= 1;
        if i == 0 { return LC140::V89; } i -= 1;
        if i == 0 { return LC140::V90; } i -= 1;
        if i == 0 { return LC140::V91; } i -= 1;
        if i == 0 { return LC140::V92; } i -= 1;
        if i == 0 { return LC140::V93; } i -= 1;
        if i == 0 { return LC140::V94; } i -= 1;
        if i == 0 { return LC140::V95; } i -= 1;
        if i == 0 { return LC140::V96; } i -= 1;
        if i == 0 { return LC140::V97; } i -= 1;
        if i == 0 { return LC140::V98; } i -= 1;
        if i == 0 { return LC140::V99; } i -= 1;
        if i == 0 { return LC140::V100; } i -= 1;
        if i == 0 { return LC140::V101; } i -= 1;
        if i == 0 { return LC140::V102; } i -= 1;
        if i == 0 { return LC140::V103; } i -= 1;
        if i == 0 { return LC140::V104; } i -= 1;
        if i == 0 { return LC140::V105; } i -= 1;
        if i == 0 { return LC140::V106; } i -= 1;
        if i == 0 { return LC140::V107; } i -= 1;
        if i == 0 { return LC140::V108; } i -= 1;
        if i == 0 { return LC140::V109; } i -= 1;
        if i == 0 { return LC140::V110; } i -= 1;
        if i == 0 { return LC140::V111; } i -= 1;
        if i == 0 { return LC140::V112; } i -= 1;
        if i == 0 { return LC140::V113; } i -= 1;
        if i == 0 { return LC140::V114; } i -= 1;
        if i == 0 { return LC140::V115; } i -= 1;
        if i == 0 { return LC140::V116; } i -= 1;
        if i == 0 { return LC140::V117; } i -= 1;
        if i == 0 { return LC140::V118; } i -= 1;
        if i == 0 { return LC140::V119; } i -= 1;
        if i == 0 { return LC140::V120; } i -= 1;
        if i == 0 { return LC140::V121; } i -= 1;
        if i == 0 { return LC140::V122; } i -= 1;
        if i == 0 { return LC140::V123; } i -= 1;
        if i == 0 { return LC140::V124; } i -= 1;
        if i == 0 { return LC140::V125; } i -= 1;
        if i == 0 { return LC140::V126; } i -= 1;
        if i == 0 { return LC140::V127; } i -= 1;
        if i == 0 { return LC140::V128; } i -= 1;
        if i == 0 { return LC140::V129; } i -= 1;
        if i == 0 { return LC140::V130; } i -= 1;
        if i == 0 { return LC140::V131; } i -= 1;
        if i == 0 { return LC140::V132; } i -= 1;
        if i == 0 { return LC140::V133; } i -= 1;
        if i == 0 { return LC140::V134; } i -= 1;
        if i == 0 { return LC140::V135; } i -= 1;
        if i == 0 { return LC140::V136; } i -= 1;
        if i == 0 { return LC140::V137; } i -= 1;
        if i == 0 { return LC140::V138; } i -= 1;
        if i < <U3 as Dom>::N { return LC140::V139(<U3 as Dom>::at(i)); } i -= <U3 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            LC140::V0(x) => off(0, <bool as Dom>::idx(x)),
            LC140::V1 => 0 + <bool as Dom>::N,
            LC140::V2 => 1 + <bool as Dom>::N,
            LC140::V3 => 2 + <bool as Dom>::N,
            LC140::V4 => 3 + <bool as Dom>::N,
            LC140::V5 => 4 + <bool as Dom>::N,
            LC140::V6 => 5 + <bool as Dom>::N,
            LC140::V7 => 6 + <bool as Dom>::N,
            LC140::V8 => 7 + <bool as Dom>::N,
            LC140::V9 => 8 + <bool as Dom>::N,
            LC140::V10 => 9 + <bool as Dom>::N,
            LC140::V11 => 10 + <bool as Dom>::N,
            LC140::V12 => 11 + <bool as Dom>::N,
            LC140::V13 => 12 + <bool as Dom>::N,
            LC140::V14 => 13 + <bool as Dom>::N,
            LC140::V15 => 14 + <bool as Dom>::N,
            LC140::V16 => 15 + <bool as Dom>::N,
            LC140::V17 => 16 + <bool as Dom>::N,
            LC140::V18 => 17 + <bool as Dom>::N,
            LC140::V19 => 18 + <bool as Dom>::N,
            LC140::V20 => 19 + <bool as Dom>::N,
            LC140::V21 => 20 + <bool as Dom>::N,
            LC140::V22 => 21 + <bool as Dom>::N,
            LC140::V23 => 22 + <bool as Dom>::N,
            LC140::V24 => 23 + <bool as Dom>::N,
            LC140::V25 => 24 + <bool as Dom>::N,
            LC140::V26 => 25 + <bool as Dom>::N,
            LC140::V27 => 26 + <bool as Dom>::N,
            LC140::V28 => 27 + <bool as Dom>::N,
            LC140::V29 => 28 + <bool as Dom>::N,
            LC140::V30 => 29 + <bool as Dom>::N,
            LC140::V31 => 30 + <bool as Dom>::N,
            LC140::V32 => 31 + <bool as Dom>::N,
            LC140::V33 => 32 + <bool as Dom>::N,
            LC140::V34 => 33 + <bool as Dom>::N,
            LC140::V35 => 34 + <bool as Dom>::N,
            LC140::V36 => 35 + <bool as Dom>::N,
            LC140::V37 => 36 + <bool as Dom>::N,
            LC140::V38 => 37 + <bool as Dom>::N,
            LC140::V39 => 38 + <bool as Dom>::N,
            LC140::V40 => 39 + <bool as Dom>::N,
            LC140::V41 => 40 + <bool as Dom>::N,
            LC140::V42 => 41 + <bool as Dom>::N,
            LC140::V43 => 42 + <bool as Dom>::N,
            LC140::V44 => 43 + <bool as Dom>::N,
            LC140::V45 => 44 + <bool as Dom>::N,
            LC140::V46 => 45 + <bool as Dom>::N,
            LC140::V47 => 46 + <bool as Dom>::N,
            LC140::V48 => 47 + <bool as Dom>::N,
            LC140::V49 => 48 + <bool as Dom>::N,
            LC140::V50 => 49 + <bool as Dom>::N,
            LC140::V51 => 50 + <bool as Dom>::N,
            LC140::V52 => 51 + <bool as Dom>::N,
            LC140::V53 => 52 + <bool as Dom>::N,
            LC140::V54 => 53 + <bool as Dom>::N,
            LC140::V55 => 54 + <bool as Dom>::N,
            LC140::V56 => 55 + <bool as Dom>::N,
            LC140::V57 => 56 + <bool as Dom>::N,
            LC140::V58 => 57 + <bool as Dom>::N,
            LC140::V59 => 58 + <bool as Dom>::N,
            LC140::V60 => 59 + <bool as Dom>::N,
            LC140::V61 => 60 + <bool as Dom>::N,
            LC140::V62 => 61 + <bool as Dom>::N,
            LC140::V63 => 62 + <bool as Dom>::N,
            LC140::V64 => 63 + <bool as Dom>::N,
            LC140::V65 => 64 + <bool as Dom>::N,
            LC140::V66 => 65 + <bool as Dom>::N,
            LC140::V67 => 66 + <bool as Dom>::N,
            LC140::V68 => 67 + <bool as Dom>::N,
            LC140::V69 => 68 + <bool as Dom>::N,
            LC140::V70(x) => off(69 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
            LC140::V71 => 69 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V72 => 70 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V73 => 71 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V74 => 72 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V75 => 73 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V76 => 74 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V77 => 75 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V78 => 76 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V79 => 77 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V80 => 78 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V81 => 79 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V82 => 80 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V83 => 81 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V84 => 82 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V85 => 83 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V86 => 84 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V87 => 85 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V88 => 86 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V89 => 87 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V90 => 88 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V91 => 89 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V92 => 90 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V93 => 91 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V94 => 92 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V95 => 93 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V96 => 94 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V97 => 95 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V98 => 96 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V99 => 97 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V100 => 98 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V101 => 99 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V102 => 100 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V103 => 101 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V104 => 102 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V105 => 103 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V106 => 104 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V107 => 105 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V108 => 106 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V109 => 107 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V110 => 108 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V111 => 109 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V112 => 110 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V113 => 111 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V114 => 112 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V115 => 113 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V116 => 114 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V117 => 115 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V118 => 116 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V119 => 117 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V120 => 118 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V121 => 119 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V122 => 120 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V123 => 121 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V124 => 122 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V125 => 123 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V126 => 124 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V127 => 125 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V128 => 126 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V129 => 127 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V130 => 128 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V131 => 129 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V132 => 130 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V133 => 131 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V134 => 132 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V135 => 133 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V136 => 134 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V137 => 135 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V138 => 136 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC140::V139(x) => off(137 + <bool as Dom>::N + <Option<bool> as Dom>::N, <U3 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <U3 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LC140);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum LC260 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130(Option<bool>), V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257, V258, V259(U3) }
impl Dom for LC260 {
    const N: usize = 257 + <bool as Dom>::N + <Option<bool> as Dom>::N + <U3 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <U3 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return LC260::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return LC260::V1; } i -= 1;
        if i == 0 { return LC260::V2; } i -= 1;
        if i == 0 { return LC260::V3; } i -= 1;
        if i == 0 { return LC260::V4; } i -= 1;
        if i == 0 { return LC260::V5; } i -= 1;
        if i == 0 { return LC260::V6; } i -= 1;
        if i == 0 { return LC260::V7; } i -= 1;
        if i == 0 { return LC260::V8; } i -= 1;
        if i == 0 { return LC260::V9; } i -= 1;
        if i == 0 { return LC260::V10; } i -= 1;
        if i == 0 { return LC260::V11; } i -= 1;
        if i == 0 { return LC260::V12; } i -= 1;
        if i == 0 { return LC260::V13; } i -= 1;
        if i == 0 { return LC260::V14; } i -= 1;
        if i == 0 { return LC260::V15; } i -= 1;
        if i == 0 { return LC260::V16; } i -= 1;
        if i == 0 { return LC260::V17; } i -= 1;
        if i == 0 { return LC260::V18; } i -= 1;
        if i == 0 { return LC260::V19; } i -= 1;
        if i == 0 { return LC260::V20; } i -= 1;
        if i == 0 { return LC260::V21; } i -= 1;
        if i == 0 { return LC260::V22; } i -= 1;
        if i == 0 { return LC260::V23; } i -= 1;
        if i == 0 { return LC260::V24; } i -= 1;
        if i == 0 { return LC260::V25; } i -= 1;
        if i == 0 { return LC260::V26; } i -= 1;
        if i == 0 { return LC260::V27; } i -= 1;
        if i == 0 { return LC260::V28; } i -= 1;
        if i == 0 { return LC260::V29; } i -= 1;
        if i == 0 { return LC260::V30; } i -= 1;
        if i == 0 { return LC260::V31; } i -= 1;
        if i == 0 { return LC260::V32; } i -= 1;
        if i == 0 { return LC260::V33; } i -= 1;
        if i == 0 { return LC260::V34; } i -= 1;
        if i == 0 { return LC260::V35; } i -= 1;
        if i == 0 { return LC260::V36; } i -= 1;
        if i == 0 { return LC260::V37; } i -= 1;
        if i == 0 { return LC260::V38; } i -= 1;
        if i == 0 { return LC260::V39; } i -= 1;
        if i == 0 { return LC260::V40; } i -= 1;
        if i == 0 { return LC260::V41; } i -= 1;
        if i == 0 { return LC260::V42; } i -= 1;
        if i == 0 { return LC260::V43; } i -= 1;
        if i == 0 { return LC260::V44; } i -= 1;
        if i == 0 { return LC260::V45; } i -= 1;
        if i == 0 { return LC260::V46; } i -= 1;
        if i == 0 { return LC260::V47; } i -= 1;
        if i == 0 { return LC260::V48; } i -= 1;
        if i == 0 { return LC260::V49; } i -= 1;
        if i == 0 { return LC260::V50; } i -= 1;
        if i == 0 { return LC260::V51; } i -= 1;
        if i == 0 { return LC260::V52; } i -= 1;
        if i == 0 { return LC260::V53; } i -= 1;
        if i == 0 { return LC260::V54; } i -= 1;
        if i == 0 { return LC260::V55; } i -= 1;
        if i == 0 { return LC260::V56; } i -= 1;
        if i == 0 { return LC260::V57; } i -= 1;
        if i == 0 { return LC260::V58; } i -= 1;
        if i == 0 { return LC260::V59; } i -= 1;
        if i == 0 { return LC260::V60; } i -= 1;
        if i == 0 { return LC260::V61; } i -= 1;
        if i == 0 { return LC260::V62; } i -= 1;
        if i == 0 { return LC260::V63; } i -= 1;
        if i == 0 { return LC260::V64; } i -= 1;
        if i == 0 { return LC260::V65; } i -= 1;
        if i == 0 { return LC260::V66; } i -= 1;
        if i == 0 { return LC260::V67; } i -= 1;
        if i == 0 { return LC260::V68; } i -= 1;
        if i == 0 { return LC260::V69; } i -= 1;
        if i == 0 { return LC260::V70; } i -= 1;
        if i == 0 { return LC260::V71; } i -= 1;
        if i == 0 { return LC260::V72; } i -= 1;
        if i == 0 { return LC260::V73; } i -= 1;
        if i == 0 { return LC260::V74; } i -= 1;
        if i == 0 { return LC260::V75; } i -= 1;
        if i == 0 { return LC260::V76; } i -= 1;
        if i == 0 { return LC260::V77; } i -= 1;
        if i == 0 { return LC260::V78; } i -= 1;
        if i == 0 { return LC260::V79; } i -= 1;
        if i == 0 { return LC260::V80; } i -= 1;
        if i == 0 { return LC260::V81; } i -= 1;
        if i == 0 { return LC260::V82; } i -= 1;
        if i == 0 { return LC260::V83; } i -= 1;
        if i == 0 { return LC260::V84; } i -= 1;
        if i == 0 { return LC260::V85; } i -= 1;
        if i == 0 { return LC260::V86; } i -= 1;
        if i == 0 { return LC260::V87; } i -= 1;
        if i == 0 { return LC260::V88; } i -= 1;
        if i == 0 { return LC260::V89; } i -= 1;
        if i == 0 { return LC260::V90; } i -= 1;
        if i == 0 { return LC260::V91; } i -= 1;
        if i == 0 { return LC260::V92; } i -= 1;
        if i == 0 { return LC260::V93; } i -= 1;
        if i == 0 { return LC260::V94; } i -= 1;
        if i == 0 { return LC260::V95; } i -= 1;
        if i == 0 { return LC260::V96; } i -= 1;
        if i == 0 { return LC260::V97; } i -= 1;
        if i == 0 { return LC260::V98; } i -= 1;
        if i == 0 { return LC260::V99; } i -= 1;
        if i == 0 { return LC260::V100; } i -= 1;
        if i == 0 { return LC260::V101; } i -= 1;
        if i == 0 { return LC260::V102; } i -= 1;
        if i == 0 { return LC260::V103; } i -= 1;
        if i == 0 { return LC260::V104; } i -= 1;
        if i == 0 { return LC260::V105; } i -= 1;
        if i == 0 { return LC260::V106; } i -= 1;
        if i == 0 { return LC260::V107; } i -= 1;
        if i == 0 { return LC260::V108; } i -= 1;
        if i == 0 { return LC260::V109; } i -= 1;
        if i == 0 { return LC260::V110; } i -= 1;
        if i == 0 { return LC260::V111; } i -= 1;
        if i == 0 { return LC260::V112; } i -= 1;
        if i == 0 { return LC260::V113; } i -= 1;
        if i == 0 { return LC260::V114; } i -= 1;
        if i == 0 { return LC260::V115; } i -= 1;
        if i == 0 { return LC260::V116; } i -= 1;
        if i == 0 { return LC260::V117; } i -= 1;
        if i == 0 { return LC260::V118; } i -= 1;
        if i == 0 { return LC260::V119; } i -= 1;
        if i == 0 { return LC260::V120; } i -= 1;
        if i == 0 { return LC260::V121; } i -= 1;
        if i == 0 { return LC260::V122; } i -= 1;
        if i == 0 { return LC260::V123; } i -= 1;
        if i == 0 { return LC260::V124; } i -= 1;
        if i == 0 { return LC260::V125; } i -= 1;
        if i == 0 { return LC260::V126; } i -= 1;
        if i == 0 { return LC260::V127; } i -= 1;
        if i == 0 { return LC260::V128; } i -= 1;
        if i == 0 { return LC260::V129; } i -= 1;
        if i < <Option<bool> as Dom>::N { return LC260::V130(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return LC260::V131; } i -= 1;
        if i == 0 { return LC260::V132; } i -= 1;
        if i == 0 { return LC260::V133; } i -= 1;
        if i == 0 { return LC260::V134; } i -= 1;
        if i == 0 { return LC260::V135; } i -= 1;
        if i == 0 { return LC260::V136; } i -= 1;
        if i == 0 { return LC260::V137; } i -= 1;
        if i == 0 { return LC260::V138; } i -= 1;
        if i == 0 { return LC260::V139; } i -= 1;
        if i == 0 { return LC260::V140; } i -= 1;
        if i == 0 { return LC260::V141; } i -= 1;
        if i == 0 { return LC260::V142; } i -= 1;
        if i == 0 { return LC260::V143; } i -= 1;
        if i == 0 { return LC260::V144; } i -= 1;
        if i == 0 { return LC260::V145; } i -= 1;
        if i == 0 { return LC260::V146; } i -= 1;
        if i == 0 { return LC260::V147; } i -= 1;
        if i == 0 { return LC260::V148; } i -= 1;
        if i == 0 { return LC260::V149; } i -= 1;
        if i == 0 { return LC260::V150; } i -= 1;
        if i == 0 { return LC260::V151; } i -= 1;
        if i == 0 { return LC260::V152; } i -= 1;
        if i == 0 { return LC260::V153; } i -= 1;
        if i == 0 { return LC260::V154; } i -= 1;
        if i == 0 { return LC260::V155; } i -= 1;
        if i == 0 { return LC260::V156; } i -= 1;
        if i == 0 { return LC260::V157; } i -= 1;
        if i == 0 { return LC260::V158; } i -= 1;
        if i == 0 { return LC260::V159; } i -= 1;
        if i == 0 { return LC260::V160; } i -= 1;
        if i == 0 { return LC260::V161; } i -= 1;
        if i == 0 { return LC260::V162; } i -= 1;
        if i == 0 { return LC260::V163; } i -= 1;
        if i == 0 { return LC260::V164; } i -= 1;
        if i == 0 { return LC260::V165; } i -= 1;
        if i == 0 { return LC260::V166; } i -= 1;
        if i == 0 { return LC260::V167; } i -= 1;
        if i == 0 { return LC260::V168; } i -= 1;
        if i == 0 { return LC260::V169; } i -= 1;
        if i == 0 { return LC260::V170; } i -= 1;
        if i == 0 { return LC260::V171; } i -= 1;
        if i == 0 { return LC260::V172; } i -= 1;
        if i == 0 { return LC260::V173; } i -= 1;
        if i == 0 { return LC260::V174; } i -= 1;
        if i == 0 { return LC260::V175; } i -= 1;
        if i == 0 { return LC260::V176; } i -= 1;
        if i == 0 { return LC260::V177; } i -= 1;
        if i == 0 { return LC260::V178; } i -= 1;
        if i == 0 { return LC260::V179; } i -= 1;
        if i == 0 { return LC260::V180; } i -= 1;
        if i == 0 { return LC260::V181; } i -= 1;
        if i == 0 { return LC260::V182; } i -= 1;
        if i == 0 { return LC260::V183; } i -= 1;
        if i == 0 { return LC260::V184; } i -= 1;
        if i == 0 { return LC260::V185; } i -= 1;
        if i == 0 { return LC260::V186; } i -= 1;
        if i == 0 { return LC260::V187; } i -= 1;
        if i == 0 { return LC260::V188; } i -= 1;
        if i == 0 { return LC260::V189; } i -= 1;
        if i == 0 { return LC260::V190; } i -= 1;
        if i == 0 { return LC260::V191; } i -= 1;
        if i == 0 { return LC260::V192; } i -= 1;
        if i == 0 { return LC260::V193; } i -= 1;
        if i == 0 { return LC260::V194; } i -= 1;
        if i == 0 { return LC260::V195; } i -= 1;
        if i == 0 { return LC260::V196; } i -= 1;
        if i == 0 { return LC260::V197; } i -= 1;
        if i == 0 { return LC260::V198; } i -= 1;
        if i == 0 { return LC260::V199; } i -= 1;
        if i == 0 { return LC260::V200; } i -= 1;
        if i == 0 { return LC260::V201; } i -= 1;
        if i == 0 { return LC260::V202; } i -= 1;
        if i == 0 { return LC260::V203; } i -= 1;
        if i == 0 { return LC260::V204; } i -= 1;
        if i == 0 { return LC260::V205; } i -= 1;
        if i == 0 { return LC260::V206; } i -= 1;
        if i == 0 { return LC260::V207; } i -= 1;
        if i == 0 { return LC260::V208; } i -= 1;
        if i == 0 { return LC260::V209; } i -= 1;
        if i == 0 { return LC260::V210; } i -= 1;
        if i == 0 { return LC260::V211; } i -= 1;
        if i == 0 { return LC260::V212; } i -= 1;
        if i == 0 { return LC260::V213; } i -= 1;
        if i == 0 { return LC260::V214; } i -= 1;
        if i == 0 { return LC260::V215; } i -= 1;
        if i == 0 { return LC260::V216; } i -= 1;
        if i == 0 { return LC260::V217; } i -= 1;
        if i == 0 { return LC260::V218; } i -= 1;
        if i == 0 { return LC260::V219; } i -= 1;
        if i == 0 { return LC260::V220; } i -= 1;
        if i == 0 { return LC260::V221; } i -= 1;
        if i == 0 { return LC260::V222; } i -= 1;
        if i == 0 { return LC260::V223; } i -= 1;
        if i == 0 { return LC260::V224; } i -= 1;
        if i == 0 { return LC260::V225; } i -= 1;
        if i == 0 { return LC260::V226; } i -= 1;
        if i == 0 { return LC260::V227; } i -= 1;
        if i == 0 { return LC260::V228; } i -= 1;
        if i == 0 { return LC260::V229; } i -= 1;
        if i == 0 { return LC260::V230; } i -= 1;
        if i == 0 { return LC260::V231; } i -= 1;
        if i == 0 { return LC260::V232; } i -= 1;
        if i == 0 { return LC260::V233; } i -= 1;
        if i == 0 { return LC260::V234; } i -= 1;
        if i == 0 { return LC260::V235; } i -= 1;
        if i == 0 { return LC260::V236; } i -= 1;
        if i == 0 { return LC260::V237; } i -= 1;
        if i == 0 { return LC260::V238; } i -= 1;
        if i == 0 { return LC260::V239; } i -= 1;
        if i == 0 { return LC260::V240; } i -= 1;
        if i == 0 { return LC260::V241; } i -= 1;
        if i == 0 { return LC260::V242; } i -= 1;
        if i == 0 { return LC260::V243; } i -= 1;
        if i == 0 { return LC260::V244; } i -= 1;
        if i == 0 { return LC260::V245; } i -= 1;
        if i == 0 { return LC260::V246; } i -= 1;
        if i == 0 { return LC260::V247; } i -= 1;
        if i == 0 { return LC260::V248; } i -= 1;
        if i == 0 { return LC260::V249; } i -= 1;
        if i == 0 { return LC260::V250; } i -= 1;
        if i == 0 { return LC260::V251; } i -= 1;
        if i == 0 { return LC260::V252; } i -= 1;
        if i == 0 { return LC260::V253; } i -= 1;
        if i == 0 { return LC260::V254; } i -= 1;
        if i == 0 { return LC260::V255; } i -= 1;
        if i == 0 { return LC260::V256; } i -= 1;
        if i == 0 { return LC260::V257; } i -= 1;
        if i == 0 { return LC260::V258; } i -= 1;
        if i < <U3 as Dom>::N { return LC260::V259(<U3 as Dom>::at(i)); } i -= <U3 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            LC260::V0(x) => off(0, <bool as Dom>::idx(x)),
            LC260::V1 => 0 + <bool as Dom>::N,
            LC260::V2 => 1 + <bool as Dom>::N,
            LC260::V3 => 2 + <bool as Dom>::N,
            LC260::V4 => 3 + <bool as Dom>::N,
            LC260::V5 => 4 + <bool as Dom>::N,
            LC260::V6 => 5 + <bool as Dom>::N,
            LC260::V7 => 6 + <bool as Dom>::N,
            LC260::V8 => 7 + <bool as Dom>::N,
            LC260::V9 => 8 + <bool as Dom>::N,
            LC260::V10 => 9 + <bool as Dom>::N,
            LC260::V11 => 10 + <bool as Dom>::N,
            LC260::V12 => 11 + <bool as Dom>::N,
            LC260::V13 => 12 + <bool as Dom>::N,
            LC260::V14 => 13 + <bool as Dom>::N,
            LC260::V15 => 14 + <bool as Dom>::N,
            LC260::V16 => 15 + <bool as Dom>::N,
            LC260::V17 => 16 + <bool as Dom>::N,
            LC260::V18 => 17 + <bool as Dom>::N,
            LC260::V19 => 18 + <bool as Dom>::N,
            LC260::V20 => 19 + <bool as Dom>::N,
            LC260::V21 => 20 + <bool as Dom>::N,
            LC260::V22 => 21 + <bool as Dom>::N,
            LC260::V23 => 22 + <bool as Dom>::N,
            LC260::V24 => 23 + <bool as Dom>::N,
            LC260::V25 => 24 + <bool as Dom>::N,
            LC260::V26 => 25 + <bool as Dom>::N,
            LC260::V27 => 26 + <bool as Dom>::N,
            LC260::V28 => 27 + <bool as Dom>::N,
            LC260::V29 => 28 + <bool as Dom>::N,
            LC260::V30 => 29 + <bool as Dom>::N,
            LC260::V31 => 30 + <bool as Dom>::N,
            LC260::V32 => 31 + <bool as Dom>::N,
            LC260::V33 => 32 + <bool as Dom>::N,
            LC260::V34 => 33 + <bool as Dom>::N,
            LC260::V35 => 34 + <bool as Dom>::N,
            LC260::V36 => 35 + <bool as Dom>::N,
            LC260::V37 => 36 + <bool as Dom>::N,
            LC260::V38 => 37 + <bool as Dom>::N,
            LC260::V39 => 38 + <bool as Dom>::N,
            LC260::V40 => 39 + <bool as Dom>::N,
            LC260::V41 => 40 + <bool as Dom>::N,
            LC260::V42 => 41 + <bool as Dom>::N,
            LC260::V43 => 42 + <bool as Dom>::N,
            LC260::V44 => 43 + <bool as Dom>::N,
            LC260::V45 => 44 + <bool as Dom>::N,
            LC260::V46 => 45 + <bool as Dom>::N,
            LC260::V47 => 46 + <bool as Dom>::N,
            LC260::V48 => 47 + <bool as Dom>::N,
            LC260::V49 => 48 + <bool as Dom>::N,
            LC260::V50 => 49 + <bool as Dom>::N,
            LC260::V51 => 50 + <bool as Dom>::N,
            LC260::V52 => 51 + <bool as Dom>::N,
            LC260::V53 => 52 + <bool as Dom>::N,
            LC260::V54 => 53 + <bool as Dom>::N,
            LC260::V55 => 54 + <bool as Dom>::N,
            LC260::V56 => 55 + <bool as Dom>::N,
            LC260::V57 => 56 + <bool as Dom>::N,
            LC260::V58 => 57 + <bool as Dom>::N,
            LC260::V59 => 58 + <bool as Dom>::N,
            LC260::V60 => 59 + <bool as Dom>::N,
            LC260::V61 => 60 + <bool as Dom>::N,
            LC260::V62 => 61 + <bool as Dom>::N,
            LC260::V63 => 62 + <bool as Dom>::N,
            LC260::V64 => 63 + <bool as Dom>::N,
            LC260::V65 => 64 + <bool as Dom>::N,
            LC260::V66 => 65 + <bool as Dom>::N,
            LC260::V67 => 66 + <bool as Dom>::N,
            LC260::V68 => 67 + <bool as Dom>::N,
            LC260::V69 => 68 + <bool as Dom>::N,
            LC260::V70 => 69 + <bool as Dom>::N,
            LC260::V71 => 70 + <bool as Dom>::N,
            LC260::V72 => 71 + <bool as Dom>::N,
            LC260::V73 => 72 + <bool as Dom>::N,
            LC260::V74 => 73 + <bool as Dom>::N,
            LC260::V75 => 74 + <bool as Dom>::N,
            LC260::V76 => 75 + <bool as Dom>::N,
            LC260::V77 => 76 + <bool as Dom>::N,
            LC260::V78 => 77 + <bool as Dom>::N,
            LC260::V79 => 78 + <bool as Dom>::N,
            LC260::V80 => 79 + <bool as Dom>::N,
            LC260::V81 => 80 + <bool as Dom>::N,
            LC260::V82 => 81 + <bool as Dom>::N,
            LC260::V83 => 82 + <bool as Dom>::N,
            LC260::V84 => 83 + <bool as Dom>::N,
            LC260::V85 => 84 + <bool as Dom>::N,
            LC260::V86 => 85 + <bool as Dom>::N,
            LC260::V87 => 86 + <bool as Dom>::N,
            LC260::V88 => 87 + <bool as Dom>::N,
            LC260::V89 => 88 + <bool as Dom>::N,
            LC260::V90 => 89 + <bool as Dom>::N,
            LC260::V91 => 90 + <bool as Dom>::N,
            LC260::V92 => 91 + <bool as Dom>::N,
            LC260::V93 => 92 + <bool as Dom>::N,
            LC260::V94 => 93 + <bool as Dom>::N,
            LC260::V95 => 94 + <bool as Dom>::N,
            LC260::V96 => 95 + <bool as Dom>::N,
            LC260::V97 => 96 + <bool as Dom>::N,
            LC260::V98 => 97 + <bool as Dom>::N,
            LC260::V99 => 98 + <bool as Dom>::N,
            LC260::V100 => 99 + <bool as Dom>::N,
            LC260::V101 => 100 + <bool as Dom>::N,
            LC260::V102 => 101 + <bool as Dom>::N,
            LC260::V103 => 102 + <bool as Dom>::N,
            LC260::V104 => 103 + <bool as Dom>::N,
            LC260::V105 => 104 + <bool as Dom>::N,
            LC260::V106 => 105 + <bool as Dom>::N,
            LC260::V107 => 106 + <bool as Dom>::N,
            LC260::V108 => 107 + <bool as Dom>::N,
            LC260::V109 => 108 + <bool as Dom>::N,
            LC260::V110 => 109 + <bool as Dom>::N,
            LC260::V111 => 110 + <bool as Dom>::N,
            LC260::V112 => 111 + <bool as Dom>::N,
            LC260::V113 => 112 + <bool as Dom>::N,
            LC260::V114 => 113 + <bool as Dom>::N,
            LC260::V115 => 114 + <bool as Dom>::N,
            LC260::V116 => 115 + <bool as Dom>::N,
            LC260::V117 => 116 + <bool as Dom>::N,
            LC260::V118 => 117 + <bool as Dom>::N,
            LC260::V119 => 118 + <bool as Dom>::N,
            LC260::V120 => 119 + <bool as Dom>::N,
            LC260::V121 => 120 + <bool as Dom>::N,
            LC260::V122 => 121 + <bool as Dom>::N,
            LC260::V123 => 122 + <bool as Dom>::N,
            LC260::V124 => 123 + <bool as Dom>::N,
            LC260::V125 => 124 + <bool as Dom>::N,
            LC260::V126 => 125 + <bool as Dom>::N,
            LC260::V127 => 126 + <bool as Dom>::N,
            LC260::V128 => 127 + <bool as Dom>::N,
            LC260::V129 => 128 + <bool as Dom>::N,
            LC260::V130(x) => off(129 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
            LC260::V131 => 129 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V132 => 130 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V133 => 131 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V134 => 132 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V135 => 133 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V136 => 134 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V137 => 135 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V138 => 136 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V139 => 137 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V140 => 138 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V141 => 139 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V142 => 140 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V143 => 141 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V144 => 142 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V145 => 143 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V146 => 144 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V147 => 145 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V148 => 146 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V149 => 147 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V150 => 148 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V151 => 149 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V152 => 150 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V153 => 151 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V154 => 152 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V155 => 153 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V156 => 154 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V157 => 155 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V158 => 156 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V159 => 157 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V160 => 158 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V161 => 159 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V162 => 160 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V163 => 161 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V164 => 162 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V165 => 163 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V166 => 164 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V167 => 165 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V168 => 166 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V169 => 167 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V170 => 168 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V171 => 169 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V172 => 170 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V173 => 171 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V174 => 172 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V175 => 173 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V176 => 174 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V177 => 175 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V178 => 176 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V179 => 177 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V180 => 178 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V181 => 179 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V182 => 180 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V183 => 181 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V184 => 182 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V185 => 183 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V186 => 184 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V187 => 185 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V188 => 186 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V189 => 187 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V190 => 188 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V191 => 189 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V192 => 190 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V193 => 191 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V194 => 192 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V195 => 193 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V196 => 194 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V197 => 195 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V198 => 196 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V199 => 197 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V200 => 198 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V201 => 199 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V202 => 200 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V203 => 201 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V204 => 202 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V205 => 203 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V206 => 204 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V207 => 205 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V208 => 206 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V209 => 207 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V210 => 208 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V211 => 209 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V212 => 210 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V213 => 211 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V214 => 212 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V215 => 213 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V216 => 214 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V217 => 215 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V218 => 216 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V219 => 217 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V220 => 218 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V221 => 219 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V222 => 220 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V223 => 221 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V224 => 222 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V225 => 223 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V226 => 224 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V227 => 225 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V228 => 226 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V229 => 227 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V230 => 228 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V231 => 229 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V232 => 230 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V233 => 231 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V234 => 232 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V235 => 233 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V236 => 234 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V237 => 235 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V238 => 236 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V239 => 237 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V240 => 238 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V241 => 239 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V242 => 240 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V243 => 241 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V244 => 242 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V245 => 243 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V246 => 244 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V247 => 245 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V248 => 246 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V249 => 247 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V250 => 248 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V251 => 249 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V252 => 250 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V253 => 251 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V254 => 252 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V255 => 253 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V256 => 254 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V257 => 255 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V258 => 256 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V259(x) => off(257 + <bool as Dom>::N + <Option<bool> as Dom>::N, <U3 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <U3 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LC260);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum LN { A(L33), B, C(LK65) }
impl Dom for LN {
    const N: usize = 1 + <L33 as Dom>::N + <LK65 as Dom>::N;
    const STATIC: bool = true && <L33 as Dom>::STATIC && <LK65 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <L33 as Dom>::N { return LN::A(<L33 as Dom>::at(i)); } i -= <L33 as Dom>::N;
        if i == 0 { return LN::B; } i -= 1;
        if i < <LK65 as Dom>::N { return LN::C(<LK65 as Dom>::at(i)); } i -= <LK65 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            LN::A(x) => off(0, <L33 as Dom>::idx(x)),
            LN::B => 0 + <L33 as Dom>::N,
            LN::C(x) => off(1 + <L33 as Dom>::N, <LK65 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <L33 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <LK65 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(LN);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum MA { V0(U5), V1, V2(K6) }
impl Dom for MA {
    const N: usize = 1 + <U5 as Dom>::N + <K6 as Dom>::N;
    const STATIC: bool = true && <U5 as Dom>::STATIC && <K6 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U5 as Dom>::N { return MA::V0(<U5 as Dom>::at(i)); } i -= <U5 as Dom>::N;
        if i == 0 { return MA::V1; } i -= 1;
        if i < <K6 as Dom>::N { return MA::V2(<K6 as Dom>::at(i)); } i -= <K6 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            MA::V0(x) => off(0, <U5 as Dom>::idx(x)),
            MA::V1 => 0 + <U5 as Dom>::N,
            MA::V2(x) => off(1 + <U5 as Dom>::N, <K6 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U5 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <K6 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(MA);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum MB { V0(Option<U5>), V1(U4), V2(L17) }
impl Dom for MB {
    const N: usize = 0 + <Option<U5> as Dom>::N + <U4 as Dom>::N + <L17 as Dom>::N;
    const STATIC: bool = true && <Option<U5> as Dom>::STATIC && <U4 as Dom>::STATIC && <L17 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<U5> as Dom>::N { return MB::V0(<Option<U5> as Dom>::at(i)); } i -= <Option<U5> as Dom>::N;
        if i < <U4 as Dom>::N { return MB::V1(<U4 as Dom>::at(i)); } i -= <U4 as Dom>::N;
        if i < <L17 as Dom>::N { return MB::V2(<L17 as Dom>::at(i)); } i -= <L17 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            MB::V0(x) => off(0, <Option<U5> as Dom>::idx(x)),
            MB::V1(x) => off(0 + <Option<U5> as Dom>::N, <U4 as Dom>::idx(x)),
            MB::V2(x) => off(0 + <Option<U5> as Dom>::N + <U4 as Dom>::N, <L17 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<U5> as Dom>::ranks(out, next);
        <U4 as Dom>::ranks(out, next);
        <L17 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(MB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum MC { V0, V1(K5), V2(NestB), V3(Option<Option<bool>>) }
impl Dom for MC {
    const N: usize = 1 + <K5 as Dom>::N + <NestB as Dom>::N + <Option<Option<bool>> as Dom>::N;
    const STATIC: bool = true && <K5 as Dom>::STATIC && <NestB as Dom>::STATIC && <Option<Option<bool>> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return MC::V0; } i -= 1;
        if i < <K5 as Dom>::N { return MC::V1(<K5 as Dom>::at(i)); } i -= <K5 as Dom>::N;
        if i < <NestB as Dom>::N { return MC::V2(<NestB as Dom>::at(i)); } i -= <NestB as Dom>::N;
        if i < <Option<Option<bool>> as Dom>::N { return MC::V3(<Option<Option<bool>> as Dom>::at(i)); } i -= <Option<Option<bool>> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            MC::V0 => 0,
            MC::V1(x) => off(1, <K5 as Dom>::idx(x)),
            MC::V2(x) => off(1 + <K5 as Dom>::N, <NestB as Dom>::idx(x)),
            MC::V3(x) => off(1 + <K5 as Dom>::N + <NestB as Dom>::N, <Option<Option<bool>> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <K5 as Dom>::ranks(out, next);
        <NestB as Dom>::ranks(out, next);
        <Option<Option<bool>> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(MC);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum MD { V0(bool), V1(bool), V2(bool), V3(bool), V4(bool), V5(bool) }
impl Dom for MD {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return MD::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return MD::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return MD::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return MD::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return MD::V4(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return MD::V5(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            MD::V0(x) => off(0, <bool as Dom>::idx(x)),
            MD::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            MD::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            MD::V3(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            MD::V4(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            MD::V5(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(MD);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ME { V0(()), V1(bool), V2(U3), V3(NestA), V4(Option<U6>), V5(K8), V6, V7 }
impl Dom for ME {
    const N: usize = 2 + <() as Dom>::N + <bool as Dom>::N + <U3 as Dom>::N + <NestA as Dom>::N + <Option<U6> as Dom>::N + <K8 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <U3 as Dom>::STATIC && <NestA as Dom>::STATIC && <Option<U6> as Dom>::STATIC && <K8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return ME::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return ME::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <U3 as Dom>::N { return ME::V2(<U3 as Dom>::at(i)); } i -= <U3 as Dom>::N;
        if i < <NestA as Dom>::N { return ME::V3(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <Option<U6> as Dom>::N { return ME::V4(<Option<U6> as Dom>::at(i)); } i -= <Option<U6> as Dom>::N;
        if i < <K8 as Dom>::N { return ME::V5(<K8 as Dom>::at(i)); } i -= <K8 as Dom>::N;
        if i == 0 { return ME::V6; } i -= 1;
        if i == 0 { return ME::V7; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ME::V0(x) => off(0, <() as Dom>::idx(x)),
            ME::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            ME::V2(x) => off(0 + <() as Dom>::N + <bool as Dom>::N, <U3 as Dom>::idx(x)),
            ME::V3(x) => off(0 + <() as Dom>::N + <bool as Dom>::N + <U3 as Dom>::N, <NestA as Dom>::idx(x)),
            ME::V4(x) => off(0 + <() as Dom>::N + <bool as Dom>::N + <U3 as Dom>::N + <NestA as Dom>::N, <Option<U6> as Dom>::idx(x)),
            ME::V5(x) => off(0 + <() as Dom>::N + <bool as Dom>::N + <U3 as Dom>::N + <NestA as Dom>::N + <Option<U6> as Dom>::N, <K8 as Dom>::idx(x)),
            ME::V6 => 0 + <() as Dom>::N + <bool as Dom>::N + <U3 as Dom>::N + <NestA as Dom>::N + <Option<U6> as Dom>::N + <K8 as Dom>::N,
            ME::V7 => 1 + <() as Dom>::N + <bool as Dom>::N + <U3 as Dom>::N + <NestA as Dom>::N + <Option<U6> as Dom>::N + <K8 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <U3 as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
        <Option<U6> as Dom>::ranks(out, next);
        <K8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(ME);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum MF { V0, V1, V2, V3, V4, V5(U5), V6, V7, V8, V9, V10, V11(LK9), V12 }
impl Dom for MF {
    const N: usize = 11 + <U5 as Dom>::N + <LK9 as Dom>::N;
    const STATIC: bool = true && <U5 as Dom>::STATIC && <LK9 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return MF::V0; } i -= 1;
        if i == 0 { return MF::V1; } i -= 1;
        if i == 0 { return MF::V2; } i -= 1;
        if i == 0 { return MF::V3; } i -= 1;
        if i == 0 { return MF::V4; } i -= 1;
        if i < <U5 as Dom>::N { return MF::V5(<U5 as Dom>::at(i)); } i -= <U5 as Dom>::N;
        if i == 0 { return MF::V6; } i -= 1;
        if i == 0 { return MF::V7; } i -= 1;
        if i == 0 { return MF::V8; } i -= 1;
        if i == 0 { return MF::V9; } i -= 1;
        if i == 0 { return MF::V10; } i -= 1;
        if i < <LK9 as Dom>::N { return MF::V11(<LK9 as Dom>::at(i)); } i -= <LK9 as Dom>::N;
        if i == 0 { return MF::V12; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            MF::V0 => 0,
            MF::V1 => 1,
            MF::V2 => 2,
            MF::V3 => 3,
            MF::V4 => 4,
            MF::V5(x) => off(5, <U5 as Dom>::idx(x)),
            MF::V6 => 5 + <U5 as Dom>::N,
            MF::V7 => 6 + <U5 as Dom>::N,
            MF::V8 => 7 + <U5 as Dom>::N,
            MF::V9 => 8 + <U5 as Dom>::N,
            MF::V10 => 9 + <U5 as Dom>::N,
            MF::V11(x) => off(10 + <U5 as Dom>::N, <LK9 as Dom>::idx(x)),
            MF::V12 => 10 + <U5 as Dom>::N + <LK9 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <U5 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <LK9 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(MF);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum MG { V0(LK33) }
impl Dom for MG {
    const N: usize = 0 + <LK33 as Dom>::N;
    const STATIC: bool = true && <LK33 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <LK33 as Dom>::N { return MG::V0(<LK33 as Dom>::at(i)); } i -= <LK33 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            MG::V0(x) => off(0, <LK33 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <LK33 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(MG);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum MH { V0(Option<NestC>) }
impl Dom for MH {
    const N: usize = 0 + <Option<NestC> as Dom>::N;
    const STATIC: bool = true && <Option<NestC> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<NestC> as Dom>::N { return MH::V0(<Option<NestC> as Dom>::at(i)); } i -= <Option<NestC> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            MH::V0(x) => off(0, <Option<NestC> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<NestC> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(MH);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum MI { V0(NestB), V1(NestB) }
impl Dom for MI {
    const N: usize = 0 + <NestB as Dom>::N + <NestB as Dom>::N;
    const STATIC: bool = true && <NestB as Dom>::STATIC && <NestB as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestB as Dom>::N { return MI::V0(<NestB as Dom>::at(i)); } i -= <NestB as Dom>::N;
        if i < <NestB as Dom>::N { return MI::V1(<NestB as Dom>::at(i)); } i -= <NestB as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            MI::V0(x) => off(0, <NestB as Dom>::idx(x)),
            MI::V1(x) => off(0 + <NestB as Dom>::N, <NestB as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestB as Dom>::ranks(out, next);
        <NestB as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(MI);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum MJ { V0(MA), V1(Option<MA>) }
impl Dom for MJ {
    const N: usize = 0 + <MA as Dom>::N + <Option<MA> as Dom>::N;
    const STATIC: bool = true && <MA as Dom>::STATIC && <Option<MA> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <MA as Dom>::N { return MJ::V0(<MA as Dom>::at(i)); } i -= <MA as Dom>::N;
        if i < <Option<MA> as Dom>::N { return MJ::V1(<Option<MA> as Dom>::at(i)); } i -= <Option<MA> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            MJ::V0(x) => off(0, <MA as Dom>::idx(x)),
            MJ::V1(x) => off(0 + <MA as Dom>::N, <Option<MA> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <MA as Dom>::ranks(out, next);
        <Option<MA> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(MJ);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum MK { V0, V1, V2, V3, V4(MD), V5(K4) }
impl Dom for MK {
    const N: usize = 4 + <MD as Dom>::N + <K4 as Dom>::N;
    const STATIC: bool = true && <MD as Dom>::STATIC && <K4 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return MK::V0; } i -= 1;
        if i == 0 { return MK::V1; } i -= 1;
        if i == 0 { return MK::V2; } i -= 1;
        if i == 0 { return MK::V3; } i -= 1;
        if i < <MD as Dom>::N { return MK::V4(<MD as Dom>::at(i)); } i -= <MD as Dom>::N;
        if i < <K4 as Dom>::N { return MK::V5(<K4 as Dom>::at(i)); } i -= <K4 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            MK::V0 => 0,
            MK::V1 => 1,
            MK::V2 => 2,
            MK::V3 => 3,
            MK::V4(x) => off(4, <MD as Dom>::idx(x)),
            MK::V5(x) => off(4 + <MD as Dom>::N, <K4 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <MD as Dom>::ranks(out, next);
        <K4 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(MK);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ML { V0(bool), V1(bool), V2(bool), V3(bool), V4(bool), V5(bool), V6(bool), V7(bool), V8(bool), V9(bool), V10(bool), V11(bool) }
impl Dom for ML {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return ML::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return ML::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return ML::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return ML::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return ML::V4(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return ML::V5(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return ML::V6(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return ML::V7(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return ML::V8(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return ML::V9(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return ML::V10(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return ML::V11(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ML::V0(x) => off(0, <bool as Dom>::idx(x)),
            ML::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            ML::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            ML::V3(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            ML::V4(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            ML::V5(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            ML::V6(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            ML::V7(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            ML::V8(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            ML::V9(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            ML::V10(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            ML::V11(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(ML);

#[cfg(feature = "dyn")]
mod m_DA { use super::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DA { A(u8), B, C(u8) }
impl Dom for DA {
    const N: usize = 1 + <u8 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return DA::A(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return DA::B; } i -= 1;
        if i < <u8 as Dom>::N { return DA::C(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            DA::A(x) => off(0, <u8 as Dom>::idx(x)),
            DA::B => 0 + <u8 as Dom>::N,
            DA::C(x) => off(1 + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(DA);
}
#[cfg(feature = "dyn")]
pub use m_DA::DA;

#[cfg(feature = "dyn")]
mod m_DB { use super::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DB { A(&'static str), B(bool) }
impl Dom for DB {
    const N: usize = 0 + <&'static str as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <&'static str as Dom>::N { return DB::A(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i < <bool as Dom>::N { return DB::B(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            DB::A(x) => off(0, <&'static str as Dom>::idx(x)),
            DB::B(x) => off(0 + <&'static str as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <&'static str as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(DB);
}
#[cfg(feature = "dyn")]
pub use m_DB::DB;

#[cfg(feature = "dyn")]
mod m_DC { use super::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DC { A(Option<i64>), B(DA) }
impl Dom for DC {
    const N: usize = 0 + <Option<i64> as Dom>::N + <DA as Dom>::N;
    const STATIC: bool = true && <Option<i64> as Dom>::STATIC && <DA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<i64> as Dom>::N { return DC::A(<Option<i64> as Dom>::at(i)); } i -= <Option<i64> as Dom>::N;
        if i < <DA as Dom>::N { return DC::B(<DA as Dom>::at(i)); } i -= <DA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            DC::A(x) => off(0, <Option<i64> as Dom>::idx(x)),
            DC::B(x) => off(0 + <Option<i64> as Dom>::N, <DA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<i64> as Dom>::ranks(out, next);
        <DA as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(DC);
}
#[cfg(feature = "dyn")]
pub use m_DC::DC;

#[cfg(feature = "dyn")]
mod m_DD { use super::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DD { A(char) }
impl Dom for DD {
    const N: usize = 0 + <char as Dom>::N;
    const STATIC: bool = true && <char as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <char as Dom>::N { return DD::A(<char as Dom>::at(i)); } i -= <char as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            DD::A(x) => off(0, <char as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <char as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(DD);
}
#[cfg(feature = "dyn")]
pub use m_DD::DD;

#[cfg(feature = "dyn")]
mod m_DF { use super::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DF { A(Option<DA>), B, C(Option<char>), D(NestA) }
impl Dom for DF {
    const N: usize = 1 + <Option<DA> as Dom>::N + <Option<char> as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <Option<DA> as Dom>::STATIC && <Option<char> as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<DA> as Dom>::N { return DF::A(<Option<DA> as Dom>::at(i)); } i -= <Option<DA> as Dom>::N;
        if i == 0 { return DF::B; } i -= 1;
        if i < <Option<char> as Dom>::N { return DF::C(<Option<char> as Dom>::at(i)); } i -= <Option<char> as Dom>::N;
        if i < <NestA as Dom>::N { return DF::D(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            DF::A(x) => off(0, <Option<DA> as Dom>::idx(x)),
            DF::B => 0 + <Option<DA> as Dom>::N,
            DF::C(x) => off(1 + <Option<DA> as Dom>::N, <Option<char> as Dom>::idx(x)),
            DF::D(x) => off(1 + <Option<DA> as Dom>::N + <Option<char> as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<DA> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<char> as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(DF);
}
#[cfg(feature = "dyn")]
pub use m_DF::DF;

#[cfg(feature = "dyn")]
mod m_DG { use super::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DG { A(DC), B(u32), C(DB) }
impl Dom for DG {
    const N: usize = 0 + <DC as Dom>::N + <u32 as Dom>::N + <DB as Dom>::N;
    const STATIC: bool = true && <DC as Dom>::STATIC && <u32 as Dom>::STATIC && <DB as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <DC as Dom>::N { return DG::A(<DC as Dom>::at(i)); } i -= <DC as Dom>::N;
        if i < <u32 as Dom>::N { return DG::B(<u32 as Dom>::at(i)); } i -= <u32 as Dom>::N;
        if i < <DB as Dom>::N { return DG::C(<DB as Dom>::at(i)); } i -= <DB as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            DG::A(x) => off(0, <DC as Dom>::idx(x)),
            DG::B(x) => off(0 + <DC as Dom>::N, <u32 as Dom>::idx(x)),
            DG::C(x) => off(0 + <DC as Dom>::N + <u32 as Dom>::N, <DB as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <DC as Dom>::ranks(out, next);
        <u32 as Dom>::ranks(out, next);
        <DB as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(DG);
}
#[cfg(feature = "dyn")]
pub use m_DG::DG;

#[cfg(feature = "dyn")]
mod m_DE { use super::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DE { A, B(&'static [u8]), C }
impl Dom for DE {
    const N: usize = 2 + <&'static [u8] as Dom>::N;
    const STATIC: bool = true && <&'static [u8] as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return DE::A; } i -= 1;
        if i < <&'static [u8] as Dom>::N { return DE::B(<&'static [u8] as Dom>::at(i)); } i -= <&'static [u8] as Dom>::N;
        if i == 0 { return DE::C; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            DE::A => 0,
            DE::B(x) => off(1, <&'static [u8] as Dom>::idx(x)),
            DE::C => 1 + <&'static [u8] as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static [u8] as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "full")]
fmcheck_dom::key_serde!(DE);
}
#[cfg(feature = "dyn")]
pub use m_DE::DE;

#[macro_export]
macro_rules! zoo_unit { ($m:ident) => { $m! { [$crate::zoo::U0, "U0"], [$crate::zoo::K0, "K0"], [$crate::zoo::U1, "U1"], [$crate::zoo::K1, "K1"], [$crate::zoo::U2, "U2"], [$crate::zoo::K2, "K2"], [$crate::zoo::U3, "U3"], [$crate::zoo::K3, "K3"], [$crate::zoo::U4, "U4"], [$crate::zoo::K4, "K4"], [$crate::zoo::U5, "U5"], [$crate::zoo::K5, "K5"], [$crate::zoo::U6, "U6"], [$crate::zoo::K6, "K6"], [$crate::zoo::U8, "U8"], [$crate::zoo::K8, "K8"], [$crate::zoo::DiscU, "DiscU"], [$crate::zoo::DiscK, "DiscK"], [$crate::zoo::NamesU, "NamesU"], [$crate::zoo::L7, "L7"], [$crate::zoo::LK7, "LK7"], [$crate::zoo::L9, "L9"], [$crate::zoo::LK9, "LK9"], [$crate::zoo::L15, "L15"], [$crate::zoo::LK15, "LK15"], [$crate::zoo::L16, "L16"], [$crate::zoo::LK16, "LK16"], [$crate::zoo::L17, "L17"], [$crate::zoo::LK17, "LK17"], [$crate::zoo::L24, "L24"], [$crate::zoo::LK24, "LK24"], [$crate::zoo::L31, "L31"], [$crate::zoo::LK31, "LK31"], [$crate::zoo::L32, "L32"], [$crate::zoo::LK32, "LK32"], [$crate::zoo::L33, "L33"], [$crate::zoo::LK33, "LK33"], [$crate::zoo::L48, "L48"], [$crate::zoo::LK48, "LK48"], [$crate::zoo::L63, "L63"], [$crate::zoo::LK63, "LK63"], [$crate::zoo::L64, "L64"], [$crate::zoo::LK64, "LK64"], [$crate::zoo::L65, "L65"], [$crate::zoo::LK65, "LK65"], [$crate::zoo::L96, "L96"], [$crate::zoo::LK96, "LK96"], [$crate::zoo::L127, "L127"], [$crate::zoo::LK127, "LK127"], [$crate::zoo::L128, "L128"], [$crate::zoo::LK128, "LK128"], [$crate::zoo::L129, "L129"], [$crate::zoo::L200, "L200"], [$crate::zoo::L257, "L257"] } } }
#[macro_export]
macro_rules! zoo_small { ($m:ident) => { $m! { [$crate::zoo::U0, "U0"], [$crate::zoo::K0, "K0"], [$crate::zoo::U1, "U1"], [$crate::zoo::K1, "K1"], [$crate::zoo::U2, "U2"], [$crate::zoo::K2, "K2"], [$crate::zoo::U3, "U3"], [$crate::zoo::K3, "K3"], [$crate::zoo::U4, "U4"], [$crate::zoo::K4, "K4"], [$crate::zoo::U5, "U5"], [$crate::zoo::K5, "K5"], [$crate::zoo::U6, "U6"], [$crate::zoo::K6, "K6"], [$crate::zoo::U8, "U8"], [$crate::zoo::K8, "K8"], [$crate::zoo::NestA, "NestA"], [$crate::zoo::NestB, "NestB"], [$crate::zoo::NestC, "NestC"], [$crate::zoo::C1B, "C1B"], [$crate::zoo::C1S, "C1S"], [$crate::zoo::C1O, "C1O"], [$crate::zoo::C1E, "C1E"], [$crate::zoo::C1K, "C1K"], [$crate::zoo::C1Z, "C1Z"], [$crate::zoo::C1C, "C1C"], [$crate::zoo::C1P, "C1P"], [$crate::zoo::C2UB, "C2UB"], [$crate::zoo::C2US, "C2US"], [$crate::zoo::C2UO, "C2UO"], [$crate::zoo::C2UE, "C2UE"], [$crate::zoo::C2UC, "C2UC"], [$crate::zoo::C2BU, "C2BU"], [$crate::zoo::C2BB, "C2BB"], [$crate::zoo::C2BS, "C2BS"], [$crate::zoo::C2BO, "C2BO"], [$crate::zoo::C2BE, "C2BE"], [$crate::zoo::C2BC, "C2BC"], [$crate::zoo::C2SU, "C2SU"], [$crate::zoo::C2SB, "C2SB"], [$crate::zoo::C2SS, "C2SS"], [$crate::zoo::C2SO, "C2SO"], [$crate::zoo::C2SE, "C2SE"], [$crate::zoo::C2SC, "C2SC"], [$crate::zoo::C2OU, "C2OU"], [$crate::zoo::C2OB, "C2OB"], [$crate::zoo::C2OS, "C2OS"], [$crate::zoo::C2OO, "C2OO"], [$crate::zoo::C2OE, "C2OE"], [$crate::zoo::C2OC, "C2OC"], [$crate::zoo::C2EU, "C2EU"], [$crate::zoo::C2EB, "C2EB"], [$crate::zoo::C2ES, "C2ES"], [$crate::zoo::C2EO, "C2EO"], [$crate::zoo::C2EE, "C2EE"], [$crate::zoo::C2EC, "C2EC"], [$crate::zoo::C2CU, "C2CU"], [$crate::zoo::C2CB, "C2CB"], [$crate::zoo::C2CS, "C2CS"], [$crate::zoo::C2CO, "C2CO"], [$crate::zoo::C2CE, "C2CE"], [$crate::zoo::C2CC, "C2CC"], [$crate::zoo::C3UUB, "C3UUB"], [$crate::zoo::C3UUS, "C3UUS"], [$crate::zoo::C3UBU, "C3UBU"], [$crate::zoo::C3UBB, "C3UBB"], [$crate::zoo::C3UBS, "C3UBS"], [$crate::zoo::C3USU, "C3USU"], [$crate::zoo::C3USB, "C3USB"], [$crate::zoo::C3USS, "C3USS"], [$crate::zoo::C3BUU, "C3BUU"], [$crate::zoo::C3BUB, "C3BUB"], [$crate::zoo::C3BUS, "C3BUS"], [$crate::zoo::C3BBU, "C3BBU"], [$crate::zoo::C3BBB, "C3BBB"], [$crate::zoo::C3BBS, "C3BBS"], [$crate::zoo::C3BSU, "C3BSU"], [$crate::zoo::C3BSB, "C3BSB"], [$crate::zoo::C3BSS, "C3BSS"], [$crate::zoo::C3SUU, "C3SUU"], [$crate::zoo::C3SUB, "C3SUB"], [$crate::zoo::C3SUS, "C3SUS"], [$crate::zoo::C3SBU, "C3SBU"], [$crate::zoo::C3SBB, "C3SBB"], [$crate::zoo::C3SBS, "C3SBS"], [$crate::zoo::C3SSU, "C3SSU"], [$crate::zoo::C3SSB, "C3SSB"], [$crate::zoo::C3SSS, "C3SSS"], [$crate::zoo::C3UOE, "C3UOE"], [$crate::zoo::C3EOU, "C3EOU"], [$crate::zoo::C3OUK, "C3OUK"], [$crate::zoo::C3ZUB, "C3ZUB"], [$crate::zoo::C3UZB, "C3UZB"], [$crate::zoo::C3BUZ, "C3BUZ"], [$crate::zoo::C3KUS, "C3KUS"], [$crate::zoo::C4UBUB, "C4UBUB"], [$crate::zoo::C4BUBU, "C4BUBU"], [$crate::zoo::C4UUBB, "C4UUBB"], [$crate::zoo::C4BBUU, "C4BBUU"], [$crate::zoo::C4SUSU, "C4SUSU"], [$crate::zoo::C4USBO, "C4USBO"], [$crate::zoo::DiscU, "DiscU"], [$crate::zoo::DiscK, "DiscK"], [$crate::zoo::RawId, "RawId"], [$crate::zoo::Names, "Names"], [$crate::zoo::NamesU, "NamesU"] } } }
#[macro_export]
macro_rules! zoo_bits { ($m:ident) => { $m! { [$crate::zoo::K0, "K0"], [$crate::zoo::K1, "K1"], [$crate::zoo::K2, "K2"], [$crate::zoo::K3, "K3"], [$crate::zoo::K4, "K4"], [$crate::zoo::K5, "K5"], [$crate::zoo::K6, "K6"], [$crate::zoo::K8, "K8"], [$crate::zoo::DiscK, "DiscK"], [$crate::zoo::LK7, "LK7"], [$crate::zoo::LK9, "LK9"], [$crate::zoo::LK15, "LK15"], [$crate::zoo::LK16, "LK16"], [$crate::zoo::LK17, "LK17"], [$crate::zoo::LK24, "LK24"], [$crate::zoo::LK31, "LK31"], [$crate::zoo::LK32, "LK32"], [$crate::zoo::LK33, "LK33"], [$crate::zoo::LK48, "LK48"], [$crate::zoo::LK63, "LK63"], [$crate::zoo::LK64, "LK64"], [$crate::zoo::LK65, "LK65"], [$crate::zoo::LK96, "LK96"], [$crate::zoo::LK127, "LK127"], [$crate::zoo::LK128, "LK128"] } } }
#[macro_export]
macro_rules! zoo_comp { ($m:ident) => { $m! { [$crate::zoo::NestA, "NestA"], [$crate::zoo::NestB, "NestB"], [$crate::zoo::NestC, "NestC"], [$crate::zoo::C1B, "C1B"], [$crate::zoo::C1S, "C1S"], [$crate::zoo::C1O, "C1O"], [$crate::zoo::C1E, "C1E"], [$crate::zoo::C1K, "C1K"], [$crate::zoo::C1Z, "C1Z"], [$crate::zoo::C1C, "C1C"], [$crate::zoo::C1P, "C1P"], [$crate::zoo::C2UB, "C2UB"], [$crate::zoo::C2US, "C2US"], [$crate::zoo::C2UO, "C2UO"], [$crate::zoo::C2UE, "C2UE"], [$crate::zoo::C2UC, "C2UC"], [$crate::zoo::C2BU, "C2BU"], [$crate::zoo::C2BB, "C2BB"], [$crate::zoo::C2BS, "C2BS"], [$crate::zoo::C2BO, "C2BO"], [$crate::zoo::C2BE, "C2BE"], [$crate::zoo::C2BC, "C2BC"], [$crate::zoo::C2SU, "C2SU"], [$crate::zoo::C2SB, "C2SB"], [$crate::zoo::C2SS, "C2SS"], [$crate::zoo::C2SO, "C2SO"], [$crate::zoo::C2SE, "C2SE"], [$crate::zoo::C2SC, "C2SC"], [$crate::zoo::C2OU, "C2OU"], [$crate::zoo::C2OB, "C2OB"], [$crate::zoo::C2OS, "C2OS"], [$crate::zoo::C2OO, "C2OO"], [$crate::zoo::C2OE, "C2OE"], [$crate::zoo::C2OC, "C2OC"], [$crate::zoo::C2EU, "C2EU"], [$crate::zoo::C2EB, "C2EB"], [$crate::zoo::C2ES, "C2ES"], [$crate::zoo::C2EO, "C2EO"], [$crate::zoo::C2EE, "C2EE"], [$crate::zoo::C2EC, "C2EC"], [$crate::zoo::C2CU, "C2CU"], [$crate::zoo::C2CB, "C2CB"], [$crate::zoo::C2CS, "C2CS"], [$crate::zoo::C2CO, "C2CO"], [$crate::zoo::C2CE, "C2CE"], [$crate::zoo::C2CC, "C2CC"], [$crate::zoo::C3UUB, "C3UUB"], [$crate::zoo::C3UUS, "C3UUS"], [$crate::zoo::C3UBU, "C3UBU"], [$crate::zoo::C3UBB, "C3UBB"], [$crate::zoo::C3UBS, "C3UBS"], [$crate::zoo::C3USU, "C3USU"], [$crate::zoo::C3USB, "C3USB"], [$crate::zoo::C3USS, "C3USS"], [$crate::zoo::C3BUU, "C3BUU"], [$crate::zoo::C3BUB, "C3BUB"], [$crate::zoo::C3BUS, "C3BUS"], [$crate::zoo::C3BBU, "C3BBU"], [$crate::zoo::C3BBB, "C3BBB"], [$crate::zoo::C3BBS, "C3BBS"], [$crate::zoo::C3BSU, "C3BSU"], [$crate::zoo::C3BSB, "C3BSB"], [$crate::zoo::C3BSS, "C3BSS"], [$crate::zoo::C3SUU, "C3SUU"], [$crate::zoo::C3SUB, "C3SUB"], [$crate::zoo::C3SUS, "C3SUS"], [$crate::zoo::C3SBU, "C3SBU"], [$crate::zoo::C3SBB, "C3SBB"], [$crate::zoo::C3SBS, "C3SBS"], [$crate::zoo::C3SSU, "C3SSU"], [$crate::zoo::C3SSB, "C3SSB"], [$crate::zoo::C3SSS, "C3SSS"], [$crate::zoo::C3UOE, "C3UOE"], [$crate::zoo::C3EOU, "C3EOU"], [$crate::zoo::C3OUK, "C3OUK"], [$crate::zoo::C3ZUB, "C3ZUB"], [$crate::zoo::C3UZB, "C3UZB"], [$crate::zoo::C3BUZ, "C3BUZ"], [$crate::zoo::C3KUS, "C3KUS"], [$crate::zoo::C4UBUB, "C4UBUB"], [$crate::zoo::C4BUBU, "C4BUBU"], [$crate::zoo::C4UUBB, "C4UUBB"], [$crate::zoo::C4BBUU, "C4BBUU"], [$crate::zoo::C4SUSU, "C4SUSU"], [$crate::zoo::C4USBO, "C4USBO"], [$crate::zoo::RawId, "RawId"], [$crate::zoo::Names, "Names"], [$crate::zoo::LC16, "LC16"], [$crate::zoo::LC33, "LC33"], [$crate::zoo::LC70, "LC70"], [$crate::zoo::LC140, "LC140"], [$crate::zoo::LC260, "LC260"], [$crate::zoo::LN, "LN"], [$crate::zoo::MA, "MA"], [$crate::zoo::MB, "MB"], [$crate::zoo::MC, "MC"], [$crate::zoo::MD, "MD"], [$crate::zoo::ME, "ME"], [$crate::zoo::MF, "MF"], [$crate::zoo::MG, "MG"], [$crate::zoo::MH, "MH"], [$crate::zoo::MI, "MI"], [$crate::zoo::MJ, "MJ"], [$crate::zoo::MK, "MK"], [$crate::zoo::ML, "ML"] } } }
#[macro_export]
macro_rules! zoo_large { ($m:ident) => { $m! { [$crate::zoo::L7, "L7"], [$crate::zoo::LK7, "LK7"], [$crate::zoo::L9, "L9"], [$crate::zoo::LK9, "LK9"], [$crate::zoo::L15, "L15"], [$crate::zoo::LK15, "LK15"], [$crate::zoo::L16, "L16"], [$crate::zoo::LK16, "LK16"], [$crate::zoo::L17, "L17"], [$crate::zoo::LK17, "LK17"], [$crate::zoo::L24, "L24"], [$crate::zoo::LK24, "LK24"], [$crate::zoo::L31, "L31"], [$crate::zoo::LK31, "LK31"], [$crate::zoo::L32, "L32"], [$crate::zoo::LK32, "LK32"], [$crate::zoo::L33, "L33"], [$crate::zoo::LK33, "LK33"], [$crate::zoo::L48, "L48"], [$crate::zoo::LK48, "LK48"], [$crate::zoo::L63, "L63"], [$crate::zoo::LK63, "LK63"], [$crate::zoo::L64, "L64"], [$crate::zoo::LK64, "LK64"], [$crate::zoo::L65, "L65"], [$crate::zoo::LK65, "LK65"], [$crate::zoo::L96, "L96"], [$crate::zoo::LK96, "LK96"], [$crate::zoo::L127, "L127"], [$crate::zoo::LK127, "LK127"], [$crate::zoo::L128, "L128"], [$crate::zoo::LK128, "LK128"], [$crate::zoo::L129, "L129"], [$crate::zoo::L200, "L200"], [$crate::zoo::L257, "L257"], [$crate::zoo::LC16, "LC16"], [$crate::zoo::LC33, "LC33"], [$crate::zoo::LC70, "LC70"], [$crate::zoo::LC140, "LC140"], [$crate::zoo::LC260, "LC260"], [$crate::zoo::LN, "LN"], [$crate::zoo::MA, "MA"], [$crate::zoo::MB, "MB"], [$crate::zoo::MC, "MC"], [$crate::zoo::MD, "MD"], [$crate::zoo::ME, "ME"], [$crate::zoo::MF, "MF"], [$crate::zoo::MG, "MG"], [$crate::zoo::MH, "MH"], [$crate::zoo::MI, "MI"], [$crate::zoo::MJ, "MJ"], [$crate::zoo::MK, "MK"], [$crate::zoo::ML, "ML"] } } }
#[macro_export]
macro_rules! zoo_base { ($m:ident) => { $m! { [(), "()"], [bool, "bool"], [Option<()>, "Option<()>"], [Option<bool>, "Option<bool>"], [Option<Option<bool>>, "Option<Option<bool>>"], [Option<$crate::zoo::U2>, "Option<U2>"], [Option<$crate::zoo::U0>, "Option<U0>"], [Option<$crate::zoo::K2>, "Option<K2>"], [Option<$crate::zoo::NestA>, "Option<NestA>"], [Option<Option<()>>, "Option<Option<()>>"], [Option<$crate::zoo::U5>, "Option<U5>"], [Option<$crate::zoo::K8>, "Option<K8>"], [Option<$crate::zoo::L17>, "Option<L17>"], [Option<$crate::zoo::LK65>, "Option<LK65>"], [Option<$crate::zoo::NestB>, "Option<NestB>"], [Option<$crate::zoo::NestC>, "Option<NestC>"], [Option<$crate::zoo::C3UOE>, "Option<C3UOE>"], [Option<$crate::zoo::MA>, "Option<MA>"], [Option<$crate::zoo::LC16>, "Option<LC16>"], [Option<Option<$crate::zoo::U6>>, "Option<Option<U6>>"], [Option<Option<Option<bool>>>, "Option<Option<Option<bool>>>"] } } }
#[macro_export]
macro_rules! zoo_dyncomp { ($m:ident) => { $m! { [$crate::zoo::DA, "DA"], [$crate::zoo::DB, "DB"], [$crate::zoo::DC, "DC"], [$crate::zoo::DD, "DD"], [$crate::zoo::DF, "DF"], [$crate::zoo::DG, "DG"], [$crate::zoo::DE, "DE"] } } }
#[macro_export]
macro_rules! zoo_dynprim { ($m:ident) => { $m! { [char, "char"], [u8, "u8"], [u32, "u32"], [u64, "u64"], [u128, "u128"], [usize, "usize"], [i8, "i8"], [i32, "i32"], [i64, "i64"], [i128, "i128"], [isize, "isize"], [&'static str, "&'static str"], [&'static [u8], "&'static [u8]"], [Option<u8>, "Option<u8>"], [Option<char>, "Option<char>"], [Option<Option<i32>>, "Option<Option<i32>>"], [Option<&'static str>, "Option<&'static str>"], [Option<$crate::zoo::DA>, "Option<DA>"] } } }
