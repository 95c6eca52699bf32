//! Generated by gen2.py; do not edit.
#![allow(unused_imports, non_camel_case_types, non_upper_case_globals, non_snake_case, dead_code, uncommon_codepoints, clippy::all)]
#![recursion_limit = "1024"]
use fmcheck_dom::{off, Dom};
use fixed_map::Key;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U2 { V0, V1 }
impl Dom for U2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U2] = &[U2::V0, U2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U2::V0 => 0,
            U2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K2 { V0, V1 }
impl Dom for K2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K2] = &[K2::V0, K2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K2::V0 => 0,
            K2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U0 {  }
impl Dom for U0 {
    const N: usize = 0;
    const STATIC: bool = true;
    fn at(_: usize) -> Self { panic!("no such key") }
    fn idx(self) -> usize { match self {} }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..0 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum NestA { X(bool), Y }
impl Dom for NestA {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return NestA::X(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return NestA::Y; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            NestA::X(x) => off(0, <bool as Dom>::idx(x)),
            NestA::Y => 0 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
pub mod m_0 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S1B { V0(bool) }
impl Dom for S1B {
    const N: usize = 0 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S1B::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S1B::V0(x) => off(0, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_1 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S1T { V0(&'static str) }
impl Dom for S1T {
    const N: usize = 0 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <&'static str as Dom>::N { return S1T::V0(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S1T::V0(x) => off(0, <&'static str as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <&'static str as Dom>::ranks(out, next);
    }
}
}
pub mod m_2 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2UC { V0, V1(NestA) }
impl Dom for S2UC {
    const N: usize = 1 + <NestA as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S2UC::V0; } i -= 1;
        if i < <NestA as Dom>::N { return S2UC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2UC::V0 => 0,
            S2UC::V1(x) => off(1, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <NestA as Dom>::ranks(out, next);
    }
}
}
pub mod m_3 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2BE { V0(bool), V1(U2) }
impl Dom for S2BE {
    const N: usize = 0 + <bool as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S2BE::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <U2 as Dom>::N { return S2BE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2BE::V0(x) => off(0, <bool as Dom>::idx(x)),
            S2BE::V1(x) => off(0 + <bool as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_4 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2SB { V0(()), V1(bool) }
impl Dom for S2SB {
    const N: usize = 0 + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S2SB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S2SB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2SB::V0(x) => off(0, <() as Dom>::idx(x)),
            S2SB::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_5 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2ST { V0(()), V1(&'static str) }
impl Dom for S2ST {
    const N: usize = 0 + <() as Dom>::N + <&'static str as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S2ST::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <&'static str as Dom>::N { return S2ST::V1(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2ST::V0(x) => off(0, <() as Dom>::idx(x)),
            S2ST::V1(x) => off(0 + <() as Dom>::N, <&'static str as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <&'static str as Dom>::ranks(out, next);
    }
}
}
pub mod m_6 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2OZ { V0(Option<bool>), V1(U0) }
impl Dom for S2OZ {
    const N: usize = 0 + <Option<bool> as Dom>::N + <U0 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <U0 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S2OZ::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <U0 as Dom>::N { return S2OZ::V1(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2OZ::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S2OZ::V1(x) => off(0 + <Option<bool> as Dom>::N, <U0 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <U0 as Dom>::ranks(out, next);
    }
}
}
pub mod m_7 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2EO { V0(U2), V1(Option<bool>) }
impl Dom for S2EO {
    const N: usize = 0 + <U2 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return S2EO::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S2EO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2EO::V0(x) => off(0, <U2 as Dom>::idx(x)),
            S2EO::V1(x) => off(0 + <U2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_8 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2KU { V0(K2), V1 }
impl Dom for S2KU {
    const N: usize = 1 + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S2KU::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i == 0 { return S2KU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2KU::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S2KU::V1 => 0 + <K2 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_9 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2KD { V0(K2), V1(u8) }
impl Dom for S2KD {
    const N: usize = 0 + <K2 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S2KD::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <u8 as Dom>::N { return S2KD::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2KD::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S2KD::V1(x) => off(0 + <K2 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_10 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2ZK { V0(U0), V1(K2) }
impl Dom for S2ZK {
    const N: usize = 0 + <U0 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <U0 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U0 as Dom>::N { return S2ZK::V0(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        if i < <K2 as Dom>::N { return S2ZK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2ZK::V0(x) => off(0, <U0 as Dom>::idx(x)),
            S2ZK::V1(x) => off(0 + <U0 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U0 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_11 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2CS { V0(NestA), V1(()) }
impl Dom for S2CS {
    const N: usize = 0 + <NestA as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return S2CS::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <() as Dom>::N { return S2CS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2CS::V0(x) => off(0, <NestA as Dom>::idx(x)),
            S2CS::V1(x) => off(0 + <NestA as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_12 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2CW { V0(NestA), V1(Option<u32>) }
impl Dom for S2CW {
    const N: usize = 0 + <NestA as Dom>::N + <Option<u32> as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <Option<u32> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return S2CW::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <Option<u32> as Dom>::N { return S2CW::V1(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2CW::V0(x) => off(0, <NestA as Dom>::idx(x)),
            S2CW::V1(x) => off(0 + <NestA as Dom>::N, <Option<u32> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        <Option<u32> as Dom>::ranks(out, next);
    }
}
}
pub mod m_13 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2DC { V0(u8), V1(NestA) }
impl Dom for S2DC {
    const N: usize = 0 + <u8 as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S2DC::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <NestA as Dom>::N { return S2DC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2DC::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S2DC::V1(x) => off(0 + <u8 as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
}
pub mod m_14 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2TE { V0(&'static str), V1(U2) }
impl Dom for S2TE {
    const N: usize = 0 + <&'static str as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <&'static str as Dom>::N { return S2TE::V0(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i < <U2 as Dom>::N { return S2TE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2TE::V0(x) => off(0, <&'static str as Dom>::idx(x)),
            S2TE::V1(x) => off(0 + <&'static str as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <&'static str as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_15 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2WB { V0(Option<u32>), V1(bool) }
impl Dom for S2WB {
    const N: usize = 0 + <Option<u32> as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <Option<u32> as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<u32> as Dom>::N { return S2WB::V0(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        if i < <bool as Dom>::N { return S2WB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2WB::V0(x) => off(0, <Option<u32> as Dom>::idx(x)),
            S2WB::V1(x) => off(0 + <Option<u32> as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<u32> as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_16 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2WT { V0(Option<u32>), V1(&'static str) }
impl Dom for S2WT {
    const N: usize = 0 + <Option<u32> as Dom>::N + <&'static str as Dom>::N;
    const STATIC: bool = true && <Option<u32> as Dom>::STATIC && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<u32> as Dom>::N { return S2WT::V0(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        if i < <&'static str as Dom>::N { return S2WT::V1(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2WT::V0(x) => off(0, <Option<u32> as Dom>::idx(x)),
            S2WT::V1(x) => off(0 + <Option<u32> as Dom>::N, <&'static str as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<u32> as Dom>::ranks(out, next);
        <&'static str as Dom>::ranks(out, next);
    }
}
}
pub mod m_17 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UBB { V0, V1(bool), V2(bool) }
impl Dom for S3UBB {
    const N: usize = 1 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UBB::V0; } i -= 1;
        if i < <bool as Dom>::N { return S3UBB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S3UBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UBB::V0 => 0,
            S3UBB::V1(x) => off(1, <bool as Dom>::idx(x)),
            S3UBB::V2(x) => off(1 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_18 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3USO { V0, V1(()), V2(Option<bool>) }
impl Dom for S3USO {
    const N: usize = 1 + <() as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3USO::V0; } i -= 1;
        if i < <() as Dom>::N { return S3USO::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3USO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3USO::V0 => 0,
            S3USO::V1(x) => off(1, <() as Dom>::idx(x)),
            S3USO::V2(x) => off(1 + <() as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_19 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UOD { V0, V1(Option<bool>), V2(u8) }
impl Dom for S3UOD {
    const N: usize = 1 + <Option<bool> as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UOD::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S3UOD::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <u8 as Dom>::N { return S3UOD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UOD::V0 => 0,
            S3UOD::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
            S3UOD::V2(x) => off(1 + <Option<bool> as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_20 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UDB { V0, V1(u8), V2(bool) }
impl Dom for S3UDB {
    const N: usize = 1 + <u8 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UDB::V0; } i -= 1;
        if i < <u8 as Dom>::N { return S3UDB::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <bool as Dom>::N { return S3UDB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UDB::V0 => 0,
            S3UDB::V1(x) => off(1, <u8 as Dom>::idx(x)),
            S3UDB::V2(x) => off(1 + <u8 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_21 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BUO { V0(bool), V1, V2(Option<bool>) }
impl Dom for S3BUO {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BUO::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S3BUO::V1; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S3BUO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BUO::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BUO::V1 => 0 + <bool as Dom>::N,
            S3BUO::V2(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_22 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BBD { V0(bool), V1(bool), V2(u8) }
impl Dom for S3BBD {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BBD::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S3BBD::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <u8 as Dom>::N { return S3BBD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BBD::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BBD::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S3BBD::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_23 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BOB { V0(bool), V1(Option<bool>), V2(bool) }
impl Dom for S3BOB {
    const N: usize = 0 + <bool as Dom>::N + <Option<bool> as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BOB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3BOB::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <bool as Dom>::N { return S3BOB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BOB::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BOB::V1(x) => off(0 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3BOB::V2(x) => off(0 + <bool as Dom>::N + <Option<bool> as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_24 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BKO { V0(bool), V1(K2), V2(Option<bool>) }
impl Dom for S3BKO {
    const N: usize = 0 + <bool as Dom>::N + <K2 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <K2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BKO::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <K2 as Dom>::N { return S3BKO::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3BKO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BKO::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BKO::V1(x) => off(0 + <bool as Dom>::N, <K2 as Dom>::idx(x)),
            S3BKO::V2(x) => off(0 + <bool as Dom>::N + <K2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_25 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BDD { V0(bool), V1(u8), V2(u8) }
impl Dom for S3BDD {
    const N: usize = 0 + <bool as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BDD::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <u8 as Dom>::N { return S3BDD::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <u8 as Dom>::N { return S3BDD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BDD::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BDD::V1(x) => off(0 + <bool as Dom>::N, <u8 as Dom>::idx(x)),
            S3BDD::V2(x) => off(0 + <bool as Dom>::N + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_26 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SBB { V0(()), V1(bool), V2(bool) }
impl Dom for S3SBB {
    const N: usize = 0 + <() as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SBB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S3SBB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S3SBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SBB::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SBB::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S3SBB::V2(x) => off(0 + <() as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_27 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SSO { V0(()), V1(()), V2(Option<bool>) }
impl Dom for S3SSO {
    const N: usize = 0 + <() as Dom>::N + <() as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SSO::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S3SSO::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3SSO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SSO::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SSO::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            S3SSO::V2(x) => off(0 + <() as Dom>::N + <() as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_28 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SOD { V0(()), V1(Option<bool>), V2(u8) }
impl Dom for S3SOD {
    const N: usize = 0 + <() as Dom>::N + <Option<bool> as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SOD::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3SOD::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <u8 as Dom>::N { return S3SOD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SOD::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SOD::V1(x) => off(0 + <() as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3SOD::V2(x) => off(0 + <() as Dom>::N + <Option<bool> as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_29 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SDB { V0(()), V1(u8), V2(bool) }
impl Dom for S3SDB {
    const N: usize = 0 + <() as Dom>::N + <u8 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <u8 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SDB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <u8 as Dom>::N { return S3SDB::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <bool as Dom>::N { return S3SDB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SDB::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SDB::V1(x) => off(0 + <() as Dom>::N, <u8 as Dom>::idx(x)),
            S3SDB::V2(x) => off(0 + <() as Dom>::N + <u8 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_30 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OUO { V0(Option<bool>), V1, V2(Option<bool>) }
impl Dom for S3OUO {
    const N: usize = 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OUO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S3OUO::V1; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S3OUO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OUO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OUO::V1 => 0 + <Option<bool> as Dom>::N,
            S3OUO::V2(x) => off(1 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_31 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OBD { V0(Option<bool>), V1(bool), V2(u8) }
impl Dom for S3OBD {
    const N: usize = 0 + <Option<bool> as Dom>::N + <bool as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <bool as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OBD::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <bool as Dom>::N { return S3OBD::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <u8 as Dom>::N { return S3OBD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OBD::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OBD::V1(x) => off(0 + <Option<bool> as Dom>::N, <bool as Dom>::idx(x)),
            S3OBD::V2(x) => off(0 + <Option<bool> as Dom>::N + <bool as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_32 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OOB { V0(Option<bool>), V1(Option<bool>), V2(bool) }
impl Dom for S3OOB {
    const N: usize = 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OOB::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3OOB::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <bool as Dom>::N { return S3OOB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OOB::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OOB::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3OOB::V2(x) => off(0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_33 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OKO { V0(Option<bool>), V1(K2), V2(Option<bool>) }
impl Dom for S3OKO {
    const N: usize = 0 + <Option<bool> as Dom>::N + <K2 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <K2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OKO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <K2 as Dom>::N { return S3OKO::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3OKO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OKO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OKO::V1(x) => off(0 + <Option<bool> as Dom>::N, <K2 as Dom>::idx(x)),
            S3OKO::V2(x) => off(0 + <Option<bool> as Dom>::N + <K2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_34 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3ODD { V0(Option<bool>), V1(u8), V2(u8) }
impl Dom for S3ODD {
    const N: usize = 0 + <Option<bool> as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3ODD::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <u8 as Dom>::N { return S3ODD::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <u8 as Dom>::N { return S3ODD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3ODD::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3ODD::V1(x) => off(0 + <Option<bool> as Dom>::N, <u8 as Dom>::idx(x)),
            S3ODD::V2(x) => off(0 + <Option<bool> as Dom>::N + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_35 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KBB { V0(K2), V1(bool), V2(bool) }
impl Dom for S3KBB {
    const N: usize = 0 + <K2 as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KBB::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <bool as Dom>::N { return S3KBB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S3KBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KBB::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KBB::V1(x) => off(0 + <K2 as Dom>::N, <bool as Dom>::idx(x)),
            S3KBB::V2(x) => off(0 + <K2 as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_36 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KSO { V0(K2), V1(()), V2(Option<bool>) }
impl Dom for S3KSO {
    const N: usize = 0 + <K2 as Dom>::N + <() as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <() as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KSO::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <() as Dom>::N { return S3KSO::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3KSO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KSO::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KSO::V1(x) => off(0 + <K2 as Dom>::N, <() as Dom>::idx(x)),
            S3KSO::V2(x) => off(0 + <K2 as Dom>::N + <() as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_37 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KOD { V0(K2), V1(Option<bool>), V2(u8) }
impl Dom for S3KOD {
    const N: usize = 0 + <K2 as Dom>::N + <Option<bool> as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KOD::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3KOD::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <u8 as Dom>::N { return S3KOD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KOD::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KOD::V1(x) => off(0 + <K2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3KOD::V2(x) => off(0 + <K2 as Dom>::N + <Option<bool> as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_38 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KDB { V0(K2), V1(u8), V2(bool) }
impl Dom for S3KDB {
    const N: usize = 0 + <K2 as Dom>::N + <u8 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <u8 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KDB::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <u8 as Dom>::N { return S3KDB::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <bool as Dom>::N { return S3KDB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KDB::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KDB::V1(x) => off(0 + <K2 as Dom>::N, <u8 as Dom>::idx(x)),
            S3KDB::V2(x) => off(0 + <K2 as Dom>::N + <u8 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_39 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DUO { V0(u8), V1, V2(Option<bool>) }
impl Dom for S3DUO {
    const N: usize = 1 + <u8 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DUO::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return S3DUO::V1; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S3DUO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DUO::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DUO::V1 => 0 + <u8 as Dom>::N,
            S3DUO::V2(x) => off(1 + <u8 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_40 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DBD { V0(u8), V1(bool), V2(u8) }
impl Dom for S3DBD {
    const N: usize = 0 + <u8 as Dom>::N + <bool as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <bool as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DBD::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <bool as Dom>::N { return S3DBD::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <u8 as Dom>::N { return S3DBD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DBD::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DBD::V1(x) => off(0 + <u8 as Dom>::N, <bool as Dom>::idx(x)),
            S3DBD::V2(x) => off(0 + <u8 as Dom>::N + <bool as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_41 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DOB { V0(u8), V1(Option<bool>), V2(bool) }
impl Dom for S3DOB {
    const N: usize = 0 + <u8 as Dom>::N + <Option<bool> as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DOB::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3DOB::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <bool as Dom>::N { return S3DOB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DOB::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DOB::V1(x) => off(0 + <u8 as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3DOB::V2(x) => off(0 + <u8 as Dom>::N + <Option<bool> as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_42 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DKO { V0(u8), V1(K2), V2(Option<bool>) }
impl Dom for S3DKO {
    const N: usize = 0 + <u8 as Dom>::N + <K2 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <K2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DKO::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <K2 as Dom>::N { return S3DKO::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3DKO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DKO::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DKO::V1(x) => off(0 + <u8 as Dom>::N, <K2 as Dom>::idx(x)),
            S3DKO::V2(x) => off(0 + <u8 as Dom>::N + <K2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_43 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DDD { V0(u8), V1(u8), V2(u8) }
impl Dom for S3DDD {
    const N: usize = 0 + <u8 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DDD::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <u8 as Dom>::N { return S3DDD::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <u8 as Dom>::N { return S3DDD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DDD::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DDD::V1(x) => off(0 + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
            S3DDD::V2(x) => off(0 + <u8 as Dom>::N + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_44 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UUSS { V0, V1, V2(()), V3(()) }
impl Dom for S4UUSS {
    const N: usize = 2 + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UUSS::V0; } i -= 1;
        if i == 0 { return S4UUSS::V1; } i -= 1;
        if i < <() as Dom>::N { return S4UUSS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4UUSS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UUSS::V0 => 0,
            S4UUSS::V1 => 1,
            S4UUSS::V2(x) => off(2, <() as Dom>::idx(x)),
            S4UUSS::V3(x) => off(2 + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_45 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UBSB { V0, V1(bool), V2(()), V3(bool) }
impl Dom for S4UBSB {
    const N: usize = 1 + <bool as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UBSB::V0; } i -= 1;
        if i < <bool as Dom>::N { return S4UBSB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4UBSB::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4UBSB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UBSB::V0 => 0,
            S4UBSB::V1(x) => off(1, <bool as Dom>::idx(x)),
            S4UBSB::V2(x) => off(1 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4UBSB::V3(x) => off(1 + <bool as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_46 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4USSU { V0, V1(()), V2(()), V3 }
impl Dom for S4USSU {
    const N: usize = 2 + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4USSU::V0; } i -= 1;
        if i < <() as Dom>::N { return S4USSU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4USSU::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4USSU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4USSU::V0 => 0,
            S4USSU::V1(x) => off(1, <() as Dom>::idx(x)),
            S4USSU::V2(x) => off(1 + <() as Dom>::N, <() as Dom>::idx(x)),
            S4USSU::V3 => 1 + <() as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_47 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BUBS { V0(bool), V1, V2(bool), V3(()) }
impl Dom for S4BUBS {
    const N: usize = 1 + <bool as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BUBS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4BUBS::V1; } i -= 1;
        if i < <bool as Dom>::N { return S4BUBS::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4BUBS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BUBS::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BUBS::V1 => 0 + <bool as Dom>::N,
            S4BUBS::V2(x) => off(1 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4BUBS::V3(x) => off(1 + <bool as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_48 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BBBB { V0(bool), V1(bool), V2(bool), V3(bool) }
impl Dom for S4BBBB {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BBBB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4BBBB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4BBBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4BBBB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BBBB::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BBBB::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4BBBB::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4BBBB::V3(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_49 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BSBU { V0(bool), V1(()), V2(bool), V3 }
impl Dom for S4BSBU {
    const N: usize = 1 + <bool as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BSBU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4BSBU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4BSBU::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4BSBU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BSBU::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BSBU::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4BSBU::V2(x) => off(0 + <bool as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4BSBU::V3 => 0 + <bool as Dom>::N + <() as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_50 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SUUS { V0(()), V1, V2, V3(()) }
impl Dom for S4SUUS {
    const N: usize = 2 + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SUUS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4SUUS::V1; } i -= 1;
        if i == 0 { return S4SUUS::V2; } i -= 1;
        if i < <() as Dom>::N { return S4SUUS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SUUS::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SUUS::V1 => 0 + <() as Dom>::N,
            S4SUUS::V2 => 1 + <() as Dom>::N,
            S4SUUS::V3(x) => off(2 + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_51 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SBUB { V0(()), V1(bool), V2, V3(bool) }
impl Dom for S4SBUB {
    const N: usize = 1 + <() as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SBUB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4SBUB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4SBUB::V2; } i -= 1;
        if i < <bool as Dom>::N { return S4SBUB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SBUB::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SBUB::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4SBUB::V2 => 0 + <() as Dom>::N + <bool as Dom>::N,
            S4SBUB::V3(x) => off(1 + <() as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_52 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SSUU { V0(()), V1(()), V2, V3 }
impl Dom for S4SSUU {
    const N: usize = 2 + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SSUU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4SSUU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4SSUU::V2; } i -= 1;
        if i == 0 { return S4SSUU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SSUU::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SSUU::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            S4SSUU::V2 => 0 + <() as Dom>::N + <() as Dom>::N,
            S4SSUU::V3 => 1 + <() as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_53 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SSSS { V0(()), V1(()), V2(()), V3(()) }
impl Dom for S4SSSS {
    const N: usize = 0 + <() as Dom>::N + <() as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SSSS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4SSSS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4SSSS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4SSSS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SSSS::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SSSS::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            S4SSSS::V2(x) => off(0 + <() as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
            S4SSSS::V3(x) => off(0 + <() as Dom>::N + <() as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_54 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5UOUUU { V0, V1(Option<bool>), V2, V3, V4 }
impl Dom for S5UOUUU {
    const N: usize = 4 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S5UOUUU::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UOUUU::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5UOUUU::V2; } i -= 1;
        if i == 0 { return S5UOUUU::V3; } i -= 1;
        if i == 0 { return S5UOUUU::V4; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5UOUUU::V0 => 0,
            S5UOUUU::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
            S5UOUUU::V2 => 1 + <Option<bool> as Dom>::N,
            S5UOUUU::V3 => 2 + <Option<bool> as Dom>::N,
            S5UOUUU::V4 => 3 + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_55 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5OUUUU { V0(Option<bool>), V1, V2, V3, V4 }
impl Dom for S5OUUUU {
    const N: usize = 4 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S5OUUUU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OUUUU::V1; } i -= 1;
        if i == 0 { return S5OUUUU::V2; } i -= 1;
        if i == 0 { return S5OUUUU::V3; } i -= 1;
        if i == 0 { return S5OUUUU::V4; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5OUUUU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S5OUUUU::V1 => 0 + <Option<bool> as Dom>::N,
            S5OUUUU::V2 => 1 + <Option<bool> as Dom>::N,
            S5OUUUU::V3 => 2 + <Option<bool> as Dom>::N,
            S5OUUUU::V4 => 3 + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_56 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5OOUUU { V0(Option<bool>), V1(Option<bool>), V2, V3, V4 }
impl Dom for S5OOUUU {
    const N: usize = 3 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S5OOUUU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OOUUU::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OOUUU::V2; } i -= 1;
        if i == 0 { return S5OOUUU::V3; } i -= 1;
        if i == 0 { return S5OOUUU::V4; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5OOUUU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S5OOUUU::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OOUUU::V2 => 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
            S5OOUUU::V3 => 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
            S5OOUUU::V4 => 2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_57 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P6_0 { V0(bool), V1, V2, V3, V4, V5 }
impl Dom for P6_0 {
    const N: usize = 5 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return P6_0::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P6_0::V1; } i -= 1;
        if i == 0 { return P6_0::V2; } i -= 1;
        if i == 0 { return P6_0::V3; } i -= 1;
        if i == 0 { return P6_0::V4; } i -= 1;
        if i == 0 { return P6_0::V5; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P6_0::V0(x) => off(0, <bool as Dom>::idx(x)),
            P6_0::V1 => 0 + <bool as Dom>::N,
            P6_0::V2 => 1 + <bool as Dom>::N,
            P6_0::V3 => 2 + <bool as Dom>::N,
            P6_0::V4 => 3 + <bool as Dom>::N,
            P6_0::V5 => 4 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_58 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P8_2 { V0, V1, V2(bool), V3, V4, V5, V6, V7 }
impl Dom for P8_2 {
    const N: usize = 7 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P8_2::V0; } i -= 1;
        if i == 0 { return P8_2::V1; } i -= 1;
        if i < <bool as Dom>::N { return P8_2::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P8_2::V3; } i -= 1;
        if i == 0 { return P8_2::V4; } i -= 1;
        if i == 0 { return P8_2::V5; } i -= 1;
        if i == 0 { return P8_2::V6; } i -= 1;
        if i == 0 { return P8_2::V7; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P8_2::V0 => 0,
            P8_2::V1 => 1,
            P8_2::V2(x) => off(2, <bool as Dom>::idx(x)),
            P8_2::V3 => 2 + <bool as Dom>::N,
            P8_2::V4 => 3 + <bool as Dom>::N,
            P8_2::V5 => 4 + <bool as Dom>::N,
            P8_2::V6 => 5 + <bool as Dom>::N,
            P8_2::V7 => 6 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_59 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P12_2 { V0, V1, V2(bool), V3, V4, V5, V6, V7, V8, V9, V10, V11 }
impl Dom for P12_2 {
    const N: usize = 11 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P12_2::V0; } i -= 1;
        if i == 0 { return P12_2::V1; } i -= 1;
        if i < <bool as Dom>::N { return P12_2::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P12_2::V3; } i -= 1;
        if i == 0 { return P12_2::V4; } i -= 1;
        if i == 0 { return P12_2::V5; } i -= 1;
        if i == 0 { return P12_2::V6; } i -= 1;
        if i == 0 { return P12_2::V7; } i -= 1;
        if i == 0 { return P12_2::V8; } i -= 1;
        if i == 0 { return P12_2::V9; } i -= 1;
        if i == 0 { return P12_2::V10; } i -= 1;
        if i == 0 { return P12_2::V11; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P12_2::V0 => 0,
            P12_2::V1 => 1,
            P12_2::V2(x) => off(2, <bool as Dom>::idx(x)),
            P12_2::V3 => 2 + <bool as Dom>::N,
            P12_2::V4 => 3 + <bool as Dom>::N,
            P12_2::V5 => 4 + <bool as Dom>::N,
            P12_2::V6 => 5 + <bool as Dom>::N,
            P12_2::V7 => 6 + <bool as Dom>::N,
            P12_2::V8 => 7 + <bool as Dom>::N,
            P12_2::V9 => 8 + <bool as Dom>::N,
            P12_2::V10 => 9 + <bool as Dom>::N,
            P12_2::V11 => 10 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_60 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P12_10 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10(bool), V11 }
impl Dom for P12_10 {
    const N: usize = 11 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P12_10::V0; } i -= 1;
        if i == 0 { return P12_10::V1; } i -= 1;
        if i == 0 { return P12_10::V2; } i -= 1;
        if i == 0 { return P12_10::V3; } i -= 1;
        if i == 0 { return P12_10::V4; } i -= 1;
        if i == 0 { return P12_10::V5; } i -= 1;
        if i == 0 { return P12_10::V6; } i -= 1;
        if i == 0 { return P12_10::V7; } i -= 1;
        if i == 0 { return P12_10::V8; } i -= 1;
        if i == 0 { return P12_10::V9; } i -= 1;
        if i < <bool as Dom>::N { return P12_10::V10(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P12_10::V11; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P12_10::V0 => 0,
            P12_10::V1 => 1,
            P12_10::V2 => 2,
            P12_10::V3 => 3,
            P12_10::V4 => 4,
            P12_10::V5 => 5,
            P12_10::V6 => 6,
            P12_10::V7 => 7,
            P12_10::V8 => 8,
            P12_10::V9 => 9,
            P12_10::V10(x) => off(10, <bool as Dom>::idx(x)),
            P12_10::V11 => 10 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_61 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N5 { V0, V1, V2, V3, V4 }
impl Dom for N5 {
    const N: usize = 5;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N5] = &[N5::V0, N5::V1, N5::V2, N5::V3, N5::V4];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N5::V0 => 0,
            N5::V1 => 1,
            N5::V2 => 2,
            N5::V3 => 3,
            N5::V4 => 4,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..5 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_62 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N9 { V0, V1, V2, V3, V4, V5, V6, V7, V8 }
impl Dom for N9 {
    const N: usize = 9;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N9] = &[N9::V0, N9::V1, N9::V2, N9::V3, N9::V4, N9::V5, N9::V6, N9::V7, N9::V8];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N9::V0 => 0,
            N9::V1 => 1,
            N9::V2 => 2,
            N9::V3 => 3,
            N9::V4 => 4,
            N9::V5 => 5,
            N9::V6 => 6,
            N9::V7 => 7,
            N9::V8 => 8,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..9 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_63 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N13 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12 }
impl Dom for N13 {
    const N: usize = 13;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N13] = &[N13::V0, N13::V1, N13::V2, N13::V3, N13::V4, N13::V5, N13::V6, N13::V7, N13::V8, N13::V9, N13::V10, N13::V11, N13::V12];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N13::V0 => 0,
            N13::V1 => 1,
            N13::V2 => 2,
            N13::V3 => 3,
            N13::V4 => 4,
            N13::V5 => 5,
            N13::V6 => 6,
            N13::V7 => 7,
            N13::V8 => 8,
            N13::V9 => 9,
            N13::V10 => 10,
            N13::V11 => 11,
            N13::V12 => 12,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..13 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_64 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N17 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16 }
impl Dom for N17 {
    const N: usize = 17;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N17] = &[N17::V0, N17::V1, N17::V2, N17::V3, N17::V4, N17::V5, N17::V6, N17::V7, N17::V8, N17::V9, N17::V10, N17::V11, N17::V12, N17::V13, N17::V14, N17::V15, N17::V16];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N17::V0 => 0,
            N17::V1 => 1,
            N17::V2 => 2,
            N17::V3 => 3,
            N17::V4 => 4,
            N17::V5 => 5,
            N17::V6 => 6,
            N17::V7 => 7,
            N17::V8 => 8,
            N17::V9 => 9,
            N17::V10 => 10,
            N17::V11 => 11,
            N17::V12 => 12,
            N17::V13 => 13,
            N17::V14 => 14,
            N17::V15 => 15,
            N17::V16 => 16,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..17 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_65 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N21 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20 }
impl Dom for N21 {
    const N: usize = 21;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N21] = &[N21::V0, N21::V1, N21::V2, N21::V3, N21::V4, N21::V5, N21::V6, N21::V7, N21::V8, N21::V9, N21::V10, N21::V11, N21::V12, N21::V13, N21::V14, N21::V15, N21::V16, N21::V17, N21::V18, N21::V19, N21::V20];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N21::V0 => 0,
            N21::V1 => 1,
            N21::V2 => 2,
            N21::V3 => 3,
            N21::V4 => 4,
            N21::V5 => 5,
            N21::V6 => 6,
            N21::V7 => 7,
            N21::V8 => 8,
            N21::V9 => 9,
            N21::V10 => 10,
            N21::V11 => 11,
            N21::V12 => 12,
            N21::V13 => 13,
            N21::V14 => 14,
            N21::V15 => 15,
            N21::V16 => 16,
            N21::V17 => 17,
            N21::V18 => 18,
            N21::V19 => 19,
            N21::V20 => 20,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..21 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_66 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N25 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24 }
impl Dom for N25 {
    const N: usize = 25;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N25] = &[N25::V0, N25::V1, N25::V2, N25::V3, N25::V4, N25::V5, N25::V6, N25::V7, N25::V8, N25::V9, N25::V10, N25::V11, N25::V12, N25::V13, N25::V14, N25::V15, N25::V16, N25::V17, N25::V18, N25::V19, N25::V20, N25::V21, N25::V22, N25::V23, N25::V24];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N25::V0 => 0,
            N25::V1 => 1,
            N25::V2 => 2,
            N25::V3 => 3,
            N25::V4 => 4,
            N25::V5 => 5,
            N25::V6 => 6,
            N25::V7 => 7,
            N25::V8 => 8,
            N25::V9 => 9,
            N25::V10 => 10,
            N25::V11 => 11,
            N25::V12 => 12,
            N25::V13 => 13,
            N25::V14 => 14,
            N25::V15 => 15,
            N25::V16 => 16,
            N25::V17 => 17,
            N25::V18 => 18,
            N25::V19 => 19,
            N25::V20 => 20,
            N25::V21 => 21,
            N25::V22 => 22,
            N25::V23 => 23,
            N25::V24 => 24,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..25 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_67 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N29 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28 }
impl Dom for N29 {
    const N: usize = 29;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N29] = &[N29::V0, N29::V1, N29::V2, N29::V3, N29::V4, N29::V5, N29::V6, N29::V7, N29::V8, N29::V9, N29::V10, N29::V11, N29::V12, N29::V13, N29::V14, N29::V15, N29::V16, N29::V17, N29::V18, N29::V19, N29::V20, N29::V21, N29::V22, N29::V23, N29::V24, N29::V25, N29::V26, N29::V27, N29::V28];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N29::V0 => 0,
            N29::V1 => 1,
            N29::V2 => 2,
            N29::V3 => 3,
            N29::V4 => 4,
            N29::V5 => 5,
            N29::V6 => 6,
            N29::V7 => 7,
            N29::V8 => 8,
            N29::V9 => 9,
            N29::V10 => 10,
            N29::V11 => 11,
            N29::V12 => 12,
            N29::V13 => 13,
            N29::V14 => 14,
            N29::V15 => 15,
            N29::V16 => 16,
            N29::V17 => 17,
            N29::V18 => 18,
            N29::V19 => 19,
            N29::V20 => 20,
            N29::V21 => 21,
            N29::V22 => 22,
            N29::V23 => 23,
            N29::V24 => 24,
            N29::V25 => 25,
            N29::V26 => 26,
            N29::V27 => 27,
            N29::V28 => 28,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..29 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_68 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N33 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32 }
impl Dom for N33 {
    const N: usize = 33;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N33] = &[N33::V0, N33::V1, N33::V2, N33::V3, N33::V4, N33::V5, N33::V6, N33::V7, N33::V8, N33::V9, N33::V10, N33::V11, N33::V12, N33::V13, N33::V14, N33::V15, N33::V16, N33::V17, N33::V18, N33::V19, N33::V20, N33::V21, N33::V22, N33::V23, N33::V24, N33::V25, N33::V26, N33::V27, N33::V28, N33::V29, N33::V30, N33::V31, N33::V32];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N33::V0 => 0,
            N33::V1 => 1,
            N33::V2 => 2,
            N33::V3 => 3,
            N33::V4 => 4,
            N33::V5 => 5,
            N33::V6 => 6,
            N33::V7 => 7,
            N33::V8 => 8,
            N33::V9 => 9,
            N33::V10 => 10,
            N33::V11 => 11,
            N33::V12 => 12,
            N33::V13 => 13,
            N33::V14 => 14,
            N33::V15 => 15,
            N33::V16 => 16,
            N33::V17 => 17,
            N33::V18 => 18,
            N33::V19 => 19,
            N33::V20 => 20,
            N33::V21 => 21,
            N33::V22 => 22,
            N33::V23 => 23,
            N33::V24 => 24,
            N33::V25 => 25,
            N33::V26 => 26,
            N33::V27 => 27,
            N33::V28 => 28,
            N33::V29 => 29,
            N33::V30 => 30,
            N33::V31 => 31,
            N33::V32 => 32,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..33 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_69 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N37 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36 }
impl Dom for N37 {
    const N: usize = 37;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N37] = &[N37::V0, N37::V1, N37::V2, N37::V3, N37::V4, N37::V5, N37::V6, N37::V7, N37::V8, N37::V9, N37::V10, N37::V11, N37::V12, N37::V13, N37::V14, N37::V15, N37::V16, N37::V17, N37::V18, N37::V19, N37::V20, N37::V21, N37::V22, N37::V23, N37::V24, N37::V25, N37::V26, N37::V27, N37::V28, N37::V29, N37::V30, N37::V31, N37::V32, N37::V33, N37::V34, N37::V35, N37::V36];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N37::V0 => 0,
            N37::V1 => 1,
            N37::V2 => 2,
            N37::V3 => 3,
            N37::V4 => 4,
            N37::V5 => 5,
            N37::V6 => 6,
            N37::V7 => 7,
            N37::V8 => 8,
            N37::V9 => 9,
            N37::V10 => 10,
            N37::V11 => 11,
            N37::V12 => 12,
            N37::V13 => 13,
            N37::V14 => 14,
            N37::V15 => 15,
            N37::V16 => 16,
            N37::V17 => 17,
            N37::V18 => 18,
            N37::V19 => 19,
            N37::V20 => 20,
            N37::V21 => 21,
            N37::V22 => 22,
            N37::V23 => 23,
            N37::V24 => 24,
            N37::V25 => 25,
            N37::V26 => 26,
            N37::V27 => 27,
            N37::V28 => 28,
            N37::V29 => 29,
            N37::V30 => 30,
            N37::V31 => 31,
            N37::V32 => 32,
            N37::V33 => 33,
            N37::V34 => 34,
            N37::V35 => 35,
            N37::V36 => 36,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..37 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_70 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N41 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40 }
impl Dom for N41 {
    const N: usize = 41;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N41] = &[N41::V0, N41::V1, N41::V2, N41::V3, N41::V4, N41::V5, N41::V6, N41::V7, N41::V8, N41::V9, N41::V10, N41::V11, N41::V12, N41::V13, N41::V14, N41::V15, N41::V16, N41::V17, N41::V18, N41::V19, N41::V20, N41::V21, N41::V22, N41::V23, N41::V24, N41::V25, N41::V26, N41::V27, N41::V28, N41::V29, N41::V30, N41::V31, N41::V32, N41::V33, N41::V34, N41::V35, N41::V36, N41::V37, N41::V38, N41::V39, N41::V40];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N41::V0 => 0,
            N41::V1 => 1,
            N41::V2 => 2,
            N41::V3 => 3,
            N41::V4 => 4,
            N41::V5 => 5,
            N41::V6 => 6,
            N41::V7 => 7,
            N41::V8 => 8,
            N41::V9 => 9,
            N41::V10 => 10,
            N41::V11 => 11,
            N41::V12 => 12,
            N41::V13 => 13,
            N41::V14 => 14,
            N41::V15 => 15,
            N41::V16 => 16,
            N41::V17 => 17,
            N41::V18 => 18,
            N41::V19 => 19,
            N41::V20 => 20,
            N41::V21 => 21,
            N41::V22 => 22,
            N41::V23 => 23,
            N41::V24 => 24,
            N41::V25 => 25,
            N41::V26 => 26,
            N41::V27 => 27,
            N41::V28 => 28,
            N41::V29 => 29,
            N41::V30 => 30,
            N41::V31 => 31,
            N41::V32 => 32,
            N41::V33 => 33,
            N41::V34 => 34,
            N41::V35 => 35,
            N41::V36 => 36,
            N41::V37 => 37,
            N41::V38 => 38,
            N41::V39 => 39,
            N41::V40 => 40,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..41 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_71 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N45 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44 }
impl Dom for N45 {
    const N: usize = 45;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N45] = &[N45::V0, N45::V1, N45::V2, N45::V3, N45::V4, N45::V5, N45::V6, N45::V7, N45::V8, N45::V9, N45::V10, N45::V11, N45::V12, N45::V13, N45::V14, N45::V15, N45::V16, N45::V17, N45::V18, N45::V19, N45::V20, N45::V21, N45::V22, N45::V23, N45::V24, N45::V25, N45::V26, N45::V27, N45::V28, N45::V29, N45::V30, N45::V31, N45::V32, N45::V33, N45::V34, N45::V35, N45::V36, N45::V37, N45::V38, N45::V39, N45::V40, N45::V41, N45::V42, N45::V43, N45::V44];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N45::V0 => 0,
            N45::V1 => 1,
            N45::V2 => 2,
            N45::V3 => 3,
            N45::V4 => 4,
            N45::V5 => 5,
            N45::V6 => 6,
            N45::V7 => 7,
            N45::V8 => 8,
            N45::V9 => 9,
            N45::V10 => 10,
            N45::V11 => 11,
            N45::V12 => 12,
            N45::V13 => 13,
            N45::V14 => 14,
            N45::V15 => 15,
            N45::V16 => 16,
            N45::V17 => 17,
            N45::V18 => 18,
            N45::V19 => 19,
            N45::V20 => 20,
            N45::V21 => 21,
            N45::V22 => 22,
            N45::V23 => 23,
            N45::V24 => 24,
            N45::V25 => 25,
            N45::V26 => 26,
            N45::V27 => 27,
            N45::V28 => 28,
            N45::V29 => 29,
            N45::V30 => 30,
            N45::V31 => 31,
            N45::V32 => 32,
            N45::V33 => 33,
            N45::V34 => 34,
            N45::V35 => 35,
            N45::V36 => 36,
            N45::V37 => 37,
            N45::V38 => 38,
            N45::V39 => 39,
            N45::V40 => 40,
            N45::V41 => 41,
            N45::V42 => 42,
            N45::V43 => 43,
            N45::V44 => 44,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..45 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_72 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N49 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48 }
impl Dom for N49 {
    const N: usize = 49;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N49] = &[N49::V0, N49::V1, N49::V2, N49::V3, N49::V4, N49::V5, N49::V6, N49::V7, N49::V8, N49::V9, N49::V10, N49::V11, N49::V12, N49::V13, N49::V14, N49::V15, N49::V16, N49::V17, N49::V18, N49::V19, N49::V20, N49::V21, N49::V22, N49::V23, N49::V24, N49::V25, N49::V26, N49::V27, N49::V28, N49::V29, N49::V30, N49::V31, N49::V32, N49::V33, N49::V34, N49::V35, N49::V36, N49::V37, N49::V38, N49::V39, N49::V40, N49::V41, N49::V42, N49::V43, N49::V44, N49::V45, N49::V46, N49::V47, N49::V48];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N49::V0 => 0,
            N49::V1 => 1,
            N49::V2 => 2,
            N49::V3 => 3,
            N49::V4 => 4,
            N49::V5 => 5,
            N49::V6 => 6,
            N49::V7 => 7,
            N49::V8 => 8,
            N49::V9 => 9,
            N49::V10 => 10,
            N49::V11 => 11,
            N49::V12 => 12,
            N49::V13 => 13,
            N49::V14 => 14,
            N49::V15 => 15,
            N49::V16 => 16,
            N49::V17 => 17,
            N49::V18 => 18,
            N49::V19 => 19,
            N49::V20 => 20,
            N49::V21 => 21,
            N49::V22 => 22,
            N49::V23 => 23,
            N49::V24 => 24,
            N49::V25 => 25,
            N49::V26 => 26,
            N49::V27 => 27,
            N49::V28 => 28,
            N49::V29 => 29,
            N49::V30 => 30,
            N49::V31 => 31,
            N49::V32 => 32,
            N49::V33 => 33,
            N49::V34 => 34,
            N49::V35 => 35,
            N49::V36 => 36,
            N49::V37 => 37,
            N49::V38 => 38,
            N49::V39 => 39,
            N49::V40 => 40,
            N49::V41 => 41,
            N49::V42 => 42,
            N49::V43 => 43,
            N49::V44 => 44,
            N49::V45 => 45,
            N49::V46 => 46,
            N49::V47 => 47,
            N49::V48 => 48,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..49 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_73 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N53 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52 }
impl Dom for N53 {
    const N: usize = 53;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N53] = &[N53::V0, N53::V1, N53::V2, N53::V3, N53::V4, N53::V5, N53::V6, N53::V7, N53::V8, N53::V9, N53::V10, N53::V11, N53::V12, N53::V13, N53::V14, N53::V15, N53::V16, N53::V17, N53::V18, N53::V19, N53::V20, N53::V21, N53::V22, N53::V23, N53::V24, N53::V25, N53::V26, N53::V27, N53::V28, N53::V29, N53::V30, N53::V31, N53::V32, N53::V33, N53::V34, N53::V35, N53::V36, N53::V37, N53::V38, N53::V39, N53::V40, N53::V41, N53::V42, N53::V43, N53::V44, N53::V45, N53::V46, N53::V47, N53::V48, N53::V49, N53::V50, N53::V51, N53::V52];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N53::V0 => 0,
            N53::V1 => 1,
            N53::V2 => 2,
            N53::V3 => 3,
            N53::V4 => 4,
            N53::V5 => 5,
            N53::V6 => 6,
            N53::V7 => 7,
            N53::V8 => 8,
            N53::V9 => 9,
            N53::V10 => 10,
            N53::V11 => 11,
            N53::V12 => 12,
            N53::V13 => 13,
            N53::V14 => 14,
            N53::V15 => 15,
            N53::V16 => 16,
            N53::V17 => 17,
            N53::V18 => 18,
            N53::V19 => 19,
            N53::V20 => 20,
            N53::V21 => 21,
            N53::V22 => 22,
            N53::V23 => 23,
            N53::V24 => 24,
            N53::V25 => 25,
            N53::V26 => 26,
            N53::V27 => 27,
            N53::V28 => 28,
            N53::V29 => 29,
            N53::V30 => 30,
            N53::V31 => 31,
            N53::V32 => 32,
            N53::V33 => 33,
            N53::V34 => 34,
            N53::V35 => 35,
            N53::V36 => 36,
            N53::V37 => 37,
            N53::V38 => 38,
            N53::V39 => 39,
            N53::V40 => 40,
            N53::V41 => 41,
            N53::V42 => 42,
            N53::V43 => 43,
            N53::V44 => 44,
            N53::V45 => 45,
            N53::V46 => 46,
            N53::V47 => 47,
            N53::V48 => 48,
            N53::V49 => 49,
            N53::V50 => 50,
            N53::V51 => 51,
            N53::V52 => 52,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..53 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_74 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N57 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56 }
impl Dom for N57 {
    const N: usize = 57;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N57] = &[N57::V0, N57::V1, N57::V2, N57::V3, N57::V4, N57::V5, N57::V6, N57::V7, N57::V8, N57::V9, N57::V10, N57::V11, N57::V12, N57::V13, N57::V14, N57::V15, N57::V16, N57::V17, N57::V18, N57::V19, N57::V20, N57::V21, N57::V22, N57::V23, N57::V24, N57::V25, N57::V26, N57::V27, N57::V28, N57::V29, N57::V30, N57::V31, N57::V32, N57::V33, N57::V34, N57::V35, N57::V36, N57::V37, N57::V38, N57::V39, N57::V40, N57::V41, N57::V42, N57::V43, N57::V44, N57::V45, N57::V46, N57::V47, N57::V48, N57::V49, N57::V50, N57::V51, N57::V52, N57::V53, N57::V54, N57::V55, N57::V56];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N57::V0 => 0,
            N57::V1 => 1,
            N57::V2 => 2,
            N57::V3 => 3,
            N57::V4 => 4,
            N57::V5 => 5,
            N57::V6 => 6,
            N57::V7 => 7,
            N57::V8 => 8,
            N57::V9 => 9,
            N57::V10 => 10,
            N57::V11 => 11,
            N57::V12 => 12,
            N57::V13 => 13,
            N57::V14 => 14,
            N57::V15 => 15,
            N57::V16 => 16,
            N57::V17 => 17,
            N57::V18 => 18,
            N57::V19 => 19,
            N57::V20 => 20,
            N57::V21 => 21,
            N57::V22 => 22,
            N57::V23 => 23,
            N57::V24 => 24,
            N57::V25 => 25,
            N57::V26 => 26,
            N57::V27 => 27,
            N57::V28 => 28,
            N57::V29 => 29,
            N57::V30 => 30,
            N57::V31 => 31,
            N57::V32 => 32,
            N57::V33 => 33,
            N57::V34 => 34,
            N57::V35 => 35,
            N57::V36 => 36,
            N57::V37 => 37,
            N57::V38 => 38,
            N57::V39 => 39,
            N57::V40 => 40,
            N57::V41 => 41,
            N57::V42 => 42,
            N57::V43 => 43,
            N57::V44 => 44,
            N57::V45 => 45,
            N57::V46 => 46,
            N57::V47 => 47,
            N57::V48 => 48,
            N57::V49 => 49,
            N57::V50 => 50,
            N57::V51 => 51,
            N57::V52 => 52,
            N57::V53 => 53,
            N57::V54 => 54,
            N57::V55 => 55,
            N57::V56 => 56,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..57 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_75 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N61 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60 }
impl Dom for N61 {
    const N: usize = 61;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N61] = &[N61::V0, N61::V1, N61::V2, N61::V3, N61::V4, N61::V5, N61::V6, N61::V7, N61::V8, N61::V9, N61::V10, N61::V11, N61::V12, N61::V13, N61::V14, N61::V15, N61::V16, N61::V17, N61::V18, N61::V19, N61::V20, N61::V21, N61::V22, N61::V23, N61::V24, N61::V25, N61::V26, N61::V27, N61::V28, N61::V29, N61::V30, N61::V31, N61::V32, N61::V33, N61::V34, N61::V35, N61::V36, N61::V37, N61::V38, N61::V39, N61::V40, N61::V41, N61::V42, N61::V43, N61::V44, N61::V45, N61::V46, N61::V47, N61::V48, N61::V49, N61::V50, N61::V51, N61::V52, N61::V53, N61::V54, N61::V55, N61::V56, N61::V57, N61::V58, N61::V59, N61::V60];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N61::V0 => 0,
            N61::V1 => 1,
            N61::V2 => 2,
            N61::V3 => 3,
            N61::V4 => 4,
            N61::V5 => 5,
            N61::V6 => 6,
            N61::V7 => 7,
            N61::V8 => 8,
            N61::V9 => 9,
            N61::V10 => 10,
            N61::V11 => 11,
            N61::V12 => 12,
            N61::V13 => 13,
            N61::V14 => 14,
            N61::V15 => 15,
            N61::V16 => 16,
            N61::V17 => 17,
            N61::V18 => 18,
            N61::V19 => 19,
            N61::V20 => 20,
            N61::V21 => 21,
            N61::V22 => 22,
            N61::V23 => 23,
            N61::V24 => 24,
            N61::V25 => 25,
            N61::V26 => 26,
            N61::V27 => 27,
            N61::V28 => 28,
            N61::V29 => 29,
            N61::V30 => 30,
            N61::V31 => 31,
            N61::V32 => 32,
            N61::V33 => 33,
            N61::V34 => 34,
            N61::V35 => 35,
            N61::V36 => 36,
            N61::V37 => 37,
            N61::V38 => 38,
            N61::V39 => 39,
            N61::V40 => 40,
            N61::V41 => 41,
            N61::V42 => 42,
            N61::V43 => 43,
            N61::V44 => 44,
            N61::V45 => 45,
            N61::V46 => 46,
            N61::V47 => 47,
            N61::V48 => 48,
            N61::V49 => 49,
            N61::V50 => 50,
            N61::V51 => 51,
            N61::V52 => 52,
            N61::V53 => 53,
            N61::V54 => 54,
            N61::V55 => 55,
            N61::V56 => 56,
            N61::V57 => 57,
            N61::V58 => 58,
            N61::V59 => 59,
            N61::V60 => 60,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..61 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_76 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N65 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64 }
impl Dom for N65 {
    const N: usize = 65;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N65] = &[N65::V0, N65::V1, N65::V2, N65::V3, N65::V4, N65::V5, N65::V6, N65::V7, N65::V8, N65::V9, N65::V10, N65::V11, N65::V12, N65::V13, N65::V14, N65::V15, N65::V16, N65::V17, N65::V18, N65::V19, N65::V20, N65::V21, N65::V22, N65::V23, N65::V24, N65::V25, N65::V26, N65::V27, N65::V28, N65::V29, N65::V30, N65::V31, N65::V32, N65::V33, N65::V34, N65::V35, N65::V36, N65::V37, N65::V38, N65::V39, N65::V40, N65::V41, N65::V42, N65::V43, N65::V44, N65::V45, N65::V46, N65::V47, N65::V48, N65::V49, N65::V50, N65::V51, N65::V52, N65::V53, N65::V54, N65::V55, N65::V56, N65::V57, N65::V58, N65::V59, N65::V60, N65::V61, N65::V62, N65::V63, N65::V64];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N65::V0 => 0,
            N65::V1 => 1,
            N65::V2 => 2,
            N65::V3 => 3,
            N65::V4 => 4,
            N65::V5 => 5,
            N65::V6 => 6,
            N65::V7 => 7,
            N65::V8 => 8,
            N65::V9 => 9,
            N65::V10 => 10,
            N65::V11 => 11,
            N65::V12 => 12,
            N65::V13 => 13,
            N65::V14 => 14,
            N65::V15 => 15,
            N65::V16 => 16,
            N65::V17 => 17,
            N65::V18 => 18,
            N65::V19 => 19,
            N65::V20 => 20,
            N65::V21 => 21,
            N65::V22 => 22,
            N65::V23 => 23,
            N65::V24 => 24,
            N65::V25 => 25,
            N65::V26 => 26,
            N65::V27 => 27,
            N65::V28 => 28,
            N65::V29 => 29,
            N65::V30 => 30,
            N65::V31 => 31,
            N65::V32 => 32,
            N65::V33 => 33,
            N65::V34 => 34,
            N65::V35 => 35,
            N65::V36 => 36,
            N65::V37 => 37,
            N65::V38 => 38,
            N65::V39 => 39,
            N65::V40 => 40,
            N65::V41 => 41,
            N65::V42 => 42,
            N65::V43 => 43,
            N65::V44 => 44,
            N65::V45 => 45,
            N65::V46 => 46,
            N65::V47 => 47,
            N65::V48 => 48,
            N65::V49 => 49,
            N65::V50 => 50,
            N65::V51 => 51,
            N65::V52 => 52,
            N65::V53 => 53,
            N65::V54 => 54,
            N65::V55 => 55,
            N65::V56 => 56,
            N65::V57 => 57,
            N65::V58 => 58,
            N65::V59 => 59,
            N65::V60 => 60,
            N65::V61 => 61,
            N65::V62 => 62,
            N65::V63 => 63,
            N65::V64 => 64,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..65 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_77 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N96 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95 }
impl Dom for N96 {
    const N: usize = 96;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N96] = &[N96::V0, N96::V1, N96::V2, N96::V3, N96::V4, N96::V5, N96::V6, N96::V7, N96::V8, N96::V9, N96::V10, N96::V11, N96::V12, N96::V13, N96::V14, N96::V15, N96::V16, N96::V17, N96::V18, N96::V19, N96::V20, N96::V21, N96::V22, N96::V23, N96::V24, N96::V25, N96::V26, N96::V27, N96::V28, N96::V29, N96::V30, N96::V31, N96::V32, N96::V33, N96::V34, N96::V35, N96::V36, N96::V37, N96::V38, N96::V39, N96::V40, N96::V41, N96::V42, N96::V43, N96::V44, N96::V45, N96::V46, N96::V47, N96::V48, N96::V49, N96::V50, N96::V51, N96::V52, N96::V53, N96::V54, N96::V55, N96::V56, N96::V57, N96::V58, N96::V59, N96::V60, N96::V61, N96::V62, N96::V63, N96::V64, N96::V65, N96::V66, N96::V67, N96::V68, N96::V69, N96::V70, N96::V71, N96::V72, N96::V73, N96::V74, N96::V75, N96::V76, N96::V77, N96::V78, N96::V79, N96::V80, N96::V81, N96::V82, N96::V83, N96::V84, N96::V85, N96::V86, N96::V87, N96::V88, N96::V89, N96::V90, N96::V91, N96::V92, N96::V93, N96::V94, N96::V95];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N96::V0 => 0,
            N96::V1 => 1,
            N96::V2 => 2,
            N96::V3 => 3,
            N96::V4 => 4,
            N96::V5 => 5,
            N96::V6 => 6,
            N96::V7 => 7,
            N96::V8 => 8,
            N96::V9 => 9,
            N96::V10 => 10,
            N96::V11 => 11,
            N96::V12 => 12,
            N96::V13 => 13,
            N96::V14 => 14,
            N96::V15 => 15,
            N96::V16 => 16,
            N96::V17 => 17,
            N96::V18 => 18,
            N96::V19 => 19,
            N96::V20 => 20,
            N96::V21 => 21,
            N96::V22 => 22,
            N96::V23 => 23,
            N96::V24 => 24,
            N96::V25 => 25,
            N96::V26 => 26,
            N96::V27 => 27,
            N96::V28 => 28,
            N96::V29 => 29,
            N96::V30 => 30,
            N96::V31 => 31,
            N96::V32 => 32,
            N96::V33 => 33,
            N96::V34 => 34,
            N96::V35 => 35,
            N96::V36 => 36,
            N96::V37 => 37,
            N96::V38 => 38,
            N96::V39 => 39,
            N96::V40 => 40,
            N96::V41 => 41,
            N96::V42 => 42,
            N96::V43 => 43,
            N96::V44 => 44,
            N96::V45 => 45,
            N96::V46 => 46,
            N96::V47 => 47,
            N96::V48 => 48,
            N96::V49 => 49,
            N96::V50 => 50,
            N96::V51 => 51,
            N96::V52 => 52,
            N96::V53 => 53,
            N96::V54 => 54,
            N96::V55 => 55,
            N96::V56 => 56,
            N96::V57 => 57,
            N96::V58 => 58,
            N96::V59 => 59,
            N96::V60 => 60,
            N96::V61 => 61,
            N96::V62 => 62,
            N96::V63 => 63,
            N96::V64 => 64,
            N96::V65 => 65,
            N96::V66 => 66,
            N96::V67 => 67,
            N96::V68 => 68,
            N96::V69 => 69,
            N96::V70 => 70,
            N96::V71 => 71,
            N96::V72 => 72,
            N96::V73 => 73,
            N96::V74 => 74,
            N96::V75 => 75,
            N96::V76 => 76,
            N96::V77 => 77,
            N96::V78 => 78,
            N96::V79 => 79,
            N96::V80 => 80,
            N96::V81 => 81,
            N96::V82 => 82,
            N96::V83 => 83,
            N96::V84 => 84,
            N96::V85 => 85,
            N96::V86 => 86,
            N96::V87 => 87,
            N96::V88 => 88,
            N96::V89 => 89,
            N96::V90 => 90,
            N96::V91 => 91,
            N96::V92 => 92,
            N96::V93 => 93,
            N96::V94 => 94,
            N96::V95 => 95,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..96 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_78 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N128 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
impl Dom for N128 {
    const N: usize = 128;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N128] = &[N128::V0, N128::V1, N128::V2, N128::V3, N128::V4, N128::V5, N128::V6, N128::V7, N128::V8, N128::V9, N128::V10, N128::V11, N128::V12, N128::V13, N128::V14, N128::V15, N128::V16, N128::V17, N128::V18, N128::V19, N128::V20, N128::V21, N128::V22, N128::V23, N128::V24, N128::V25, N128::V26, N128::V27, N128::V28, N128::V29, N128::V30, N128::V31, N128::V32, N128::V33, N128::V34, N128::V35, N128::V36, N128::V37, N128::V38, N128::V39, N128::V40, N128::V41, N128::V42, N128::V43, N128::V44, N128::V45, N128::V46, N128::V47, N128::V48, N128::V49, N128::V50, N128::V51, N128::V52, N128::V53, N128::V54, N128::V55, N128::V56, N128::V57, N128::V58, N128::V59, N128::V60, N128::V61, N128::V62, N128::V63, N128::V64, N128::V65, N128::V66, N128::V67, N128::V68, N128::V69, N128::V70, N128::V71, N128::V72, N128::V73, N128::V74, N128::V75, N128::V76, N128::V77, N128::V78, N128::V79, N128::V80, N128::V81, N128::V82, N128::V83, N128::V84, N128::V85, N128::V86, N128::V87, N128::V88, N128::V89, N128::V90, N128::V91, N128::V92, N128::V93, N128::V94, N128::V95, N128::V96, N128::V97, N128::V98, N128::V99, N128::V100, N128::V101, N128::V102, N128::V103, N128::V104, N128::V105, N128::V106, N128::V107, N128::V108, N128::V109, N128::V110, N128::V111, N128::V112, N128::V113, N128::V114, N128::V115, N128::V116, N128::V117, N128::V118, N128::V119, N128::V120, N128::V121, N128::V122, N128::V123, N128::V124, N128::V125, N128::V126, N128::V127];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N128::V0 => 0,
            N128::V1 => 1,
            N128::V2 => 2,
            N128::V3 => 3,
            N128::V4 => 4,
            N128::V5 => 5,
            N128::V6 => 6,
            N128::V7 => 7,
            N128::V8 => 8,
            N128::V9 => 9,
            N128::V10 => 10,
            N128::V11 => 11,
            N128::V12 => 12,
            N128::V13 => 13,
            N128::V14 => 14,
            N128::V15 => 15,
            N128::V16 => 16,
            N128::V17 => 17,
            N128::V18 => 18,
            N128::V19 => 19,
            N128::V20 => 20,
            N128::V21 => 21,
            N128::V22 => 22,
            N128::V23 => 23,
            N128::V24 => 24,
            N128::V25 => 25,
            N128::V26 => 26,
            N128::V27 => 27,
            N128::V28 => 28,
            N128::V29 => 29,
            N128::V30 => 30,
            N128::V31 => 31,
            N128::V32 => 32,
            N128::V33 => 33,
            N128::V34 => 34,
            N128::V35 => 35,
            N128::V36 => 36,
            N128::V37 => 37,
            N128::V38 => 38,
            N128::V39 => 39,
            N128::V40 => 40,
            N128::V41 => 41,
            N128::V42 => 42,
            N128::V43 => 43,
            N128::V44 => 44,
            N128::V45 => 45,
            N128::V46 => 46,
            N128::V47 => 47,
            N128::V48 => 48,
            N128::V49 => 49,
            N128::V50 => 50,
            N128::V51 => 51,
            N128::V52 => 52,
            N128::V53 => 53,
            N128::V54 => 54,
            N128::V55 => 55,
            N128::V56 => 56,
            N128::V57 => 57,
            N128::V58 => 58,
            N128::V59 => 59,
            N128::V60 => 60,
            N128::V61 => 61,
            N128::V62 => 62,
            N128::V63 => 63,
            N128::V64 => 64,
            N128::V65 => 65,
            N128::V66 => 66,
            N128::V67 => 67,
            N128::V68 => 68,
            N128::V69 => 69,
            N128::V70 => 70,
            N128::V71 => 71,
            N128::V72 => 72,
            N128::V73 => 73,
            N128::V74 => 74,
            N128::V75 => 75,
            N128::V76 => 76,
            N128::V77 => 77,
            N128::V78 => 78,
            N128::V79 => 79,
            N128::V80 => 80,
            N128::V81 => 81,
            N128::V82 => 82,
            N128::V83 => 83,
            N128::V84 => 84,
            N128::V85 => 85,
            N128::V86 => 86,
            N128::V87 => 87,
            N128::V88 => 88,
            N128::V89 => 89,
            N128::V90 => 90,
            N128::V91 => 91,
            N128::V92 => 92,
            N128::V93 => 93,
            N128::V94 => 94,
            N128::V95 => 95,
            N128::V96 => 96,
            N128::V97 => 97,
            N128::V98 => 98,
            N128::V99 => 99,
            N128::V100 => 100,
            N128::V101 => 101,
            N128::V102 => 102,
            N128::V103 => 103,
            N128::V104 => 104,
            N128::V105 => 105,
            N128::V106 => 106,
            N128::V107 => 107,
            N128::V108 => 108,
            N128::V109 => 109,
            N128::V110 => 110,
            N128::V111 => 111,
            N128::V112 => 112,
            N128::V113 => 113,
            N128::V114 => 114,
            N128::V115 => 115,
            N128::V116 => 116,
            N128::V117 => 117,
            N128::V118 => 118,
            N128::V119 => 119,
            N128::V120 => 120,
            N128::V121 => 121,
            N128::V122 => 122,
            N128::V123 => 123,
            N128::V124 => 124,
            N128::V125 => 125,
            N128::V126 => 126,
            N128::V127 => 127,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..128 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_79 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N256 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255 }
impl Dom for N256 {
    const N: usize = 256;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N256] = &[N256::V0, N256::V1, N256::V2, N256::V3, N256::V4, N256::V5, N256::V6, N256::V7, N256::V8, N256::V9, N256::V10, N256::V11, N256::V12, N256::V13, N256::V14, N256::V15, N256::V16, N256::V17, N256::V18, N256::V19, N256::V20, N256::V21, N256::V22, N256::V23, N256::V24, N256::V25, N256::V26, N256::V27, N256::V28, N256::V29, N256::V30, N256::V31, N256::V32, N256::V33, N256::V34, N256::V35, N256::V36, N256::V37, N256::V38, N256::V39, N256::V40, N256::V41, N256::V42, N256::V43, N256::V44, N256::V45, N256::V46, N256::V47, N256::V48, N256::V49, N256::V50, N256::V51, N256::V52, N256::V53, N256::V54, N256::V55, N256::V56, N256::V57, N256::V58, N256::V59, N256::V60, N256::V61, N256::V62, N256::V63, N256::V64, N256::V65, N256::V66, N256::V67, N256::V68, N256::V69, N256::V70, N256::V71, N256::V72, N256::V73, N256::V74, N256::V75, N256::V76, N256::V77, N256::V78, N256::V79, N256::V80, N256::V81, N256::V82, N256::V83, N256::V84, N256::V85, N256::V86, N256::V87, N256::V88, N256::V89, N256::V90, N256::V91, N256::V92, N256::V93, N256::V94, N256::V95, N256::V96, N256::V97, N256::V98, N256::V99, N256::V100, N256::V101, N256::V102, N256::V103, N256::V104, N256::V105, N256::V106, N256::V107, N256::V108, N256::V109, N256::V110, N256::V111, N256::V112, N256::V113, N256::V114, N256::V115, N256::V116, N256::V117, N256::V118, N256::V119, N256::V120, N256::V121, N256::V122, N256::V123, N256::V124, N256::V125, N256::V126, N256::V127, N256::V128, N256::V129, N256::V130, N256::V131, N256::V132, N256::V133, N256::V134, N256::V135, N256::V136, N256::V137, N256::V138, N256::V139, N256::V140, N256::V141, N256::V142, N256::V143, N256::V144, N256::V145, N256::V146, N256::V147, N256::V148, N256::V149, N256::V150, N256::V151, N256::V152, N256::V153, N256::V154, N256::V155, N256::V156, N256::V157, N256::V158, N256::V159, N256::V160, N256::V161, N256::V162, N256::V163, N256::V164, N256::V165, N256::V166, N256::V167, N256::V168, N256::V169, N256::V170, N256::V171, N256::V172, N256::V173, N256::V174, N256::V175, N256::V176, N256::V177, N256::V178, N256::V179, N256::V180, N256::V181, N256::V182, N256::V183, N256::V184, N256::V185, N256::V186, N256::V187, N256::V188, N256::V189, N256::V190, N256::V191, N256::V192, N256::V193, N256::V194, N256::V195, N256::V196, N256::V197, N256::V198, N256::V199, N256::V200, N256::V201, N256::V202, N256::V203, N256::V204, N256::V205, N256::V206, N256::V207, N256::V208, N256::V209, N256::V210, N256::V211, N256::V212, N256::V213, N256::V214, N256::V215, N256::V216, N256::V217, N256::V218, N256::V219, N256::V220, N256::V221, N256::V222, N256::V223, N256::V224, N256::V225, N256::V226, N256::V227, N256::V228, N256::V229, N256::V230, N256::V231, N256::V232, N256::V233, N256::V234, N256::V235, N256::V236, N256::V237, N256::V238, N256::V239, N256::V240, N256::V241, N256::V242, N256::V243, N256::V244, N256::V245, N256::V246, N256::V247, N256::V248, N256::V249, N256::V250, N256::V251, N256::V252, N256::V253, N256::V254, N256::V255];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N256::V0 => 0,
            N256::V1 => 1,
            N256::V2 => 2,
            N256::V3 => 3,
            N256::V4 => 4,
            N256::V5 => 5,
            N256::V6 => 6,
            N256::V7 => 7,
            N256::V8 => 8,
            N256::V9 => 9,
            N256::V10 => 10,
            N256::V11 => 11,
            N256::V12 => 12,
            N256::V13 => 13,
            N256::V14 => 14,
            N256::V15 => 15,
            N256::V16 => 16,
            N256::V17 => 17,
            N256::V18 => 18,
            N256::V19 => 19,
            N256::V20 => 20,
            N256::V21 => 21,
            N256::V22 => 22,
            N256::V23 => 23,
            N256::V24 => 24,
            N256::V25 => 25,
            N256::V26 => 26,
            N256::V27 => 27,
            N256::V28 => 28,
            N256::V29 => 29,
            N256::V30 => 30,
            N256::V31 => 31,
            N256::V32 => 32,
            N256::V33 => 33,
            N256::V34 => 34,
            N256::V35 => 35,
            N256::V36 => 36,
            N256::V37 => 37,
            N256::V38 => 38,
            N256::V39 => 39,
            N256::V40 => 40,
            N256::V41 => 41,
            N256::V42 => 42,
            N256::V43 => 43,
            N256::V44 => 44,
            N256::V45 => 45,
            N256::V46 => 46,
            N256::V47 => 47,
            N256::V48 => 48,
            N256::V49 => 49,
            N256::V50 => 50,
            N256::V51 => 51,
            N256::V52 => 52,
            N256::V53 => 53,
            N256::V54 => 54,
            N256::V55 => 55,
            N256::V56 => 56,
            N256::V57 => 57,
            N256::V58 => 58,
            N256::V59 => 59,
            N256::V60 => 60,
            N256::V61 => 61,
            N256::V62 => 62,
            N256::V63 => 63,
            N256::V64 => 64,
            N256::V65 => 65,
            N256::V66 => 66,
            N256::V67 => 67,
            N256::V68 => 68,
            N256::V69 => 69,
            N256::V70 => 70,
            N256::V71 => 71,
            N256::V72 => 72,
            N256::V73 => 73,
            N256::V74 => 74,
            N256::V75 => 75,
            N256::V76 => 76,
            N256::V77 => 77,
            N256::V78 => 78,
            N256::V79 => 79,
            N256::V80 => 80,
            N256::V81 => 81,
            N256::V82 => 82,
            N256::V83 => 83,
            N256::V84 => 84,
            N256::V85 => 85,
            N256::V86 => 86,
            N256::V87 => 87,
            N256::V88 => 88,
            N256::V89 => 89,
            N256::V90 => 90,
            N256::V91 => 91,
            N256::V92 => 92,
            N256::V93 => 93,
            N256::V94 => 94,
            N256::V95 => 95,
            N256::V96 => 96,
            N256::V97 => 97,
            N256::V98 => 98,
            N256::V99 => 99,
            N256::V100 => 100,
            N256::V101 => 101,
            N256::V102 => 102,
            N256::V103 => 103,
            N256::V104 => 104,
            N256::V105 => 105,
            N256::V106 => 106,
            N256::V107 => 107,
            N256::V108 => 108,
            N256::V109 => 109,
            N256::V110 => 110,
            N256::V111 => 111,
            N256::V112 => 112,
            N256::V113 => 113,
            N256::V114 => 114,
            N256::V115 => 115,
            N256::V116 => 116,
            N256::V117 => 117,
            N256::V118 => 118,
            N256::V119 => 119,
            N256::V120 => 120,
            N256::V121 => 121,
            N256::V122 => 122,
            N256::V123 => 123,
            N256::V124 => 124,
            N256::V125 => 125,
            N256::V126 => 126,
            N256::V127 => 127,
            N256::V128 => 128,
            N256::V129 => 129,
            N256::V130 => 130,
            N256::V131 => 131,
            N256::V132 => 132,
            N256::V133 => 133,
            N256::V134 => 134,
            N256::V135 => 135,
            N256::V136 => 136,
            N256::V137 => 137,
            N256::V138 => 138,
            N256::V139 => 139,
            N256::V140 => 140,
            N256::V141 => 141,
            N256::V142 => 142,
            N256::V143 => 143,
            N256::V144 => 144,
            N256::V145 => 145,
            N256::V146 => 146,
            N256::V147 => 147,
            N256::V148 => 148,
            N256::V149 => 149,
            N256::V150 => 150,
            N256::V151 => 151,
            N256::V152 => 152,
            N256::V153 => 153,
            N256::V154 => 154,
            N256::V155 => 155,
            N256::V156 => 156,
            N256::V157 => 157,
            N256::V158 => 158,
            N256::V159 => 159,
            N256::V160 => 160,
            N256::V161 => 161,
            N256::V162 => 162,
            N256::V163 => 163,
            N256::V164 => 164,
            N256::V165 => 165,
            N256::V166 => 166,
            N256::V167 => 167,
            N256::V168 => 168,
            N256::V169 => 169,
            N256::V170 => 170,
            N256::V171 => 171,
            N256::V172 => 172,
            N256::V173 => 173,
            N256::V174 => 174,
            N256::V175 => 175,
            N256::V176 => 176,
            N256::V177 => 177,
            N256::V178 => 178,
            N256::V179 => 179,
            N256::V180 => 180,
            N256::V181 => 181,
            N256::V182 => 182,
            N256::V183 => 183,
            N256::V184 => 184,
            N256::V185 => 185,
            N256::V186 => 186,
            N256::V187 => 187,
            N256::V188 => 188,
            N256::V189 => 189,
            N256::V190 => 190,
            N256::V191 => 191,
            N256::V192 => 192,
            N256::V193 => 193,
            N256::V194 => 194,
            N256::V195 => 195,
            N256::V196 => 196,
            N256::V197 => 197,
            N256::V198 => 198,
            N256::V199 => 199,
            N256::V200 => 200,
            N256::V201 => 201,
            N256::V202 => 202,
            N256::V203 => 203,
            N256::V204 => 204,
            N256::V205 => 205,
            N256::V206 => 206,
            N256::V207 => 207,
            N256::V208 => 208,
            N256::V209 => 209,
            N256::V210 => 210,
            N256::V211 => 211,
            N256::V212 => 212,
            N256::V213 => 213,
            N256::V214 => 214,
            N256::V215 => 215,
            N256::V216 => 216,
            N256::V217 => 217,
            N256::V218 => 218,
            N256::V219 => 219,
            N256::V220 => 220,
            N256::V221 => 221,
            N256::V222 => 222,
            N256::V223 => 223,
            N256::V224 => 224,
            N256::V225 => 225,
            N256::V226 => 226,
            N256::V227 => 227,
            N256::V228 => 228,
            N256::V229 => 229,
            N256::V230 => 230,
            N256::V231 => 231,
            N256::V232 => 232,
            N256::V233 => 233,
            N256::V234 => 234,
            N256::V235 => 235,
            N256::V236 => 236,
            N256::V237 => 237,
            N256::V238 => 238,
            N256::V239 => 239,
            N256::V240 => 240,
            N256::V241 => 241,
            N256::V242 => 242,
            N256::V243 => 243,
            N256::V244 => 244,
            N256::V245 => 245,
            N256::V246 => 246,
            N256::V247 => 247,
            N256::V248 => 248,
            N256::V249 => 249,
            N256::V250 => 250,
            N256::V251 => 251,
            N256::V252 => 252,
            N256::V253 => 253,
            N256::V254 => 254,
            N256::V255 => 255,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..256 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_80 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum M257 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256(bool) }
impl Dom for M257 {
    const N: usize = 255 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return M257::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return M257::V1; } i -= 1;
        if i == 0 { return M257::V2; } i -= 1;
        if i == 0 { return M257::V3; } i -= 1;
        if i == 0 { return M257::V4; } i -= 1;
        if i == 0 { return M257::V5; } i -= 1;
        if i == 0 { return M257::V6; } i -= 1;
        if i == 0 { return M257::V7; } i -= 1;
        if i == 0 { return M257::V8; } i -= 1;
        if i == 0 { return M257::V9; } i -= 1;
        if i == 0 { return M257::V10; } i -= 1;
        if i == 0 { return M257::V11; } i -= 1;
        if i == 0 { return M257::V12; } i -= 1;
        if i == 0 { return M257::V13; } i -= 1;
        if i == 0 { return M257::V14; } i -= 1;
        if i == 0 { return M257::V15; } i -= 1;
        if i == 0 { return M257::V16; } i -= 1;
        if i == 0 { return M257::V17; } i -= 1;
        if i == 0 { return M257::V18; } i -= 1;
        if i == 0 { return M257::V19; } i -= 1;
        if i == 0 { return M257::V20; } i -= 1;
        if i == 0 { return M257::V21; } i -= 1;
        if i == 0 { return M257::V22; } i -= 1;
        if i == 0 { return M257::V23; } i -= 1;
        if i == 0 { return M257::V24; } i -= 1;
        if i == 0 { return M257::V25; } i -= 1;
        if i == 0 { return M257::V26; } i -= 1;
        if i == 0 { return M257::V27; } i -= 1;
        if i == 0 { return M257::V28; } i -= 1;
        if i == 0 { return M257::V29; } i -= 1;
        if i == 0 { return M257::V30; } i -= 1;
        if i == 0 { return M257::V31; } i -= 1;
        if i == 0 { return M257::V32; } i -= 1;
        if i == 0 { return M257::V33; } i -= 1;
        if i == 0 { return M257::V34; } i -= 1;
        if i == 0 { return M257::V35; } i -= 1;
        if i == 0 { return M257::V36; } i -= 1;
        if i == 0 { return M257::V37; } i -= 1;
        if i == 0 { return M257::V38; } i -= 1;
        if i == 0 { return M257::V39; } i -= 1;
        if i == 0 { return M257::V40; } i -= 1;
        if i == 0 { return M257::V41; } i -= 1;
        if i == 0 { return M257::V42; } i -= 1;
        if i == 0 { return M257::V43; } i -= 1;
        if i == 0 { return M257::V44; } i -= 1;
        if i == 0 { return M257::V45; } i -= 1;
        if i == 0 { return M257::V46; } i -= 1;
        if i == 0 { return M257::V47; } i -= 1;
        if i == 0 { return M257::V48; } i -= 1;
        if i == 0 { return M257::V49; } i -= 1;
        if i == 0 { return M257::V50; } i -= 1;
        if i == 0 { return M257::V51; } i -= 1;
        if i == 0 { return M257::V52; } i -= 1;
        if i == 0 { return M257::V53; } i -= 1;
        if i == 0 { return M257::V54; } i -= 1;
        if i == 0 { return M257::V55; } i -= 1;
        if i == 0 { return M257::V56; } i -= 1;
        if i == 0 { return M257::V57; } i -= 1;
        if i == 0 { return M257::V58; } i -= 1;
        if i == 0 { return M257::V59; } i -= 1;
        if i == 0 { return M257::V60; } i -= 1;
        if i == 0 { return M257::V61; } i -= 1;
        if i == 0 { return M257::V62; } i -= 1;
        if i == 0 { return M257::V63; } i -= 1;
        if i == 0 { return M257::V64; } i -= 1;
        if i == 0 { return M257::V65; } i -= 1;
        if i == 0 { return M257::V66; } i -= 1;
        if i == 0 { return M257::V67; } i -= 1;
        if i == 0 { return M257::V68; } i -= 1;
        if i == 0 { return M257::V69; } i -= 1;
        if i == 0 { return M257::V70; } i -= 1;
        if i == 0 { return M257::V71; } i -= 1;
        if i == 0 { return M257::V72; } i -= 1;
        if i == 0 { return M257::V73; } i -= 1;
        if i == 0 { return M257::V74; } i -= 1;
        if i == 0 { return M257::V75; } i -= 1;
        if i == 0 { return M257::V76; } i -= 1;
        if i == 0 { return M257::V77; } i -= 1;
        if i == 0 { return M257::V78; } i -= 1;
        if i == 0 { return M257::V79; } i -= 1;
        if i == 0 { return M257::V80; } i -= 1;
        if i == 0 { return M257::V81; } i -= 1;
        if i == 0 { return M257::V82; } i -= 1;
        if i == 0 { return M257::V83; } i -= 1;
        if i == 0 { return M257::V84; } i -= 1;
        if i == 0 { return M257::V85; } i -= 1;
        if i == 0 { return M257::V86; } i -= 1;
        if i == 0 { return M257::V87; } i -= 1;
        if i == 0 { return M257::V88; } i -= 1;
        if i == 0 { return M257::V89; } i -= 1;
        if i == 0 { return M257::V90; } i -= 1;
        if i == 0 { return M257::V91; } i -= 1;
        if i == 0 { return M257::V92; } i -= 1;
        if i == 0 { return M257::V93; } i -= 1;
        if i == 0 { return M257::V94; } i -= 1;
        if i == 0 { return M257::V95; } i -= 1;
        if i == 0 { return M257::V96; } i -= 1;
        if i == 0 { return M257::V97; } i -= 1;
        if i == 0 { return M257::V98; } i -= 1;
        if i == 0 { return M257::V99; } i -= 1;
        if i == 0 { return M257::V100; } i -= 1;
        if i == 0 { return M257::V101; } i -= 1;
        if i == 0 { return M257::V102; } i -= 1;
        if i == 0 { return M257::V103; } i -= 1;
        if i == 0 { return M257::V104; } i -= 1;
        if i == 0 { return M257::V105; } i -= 1;
        if i == 0 { return M257::V106; } i -= 1;
        if i == 0 { return M257::V107; } i -= 1;
        if i == 0 { return M257::V108; } i -= 1;
        if i == 0 { return M257::V109; } i -= 1;
        if i == 0 { return M257::V110; } i -= 1;
        if i == 0 { return M257::V111; } i -= 1;
        if i == 0 { return M257::V112; } i -= 1;
        if i == 0 { return M257::V113; } i -= 1;
        if i == 0 { return M257::V114; } i -= 1;
        if i == 0 { return M257::V115; } i -= 1;
        if i == 0 { return M257::V116; } i -= 1;
        if i == 0 { return M257::V117; } i -= 1;
        if i == 0 { return M257::V118; } i -= 1;
        if i == 0 { return M257::V119; } i -= 1;
        if i == 0 { return M257::V120; } i -= 1;
        if i == 0 { return M257::V121; } i -= 1;
        if i == 0 { return M257::V122; } i -= 1;
        if i == 0 { return M257::V123; } i -= 1;
        if i == 0 { return M257::V124; } i -= 1;
        if i == 0 { return M257::V125; } i -= 1;
        if i == 0 { return M257::V126; } i -= 1;
        if i == 0 { return M257::V127; } i -= 1;
        if i == 0 { return M257::V128; } i -= 1;
        if i == 0 { return M257::V129; } i -= 1;
        if i == 0 { return M257::V130; } i -= 1;
        if i == 0 { return M257::V131; } i -= 1;
        if i == 0 { return M257::V132; } i -= 1;
        if i == 0 { return M257::V133; } i -= 1;
        if i == 0 { return M257::V134; } i -= 1;
        if i == 0 { return M257::V135; } i -= 1;
        if i == 0 { return M257::V136; } i -= 1;
        if i == 0 { return M257::V137; } i -= 1;
        if i == 0 { return M257::V138; } i -= 1;
        if i == 0 { return M257::V139; } i -= 1;
        if i == 0 { return M257::V140; } i -= 1;
        if i == 0 { return M257::V141; } i -= 1;
        if i == 0 { return M257::V142; } i -= 1;
        if i == 0 { return M257::V143; } i -= 1;
        if i == 0 { return M257::V144; } i -= 1;
        if i == 0 { return M257::V145; } i -= 1;
        if i == 0 { return M257::V146; } i -= 1;
        if i == 0 { return M257::V147; } i -= 1;
        if i == 0 { return M257::V148; } i -= 1;
        if i == 0 { return M257::V149; } i -= 1;
        if i == 0 { return M257::V150; } i -= 1;
        if i == 0 { return M257::V151; } i -= 1;
        if i == 0 { return M257::V152; } i -= 1;
        if i == 0 { return M257::V153; } i -= 1;
        if i == 0 { return M257::V154; } i -= 1;
        if i == 0 { return M257::V155; } i -= 1;
        if i == 0 { return M257::V156; } i -= 1;
        if i == 0 { return M257::V157; } i -= 1;
        if i == 0 { return M257::V158; } i -= 1;
        if i == 0 { return M257::V159; } i -= 1;
        if i == 0 { return M257::V160; } i -= 1;
        if i == 0 { return M257::V161; } i -= 1;
        if i == 0 { return M257::V162; } i -= 1;
        if i == 0 { return M257::V163; } i -= 1;
        if i == 0 { return M257::V164; } i -= 1;
        if i == 0 { return M257::V165; } i -= 1;
        if i == 0 { return M257::V166; } i -= 1;
        if i == 0 { return M257::V167; } i -= 1;
        if i == 0 { return M257::V168; } i -= 1;
        if i == 0 { return M257::V169; } i -= 1;
        if i == 0 { return M257::V170; } i -= 1;
        if i == 0 { return M257::V171; } i -= 1;
        if i == 0 { return M257::V172; } i -= 1;
        if i == 0 { return M257::V173; } i -= 1;
        if i == 0 { return M257::V174; } i -= 1;
        if i == 0 { return M257::V175; } i -= 1;
        if i == 0 { return M257::V176; } i -= 1;
        if i == 0 { return M257::V177; } i -= 1;
        if i == 0 { return M257::V178; } i -= 1;
        if i == 0 { return M257::V179; } i -= 1;
        if i == 0 { return M257::V180; } i -= 1;
        if i == 0 { return M257::V181; } i -= 1;
        if i == 0 { return M257::V182; } i -= 1;
        if i == 0 { return M257::V183; } i -= 1;
        if i == 0 { return M257::V184; } i -= 1;
        if i == 0 { return M257::V185; } i -= 1;
        if i == 0 { return M257::V186; } i -= 1;
        if i == 0 { return M257::V187; } i -= 1;
        if i == 0 { return M257::V188; } i -= 1;
        if i == 0 { return M257::V189; } i -= 1;
        if i == 0 { return M257::V190; } i -= 1;
        if i == 0 { return M257::V191; } i -= 1;
        if i == 0 { return M257::V192; } i -= 1;
        if i == 0 { return M257::V193; } i -= 1;
        if i == 0 { return M257::V194; } i -= 1;
        if i == 0 { return M257::V195; } i -= 1;
        if i == 0 { return M257::V196; } i -= 1;
        if i == 0 { return M257::V197; } i -= 1;
        if i == 0 { return M257::V198; } i -= 1;
        if i == 0 { return M257::V199; } i -= 1;
        if i == 0 { return M257::V200; } i -= 1;
        if i == 0 { return M257::V201; } i -= 1;
        if i == 0 { return M257::V202; } i -= 1;
        if i == 0 { return M257::V203; } i -= 1;
        if i == 0 { return M257::V204; } i -= 1;
        if i == 0 { return M257::V205; } i -= 1;
        if i == 0 { return M257::V206; } i -= 1;
        if i == 0 { return M257::V207; } i -= 1;
        if i == 0 { return M257::V208; } i -= 1;
        if i == 0 { return M257::V209; } i -= 1;
        if i == 0 { return M257::V210; } i -= 1;
        if i == 0 { return M257::V211; } i -= 1;
        if i == 0 { return M257::V212; } i -= 1;
        if i == 0 { return M257::V213; } i -= 1;
        if i == 0 { return M257::V214; } i -= 1;
        if i == 0 { return M257::V215; } i -= 1;
        if i == 0 { return M257::V216; } i -= 1;
        if i == 0 { return M257::V217; } i -= 1;
        if i == 0 { return M257::V218; } i -= 1;
        if i == 0 { return M257::V219; } i -= 1;
        if i == 0 { return M257::V220; } i -= 1;
        if i == 0 { return M257::V221; } i -= 1;
        if i == 0 { return M257::V222; } i -= 1;
        if i == 0 { return M257::V223; } i -= 1;
        if i == 0 { return M257::V224; } i -= 1;
        if i == 0 { return M257::V225; } i -= 1;
        if i == 0 { return M257::V226; } i -= 1;
        if i == 0 { return M257::V227; } i -= 1;
        if i == 0 { return M257::V228; } i -= 1;
        if i == 0 { return M257::V229; } i -= 1;
        if i == 0 { return M257::V230; } i -= 1;
        if i == 0 { return M257::V231; } i -= 1;
        if i == 0 { return M257::V232; } i -= 1;
        if i == 0 { return M257::V233; } i -= 1;
        if i == 0 { return M257::V234; } i -= 1;
        if i == 0 { return M257::V235; } i -= 1;
        if i == 0 { return M257::V236; } i -= 1;
        if i == 0 { return M257::V237; } i -= 1;
        if i == 0 { return M257::V238; } i -= 1;
        if i == 0 { return M257::V239; } i -= 1;
        if i == 0 { return M257::V240; } i -= 1;
        if i == 0 { return M257::V241; } i -= 1;
        if i == 0 { return M257::V242; } i -= 1;
        if i == 0 { return M257::V243; } i -= 1;
        if i == 0 { return M257::V244; } i -= 1;
        if i == 0 { return M257::V245; } i -= 1;
        if i == 0 { return M257::V246; } i -= 1;
        if i == 0 { return M257::V247; } i -= 1;
        if i == 0 { return M257::V248; } i -= 1;
        if i == 0 { return M257::V249; } i -= 1;
        if i == 0 { return M257::V250; } i -= 1;
        if i == 0 { return M257::V251; } i -= 1;
        if i == 0 { return M257::V252; } i -= 1;
        if i == 0 { return M257::V253; } i -= 1;
        if i == 0 { return M257::V254; } i -= 1;
        if i == 0 { return M257::V255; } i -= 1;
        if i < <bool as Dom>::N { return M257::V256(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            M257::V0(x) => off(0, <bool as Dom>::idx(x)),
            M257::V1 => 0 + <bool as Dom>::N,
            M257::V2 => 1 + <bool as Dom>::N,
            M257::V3 => 2 + <bool as Dom>::N,
            M257::V4 => 3 + <bool as Dom>::N,
            M257::V5 => 4 + <bool as Dom>::N,
            M257::V6 => 5 + <bool as Dom>::N,
            M257::V7 => 6 + <bool as Dom>::N,
            M257::V8 => 7 + <bool as Dom>::N,
            M257::V9 => 8 + <bool as Dom>::N,
            M257::V10 => 9 + <bool as Dom>::N,
            M257::V11 => 10 + <bool as Dom>::N,
            M257::V12 => 11 + <bool as Dom>::N,
            M257::V13 => 12 + <bool as Dom>::N,
            M257::V14 => 13 + <bool as Dom>::N,
            M257::V15 => 14 + <bool as Dom>::N,
            M257::V16 => 15 + <bool as Dom>::N,
            M257::V17 => 16 + <bool as Dom>::N,
            M257::V18 => 17 + <bool as Dom>::N,
            M257::V19 => 18 + <bool as Dom>::N,
            M257::V20 => 19 + <bool as Dom>::N,
            M257::V21 => 20 + <bool as Dom>::N,
            M257::V22 => 21 + <bool as Dom>::N,
            M257::V23 => 22 + <bool as Dom>::N,
            M257::V24 => 23 + <bool as Dom>::N,
            M257::V25 => 24 + <bool as Dom>::N,
            M257::V26 => 25 + <bool as Dom>::N,
            M257::V27 => 26 + <bool as Dom>::N,
            M257::V28 => 27 + <bool as Dom>::N,
            M257::V29 => 28 + <bool as Dom>::N,
            M257::V30 => 29 + <bool as Dom>::N,
            M257::V31 => 30 + <bool as Dom>::N,
            M257::V32 => 31 + <bool as Dom>::N,
            M257::V33 => 32 + <bool as Dom>::N,
            M257::V34 => 33 + <bool as Dom>::N,
            M257::V35 => 34 + <bool as Dom>::N,
            M257::V36 => 35 + <bool as Dom>::N,
            M257::V37 => 36 + <bool as Dom>::N,
            M257::V38 => 37 + <bool as Dom>::N,
            M257::V39 => 38 + <bool as Dom>::N,
            M257::V40 => 39 + <bool as Dom>::N,
            M257::V41 => 40 + <bool as Dom>::N,
            M257::V42 => 41 + <bool as Dom>::N,
            M257::V43 => 42 + <bool as Dom>::N,
            M257::V44 => 43 + <bool as Dom>::N,
            M257::V45 => 44 + <bool as Dom>::N,
            M257::V46 => 45 + <bool as Dom>::N,
            M257::V47 => 46 + <bool as Dom>::N,
            M257::V48 => 47 + <bool as Dom>::N,
            M257::V49 => 48 + <bool as Dom>::N,
            M257::V50 => 49 + <bool as Dom>::N,
            M257::V51 => 50 + <bool as Dom>::N,
            M257::V52 => 51 + <bool as Dom>::N,
            M257::V53 => 52 + <bool as Dom>::N,
            M257::V54 => 53 + <bool as Dom>::N,
            M257::V55 => 54 + <bool as Dom>::N,
            M257::V56 => 55 + <bool as Dom>::N,
            M257::V57 => 56 + <bool as Dom>::N,
            M257::V58 => 57 + <bool as Dom>::N,
            M257::V59 => 58 + <bool as Dom>::N,
            M257::V60 => 59 + <bool as Dom>::N,
            M257::V61 => 60 + <bool as Dom>::N,
            M257::V62 => 61 + <bool as Dom>::N,
            M257::V63 => 62 + <bool as Dom>::N,
            M257::V64 => 63 + <bool as Dom>::N,
            M257::V65 => 64 + <bool as Dom>::N,
            M257::V66 => 65 + <bool as Dom>::N,
            M257::V67 => 66 + <bool as Dom>::N,
            M257::V68 => 67 + <bool as Dom>::N,
            M257::V69 => 68 + <bool as Dom>::N,
            M257::V70 => 69 + <bool as Dom>::N,
            M257::V71 => 70 + <bool as Dom>::N,
            M257::V72 => 71 + <bool as Dom>::N,
            M257::V73 => 72 + <bool as Dom>::N,
            M257::V74 => 73 + <bool as Dom>::N,
            M257::V75 => 74 + <bool as Dom>::N,
            M257::V76 => 75 + <bool as Dom>::N,
            M257::V77 => 76 + <bool as Dom>::N,
            M257::V78 => 77 + <bool as Dom>::N,
            M257::V79 => 78 + <bool as Dom>::N,
            M257::V80 => 79 + <bool as Dom>::N,
            M257::V81 => 80 + <bool as Dom>::N,
            M257::V82 => 81 + <bool as Dom>::N,
            M257::V83 => 82 + <bool as Dom>::N,
            M257::V84 => 83 + <bool as Dom>::N,
            M257::V85 => 84 + <bool as Dom>::N,
            M257::V86 => 85 + <bool as Dom>::N,
            M257::V87 => 86 + <bool as Dom>::N,
            M257::V88 => 87 + <bool as Dom>::N,
            M257::V89 => 88 + <bool as Dom>::N,
            M257::V90 => 89 + <bool as Dom>::N,
            M257::V91 => 90 + <bool as Dom>::N,
            M257::V92 => 91 + <bool as Dom>::N,
            M257::V93 => 92 + <bool as Dom>::N,
            M257::V94 => 93 + <bool as Dom>::N,
            M257::V95 => 94 + <bool as Dom>::N,
            M257::V96 => 95 + <bool as Dom>::N,
            M257::V97 => 96 + <bool as Dom>::N,
            M257::V98 => 97 + <bool as Dom>::N,
            M257::V99 => 98 + <bool as Dom>::N,
            M257::V100 => 99 + <bool as Dom>::N,
            M257::V101 => 100 + <bool as Dom>::N,
            M257::V102 => 101 + <bool as Dom>::N,
            M257::V103 => 102 + <bool as Dom>::N,
            M257::V104 => 103 + <bool as Dom>::N,
            M257::V105 => 104 + <bool as Dom>::N,
            M257::V106 => 105 + <bool as Dom>::N,
            M257::V107 => 106 + <bool as Dom>::N,
            M257::V108 => 107 + <bool as Dom>::N,
            M257::V109 => 108 + <bool as Dom>::N,
            M257::V110 => 109 + <bool as Dom>::N,
            M257::V111 => 110 + <bool as Dom>::N,
            M257::V112 => 111 + <bool as Dom>::N,
            M257::V113 => 112 + <bool as Dom>::N,
            M257::V114 => 113 + <bool as Dom>::N,
            M257::V115 => 114 + <bool as Dom>::N,
            M257::V116 => 115 + <bool as Dom>::N,
            M257::V117 => 116 + <bool as Dom>::N,
            M257::V118 => 117 + <bool as Dom>::N,
            M257::V119 => 118 + <bool as Dom>::N,
            M257::V120 => 119 + <bool as Dom>::N,
            M257::V121 => 120 + <bool as Dom>::N,
            M257::V122 => 121 + <bool as Dom>::N,
            M257::V123 => 122 + <bool as Dom>::N,
            M257::V124 => 123 + <bool as Dom>::N,
            M257::V125 => 124 + <bool as Dom>::N,
            M257::V126 => 125 + <bool as Dom>::N,
            M257::V127 => 126 + <bool as Dom>::N,
            M257::V128 => 127 + <bool as Dom>::N,
            M257::V129 => 128 + <bool as Dom>::N,
            M257::V130 => 129 + <bool as Dom>::N,
            M257::V131 => 130 + <bool as Dom>::N,
            M257::V132 => 131 + <bool as Dom>::N,
            M257::V133 => 132 + <bool as Dom>::N,
            M257::V134 => 133 + <bool as Dom>::N,
            M257::V135 => 134 + <bool as Dom>::N,
            M257::V136 => 135 + <bool as Dom>::N,
            M257::V137 => 136 + <bool as Dom>::N,
            M257::V138 => 137 + <bool as Dom>::N,
            M257::V139 => 138 + <bool as Dom>::N,
            M257::V140 => 139 + <bool as Dom>::N,
            M257::V141 => 140 + <bool as Dom>::N,
            M257::V142 => 141 + <bool as Dom>::N,
            M257::V143 => 142 + <bool as Dom>::N,
            M257::V144 => 143 + <bool as Dom>::N,
            M257::V145 => 144 + <bool as Dom>::N,
            M257::V146 => 145 + <bool as Dom>::N,
            M257::V147 => 146 + <bool as Dom>::N,
            M257::V148 => 147 + <bool as Dom>::N,
            M257::V149 => 148 + <bool as Dom>::N,
            M257::V150 => 149 + <bool as Dom>::N,
            M257::V151 => 150 + <bool as Dom>::N,
            M257::V152 => 151 + <bool as Dom>::N,
            M257::V153 => 152 + <bool as Dom>::N,
            M257::V154 => 153 + <bool as Dom>::N,
            M257::V155 => 154 + <bool as Dom>::N,
            M257::V156 => 155 + <bool as Dom>::N,
            M257::V157 => 156 + <bool as Dom>::N,
            M257::V158 => 157 + <bool as Dom>::N,
            M257::V159 => 158 + <bool as Dom>::N,
            M257::V160 => 159 + <bool as Dom>::N,
            M257::V161 => 160 + <bool as Dom>::N,
            M257::V162 => 161 + <bool as Dom>::N,
            M257::V163 => 162 + <bool as Dom>::N,
            M257::V164 => 163 + <bool as Dom>::N,
            M257::V165 => 164 + <bool as Dom>::N,
            M257::V166 => 165 + <bool as Dom>::N,
            M257::V167 => 166 + <bool as Dom>::N,
            M257::V168 => 167 + <bool as Dom>::N,
            M257::V169 => 168 + <bool as Dom>::N,
            M257::V170 => 169 + <bool as Dom>::N,
            M257::V171 => 170 + <bool as Dom>::N,
            M257::V172 => 171 + <bool as Dom>::N,
            M257::V173 => 172 + <bool as Dom>::N,
            M257::V174 => 173 + <bool as Dom>::N,
            M257::V175 => 174 + <bool as Dom>::N,
            M257::V176 => 175 + <bool as Dom>::N,
            M257::V177 => 176 + <bool as Dom>::N,
            M257::V178 => 177 + <bool as Dom>::N,
            M257::V179 => 178 + <bool as Dom>::N,
            M257::V180 => 179 + <bool as Dom>::N,
            M257::V181 => 180 + <bool as Dom>::N,
            M257::V182 => 181 + <bool as Dom>::N,
            M257::V183 => 182 + <bool as Dom>::N,
            M257::V184 => 183 + <bool as Dom>::N,
            M257::V185 => 184 + <bool as Dom>::N,
            M257::V186 => 185 + <bool as Dom>::N,
            M257::V187 => 186 + <bool as Dom>::N,
            M257::V188 => 187 + <bool as Dom>::N,
            M257::V189 => 188 + <bool as Dom>::N,
            M257::V190 => 189 + <bool as Dom>::N,
            M257::V191 => 190 + <bool as Dom>::N,
            M257::V192 => 191 + <bool as Dom>::N,
            M257::V193 => 192 + <bool as Dom>::N,
            M257::V194 => 193 + <bool as Dom>::N,
            M257::V195 => 194 + <bool as Dom>::N,
            M257::V196 => 195 + <bool as Dom>::N,
            M257::V197 => 196 + <bool as Dom>::N,
            M257::V198 => 197 + <bool as Dom>::N,
            M257::V199 => 198 + <bool as Dom>::N,
            M257::V200 => 199 + <bool as Dom>::N,
            M257::V201 => 200 + <bool as Dom>::N,
            M257::V202 => 201 + <bool as Dom>::N,
            M257::V203 => 202 + <bool as Dom>::N,
            M257::V204 => 203 + <bool as Dom>::N,
            M257::V205 => 204 + <bool as Dom>::N,
            M257::V206 => 205 + <bool as Dom>::N,
            M257::V207 => 206 + <bool as Dom>::N,
            M257::V208 => 207 + <bool as Dom>::N,
            M257::V209 => 208 + <bool as Dom>::N,
            M257::V210 => 209 + <bool as Dom>::N,
            M257::V211 => 210 + <bool as Dom>::N,
            M257::V212 => 211 + <bool as Dom>::N,
            M257::V213 => 212 + <bool as Dom>::N,
            M257::V214 => 213 + <bool as Dom>::N,
            M257::V215 => 214 + <bool as Dom>::N,
            M257::V216 => 215 + <bool as Dom>::N,
            M257::V217 => 216 + <bool as Dom>::N,
            M257::V218 => 217 + <bool as Dom>::N,
            M257::V219 => 218 + <bool as Dom>::N,
            M257::V220 => 219 + <bool as Dom>::N,
            M257::V221 => 220 + <bool as Dom>::N,
            M257::V222 => 221 + <bool as Dom>::N,
            M257::V223 => 222 + <bool as Dom>::N,
            M257::V224 => 223 + <bool as Dom>::N,
            M257::V225 => 224 + <bool as Dom>::N,
            M257::V226 => 225 + <bool as Dom>::N,
            M257::V227 => 226 + <bool as Dom>::N,
            M257::V228 => 227 + <bool as Dom>::N,
            M257::V229 => 228 + <bool as Dom>::N,
            M257::V230 => 229 + <bool as Dom>::N,
            M257::V231 => 230 + <bool as Dom>::N,
            M257::V232 => 231 + <bool as Dom>::N,
            M257::V233 => 232 + <bool as Dom>::N,
            M257::V234 => 233 + <bool as Dom>::N,
            M257::V235 => 234 + <bool as Dom>::N,
            M257::V236 => 235 + <bool as Dom>::N,
            M257::V237 => 236 + <bool as Dom>::N,
            M257::V238 => 237 + <bool as Dom>::N,
            M257::V239 => 238 + <bool as Dom>::N,
            M257::V240 => 239 + <bool as Dom>::N,
            M257::V241 => 240 + <bool as Dom>::N,
            M257::V242 => 241 + <bool as Dom>::N,
            M257::V243 => 242 + <bool as Dom>::N,
            M257::V244 => 243 + <bool as Dom>::N,
            M257::V245 => 244 + <bool as Dom>::N,
            M257::V246 => 245 + <bool as Dom>::N,
            M257::V247 => 246 + <bool as Dom>::N,
            M257::V248 => 247 + <bool as Dom>::N,
            M257::V249 => 248 + <bool as Dom>::N,
            M257::V250 => 249 + <bool as Dom>::N,
            M257::V251 => 250 + <bool as Dom>::N,
            M257::V252 => 251 + <bool as Dom>::N,
            M257::V253 => 252 + <bool as Dom>::N,
            M257::V254 => 253 + <bool as Dom>::N,
            M257::V255 => 254 + <bool as Dom>::N,
            M257::V256(x) => off(255 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_81 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[allow(unused_imports)] use super::m_80::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Deep1 { A(bool), B }
impl Dom for Deep1 {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return Deep1::A(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return Deep1::B; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            Deep1::A(x) => off(0, <bool as Dom>::idx(x)),
            Deep1::B => 0 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_82 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[allow(unused_imports)] use super::m_81::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Deep2 { A(Deep1), B }
impl Dom for Deep2 {
    const N: usize = 1 + <Deep1 as Dom>::N;
    const STATIC: bool = true && <Deep1 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Deep1 as Dom>::N { return Deep2::A(<Deep1 as Dom>::at(i)); } i -= <Deep1 as Dom>::N;
        if i == 0 { return Deep2::B; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            Deep2::A(x) => off(0, <Deep1 as Dom>::idx(x)),
            Deep2::B => 0 + <Deep1 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Deep1 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_83 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[allow(unused_imports)] use super::m_82::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Deep3 { A(Deep2), B }
impl Dom for Deep3 {
    const N: usize = 1 + <Deep2 as Dom>::N;
    const STATIC: bool = true && <Deep2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Deep2 as Dom>::N { return Deep3::A(<Deep2 as Dom>::at(i)); } i -= <Deep2 as Dom>::N;
        if i == 0 { return Deep3::B; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            Deep3::A(x) => off(0, <Deep2 as Dom>::idx(x)),
            Deep3::B => 0 + <Deep2 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Deep2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_84 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[allow(unused_imports)] use super::m_83::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Deep4 { A(Deep3), B }
impl Dom for Deep4 {
    const N: usize = 1 + <Deep3 as Dom>::N;
    const STATIC: bool = true && <Deep3 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Deep3 as Dom>::N { return Deep4::A(<Deep3 as Dom>::at(i)); } i -= <Deep3 as Dom>::N;
        if i == 0 { return Deep4::B; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            Deep4::A(x) => off(0, <Deep3 as Dom>::idx(x)),
            Deep4::B => 0 + <Deep3 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Deep3 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_85 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[allow(unused_imports)] use super::m_84::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Deep5 { A(Deep4), B }
impl Dom for Deep5 {
    const N: usize = 1 + <Deep4 as Dom>::N;
    const STATIC: bool = true && <Deep4 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Deep4 as Dom>::N { return Deep5::A(<Deep4 as Dom>::at(i)); } i -= <Deep4 as Dom>::N;
        if i == 0 { return Deep5::B; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            Deep5::A(x) => off(0, <Deep4 as Dom>::idx(x)),
            Deep5::B => 0 + <Deep4 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Deep4 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_86 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[allow(unused_imports)] use super::m_85::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Deep6 { A(Deep5), B }
impl Dom for Deep6 {
    const N: usize = 1 + <Deep5 as Dom>::N;
    const STATIC: bool = true && <Deep5 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Deep5 as Dom>::N { return Deep6::A(<Deep5 as Dom>::at(i)); } i -= <Deep5 as Dom>::N;
        if i == 0 { return Deep6::B; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            Deep6::A(x) => off(0, <Deep5 as Dom>::idx(x)),
            Deep6::B => 0 + <Deep5 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Deep5 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_87 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[allow(unused_imports)] use super::m_86::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Deep7 { A(Deep6), B }
impl Dom for Deep7 {
    const N: usize = 1 + <Deep6 as Dom>::N;
    const STATIC: bool = true && <Deep6 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Deep6 as Dom>::N { return Deep7::A(<Deep6 as Dom>::at(i)); } i -= <Deep6 as Dom>::N;
        if i == 0 { return Deep7::B; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            Deep7::A(x) => off(0, <Deep6 as Dom>::idx(x)),
            Deep7::B => 0 + <Deep6 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Deep6 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_88 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[allow(unused_imports)] use super::m_87::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Opt1 { A(Option<Option<bool>>), B(Option<bool>) }
impl Dom for Opt1 {
    const N: usize = 0 + <Option<Option<bool>> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<Option<bool>> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<Option<bool>> as Dom>::N { return Opt1::A(<Option<Option<bool>> as Dom>::at(i)); } i -= <Option<Option<bool>> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return Opt1::B(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            Opt1::A(x) => off(0, <Option<Option<bool>> as Dom>::idx(x)),
            Opt1::B(x) => off(0 + <Option<Option<bool>> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<Option<bool>> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_89 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[allow(unused_imports)] use super::m_88::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Opt2 { A(Option<Opt1>), B(Opt1) }
impl Dom for Opt2 {
    const N: usize = 0 + <Option<Opt1> as Dom>::N + <Opt1 as Dom>::N;
    const STATIC: bool = true && <Option<Opt1> as Dom>::STATIC && <Opt1 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<Opt1> as Dom>::N { return Opt2::A(<Option<Opt1> as Dom>::at(i)); } i -= <Option<Opt1> as Dom>::N;
        if i < <Opt1 as Dom>::N { return Opt2::B(<Opt1 as Dom>::at(i)); } i -= <Opt1 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            Opt2::A(x) => off(0, <Option<Opt1> as Dom>::idx(x)),
            Opt2::B(x) => off(0 + <Option<Opt1> as Dom>::N, <Opt1 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<Opt1> as Dom>::ranks(out, next);
        <Opt1 as Dom>::ranks(out, next);
    }
}
}
pub mod m_90 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[allow(unused_imports)] use super::m_89::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Opt3 { A(Option<Opt2>), B(Opt2) }
impl Dom for Opt3 {
    const N: usize = 0 + <Option<Opt2> as Dom>::N + <Opt2 as Dom>::N;
    const STATIC: bool = true && <Option<Opt2> as Dom>::STATIC && <Opt2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<Opt2> as Dom>::N { return Opt3::A(<Option<Opt2> as Dom>::at(i)); } i -= <Option<Opt2> as Dom>::N;
        if i < <Opt2 as Dom>::N { return Opt3::B(<Opt2 as Dom>::at(i)); } i -= <Opt2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            Opt3::A(x) => off(0, <Option<Opt2> as Dom>::idx(x)),
            Opt3::B(x) => off(0 + <Option<Opt2> as Dom>::N, <Opt2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<Opt2> as Dom>::ranks(out, next);
        <Opt2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_91 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[allow(unused_imports)] use super::m_90::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Opt4 { A(Option<Opt3>), B(Opt3) }
impl Dom for Opt4 {
    const N: usize = 0 + <Option<Opt3> as Dom>::N + <Opt3 as Dom>::N;
    const STATIC: bool = true && <Option<Opt3> as Dom>::STATIC && <Opt3 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<Opt3> as Dom>::N { return Opt4::A(<Option<Opt3> as Dom>::at(i)); } i -= <Option<Opt3> as Dom>::N;
        if i < <Opt3 as Dom>::N { return Opt4::B(<Opt3 as Dom>::at(i)); } i -= <Opt3 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            Opt4::A(x) => off(0, <Option<Opt3> as Dom>::idx(x)),
            Opt4::B(x) => off(0 + <Option<Opt3> as Dom>::N, <Opt3 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<Opt3> as Dom>::ranks(out, next);
        <Opt3 as Dom>::ranks(out, next);
    }
}
}
pub fn jobs(c: &mut fmcore::report::Ctx) {
    c.job("S1B", |w| fmcheck_slots::unit::<m_0::S1B>(w, "S1B"));
    c.job("S1T", |w| fmcheck_slots::unit::<m_1::S1T>(w, "S1T"));
    c.job("S2UC", |w| fmcheck_slots::unit::<m_2::S2UC>(w, "S2UC"));
    c.job("S2BE", |w| fmcheck_slots::unit::<m_3::S2BE>(w, "S2BE"));
    c.job("S2SB", |w| fmcheck_slots::unit::<m_4::S2SB>(w, "S2SB"));
    c.job("S2ST", |w| fmcheck_slots::unit::<m_5::S2ST>(w, "S2ST"));
    c.job("S2OZ", |w| fmcheck_slots::unit::<m_6::S2OZ>(w, "S2OZ"));
    c.job("S2EO", |w| fmcheck_slots::unit::<m_7::S2EO>(w, "S2EO"));
    c.job("S2KU", |w| fmcheck_slots::unit::<m_8::S2KU>(w, "S2KU"));
    c.job("S2KD", |w| fmcheck_slots::unit::<m_9::S2KD>(w, "S2KD"));
    c.job("S2ZK", |w| fmcheck_slots::unit::<m_10::S2ZK>(w, "S2ZK"));
    c.job("S2CS", |w| fmcheck_slots::unit::<m_11::S2CS>(w, "S2CS"));
    c.job("S2CW", |w| fmcheck_slots::unit::<m_12::S2CW>(w, "S2CW"));
    c.job("S2DC", |w| fmcheck_slots::unit::<m_13::S2DC>(w, "S2DC"));
    c.job("S2TE", |w| fmcheck_slots::unit::<m_14::S2TE>(w, "S2TE"));
    c.job("S2WB", |w| fmcheck_slots::unit::<m_15::S2WB>(w, "S2WB"));
    c.job("S2WT", |w| fmcheck_slots::unit::<m_16::S2WT>(w, "S2WT"));
    c.job("S3UBB", |w| fmcheck_slots::unit::<m_17::S3UBB>(w, "S3UBB"));
    c.job("S3USO", |w| fmcheck_slots::unit::<m_18::S3USO>(w, "S3USO"));
    c.job("S3UOD", |w| fmcheck_slots::unit::<m_19::S3UOD>(w, "S3UOD"));
    c.job("S3UDB", |w| fmcheck_slots::unit::<m_20::S3UDB>(w, "S3UDB"));
    c.job("S3BUO", |w| fmcheck_slots::unit::<m_21::S3BUO>(w, "S3BUO"));
    c.job("S3BBD", |w| fmcheck_slots::unit::<m_22::S3BBD>(w, "S3BBD"));
    c.job("S3BOB", |w| fmcheck_slots::unit::<m_23::S3BOB>(w, "S3BOB"));
    c.job("S3BKO", |w| fmcheck_slots::unit::<m_24::S3BKO>(w, "S3BKO"));
    c.job("S3BDD", |w| fmcheck_slots::unit::<m_25::S3BDD>(w, "S3BDD"));
    c.job("S3SBB", |w| fmcheck_slots::unit::<m_26::S3SBB>(w, "S3SBB"));
    c.job("S3SSO", |w| fmcheck_slots::unit::<m_27::S3SSO>(w, "S3SSO"));
    c.job("S3SOD", |w| fmcheck_slots::unit::<m_28::S3SOD>(w, "S3SOD"));
    c.job("S3SDB", |w| fmcheck_slots::unit::<m_29::S3SDB>(w, "S3SDB"));
    c.job("S3OUO", |w| fmcheck_slots::unit::<m_30::S3OUO>(w, "S3OUO"));
    c.job("S3OBD", |w| fmcheck_slots::unit::<m_31::S3OBD>(w, "S3OBD"));
    c.job("S3OOB", |w| fmcheck_slots::unit::<m_32::S3OOB>(w, "S3OOB"));
    c.job("S3OKO", |w| fmcheck_slots::unit::<m_33::S3OKO>(w, "S3OKO"));
    c.job("S3ODD", |w| fmcheck_slots::unit::<m_34::S3ODD>(w, "S3ODD"));
    c.job("S3KBB", |w| fmcheck_slots::unit::<m_35::S3KBB>(w, "S3KBB"));
    c.job("S3KSO", |w| fmcheck_slots::unit::<m_36::S3KSO>(w, "S3KSO"));
    c.job("S3KOD", |w| fmcheck_slots::unit::<m_37::S3KOD>(w, "S3KOD"));
    c.job("S3KDB", |w| fmcheck_slots::unit::<m_38::S3KDB>(w, "S3KDB"));
    c.job("S3DUO", |w| fmcheck_slots::unit::<m_39::S3DUO>(w, "S3DUO"));
    c.job("S3DBD", |w| fmcheck_slots::unit::<m_40::S3DBD>(w, "S3DBD"));
    c.job("S3DOB", |w| fmcheck_slots::unit::<m_41::S3DOB>(w, "S3DOB"));
    c.job("S3DKO", |w| fmcheck_slots::unit::<m_42::S3DKO>(w, "S3DKO"));
    c.job("S3DDD", |w| fmcheck_slots::unit::<m_43::S3DDD>(w, "S3DDD"));
    c.job("S4UUSS", |w| fmcheck_slots::unit::<m_44::S4UUSS>(w, "S4UUSS"));
    c.job("S4UBSB", |w| fmcheck_slots::unit::<m_45::S4UBSB>(w, "S4UBSB"));
    c.job("S4USSU", |w| fmcheck_slots::unit::<m_46::S4USSU>(w, "S4USSU"));
    c.job("S4BUBS", |w| fmcheck_slots::unit::<m_47::S4BUBS>(w, "S4BUBS"));
    c.job("S4BBBB", |w| fmcheck_slots::unit::<m_48::S4BBBB>(w, "S4BBBB"));
    c.job("S4BSBU", |w| fmcheck_slots::unit::<m_49::S4BSBU>(w, "S4BSBU"));
    c.job("S4SUUS", |w| fmcheck_slots::unit::<m_50::S4SUUS>(w, "S4SUUS"));
    c.job("S4SBUB", |w| fmcheck_slots::unit::<m_51::S4SBUB>(w, "S4SBUB"));
    c.job("S4SSUU", |w| fmcheck_slots::unit::<m_52::S4SSUU>(w, "S4SSUU"));
    c.job("S4SSSS", |w| fmcheck_slots::unit::<m_53::S4SSSS>(w, "S4SSSS"));
    c.job("S5UOUUU", |w| fmcheck_slots::unit::<m_54::S5UOUUU>(w, "S5UOUUU"));
    c.job("S5OUUUU", |w| fmcheck_slots::unit::<m_55::S5OUUUU>(w, "S5OUUUU"));
    c.job("S5OOUUU", |w| fmcheck_slots::unit::<m_56::S5OOUUU>(w, "S5OOUUU"));
    c.job("P6_0", |w| fmcheck_slots::unit::<m_57::P6_0>(w, "P6_0"));
    c.job("P8_2", |w| fmcheck_slots::unit::<m_58::P8_2>(w, "P8_2"));
    c.job("P12_2", |w| fmcheck_slots::unit::<m_59::P12_2>(w, "P12_2"));
    c.job("P12_10", |w| fmcheck_slots::unit::<m_60::P12_10>(w, "P12_10"));
    c.job("N5", |w| fmcheck_slots::unit::<m_61::N5>(w, "N5"));
    c.job("N9", |w| fmcheck_slots::unit::<m_62::N9>(w, "N9"));
    c.job("N13", |w| fmcheck_slots::unit::<m_63::N13>(w, "N13"));
    c.job("N17", |w| fmcheck_slots::unit::<m_64::N17>(w, "N17"));
    c.job("N21", |w| fmcheck_slots::unit::<m_65::N21>(w, "N21"));
    c.job("N25", |w| fmcheck_slots::unit::<m_66::N25>(w, "N25"));
    c.job("N29", |w| fmcheck_slots::unit::<m_67::N29>(w, "N29"));
    c.job("N33", |w| fmcheck_slots::unit::<m_68::N33>(w, "N33"));
    c.job("N37", |w| fmcheck_slots::unit::<m_69::N37>(w, "N37"));
    c.job("N41", |w| fmcheck_slots::unit::<m_70::N41>(w, "N41"));
    c.job("N45", |w| fmcheck_slots::unit::<m_71::N45>(w, "N45"));
    c.job("N49", |w| fmcheck_slots::unit::<m_72::N49>(w, "N49"));
    c.job("N53", |w| fmcheck_slots::unit::<m_73::N53>(w, "N53"));
    c.job("N57", |w| fmcheck_slots::unit::<m_74::N57>(w, "N57"));
    c.job("N61", |w| fmcheck_slots::unit::<m_75::N61>(w, "N61"));
    c.job("N65", |w| fmcheck_slots::unit::<m_76::N65>(w, "N65"));
    c.job("N96", |w| fmcheck_slots::unit::<m_77::N96>(w, "N96"));
    c.job("N128", |w| fmcheck_slots::unit::<m_78::N128>(w, "N128"));
    c.job("N256", |w| fmcheck_slots::unit::<m_79::N256>(w, "N256"));
    c.job("M257", |w| fmcheck_slots::unit::<m_80::M257>(w, "M257"));
    c.job("Deep1", |w| fmcheck_slots::unit::<m_81::Deep1>(w, "Deep1"));
    c.job("Deep2", |w| fmcheck_slots::unit::<m_82::Deep2>(w, "Deep2"));
    c.job("Deep3", |w| fmcheck_slots::unit::<m_83::Deep3>(w, "Deep3"));
    c.job("Deep4", |w| fmcheck_slots::unit::<m_84::Deep4>(w, "Deep4"));
    c.job("Deep5", |w| fmcheck_slots::unit::<m_85::Deep5>(w, "Deep5"));
    c.job("Deep6", |w| fmcheck_slots::unit::<m_86::Deep6>(w, "Deep6"));
    c.job("Deep7", |w| fmcheck_slots::unit::<m_87::Deep7>(w, "Deep7"));
    c.job("Opt1", |w| fmcheck_slots::unit::<m_88::Opt1>(w, "Opt1"));
    c.job("Opt2", |w| fmcheck_slots::unit::<m_89::Opt2>(w, "Opt2"));
    c.job("Opt3", |w| fmcheck_slots::unit::<m_90::Opt3>(w, "Opt3"));
    c.job("Opt4", |w| fmcheck_slots::unit::<m_91::Opt4>(w, "Opt4"));
}
