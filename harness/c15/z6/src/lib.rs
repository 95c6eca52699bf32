//! Generated by gen2.py; do not edit.
#![allow(unused_imports, non_camel_case_types, non_upper_case_globals, non_snake_case, dead_code, uncommon_codepoints, clippy::all)]
#![recursion_limit = "1024"]
use fmcheck_dom::{off, Dom};
use fixed_map::Key;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U2 { V0, V1 }
impl Dom for U2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U2] = &[U2::V0, U2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U2::V0 => 0,
            U2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K2 { V0, V1 }
impl Dom for K2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K2] = &[K2::V0, K2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K2::V0 => 0,
            K2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U0 {  }
impl Dom for U0 {
    const N: usize = 0;
    const STATIC: bool = true;
    fn at(_: usize) -> Self { panic!("no such key") }
    fn idx(self) -> usize { match self {} }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..0 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum NestA { X(bool), Y }
impl Dom for NestA {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return NestA::X(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return NestA::Y; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            NestA::X(x) => off(0, <bool as Dom>::idx(x)),
            NestA::Y => 0 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
pub mod m_0 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S1C { V0(NestA) }
impl Dom for S1C {
    const N: usize = 0 + <NestA as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return S1C::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S1C::V0(x) => off(0, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
    }
}
}
pub mod m_1 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2UK { V0, V1(K2) }
impl Dom for S2UK {
    const N: usize = 1 + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S2UK::V0; } i -= 1;
        if i < <K2 as Dom>::N { return S2UK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2UK::V0 => 0,
            S2UK::V1(x) => off(1, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_2 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2BS { V0(bool), V1(()) }
impl Dom for S2BS {
    const N: usize = 0 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S2BS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S2BS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2BS::V0(x) => off(0, <bool as Dom>::idx(x)),
            S2BS::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_3 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2BW { V0(bool), V1(Option<u32>) }
impl Dom for S2BW {
    const N: usize = 0 + <bool as Dom>::N + <Option<u32> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<u32> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S2BW::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<u32> as Dom>::N { return S2BW::V1(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2BW::V0(x) => off(0, <bool as Dom>::idx(x)),
            S2BW::V1(x) => off(0 + <bool as Dom>::N, <Option<u32> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <Option<u32> as Dom>::ranks(out, next);
    }
}
}
pub mod m_4 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2SC { V0(()), V1(NestA) }
impl Dom for S2SC {
    const N: usize = 0 + <() as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S2SC::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <NestA as Dom>::N { return S2SC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2SC::V0(x) => off(0, <() as Dom>::idx(x)),
            S2SC::V1(x) => off(0 + <() as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
}
pub mod m_5 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2OE { V0(Option<bool>), V1(U2) }
impl Dom for S2OE {
    const N: usize = 0 + <Option<bool> as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S2OE::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <U2 as Dom>::N { return S2OE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2OE::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S2OE::V1(x) => off(0 + <Option<bool> as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_6 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2EB { V0(U2), V1(bool) }
impl Dom for S2EB {
    const N: usize = 0 + <U2 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return S2EB::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <bool as Dom>::N { return S2EB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2EB::V0(x) => off(0, <U2 as Dom>::idx(x)),
            S2EB::V1(x) => off(0 + <U2 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_7 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2ET { V0(U2), V1(&'static str) }
impl Dom for S2ET {
    const N: usize = 0 + <U2 as Dom>::N + <&'static str as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return S2ET::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <&'static str as Dom>::N { return S2ET::V1(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2ET::V0(x) => off(0, <U2 as Dom>::idx(x)),
            S2ET::V1(x) => off(0 + <U2 as Dom>::N, <&'static str as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <&'static str as Dom>::ranks(out, next);
    }
}
}
pub mod m_8 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2KZ { V0(K2), V1(U0) }
impl Dom for S2KZ {
    const N: usize = 0 + <K2 as Dom>::N + <U0 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <U0 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S2KZ::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <U0 as Dom>::N { return S2KZ::V1(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2KZ::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S2KZ::V1(x) => off(0 + <K2 as Dom>::N, <U0 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <U0 as Dom>::ranks(out, next);
    }
}
}
pub mod m_9 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2ZO { V0(U0), V1(Option<bool>) }
impl Dom for S2ZO {
    const N: usize = 0 + <U0 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <U0 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U0 as Dom>::N { return S2ZO::V0(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S2ZO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2ZO::V0(x) => off(0, <U0 as Dom>::idx(x)),
            S2ZO::V1(x) => off(0 + <U0 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U0 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_10 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2CU { V0(NestA), V1 }
impl Dom for S2CU {
    const N: usize = 1 + <NestA as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return S2CU::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i == 0 { return S2CU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2CU::V0(x) => off(0, <NestA as Dom>::idx(x)),
            S2CU::V1 => 0 + <NestA as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_11 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2CD { V0(NestA), V1(u8) }
impl Dom for S2CD {
    const N: usize = 0 + <NestA as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return S2CD::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <u8 as Dom>::N { return S2CD::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2CD::V0(x) => off(0, <NestA as Dom>::idx(x)),
            S2CD::V1(x) => off(0 + <NestA as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_12 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2DK { V0(u8), V1(K2) }
impl Dom for S2DK {
    const N: usize = 0 + <u8 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S2DK::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <K2 as Dom>::N { return S2DK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2DK::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S2DK::V1(x) => off(0 + <u8 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_13 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2TS { V0(&'static str), V1(()) }
impl Dom for S2TS {
    const N: usize = 0 + <&'static str as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <&'static str as Dom>::N { return S2TS::V0(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i < <() as Dom>::N { return S2TS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2TS::V0(x) => off(0, <&'static str as Dom>::idx(x)),
            S2TS::V1(x) => off(0 + <&'static str as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <&'static str as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_14 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2TW { V0(&'static str), V1(Option<u32>) }
impl Dom for S2TW {
    const N: usize = 0 + <&'static str as Dom>::N + <Option<u32> as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC && <Option<u32> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <&'static str as Dom>::N { return S2TW::V0(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i < <Option<u32> as Dom>::N { return S2TW::V1(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2TW::V0(x) => off(0, <&'static str as Dom>::idx(x)),
            S2TW::V1(x) => off(0 + <&'static str as Dom>::N, <Option<u32> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <&'static str as Dom>::ranks(out, next);
        <Option<u32> as Dom>::ranks(out, next);
    }
}
}
pub mod m_15 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2WC { V0(Option<u32>), V1(NestA) }
impl Dom for S2WC {
    const N: usize = 0 + <Option<u32> as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <Option<u32> as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<u32> as Dom>::N { return S2WC::V0(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        if i < <NestA as Dom>::N { return S2WC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2WC::V0(x) => off(0, <Option<u32> as Dom>::idx(x)),
            S2WC::V1(x) => off(0 + <Option<u32> as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<u32> as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
}
pub mod m_16 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UUD { V0, V1, V2(u8) }
impl Dom for S3UUD {
    const N: usize = 2 + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UUD::V0; } i -= 1;
        if i == 0 { return S3UUD::V1; } i -= 1;
        if i < <u8 as Dom>::N { return S3UUD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UUD::V0 => 0,
            S3UUD::V1 => 1,
            S3UUD::V2(x) => off(2, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_17 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3USB { V0, V1(()), V2(bool) }
impl Dom for S3USB {
    const N: usize = 1 + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3USB::V0; } i -= 1;
        if i < <() as Dom>::N { return S3USB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S3USB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3USB::V0 => 0,
            S3USB::V1(x) => off(1, <() as Dom>::idx(x)),
            S3USB::V2(x) => off(1 + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_18 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UOO { V0, V1(Option<bool>), V2(Option<bool>) }
impl Dom for S3UOO {
    const N: usize = 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UOO::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S3UOO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3UOO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UOO::V0 => 0,
            S3UOO::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
            S3UOO::V2(x) => off(1 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_19 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UKD { V0, V1(K2), V2(u8) }
impl Dom for S3UKD {
    const N: usize = 1 + <K2 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UKD::V0; } i -= 1;
        if i < <K2 as Dom>::N { return S3UKD::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <u8 as Dom>::N { return S3UKD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UKD::V0 => 0,
            S3UKD::V1(x) => off(1, <K2 as Dom>::idx(x)),
            S3UKD::V2(x) => off(1 + <K2 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <K2 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_20 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BUB { V0(bool), V1, V2(bool) }
impl Dom for S3BUB {
    const N: usize = 1 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BUB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S3BUB::V1; } i -= 1;
        if i < <bool as Dom>::N { return S3BUB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BUB::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BUB::V1 => 0 + <bool as Dom>::N,
            S3BUB::V2(x) => off(1 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_21 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BBO { V0(bool), V1(bool), V2(Option<bool>) }
impl Dom for S3BBO {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BBO::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S3BBO::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3BBO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BBO::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BBO::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S3BBO::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_22 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BSD { V0(bool), V1(()), V2(u8) }
impl Dom for S3BSD {
    const N: usize = 0 + <bool as Dom>::N + <() as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BSD::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S3BSD::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <u8 as Dom>::N { return S3BSD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BSD::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BSD::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S3BSD::V2(x) => off(0 + <bool as Dom>::N + <() as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_23 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BKB { V0(bool), V1(K2), V2(bool) }
impl Dom for S3BKB {
    const N: usize = 0 + <bool as Dom>::N + <K2 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <K2 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BKB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <K2 as Dom>::N { return S3BKB::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <bool as Dom>::N { return S3BKB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BKB::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BKB::V1(x) => off(0 + <bool as Dom>::N, <K2 as Dom>::idx(x)),
            S3BKB::V2(x) => off(0 + <bool as Dom>::N + <K2 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_24 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BDO { V0(bool), V1(u8), V2(Option<bool>) }
impl Dom for S3BDO {
    const N: usize = 0 + <bool as Dom>::N + <u8 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <u8 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BDO::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <u8 as Dom>::N { return S3BDO::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3BDO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BDO::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BDO::V1(x) => off(0 + <bool as Dom>::N, <u8 as Dom>::idx(x)),
            S3BDO::V2(x) => off(0 + <bool as Dom>::N + <u8 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_25 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SUD { V0(()), V1, V2(u8) }
impl Dom for S3SUD {
    const N: usize = 1 + <() as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SUD::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S3SUD::V1; } i -= 1;
        if i < <u8 as Dom>::N { return S3SUD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SUD::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SUD::V1 => 0 + <() as Dom>::N,
            S3SUD::V2(x) => off(1 + <() as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_26 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SSB { V0(()), V1(()), V2(bool) }
impl Dom for S3SSB {
    const N: usize = 0 + <() as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SSB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S3SSB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S3SSB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SSB::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SSB::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            S3SSB::V2(x) => off(0 + <() as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_27 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SOO { V0(()), V1(Option<bool>), V2(Option<bool>) }
impl Dom for S3SOO {
    const N: usize = 0 + <() as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SOO::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3SOO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3SOO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SOO::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SOO::V1(x) => off(0 + <() as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3SOO::V2(x) => off(0 + <() as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_28 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SKD { V0(()), V1(K2), V2(u8) }
impl Dom for S3SKD {
    const N: usize = 0 + <() as Dom>::N + <K2 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <K2 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SKD::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <K2 as Dom>::N { return S3SKD::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <u8 as Dom>::N { return S3SKD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SKD::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SKD::V1(x) => off(0 + <() as Dom>::N, <K2 as Dom>::idx(x)),
            S3SKD::V2(x) => off(0 + <() as Dom>::N + <K2 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_29 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OUB { V0(Option<bool>), V1, V2(bool) }
impl Dom for S3OUB {
    const N: usize = 1 + <Option<bool> as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OUB::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S3OUB::V1; } i -= 1;
        if i < <bool as Dom>::N { return S3OUB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OUB::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OUB::V1 => 0 + <Option<bool> as Dom>::N,
            S3OUB::V2(x) => off(1 + <Option<bool> as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_30 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OBO { V0(Option<bool>), V1(bool), V2(Option<bool>) }
impl Dom for S3OBO {
    const N: usize = 0 + <Option<bool> as Dom>::N + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OBO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <bool as Dom>::N { return S3OBO::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3OBO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OBO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OBO::V1(x) => off(0 + <Option<bool> as Dom>::N, <bool as Dom>::idx(x)),
            S3OBO::V2(x) => off(0 + <Option<bool> as Dom>::N + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_31 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OSD { V0(Option<bool>), V1(()), V2(u8) }
impl Dom for S3OSD {
    const N: usize = 0 + <Option<bool> as Dom>::N + <() as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <() as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OSD::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <() as Dom>::N { return S3OSD::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <u8 as Dom>::N { return S3OSD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OSD::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OSD::V1(x) => off(0 + <Option<bool> as Dom>::N, <() as Dom>::idx(x)),
            S3OSD::V2(x) => off(0 + <Option<bool> as Dom>::N + <() as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_32 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OKB { V0(Option<bool>), V1(K2), V2(bool) }
impl Dom for S3OKB {
    const N: usize = 0 + <Option<bool> as Dom>::N + <K2 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <K2 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OKB::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <K2 as Dom>::N { return S3OKB::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <bool as Dom>::N { return S3OKB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OKB::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OKB::V1(x) => off(0 + <Option<bool> as Dom>::N, <K2 as Dom>::idx(x)),
            S3OKB::V2(x) => off(0 + <Option<bool> as Dom>::N + <K2 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_33 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3ODO { V0(Option<bool>), V1(u8), V2(Option<bool>) }
impl Dom for S3ODO {
    const N: usize = 0 + <Option<bool> as Dom>::N + <u8 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <u8 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3ODO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <u8 as Dom>::N { return S3ODO::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3ODO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3ODO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3ODO::V1(x) => off(0 + <Option<bool> as Dom>::N, <u8 as Dom>::idx(x)),
            S3ODO::V2(x) => off(0 + <Option<bool> as Dom>::N + <u8 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_34 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KUD { V0(K2), V1, V2(u8) }
impl Dom for S3KUD {
    const N: usize = 1 + <K2 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KUD::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i == 0 { return S3KUD::V1; } i -= 1;
        if i < <u8 as Dom>::N { return S3KUD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KUD::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KUD::V1 => 0 + <K2 as Dom>::N,
            S3KUD::V2(x) => off(1 + <K2 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_35 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KSB { V0(K2), V1(()), V2(bool) }
impl Dom for S3KSB {
    const N: usize = 0 + <K2 as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KSB::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <() as Dom>::N { return S3KSB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S3KSB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KSB::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KSB::V1(x) => off(0 + <K2 as Dom>::N, <() as Dom>::idx(x)),
            S3KSB::V2(x) => off(0 + <K2 as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_36 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KOO { V0(K2), V1(Option<bool>), V2(Option<bool>) }
impl Dom for S3KOO {
    const N: usize = 0 + <K2 as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KOO::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3KOO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3KOO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KOO::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KOO::V1(x) => off(0 + <K2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3KOO::V2(x) => off(0 + <K2 as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_37 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KKD { V0(K2), V1(K2), V2(u8) }
impl Dom for S3KKD {
    const N: usize = 0 + <K2 as Dom>::N + <K2 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <K2 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KKD::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <K2 as Dom>::N { return S3KKD::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <u8 as Dom>::N { return S3KKD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KKD::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KKD::V1(x) => off(0 + <K2 as Dom>::N, <K2 as Dom>::idx(x)),
            S3KKD::V2(x) => off(0 + <K2 as Dom>::N + <K2 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_38 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DUB { V0(u8), V1, V2(bool) }
impl Dom for S3DUB {
    const N: usize = 1 + <u8 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DUB::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return S3DUB::V1; } i -= 1;
        if i < <bool as Dom>::N { return S3DUB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DUB::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DUB::V1 => 0 + <u8 as Dom>::N,
            S3DUB::V2(x) => off(1 + <u8 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_39 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DBO { V0(u8), V1(bool), V2(Option<bool>) }
impl Dom for S3DBO {
    const N: usize = 0 + <u8 as Dom>::N + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DBO::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <bool as Dom>::N { return S3DBO::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3DBO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DBO::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DBO::V1(x) => off(0 + <u8 as Dom>::N, <bool as Dom>::idx(x)),
            S3DBO::V2(x) => off(0 + <u8 as Dom>::N + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_40 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DSD { V0(u8), V1(()), V2(u8) }
impl Dom for S3DSD {
    const N: usize = 0 + <u8 as Dom>::N + <() as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <() as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DSD::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <() as Dom>::N { return S3DSD::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <u8 as Dom>::N { return S3DSD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DSD::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DSD::V1(x) => off(0 + <u8 as Dom>::N, <() as Dom>::idx(x)),
            S3DSD::V2(x) => off(0 + <u8 as Dom>::N + <() as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_41 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DKB { V0(u8), V1(K2), V2(bool) }
impl Dom for S3DKB {
    const N: usize = 0 + <u8 as Dom>::N + <K2 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <K2 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DKB::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <K2 as Dom>::N { return S3DKB::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <bool as Dom>::N { return S3DKB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DKB::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DKB::V1(x) => off(0 + <u8 as Dom>::N, <K2 as Dom>::idx(x)),
            S3DKB::V2(x) => off(0 + <u8 as Dom>::N + <K2 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_42 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DDO { V0(u8), V1(u8), V2(Option<bool>) }
impl Dom for S3DDO {
    const N: usize = 0 + <u8 as Dom>::N + <u8 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DDO::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <u8 as Dom>::N { return S3DDO::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3DDO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DDO::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DDO::V1(x) => off(0 + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
            S3DDO::V2(x) => off(0 + <u8 as Dom>::N + <u8 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_43 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UUSU { V0, V1, V2(()), V3 }
impl Dom for S4UUSU {
    const N: usize = 3 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UUSU::V0; } i -= 1;
        if i == 0 { return S4UUSU::V1; } i -= 1;
        if i < <() as Dom>::N { return S4UUSU::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4UUSU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UUSU::V0 => 0,
            S4UUSU::V1 => 1,
            S4UUSU::V2(x) => off(2, <() as Dom>::idx(x)),
            S4UUSU::V3 => 2 + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_44 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UBBS { V0, V1(bool), V2(bool), V3(()) }
impl Dom for S4UBBS {
    const N: usize = 1 + <bool as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UBBS::V0; } i -= 1;
        if i < <bool as Dom>::N { return S4UBBS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4UBBS::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4UBBS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UBBS::V0 => 0,
            S4UBBS::V1(x) => off(1, <bool as Dom>::idx(x)),
            S4UBBS::V2(x) => off(1 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4UBBS::V3(x) => off(1 + <bool as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_45 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4USBB { V0, V1(()), V2(bool), V3(bool) }
impl Dom for S4USBB {
    const N: usize = 1 + <() as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4USBB::V0; } i -= 1;
        if i < <() as Dom>::N { return S4USBB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4USBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4USBB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4USBB::V0 => 0,
            S4USBB::V1(x) => off(1, <() as Dom>::idx(x)),
            S4USBB::V2(x) => off(1 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4USBB::V3(x) => off(1 + <() as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_46 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BUBU { V0(bool), V1, V2(bool), V3 }
impl Dom for S4BUBU {
    const N: usize = 2 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BUBU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4BUBU::V1; } i -= 1;
        if i < <bool as Dom>::N { return S4BUBU::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4BUBU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BUBU::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BUBU::V1 => 0 + <bool as Dom>::N,
            S4BUBU::V2(x) => off(1 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4BUBU::V3 => 1 + <bool as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_47 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BBUS { V0(bool), V1(bool), V2, V3(()) }
impl Dom for S4BBUS {
    const N: usize = 1 + <bool as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BBUS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4BBUS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4BBUS::V2; } i -= 1;
        if i < <() as Dom>::N { return S4BBUS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BBUS::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BBUS::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4BBUS::V2 => 0 + <bool as Dom>::N + <bool as Dom>::N,
            S4BBUS::V3(x) => off(1 + <bool as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_48 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BSUB { V0(bool), V1(()), V2, V3(bool) }
impl Dom for S4BSUB {
    const N: usize = 1 + <bool as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BSUB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4BSUB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4BSUB::V2; } i -= 1;
        if i < <bool as Dom>::N { return S4BSUB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BSUB::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BSUB::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4BSUB::V2 => 0 + <bool as Dom>::N + <() as Dom>::N,
            S4BSUB::V3(x) => off(1 + <bool as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_49 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SUUU { V0(()), V1, V2, V3 }
impl Dom for S4SUUU {
    const N: usize = 3 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SUUU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4SUUU::V1; } i -= 1;
        if i == 0 { return S4SUUU::V2; } i -= 1;
        if i == 0 { return S4SUUU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SUUU::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SUUU::V1 => 0 + <() as Dom>::N,
            S4SUUU::V2 => 1 + <() as Dom>::N,
            S4SUUU::V3 => 2 + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_50 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SUSS { V0(()), V1, V2(()), V3(()) }
impl Dom for S4SUSS {
    const N: usize = 1 + <() as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SUSS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4SUSS::V1; } i -= 1;
        if i < <() as Dom>::N { return S4SUSS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4SUSS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SUSS::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SUSS::V1 => 0 + <() as Dom>::N,
            S4SUSS::V2(x) => off(1 + <() as Dom>::N, <() as Dom>::idx(x)),
            S4SUSS::V3(x) => off(1 + <() as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_51 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SBSB { V0(()), V1(bool), V2(()), V3(bool) }
impl Dom for S4SBSB {
    const N: usize = 0 + <() as Dom>::N + <bool as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SBSB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4SBSB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4SBSB::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4SBSB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SBSB::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SBSB::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4SBSB::V2(x) => off(0 + <() as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4SBSB::V3(x) => off(0 + <() as Dom>::N + <bool as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_52 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SSSU { V0(()), V1(()), V2(()), V3 }
impl Dom for S4SSSU {
    const N: usize = 1 + <() as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SSSU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4SSSU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4SSSU::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4SSSU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SSSU::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SSSU::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            S4SSSU::V2(x) => off(0 + <() as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
            S4SSSU::V3 => 0 + <() as Dom>::N + <() as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_53 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5UUOOU { V0, V1, V2(Option<bool>), V3(Option<bool>), V4 }
impl Dom for S5UUOOU {
    const N: usize = 3 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S5UUOOU::V0; } i -= 1;
        if i == 0 { return S5UUOOU::V1; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UUOOU::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5UUOOU::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5UUOOU::V4; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5UUOOU::V0 => 0,
            S5UUOOU::V1 => 1,
            S5UUOOU::V2(x) => off(2, <Option<bool> as Dom>::idx(x)),
            S5UUOOU::V3(x) => off(2 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5UUOOU::V4 => 2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_54 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5UOOOU { V0, V1(Option<bool>), V2(Option<bool>), V3(Option<bool>), V4 }
impl Dom for S5UOOOU {
    const N: usize = 2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S5UOOOU::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UOOOU::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5UOOOU::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5UOOOU::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5UOOOU::V4; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5UOOOU::V0 => 0,
            S5UOOOU::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
            S5UOOOU::V2(x) => off(1 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5UOOOU::V3(x) => off(1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5UOOOU::V4 => 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_55 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5OUOOU { V0(Option<bool>), V1, V2(Option<bool>), V3(Option<bool>), V4 }
impl Dom for S5OUOOU {
    const N: usize = 2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S5OUOOU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OUOOU::V1; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5OUOOU::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OUOOU::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OUOOU::V4; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5OUOOU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S5OUOOU::V1 => 0 + <Option<bool> as Dom>::N,
            S5OUOOU::V2(x) => off(1 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OUOOU::V3(x) => off(1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OUOOU::V4 => 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_56 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5OOOOU { V0(Option<bool>), V1(Option<bool>), V2(Option<bool>), V3(Option<bool>), V4 }
impl Dom for S5OOOOU {
    const N: usize = 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S5OOOOU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OOOOU::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OOOOU::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OOOOU::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OOOOU::V4; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5OOOOU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S5OOOOU::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OOOOU::V2(x) => off(0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OOOOU::V3(x) => off(0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OOOOU::V4 => 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_57 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P8_0 { V0(bool), V1, V2, V3, V4, V5, V6, V7 }
impl Dom for P8_0 {
    const N: usize = 7 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return P8_0::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P8_0::V1; } i -= 1;
        if i == 0 { return P8_0::V2; } i -= 1;
        if i == 0 { return P8_0::V3; } i -= 1;
        if i == 0 { return P8_0::V4; } i -= 1;
        if i == 0 { return P8_0::V5; } i -= 1;
        if i == 0 { return P8_0::V6; } i -= 1;
        if i == 0 { return P8_0::V7; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P8_0::V0(x) => off(0, <bool as Dom>::idx(x)),
            P8_0::V1 => 0 + <bool as Dom>::N,
            P8_0::V2 => 1 + <bool as Dom>::N,
            P8_0::V3 => 2 + <bool as Dom>::N,
            P8_0::V4 => 3 + <bool as Dom>::N,
            P8_0::V5 => 4 + <bool as Dom>::N,
            P8_0::V6 => 5 + <bool as Dom>::N,
            P8_0::V7 => 6 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_58 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P12_0 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11 }
impl Dom for P12_0 {
    const N: usize = 11 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return P12_0::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P12_0::V1; } i -= 1;
        if i == 0 { return P12_0::V2; } i -= 1;
        if i == 0 { return P12_0::V3; } i -= 1;
        if i == 0 { return P12_0::V4; } i -= 1;
        if i == 0 { return P12_0::V5; } i -= 1;
        if i == 0 { return P12_0::V6; } i -= 1;
        if i == 0 { return P12_0::V7; } i -= 1;
        if i == 0 { return P12_0::V8; } i -= 1;
        if i == 0 { return P12_0::V9; } i -= 1;
        if i == 0 { return P12_0::V10; } i -= 1;
        if i == 0 { return P12_0::V11; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P12_0::V0(x) => off(0, <bool as Dom>::idx(x)),
            P12_0::V1 => 0 + <bool as Dom>::N,
            P12_0::V2 => 1 + <bool as Dom>::N,
            P12_0::V3 => 2 + <bool as Dom>::N,
            P12_0::V4 => 3 + <bool as Dom>::N,
            P12_0::V5 => 4 + <bool as Dom>::N,
            P12_0::V6 => 5 + <bool as Dom>::N,
            P12_0::V7 => 6 + <bool as Dom>::N,
            P12_0::V8 => 7 + <bool as Dom>::N,
            P12_0::V9 => 8 + <bool as Dom>::N,
            P12_0::V10 => 9 + <bool as Dom>::N,
            P12_0::V11 => 10 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_59 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P12_8 { V0, V1, V2, V3, V4, V5, V6, V7, V8(bool), V9, V10, V11 }
impl Dom for P12_8 {
    const N: usize = 11 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P12_8::V0; } i -= 1;
        if i == 0 { return P12_8::V1; } i -= 1;
        if i == 0 { return P12_8::V2; } i -= 1;
        if i == 0 { return P12_8::V3; } i -= 1;
        if i == 0 { return P12_8::V4; } i -= 1;
        if i == 0 { return P12_8::V5; } i -= 1;
        if i == 0 { return P12_8::V6; } i -= 1;
        if i == 0 { return P12_8::V7; } i -= 1;
        if i < <bool as Dom>::N { return P12_8::V8(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P12_8::V9; } i -= 1;
        if i == 0 { return P12_8::V10; } i -= 1;
        if i == 0 { return P12_8::V11; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P12_8::V0 => 0,
            P12_8::V1 => 1,
            P12_8::V2 => 2,
            P12_8::V3 => 3,
            P12_8::V4 => 4,
            P12_8::V5 => 5,
            P12_8::V6 => 6,
            P12_8::V7 => 7,
            P12_8::V8(x) => off(8, <bool as Dom>::idx(x)),
            P12_8::V9 => 8 + <bool as Dom>::N,
            P12_8::V10 => 9 + <bool as Dom>::N,
            P12_8::V11 => 10 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_60 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N2 { V0, V1 }
impl Dom for N2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N2] = &[N2::V0, N2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N2::V0 => 0,
            N2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_61 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N6 { V0, V1, V2, V3, V4, V5 }
impl Dom for N6 {
    const N: usize = 6;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N6] = &[N6::V0, N6::V1, N6::V2, N6::V3, N6::V4, N6::V5];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N6::V0 => 0,
            N6::V1 => 1,
            N6::V2 => 2,
            N6::V3 => 3,
            N6::V4 => 4,
            N6::V5 => 5,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..6 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_62 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N10 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9 }
impl Dom for N10 {
    const N: usize = 10;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N10] = &[N10::V0, N10::V1, N10::V2, N10::V3, N10::V4, N10::V5, N10::V6, N10::V7, N10::V8, N10::V9];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N10::V0 => 0,
            N10::V1 => 1,
            N10::V2 => 2,
            N10::V3 => 3,
            N10::V4 => 4,
            N10::V5 => 5,
            N10::V6 => 6,
            N10::V7 => 7,
            N10::V8 => 8,
            N10::V9 => 9,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..10 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_63 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N14 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13 }
impl Dom for N14 {
    const N: usize = 14;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N14] = &[N14::V0, N14::V1, N14::V2, N14::V3, N14::V4, N14::V5, N14::V6, N14::V7, N14::V8, N14::V9, N14::V10, N14::V11, N14::V12, N14::V13];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N14::V0 => 0,
            N14::V1 => 1,
            N14::V2 => 2,
            N14::V3 => 3,
            N14::V4 => 4,
            N14::V5 => 5,
            N14::V6 => 6,
            N14::V7 => 7,
            N14::V8 => 8,
            N14::V9 => 9,
            N14::V10 => 10,
            N14::V11 => 11,
            N14::V12 => 12,
            N14::V13 => 13,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..14 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_64 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N18 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17 }
impl Dom for N18 {
    const N: usize = 18;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N18] = &[N18::V0, N18::V1, N18::V2, N18::V3, N18::V4, N18::V5, N18::V6, N18::V7, N18::V8, N18::V9, N18::V10, N18::V11, N18::V12, N18::V13, N18::V14, N18::V15, N18::V16, N18::V17];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N18::V0 => 0,
            N18::V1 => 1,
            N18::V2 => 2,
            N18::V3 => 3,
            N18::V4 => 4,
            N18::V5 => 5,
            N18::V6 => 6,
            N18::V7 => 7,
            N18::V8 => 8,
            N18::V9 => 9,
            N18::V10 => 10,
            N18::V11 => 11,
            N18::V12 => 12,
            N18::V13 => 13,
            N18::V14 => 14,
            N18::V15 => 15,
            N18::V16 => 16,
            N18::V17 => 17,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..18 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_65 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N22 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21 }
impl Dom for N22 {
    const N: usize = 22;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N22] = &[N22::V0, N22::V1, N22::V2, N22::V3, N22::V4, N22::V5, N22::V6, N22::V7, N22::V8, N22::V9, N22::V10, N22::V11, N22::V12, N22::V13, N22::V14, N22::V15, N22::V16, N22::V17, N22::V18, N22::V19, N22::V20, N22::V21];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N22::V0 => 0,
            N22::V1 => 1,
            N22::V2 => 2,
            N22::V3 => 3,
            N22::V4 => 4,
            N22::V5 => 5,
            N22::V6 => 6,
            N22::V7 => 7,
            N22::V8 => 8,
            N22::V9 => 9,
            N22::V10 => 10,
            N22::V11 => 11,
            N22::V12 => 12,
            N22::V13 => 13,
            N22::V14 => 14,
            N22::V15 => 15,
            N22::V16 => 16,
            N22::V17 => 17,
            N22::V18 => 18,
            N22::V19 => 19,
            N22::V20 => 20,
            N22::V21 => 21,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..22 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_66 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N26 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25 }
impl Dom for N26 {
    const N: usize = 26;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N26] = &[N26::V0, N26::V1, N26::V2, N26::V3, N26::V4, N26::V5, N26::V6, N26::V7, N26::V8, N26::V9, N26::V10, N26::V11, N26::V12, N26::V13, N26::V14, N26::V15, N26::V16, N26::V17, N26::V18, N26::V19, N26::V20, N26::V21, N26::V22, N26::V23, N26::V24, N26::V25];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N26::V0 => 0,
            N26::V1 => 1,
            N26::V2 => 2,
            N26::V3 => 3,
            N26::V4 => 4,
            N26::V5 => 5,
            N26::V6 => 6,
            N26::V7 => 7,
            N26::V8 => 8,
            N26::V9 => 9,
            N26::V10 => 10,
            N26::V11 => 11,
            N26::V12 => 12,
            N26::V13 => 13,
            N26::V14 => 14,
            N26::V15 => 15,
            N26::V16 => 16,
            N26::V17 => 17,
            N26::V18 => 18,
            N26::V19 => 19,
            N26::V20 => 20,
            N26::V21 => 21,
            N26::V22 => 22,
            N26::V23 => 23,
            N26::V24 => 24,
            N26::V25 => 25,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..26 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_67 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N30 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29 }
impl Dom for N30 {
    const N: usize = 30;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N30] = &[N30::V0, N30::V1, N30::V2, N30::V3, N30::V4, N30::V5, N30::V6, N30::V7, N30::V8, N30::V9, N30::V10, N30::V11, N30::V12, N30::V13, N30::V14, N30::V15, N30::V16, N30::V17, N30::V18, N30::V19, N30::V20, N30::V21, N30::V22, N30::V23, N30::V24, N30::V25, N30::V26, N30::V27, N30::V28, N30::V29];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N30::V0 => 0,
            N30::V1 => 1,
            N30::V2 => 2,
            N30::V3 => 3,
            N30::V4 => 4,
            N30::V5 => 5,
            N30::V6 => 6,
            N30::V7 => 7,
            N30::V8 => 8,
            N30::V9 => 9,
            N30::V10 => 10,
            N30::V11 => 11,
            N30::V12 => 12,
            N30::V13 => 13,
            N30::V14 => 14,
            N30::V15 => 15,
            N30::V16 => 16,
            N30::V17 => 17,
            N30::V18 => 18,
            N30::V19 => 19,
            N30::V20 => 20,
            N30::V21 => 21,
            N30::V22 => 22,
            N30::V23 => 23,
            N30::V24 => 24,
            N30::V25 => 25,
            N30::V26 => 26,
            N30::V27 => 27,
            N30::V28 => 28,
            N30::V29 => 29,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..30 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_68 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N34 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33 }
impl Dom for N34 {
    const N: usize = 34;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N34] = &[N34::V0, N34::V1, N34::V2, N34::V3, N34::V4, N34::V5, N34::V6, N34::V7, N34::V8, N34::V9, N34::V10, N34::V11, N34::V12, N34::V13, N34::V14, N34::V15, N34::V16, N34::V17, N34::V18, N34::V19, N34::V20, N34::V21, N34::V22, N34::V23, N34::V24, N34::V25, N34::V26, N34::V27, N34::V28, N34::V29, N34::V30, N34::V31, N34::V32, N34::V33];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N34::V0 => 0,
            N34::V1 => 1,
            N34::V2 => 2,
            N34::V3 => 3,
            N34::V4 => 4,
            N34::V5 => 5,
            N34::V6 => 6,
            N34::V7 => 7,
            N34::V8 => 8,
            N34::V9 => 9,
            N34::V10 => 10,
            N34::V11 => 11,
            N34::V12 => 12,
            N34::V13 => 13,
            N34::V14 => 14,
            N34::V15 => 15,
            N34::V16 => 16,
            N34::V17 => 17,
            N34::V18 => 18,
            N34::V19 => 19,
            N34::V20 => 20,
            N34::V21 => 21,
            N34::V22 => 22,
            N34::V23 => 23,
            N34::V24 => 24,
            N34::V25 => 25,
            N34::V26 => 26,
            N34::V27 => 27,
            N34::V28 => 28,
            N34::V29 => 29,
            N34::V30 => 30,
            N34::V31 => 31,
            N34::V32 => 32,
            N34::V33 => 33,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..34 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_69 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N38 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37 }
impl Dom for N38 {
    const N: usize = 38;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N38] = &[N38::V0, N38::V1, N38::V2, N38::V3, N38::V4, N38::V5, N38::V6, N38::V7, N38::V8, N38::V9, N38::V10, N38::V11, N38::V12, N38::V13, N38::V14, N38::V15, N38::V16, N38::V17, N38::V18, N38::V19, N38::V20, N38::V21, N38::V22, N38::V23, N38::V24, N38::V25, N38::V26, N38::V27, N38::V28, N38::V29, N38::V30, N38::V31, N38::V32, N38::V33, N38::V34, N38::V35, N38::V36, N38::V37];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N38::V0 => 0,
            N38::V1 => 1,
            N38::V2 => 2,
            N38::V3 => 3,
            N38::V4 => 4,
            N38::V5 => 5,
            N38::V6 => 6,
            N38::V7 => 7,
            N38::V8 => 8,
            N38::V9 => 9,
            N38::V10 => 10,
            N38::V11 => 11,
            N38::V12 => 12,
            N38::V13 => 13,
            N38::V14 => 14,
            N38::V15 => 15,
            N38::V16 => 16,
            N38::V17 => 17,
            N38::V18 => 18,
            N38::V19 => 19,
            N38::V20 => 20,
            N38::V21 => 21,
            N38::V22 => 22,
            N38::V23 => 23,
            N38::V24 => 24,
            N38::V25 => 25,
            N38::V26 => 26,
            N38::V27 => 27,
            N38::V28 => 28,
            N38::V29 => 29,
            N38::V30 => 30,
            N38::V31 => 31,
            N38::V32 => 32,
            N38::V33 => 33,
            N38::V34 => 34,
            N38::V35 => 35,
            N38::V36 => 36,
            N38::V37 => 37,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..38 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_70 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N42 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41 }
impl Dom for N42 {
    const N: usize = 42;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N42] = &[N42::V0, N42::V1, N42::V2, N42::V3, N42::V4, N42::V5, N42::V6, N42::V7, N42::V8, N42::V9, N42::V10, N42::V11, N42::V12, N42::V13, N42::V14, N42::V15, N42::V16, N42::V17, N42::V18, N42::V19, N42::V20, N42::V21, N42::V22, N42::V23, N42::V24, N42::V25, N42::V26, N42::V27, N42::V28, N42::V29, N42::V30, N42::V31, N42::V32, N42::V33, N42::V34, N42::V35, N42::V36, N42::V37, N42::V38, N42::V39, N42::V40, N42::V41];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N42::V0 => 0,
            N42::V1 => 1,
            N42::V2 => 2,
            N42::V3 => 3,
            N42::V4 => 4,
            N42::V5 => 5,
            N42::V6 => 6,
            N42::V7 => 7,
            N42::V8 => 8,
            N42::V9 => 9,
            N42::V10 => 10,
            N42::V11 => 11,
            N42::V12 => 12,
            N42::V13 => 13,
            N42::V14 => 14,
            N42::V15 => 15,
            N42::V16 => 16,
            N42::V17 => 17,
            N42::V18 => 18,
            N42::V19 => 19,
            N42::V20 => 20,
            N42::V21 => 21,
            N42::V22 => 22,
            N42::V23 => 23,
            N42::V24 => 24,
            N42::V25 => 25,
            N42::V26 => 26,
            N42::V27 => 27,
            N42::V28 => 28,
            N42::V29 => 29,
            N42::V30 => 30,
            N42::V31 => 31,
            N42::V32 => 32,
            N42::V33 => 33,
            N42::V34 => 34,
            N42::V35 => 35,
            N42::V36 => 36,
            N42::V37 => 37,
            N42::V38 => 38,
            N42::V39 => 39,
            N42::V40 => 40,
            N42::V41 => 41,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..42 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_71 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N46 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45 }
impl Dom for N46 {
    const N: usize = 46;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N46] = &[N46::V0, N46::V1, N46::V2, N46::V3, N46::V4, N46::V5, N46::V6, N46::V7, N46::V8, N46::V9, N46::V10, N46::V11, N46::V12, N46::V13, N46::V14, N46::V15, N46::V16, N46::V17, N46::V18, N46::V19, N46::V20, N46::V21, N46::V22, N46::V23, N46::V24, N46::V25, N46::V26, N46::V27, N46::V28, N46::V29, N46::V30, N46::V31, N46::V32, N46::V33, N46::V34, N46::V35, N46::V36, N46::V37, N46::V38, N46::V39, N46::V40, N46::V41, N46::V42, N46::V43, N46::V44, N46::V45];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N46::V0 => 0,
            N46::V1 => 1,
            N46::V2 => 2,
            N46::V3 => 3,
            N46::V4 => 4,
            N46::V5 => 5,
            N46::V6 => 6,
            N46::V7 => 7,
            N46::V8 => 8,
            N46::V9 => 9,
            N46::V10 => 10,
            N46::V11 => 11,
            N46::V12 => 12,
            N46::V13 => 13,
            N46::V14 => 14,
            N46::V15 => 15,
            N46::V16 => 16,
            N46::V17 => 17,
            N46::V18 => 18,
            N46::V19 => 19,
            N46::V20 => 20,
            N46::V21 => 21,
            N46::V22 => 22,
            N46::V23 => 23,
            N46::V24 => 24,
            N46::V25 => 25,
            N46::V26 => 26,
            N46::V27 => 27,
            N46::V28 => 28,
            N46::V29 => 29,
            N46::V30 => 30,
            N46::V31 => 31,
            N46::V32 => 32,
            N46::V33 => 33,
            N46::V34 => 34,
            N46::V35 => 35,
            N46::V36 => 36,
            N46::V37 => 37,
            N46::V38 => 38,
            N46::V39 => 39,
            N46::V40 => 40,
            N46::V41 => 41,
            N46::V42 => 42,
            N46::V43 => 43,
            N46::V44 => 44,
            N46::V45 => 45,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..46 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_72 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N50 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49 }
impl Dom for N50 {
    const N: usize = 50;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N50] = &[N50::V0, N50::V1, N50::V2, N50::V3, N50::V4, N50::V5, N50::V6, N50::V7, N50::V8, N50::V9, N50::V10, N50::V11, N50::V12, N50::V13, N50::V14, N50::V15, N50::V16, N50::V17, N50::V18, N50::V19, N50::V20, N50::V21, N50::V22, N50::V23, N50::V24, N50::V25, N50::V26, N50::V27, N50::V28, N50::V29, N50::V30, N50::V31, N50::V32, N50::V33, N50::V34, N50::V35, N50::V36, N50::V37, N50::V38, N50::V39, N50::V40, N50::V41, N50::V42, N50::V43, N50::V44, N50::V45, N50::V46, N50::V47, N50::V48, N50::V49];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N50::V0 => 0,
            N50::V1 => 1,
            N50::V2 => 2,
            N50::V3 => 3,
            N50::V4 => 4,
            N50::V5 => 5,
            N50::V6 => 6,
            N50::V7 => 7,
            N50::V8 => 8,
            N50::V9 => 9,
            N50::V10 => 10,
            N50::V11 => 11,
            N50::V12 => 12,
            N50::V13 => 13,
            N50::V14 => 14,
            N50::V15 => 15,
            N50::V16 => 16,
            N50::V17 => 17,
            N50::V18 => 18,
            N50::V19 => 19,
            N50::V20 => 20,
            N50::V21 => 21,
            N50::V22 => 22,
            N50::V23 => 23,
            N50::V24 => 24,
            N50::V25 => 25,
            N50::V26 => 26,
            N50::V27 => 27,
            N50::V28 => 28,
            N50::V29 => 29,
            N50::V30 => 30,
            N50::V31 => 31,
            N50::V32 => 32,
            N50::V33 => 33,
            N50::V34 => 34,
            N50::V35 => 35,
            N50::V36 => 36,
            N50::V37 => 37,
            N50::V38 => 38,
            N50::V39 => 39,
            N50::V40 => 40,
            N50::V41 => 41,
            N50::V42 => 42,
            N50::V43 => 43,
            N50::V44 => 44,
            N50::V45 => 45,
            N50::V46 => 46,
            N50::V47 => 47,
            N50::V48 => 48,
            N50::V49 => 49,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..50 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_73 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N54 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53 }
impl Dom for N54 {
    const N: usize = 54;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N54] = &[N54::V0, N54::V1, N54::V2, N54::V3, N54::V4, N54::V5, N54::V6, N54::V7, N54::V8, N54::V9, N54::V10, N54::V11, N54::V12, N54::V13, N54::V14, N54::V15, N54::V16, N54::V17, N54::V18, N54::V19, N54::V20, N54::V21, N54::V22, N54::V23, N54::V24, N54::V25, N54::V26, N54::V27, N54::V28, N54::V29, N54::V30, N54::V31, N54::V32, N54::V33, N54::V34, N54::V35, N54::V36, N54::V37, N54::V38, N54::V39, N54::V40, N54::V41, N54::V42, N54::V43, N54::V44, N54::V45, N54::V46, N54::V47, N54::V48, N54::V49, N54::V50, N54::V51, N54::V52, N54::V53];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N54::V0 => 0,
            N54::V1 => 1,
            N54::V2 => 2,
            N54::V3 => 3,
            N54::V4 => 4,
            N54::V5 => 5,
            N54::V6 => 6,
            N54::V7 => 7,
            N54::V8 => 8,
            N54::V9 => 9,
            N54::V10 => 10,
            N54::V11 => 11,
            N54::V12 => 12,
            N54::V13 => 13,
            N54::V14 => 14,
            N54::V15 => 15,
            N54::V16 => 16,
            N54::V17 => 17,
            N54::V18 => 18,
            N54::V19 => 19,
            N54::V20 => 20,
            N54::V21 => 21,
            N54::V22 => 22,
            N54::V23 => 23,
            N54::V24 => 24,
            N54::V25 => 25,
            N54::V26 => 26,
            N54::V27 => 27,
            N54::V28 => 28,
            N54::V29 => 29,
            N54::V30 => 30,
            N54::V31 => 31,
            N54::V32 => 32,
            N54::V33 => 33,
            N54::V34 => 34,
            N54::V35 => 35,
            N54::V36 => 36,
            N54::V37 => 37,
            N54::V38 => 38,
            N54::V39 => 39,
            N54::V40 => 40,
            N54::V41 => 41,
            N54::V42 => 42,
            N54::V43 => 43,
            N54::V44 => 44,
            N54::V45 => 45,
            N54::V46 => 46,
            N54::V47 => 47,
            N54::V48 => 48,
            N54::V49 => 49,
            N54::V50 => 50,
            N54::V51 => 51,
            N54::V52 => 52,
            N54::V53 => 53,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..54 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_74 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N58 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57 }
impl Dom for N58 {
    const N: usize = 58;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N58] = &[N58::V0, N58::V1, N58::V2, N58::V3, N58::V4, N58::V5, N58::V6, N58::V7, N58::V8, N58::V9, N58::V10, N58::V11, N58::V12, N58::V13, N58::V14, N58::V15, N58::V16, N58::V17, N58::V18, N58::V19, N58::V20, N58::V21, N58::V22, N58::V23, N58::V24, N58::V25, N58::V26, N58::V27, N58::V28, N58::V29, N58::V30, N58::V31, N58::V32, N58::V33, N58::V34, N58::V35, N58::V36, N58::V37, N58::V38, N58::V39, N58::V40, N58::V41, N58::V42, N58::V43, N58::V44, N58::V45, N58::V46, N58::V47, N58::V48, N58::V49, N58::V50, N58::V51, N58::V52, N58::V53, N58::V54, N58::V55, N58::V56, N58::V57];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N58::V0 => 0,
            N58::V1 => 1,
            N58::V2 => 2,
            N58::V3 => 3,
            N58::V4 => 4,
            N58::V5 => 5,
            N58::V6 => 6,
            N58::V7 => 7,
            N58::V8 => 8,
            N58::V9 => 9,
            N58::V10 => 10,
            N58::V11 => 11,
            N58::V12 => 12,
            N58::V13 => 13,
            N58::V14 => 14,
            N58::V15 => 15,
            N58::V16 => 16,
            N58::V17 => 17,
            N58::V18 => 18,
            N58::V19 => 19,
            N58::V20 => 20,
            N58::V21 => 21,
            N58::V22 => 22,
            N58::V23 => 23,
            N58::V24 => 24,
            N58::V25 => 25,
            N58::V26 => 26,
            N58::V27 => 27,
            N58::V28 => 28,
            N58::V29 => 29,
            N58::V30 => 30,
            N58::V31 => 31,
            N58::V32 => 32,
            N58::V33 => 33,
            N58::V34 => 34,
            N58::V35 => 35,
            N58::V36 => 36,
            N58::V37 => 37,
            N58::V38 => 38,
            N58::V39 => 39,
            N58::V40 => 40,
            N58::V41 => 41,
            N58::V42 => 42,
            N58::V43 => 43,
            N58::V44 => 44,
            N58::V45 => 45,
            N58::V46 => 46,
            N58::V47 => 47,
            N58::V48 => 48,
            N58::V49 => 49,
            N58::V50 => 50,
            N58::V51 => 51,
            N58::V52 => 52,
            N58::V53 => 53,
            N58::V54 => 54,
            N58::V55 => 55,
            N58::V56 => 56,
            N58::V57 => 57,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..58 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_75 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N62 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61 }
impl Dom for N62 {
    const N: usize = 62;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N62] = &[N62::V0, N62::V1, N62::V2, N62::V3, N62::V4, N62::V5, N62::V6, N62::V7, N62::V8, N62::V9, N62::V10, N62::V11, N62::V12, N62::V13, N62::V14, N62::V15, N62::V16, N62::V17, N62::V18, N62::V19, N62::V20, N62::V21, N62::V22, N62::V23, N62::V24, N62::V25, N62::V26, N62::V27, N62::V28, N62::V29, N62::V30, N62::V31, N62::V32, N62::V33, N62::V34, N62::V35, N62::V36, N62::V37, N62::V38, N62::V39, N62::V40, N62::V41, N62::V42, N62::V43, N62::V44, N62::V45, N62::V46, N62::V47, N62::V48, N62::V49, N62::V50, N62::V51, N62::V52, N62::V53, N62::V54, N62::V55, N62::V56, N62::V57, N62::V58, N62::V59, N62::V60, N62::V61];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N62::V0 => 0,
            N62::V1 => 1,
            N62::V2 => 2,
            N62::V3 => 3,
            N62::V4 => 4,
            N62::V5 => 5,
            N62::V6 => 6,
            N62::V7 => 7,
            N62::V8 => 8,
            N62::V9 => 9,
            N62::V10 => 10,
            N62::V11 => 11,
            N62::V12 => 12,
            N62::V13 => 13,
            N62::V14 => 14,
            N62::V15 => 15,
            N62::V16 => 16,
            N62::V17 => 17,
            N62::V18 => 18,
            N62::V19 => 19,
            N62::V20 => 20,
            N62::V21 => 21,
            N62::V22 => 22,
            N62::V23 => 23,
            N62::V24 => 24,
            N62::V25 => 25,
            N62::V26 => 26,
            N62::V27 => 27,
            N62::V28 => 28,
            N62::V29 => 29,
            N62::V30 => 30,
            N62::V31 => 31,
            N62::V32 => 32,
            N62::V33 => 33,
            N62::V34 => 34,
            N62::V35 => 35,
            N62::V36 => 36,
            N62::V37 => 37,
            N62::V38 => 38,
            N62::V39 => 39,
            N62::V40 => 40,
            N62::V41 => 41,
            N62::V42 => 42,
            N62::V43 => 43,
            N62::V44 => 44,
            N62::V45 => 45,
            N62::V46 => 46,
            N62::V47 => 47,
            N62::V48 => 48,
            N62::V49 => 49,
            N62::V50 => 50,
            N62::V51 => 51,
            N62::V52 => 52,
            N62::V53 => 53,
            N62::V54 => 54,
            N62::V55 => 55,
            N62::V56 => 56,
            N62::V57 => 57,
            N62::V58 => 58,
            N62::V59 => 59,
            N62::V60 => 60,
            N62::V61 => 61,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..62 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_76 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N66 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65 }
impl Dom for N66 {
    const N: usize = 66;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N66] = &[N66::V0, N66::V1, N66::V2, N66::V3, N66::V4, N66::V5, N66::V6, N66::V7, N66::V8, N66::V9, N66::V10, N66::V11, N66::V12, N66::V13, N66::V14, N66::V15, N66::V16, N66::V17, N66::V18, N66::V19, N66::V20, N66::V21, N66::V22, N66::V23, N66::V24, N66::V25, N66::V26, N66::V27, N66::V28, N66::V29, N66::V30, N66::V31, N66::V32, N66::V33, N66::V34, N66::V35, N66::V36, N66::V37, N66::V38, N66::V39, N66::V40, N66::V41, N66::V42, N66::V43, N66::V44, N66::V45, N66::V46, N66::V47, N66::V48, N66::V49, N66::V50, N66::V51, N66::V52, N66::V53, N66::V54, N66::V55, N66::V56, N66::V57, N66::V58, N66::V59, N66::V60, N66::V61, N66::V62, N66::V63, N66::V64, N66::V65];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N66::V0 => 0,
            N66::V1 => 1,
            N66::V2 => 2,
            N66::V3 => 3,
            N66::V4 => 4,
            N66::V5 => 5,
            N66::V6 => 6,
            N66::V7 => 7,
            N66::V8 => 8,
            N66::V9 => 9,
            N66::V10 => 10,
            N66::V11 => 11,
            N66::V12 => 12,
            N66::V13 => 13,
            N66::V14 => 14,
            N66::V15 => 15,
            N66::V16 => 16,
            N66::V17 => 17,
            N66::V18 => 18,
            N66::V19 => 19,
            N66::V20 => 20,
            N66::V21 => 21,
            N66::V22 => 22,
            N66::V23 => 23,
            N66::V24 => 24,
            N66::V25 => 25,
            N66::V26 => 26,
            N66::V27 => 27,
            N66::V28 => 28,
            N66::V29 => 29,
            N66::V30 => 30,
            N66::V31 => 31,
            N66::V32 => 32,
            N66::V33 => 33,
            N66::V34 => 34,
            N66::V35 => 35,
            N66::V36 => 36,
            N66::V37 => 37,
            N66::V38 => 38,
            N66::V39 => 39,
            N66::V40 => 40,
            N66::V41 => 41,
            N66::V42 => 42,
            N66::V43 => 43,
            N66::V44 => 44,
            N66::V45 => 45,
            N66::V46 => 46,
            N66::V47 => 47,
            N66::V48 => 48,
            N66::V49 => 49,
            N66::V50 => 50,
            N66::V51 => 51,
            N66::V52 => 52,
            N66::V53 => 53,
            N66::V54 => 54,
            N66::V55 => 55,
            N66::V56 => 56,
            N66::V57 => 57,
            N66::V58 => 58,
            N66::V59 => 59,
            N66::V60 => 60,
            N66::V61 => 61,
            N66::V62 => 62,
            N66::V63 => 63,
            N66::V64 => 64,
            N66::V65 => 65,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..66 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_77 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N97 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96 }
impl Dom for N97 {
    const N: usize = 97;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N97] = &[N97::V0, N97::V1, N97::V2, N97::V3, N97::V4, N97::V5, N97::V6, N97::V7, N97::V8, N97::V9, N97::V10, N97::V11, N97::V12, N97::V13, N97::V14, N97::V15, N97::V16, N97::V17, N97::V18, N97::V19, N97::V20, N97::V21, N97::V22, N97::V23, N97::V24, N97::V25, N97::V26, N97::V27, N97::V28, N97::V29, N97::V30, N97::V31, N97::V32, N97::V33, N97::V34, N97::V35, N97::V36, N97::V37, N97::V38, N97::V39, N97::V40, N97::V41, N97::V42, N97::V43, N97::V44, N97::V45, N97::V46, N97::V47, N97::V48, N97::V49, N97::V50, N97::V51, N97::V52, N97::V53, N97::V54, N97::V55, N97::V56, N97::V57, N97::V58, N97::V59, N97::V60, N97::V61, N97::V62, N97::V63, N97::V64, N97::V65, N97::V66, N97::V67, N97::V68, N97::V69, N97::V70, N97::V71, N97::V72, N97::V73, N97::V74, N97::V75, N97::V76, N97::V77, N97::V78, N97::V79, N97::V80, N97::V81, N97::V82, N97::V83, N97::V84, N97::V85, N97::V86, N97::V87, N97::V88, N97::V89, N97::V90, N97::V91, N97::V92, N97::V93, N97::V94, N97::V95, N97::V96];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N97::V0 => 0,
            N97::V1 => 1,
            N97::V2 => 2,
            N97::V3 => 3,
            N97::V4 => 4,
            N97::V5 => 5,
            N97::V6 => 6,
            N97::V7 => 7,
            N97::V8 => 8,
            N97::V9 => 9,
            N97::V10 => 10,
            N97::V11 => 11,
            N97::V12 => 12,
            N97::V13 => 13,
            N97::V14 => 14,
            N97::V15 => 15,
            N97::V16 => 16,
            N97::V17 => 17,
            N97::V18 => 18,
            N97::V19 => 19,
            N97::V20 => 20,
            N97::V21 => 21,
            N97::V22 => 22,
            N97::V23 => 23,
            N97::V24 => 24,
            N97::V25 => 25,
            N97::V26 => 26,
            N97::V27 => 27,
            N97::V28 => 28,
            N97::V29 => 29,
            N97::V30 => 30,
            N97::V31 => 31,
            N97::V32 => 32,
            N97::V33 => 33,
            N97::V34 => 34,
            N97::V35 => 35,
            N97::V36 => 36,
            N97::V37 => 37,
            N97::V38 => 38,
            N97::V39 => 39,
            N97::V40 => 40,
            N97::V41 => 41,
            N97::V42 => 42,
            N97::V43 => 43,
            N97::V44 => 44,
            N97::V45 => 45,
            N97::V46 => 46,
            N97::V47 => 47,
            N97::V48 => 48,
            N97::V49 => 49,
            N97::V50 => 50,
            N97::V51 => 51,
            N97::V52 => 52,
            N97::V53 => 53,
            N97::V54 => 54,
            N97::V55 => 55,
            N97::V56 => 56,
            N97::V57 => 57,
            N97::V58 => 58,
            N97::V59 => 59,
            N97::V60 => 60,
            N97::V61 => 61,
            N97::V62 => 62,
            N97::V63 => 63,
            N97::V64 => 64,
            N97::V65 => 65,
            N97::V66 => 66,
            N97::V67 => 67,
            N97::V68 => 68,
            N97::V69 => 69,
            N97::V70 => 70,
            N97::V71 => 71,
            N97::V72 => 72,
            N97::V73 => 73,
            N97::V74 => 74,
            N97::V75 => 75,
            N97::V76 => 76,
            N97::V77 => 77,
            N97::V78 => 78,
            N97::V79 => 79,
            N97::V80 => 80,
            N97::V81 => 81,
            N97::V82 => 82,
            N97::V83 => 83,
            N97::V84 => 84,
            N97::V85 => 85,
            N97::V86 => 86,
            N97::V87 => 87,
            N97::V88 => 88,
            N97::V89 => 89,
            N97::V90 => 90,
            N97::V91 => 91,
            N97::V92 => 92,
            N97::V93 => 93,
            N97::V94 => 94,
            N97::V95 => 95,
            N97::V96 => 96,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..97 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_78 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N129 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128 }
impl Dom for N129 {
    const N: usize = 129;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N129] = &[N129::V0, N129::V1, N129::V2, N129::V3, N129::V4, N129::V5, N129::V6, N129::V7, N129::V8, N129::V9, N129::V10, N129::V11, N129::V12, N129::V13, N129::V14, N129::V15, N129::V16, N129::V17, N129::V18, N129::V19, N129::V20, N129::V21, N129::V22, N129::V23, N129::V24, N129::V25, N129::V26, N129::V27, N129::V28, N129::V29, N129::V30, N129::V31, N129::V32, N129::V33, N129::V34, N129::V35, N129::V36, N129::V37, N129::V38, N129::V39, N129::V40, N129::V41, N129::V42, N129::V43, N129::V44, N129::V45, N129::V46, N129::V47, N129::V48, N129::V49, N129::V50, N129::V51, N129::V52, N129::V53, N129::V54, N129::V55, N129::V56, N129::V57, N129::V58, N129::V59, N129::V60, N129::V61, N129::V62, N129::V63, N129::V64, N129::V65, N129::V66, N129::V67, N129::V68, N129::V69, N129::V70, N129::V71, N129::V72, N129::V73, N129::V74, N129::V75, N129::V76, N129::V77, N129::V78, N129::V79, N129::V80, N129::V81, N129::V82, N129::V83, N129::V84, N129::V85, N129::V86, N129::V87, N129::V88, N129::V89, N129::V90, N129::V91, N129::V92, N129::V93, N129::V94, N129::V95, N129::V96, N129::V97, N129::V98, N129::V99, N129::V100, N129::V101, N129::V102, N129::V103, N129::V104, N129::V105, N129::V106, N129::V107, N129::V108, N129::V109, N129::V110, N129::V111, N129::V112, N129::V113, N129::V114, N129::V115, N129::V116, N129::V117, N129::V118, N129::V119, N129::V120, N129::V121, N129::V122, N129::V123, N129::V124, N129::V125, N129::V126, N129::V127, N129::V128];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N129::V0 => 0,
            N129::V1 => 1,
            N129::V2 => 2,
            N129::V3 => 3,
            N129::V4 => 4,
            N129::V5 => 5,
            N129::V6 => 6,
            N129::V7 => 7,
            N129::V8 => 8,
            N129::V9 => 9,
            N129::V10 => 10,
            N129::V11 => 11,
            N129::V12 => 12,
            N129::V13 => 13,
            N129::V14 => 14,
            N129::V15 => 15,
            N129::V16 => 16,
            N129::V17 => 17,
            N129::V18 => 18,
            N129::V19 => 19,
            N129::V20 => 20,
            N129::V21 => 21,
            N129::V22 => 22,
            N129::V23 => 23,
            N129::V24 => 24,
            N129::V25 => 25,
            N129::V26 => 26,
            N129::V27 => 27,
            N129::V28 => 28,
            N129::V29 => 29,
            N129::V30 => 30,
            N129::V31 => 31,
            N129::V32 => 32,
            N129::V33 => 33,
            N129::V34 => 34,
            N129::V35 => 35,
            N129::V36 => 36,
            N129::V37 => 37,
            N129::V38 => 38,
            N129::V39 => 39,
            N129::V40 => 40,
            N129::V41 => 41,
            N129::V42 => 42,
            N129::V43 => 43,
            N129::V44 => 44,
            N129::V45 => 45,
            N129::V46 => 46,
            N129::V47 => 47,
            N129::V48 => 48,
            N129::V49 => 49,
            N129::V50 => 50,
            N129::V51 => 51,
            N129::V52 => 52,
            N129::V53 => 53,
            N129::V54 => 54,
            N129::V55 => 55,
            N129::V56 => 56,
            N129::V57 => 57,
            N129::V58 => 58,
            N129::V59 => 59,
            N129::V60 => 60,
            N129::V61 => 61,
            N129::V62 => 62,
            N129::V63 => 63,
            N129::V64 => 64,
            N129::V65 => 65,
            N129::V66 => 66,
            N129::V67 => 67,
            N129::V68 => 68,
            N129::V69 => 69,
            N129::V70 => 70,
            N129::V71 => 71,
            N129::V72 => 72,
            N129::V73 => 73,
            N129::V74 => 74,
            N129::V75 => 75,
            N129::V76 => 76,
            N129::V77 => 77,
            N129::V78 => 78,
            N129::V79 => 79,
            N129::V80 => 80,
            N129::V81 => 81,
            N129::V82 => 82,
            N129::V83 => 83,
            N129::V84 => 84,
            N129::V85 => 85,
            N129::V86 => 86,
            N129::V87 => 87,
            N129::V88 => 88,
            N129::V89 => 89,
            N129::V90 => 90,
            N129::V91 => 91,
            N129::V92 => 92,
            N129::V93 => 93,
            N129::V94 => 94,
            N129::V95 => 95,
            N129::V96 => 96,
            N129::V97 => 97,
            N129::V98 => 98,
            N129::V99 => 99,
            N129::V100 => 100,
            N129::V101 => 101,
            N129::V102 => 102,
            N129::V103 => 103,
            N129::V104 => 104,
            N129::V105 => 105,
            N129::V106 => 106,
            N129::V107 => 107,
            N129::V108 => 108,
            N129::V109 => 109,
            N129::V110 => 110,
            N129::V111 => 111,
            N129::V112 => 112,
            N129::V113 => 113,
            N129::V114 => 114,
            N129::V115 => 115,
            N129::V116 => 116,
            N129::V117 => 117,
            N129::V118 => 118,
            N129::V119 => 119,
            N129::V120 => 120,
            N129::V121 => 121,
            N129::V122 => 122,
            N129::V123 => 123,
            N129::V124 => 124,
            N129::V125 => 125,
            N129::V126 => 126,
            N129::V127 => 127,
            N129::V128 => 128,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..129 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_79 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N258 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257 }
impl Dom for N258 {
    const N: usize = 258;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N258] = &[N258::V0, N258::V1, N258::V2, N258::V3, N258::V4, N258::V5, N258::V6, N258::V7, N258::V8, N258::V9, N258::V10, N258::V11, N258::V12, N258::V13, N258::V14, N258::V15, N258::V16, N258::V17, N258::V18, N258::V19, N258::V20, N258::V21, N258::V22, N258::V23, N258::V24, N258::V25, N258::V26, N258::V27, N258::V28, N258::V29, N258::V30, N258::V31, N258::V32, N258::V33, N258::V34, N258::V35, N258::V36, N258::V37, N258::V38, N258::V39, N258::V40, N258::V41, N258::V42, N258::V43, N258::V44, N258::V45, N258::V46, N258::V47, N258::V48, N258::V49, N258::V50, N258::V51, N258::V52, N258::V53, N258::V54, N258::V55, N258::V56, N258::V57, N258::V58, N258::V59, N258::V60, N258::V61, N258::V62, N258::V63, N258::V64, N258::V65, N258::V66, N258::V67, N258::V68, N258::V69, N258::V70, N258::V71, N258::V72, N258::V73, N258::V74, N258::V75, N258::V76, N258::V77, N258::V78, N258::V79, N258::V80, N258::V81, N258::V82, N258::V83, N258::V84, N258::V85, N258::V86, N258::V87, N258::V88, N258::V89, N258::V90, N258::V91, N258::V92, N258::V93, N258::V94, N258::V95, N258::V96, N258::V97, N258::V98, N258::V99, N258::V100, N258::V101, N258::V102, N258::V103, N258::V104, N258::V105, N258::V106, N258::V107, N258::V108, N258::V109, N258::V110, N258::V111, N258::V112, N258::V113, N258::V114, N258::V115, N258::V116, N258::V117, N258::V118, N258::V119, N258::V120, N258::V121, N258::V122, N258::V123, N258::V124, N258::V125, N258::V126, N258::V127, N258::V128, N258::V129, N258::V130, N258::V131, N258::V132, N258::V133, N258::V134, N258::V135, N258::V136, N258::V137, N258::V138, N258::V139, N258::V140, N258::V141, N258::V142, N258::V143, N258::V144, N258::V145, N258::V146, N258::V147, N258::V148, N258::V149, N258::V150, N258::V151, N258::V152, N258::V153, N258::V154, N258::V155, N258::V156, N258::V157, N258::V158, N258::V159, N258::V160, N258::V161, N258::V162, N258::V163, N258::V164, N258::V165, N258::V166, N258::V167, N258::V168, N258::V169, N258::V170, N258::V171, N258::V172, N258::V173, N258::V174, N258::V175, N258::V176, N258::V177, N258::V178, N258::V179, N258::V180, N258::V181, N258::V182, N258::V183, N258::V184, N258::V185, N258::V186, N258::V187, N258::V188, N258::V189, N258::V190, N258::V191, N258::V192, N258::V193, N258::V194, N258::V195, N258::V196, N258::V197, N258::V198, N258::V199, N258::V200, N258::V201, N258::V202, N258::V203, N258::V204, N258::V205, N258::V206, N258::V207, N258::V208, N258::V209, N258::V210, N258::V211, N258::V212, N258::V213, N258::V214, N258::V215, N258::V216, N258::V217, N258::V218, N258::V219, N258::V220, N258::V221, N258::V222, N258::V223, N258::V224, N258::V225, N258::V226, N258::V227, N258::V228, N258::V229, N258::V230, N258::V231, N258::V232, N258::V233, N258::V234, N258::V235, N258::V236, N258::V237, N258::V238, N258::V239, N258::V240, N258::V241, N258::V242, N258::V243, N258::V244, N258::V245, N258::V246, N258::V247, N258::V248, N258::V249, N258::V250, N258::V251, N258::V252, N258::V253, N258::V254, N258::V255, N258::V256, N258::V257];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N258::V0 => 0,
            N258::V1 => 1,
            N258::V2 => 2,
            N258::V3 => 3,
            N258::V4 => 4,
            N258::V5 => 5,
            N258::V6 => 6,
            N258::V7 => 7,
            N258::V8 => 8,
            N258::V9 => 9,
            N258::V10 => 10,
            N258::V11 => 11,
            N258::V12 => 12,
            N258::V13 => 13,
            N258::V14 => 14,
            N258::V15 => 15,
            N258::V16 => 16,
            N258::V17 => 17,
            N258::V18 => 18,
            N258::V19 => 19,
            N258::V20 => 20,
            N258::V21 => 21,
            N258::V22 => 22,
            N258::V23 => 23,
            N258::V24 => 24,
            N258::V25 => 25,
            N258::V26 => 26,
            N258::V27 => 27,
            N258::V28 => 28,
            N258::V29 => 29,
            N258::V30 => 30,
            N258::V31 => 31,
            N258::V32 => 32,
            N258::V33 => 33,
            N258::V34 => 34,
            N258::V35 => 35,
            N258::V36 => 36,
            N258::V37 => 37,
            N258::V38 => 38,
            N258::V39 => 39,
            N258::V40 => 40,
            N258::V41 => 41,
            N258::V42 => 42,
            N258::V43 => 43,
            N258::V44 => 44,
            N258::V45 => 45,
            N258::V46 => 46,
            N258::V47 => 47,
            N258::V48 => 48,
            N258::V49 => 49,
            N258::V50 => 50,
            N258::V51 => 51,
            N258::V52 => 52,
            N258::V53 => 53,
            N258::V54 => 54,
            N258::V55 => 55,
            N258::V56 => 56,
            N258::V57 => 57,
            N258::V58 => 58,
            N258::V59 => 59,
            N258::V60 => 60,
            N258::V61 => 61,
            N258::V62 => 62,
            N258::V63 => 63,
            N258::V64 => 64,
            N258::V65 => 65,
            N258::V66 => 66,
            N258::V67 => 67,
            N258::V68 => 68,
            N258::V69 => 69,
            N258::V70 => 70,
            N258::V71 => 71,
            N258::V72 => 72,
            N258::V73 => 73,
            N258::V74 => 74,
            N258::V75 => 75,
            N258::V76 => 76,
            N258::V77 => 77,
            N258::V78 => 78,
            N258::V79 => 79,
            N258::V80 => 80,
            N258::V81 => 81,
            N258::V82 => 82,
            N258::V83 => 83,
            N258::V84 => 84,
            N258::V85 => 85,
            N258::V86 => 86,
            N258::V87 => 87,
            N258::V88 => 88,
            N258::V89 => 89,
            N258::V90 => 90,
            N258::V91 => 91,
            N258::V92 => 92,
            N258::V93 => 93,
            N258::V94 => 94,
            N258::V95 => 95,
            N258::V96 => 96,
            N258::V97 => 97,
            N258::V98 => 98,
            N258::V99 => 99,
            N258::V100 => 100,
            N258::V101 => 101,
            N258::V102 => 102,
            N258::V103 => 103,
            N258::V104 => 104,
            N258::V105 => 105,
            N258::V106 => 106,
            N258::V107 => 107,
            N258::V108 => 108,
            N258::V109 => 109,
            N258::V110 => 110,
            N258::V111 => 111,
            N258::V112 => 112,
            N258::V113 => 113,
            N258::V114 => 114,
            N258::V115 => 115,
            N258::V116 => 116,
            N258::V117 => 117,
            N258::V118 => 118,
            N258::V119 => 119,
            N258::V120 => 120,
            N258::V121 => 121,
            N258::V122 => 122,
            N258::V123 => 123,
            N258::V124 => 124,
            N258::V125 => 125,
            N258::V126 => 126,
            N258::V127 => 127,
            N258::V128 => 128,
            N258::V129 => 129,
            N258::V130 => 130,
            N258::V131 => 131,
            N258::V132 => 132,
            N258::V133 => 133,
            N258::V134 => 134,
            N258::V135 => 135,
            N258::V136 => 136,
            N258::V137 => 137,
            N258::V138 => 138,
            N258::V139 => 139,
            N258::V140 => 140,
            N258::V141 => 141,
            N258::V142 => 142,
            N258::V143 => 143,
            N258::V144 => 144,
            N258::V145 => 145,
            N258::V146 => 146,
            N258::V147 => 147,
            N258::V148 => 148,
            N258::V149 => 149,
            N258::V150 => 150,
            N258::V151 => 151,
            N258::V152 => 152,
            N258::V153 => 153,
            N258::V154 => 154,
            N258::V155 => 155,
            N258::V156 => 156,
            N258::V157 => 157,
            N258::V158 => 158,
            N258::V159 => 159,
            N258::V160 => 160,
            N258::V161 => 161,
            N258::V162 => 162,
            N258::V163 => 163,
            N258::V164 => 164,
            N258::V165 => 165,
            N258::V166 => 166,
            N258::V167 => 167,
            N258::V168 => 168,
            N258::V169 => 169,
            N258::V170 => 170,
            N258::V171 => 171,
            N258::V172 => 172,
            N258::V173 => 173,
            N258::V174 => 174,
            N258::V175 => 175,
            N258::V176 => 176,
            N258::V177 => 177,
            N258::V178 => 178,
            N258::V179 => 179,
            N258::V180 => 180,
            N258::V181 => 181,
            N258::V182 => 182,
            N258::V183 => 183,
            N258::V184 => 184,
            N258::V185 => 185,
            N258::V186 => 186,
            N258::V187 => 187,
            N258::V188 => 188,
            N258::V189 => 189,
            N258::V190 => 190,
            N258::V191 => 191,
            N258::V192 => 192,
            N258::V193 => 193,
            N258::V194 => 194,
            N258::V195 => 195,
            N258::V196 => 196,
            N258::V197 => 197,
            N258::V198 => 198,
            N258::V199 => 199,
            N258::V200 => 200,
            N258::V201 => 201,
            N258::V202 => 202,
            N258::V203 => 203,
            N258::V204 => 204,
            N258::V205 => 205,
            N258::V206 => 206,
            N258::V207 => 207,
            N258::V208 => 208,
            N258::V209 => 209,
            N258::V210 => 210,
            N258::V211 => 211,
            N258::V212 => 212,
            N258::V213 => 213,
            N258::V214 => 214,
            N258::V215 => 215,
            N258::V216 => 216,
            N258::V217 => 217,
            N258::V218 => 218,
            N258::V219 => 219,
            N258::V220 => 220,
            N258::V221 => 221,
            N258::V222 => 222,
            N258::V223 => 223,
            N258::V224 => 224,
            N258::V225 => 225,
            N258::V226 => 226,
            N258::V227 => 227,
            N258::V228 => 228,
            N258::V229 => 229,
            N258::V230 => 230,
            N258::V231 => 231,
            N258::V232 => 232,
            N258::V233 => 233,
            N258::V234 => 234,
            N258::V235 => 235,
            N258::V236 => 236,
            N258::V237 => 237,
            N258::V238 => 238,
            N258::V239 => 239,
            N258::V240 => 240,
            N258::V241 => 241,
            N258::V242 => 242,
            N258::V243 => 243,
            N258::V244 => 244,
            N258::V245 => 245,
            N258::V246 => 246,
            N258::V247 => 247,
            N258::V248 => 248,
            N258::V249 => 249,
            N258::V250 => 250,
            N258::V251 => 251,
            N258::V252 => 252,
            N258::V253 => 253,
            N258::V254 => 254,
            N258::V255 => 255,
            N258::V256 => 256,
            N258::V257 => 257,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..258 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_80 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum AllO { V0(Option<Option<bool>>), V1(Option<Option<bool>>), V2(Option<Option<bool>>), V3(Option<Option<bool>>), V4(Option<Option<bool>>), V5(Option<Option<bool>>), V6(Option<Option<bool>>), V7(Option<Option<bool>>), V8(Option<Option<bool>>), V9(Option<Option<bool>>), V10(Option<Option<bool>>), V11(Option<Option<bool>>) }
impl Dom for AllO {
    const N: usize = 0 + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N;
    const STATIC: bool = true && <Option<Option<bool>> as Dom>::STATIC && <Option<Option<bool>> as Dom>::STATIC && <Option<Option<bool>> as Dom>::STATIC && <Option<Option<bool>> as Dom>::STATIC && <Option<Option<bool>> as Dom>::STATIC && <Option<Option<bool>> as Dom>::STATIC && <Option<Option<bool>> as Dom>::STATIC && <Option<Option<bool>> as Dom>::STATIC && <Option<Option<bool>> as Dom>::STATIC && <Option<Option<bool>> as Dom>::STATIC && <Option<Option<bool>> as Dom>::STATIC && <Option<Option<bool>> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<Option<bool>> as Dom>::N { return AllO::V0(<Option<Option<bool>> as Dom>::at(i)); } i -= <Option<Option<bool>> as Dom>::N;
        if i < <Option<Option<bool>> as Dom>::N { return AllO::V1(<Option<Option<bool>> as Dom>::at(i)); } i -= <Option<Option<bool>> as Dom>::N;
        if i < <Option<Option<bool>> as Dom>::N { return AllO::V2(<Option<Option<bool>> as Dom>::at(i)); } i -= <Option<Option<bool>> as Dom>::N;
        if i < <Option<Option<bool>> as Dom>::N { return AllO::V3(<Option<Option<bool>> as Dom>::at(i)); } i -= <Option<Option<bool>> as Dom>::N;
        if i < <Option<Option<bool>> as Dom>::N { return AllO::V4(<Option<Option<bool>> as Dom>::at(i)); } i -= <Option<Option<bool>> as Dom>::N;
        if i < <Option<Option<bool>> as Dom>::N { return AllO::V5(<Option<Option<bool>> as Dom>::at(i)); } i -= <Option<Option<bool>> as Dom>::N;
        if i < <Option<Option<bool>> as Dom>::N { return AllO::V6(<Option<Option<bool>> as Dom>::at(i)); } i -= <Option<Option<bool>> as Dom>::N;
        if i < <Option<Option<bool>> as Dom>::N { return AllO::V7(<Option<Option<bool>> as Dom>::at(i)); } i -= <Option<Option<bool>> as Dom>::N;
        if i < <Option<Option<bool>> as Dom>::N { return AllO::V8(<Option<Option<bool>> as Dom>::at(i)); } i -= <Option<Option<bool>> as Dom>::N;
        if i < <Option<Option<bool>> as Dom>::N { return AllO::V9(<Option<Option<bool>> as Dom>::at(i)); } i -= <Option<Option<bool>> as Dom>::N;
        if i < <Option<Option<bool>> as Dom>::N { return AllO::V10(<Option<Option<bool>> as Dom>::at(i)); } i -= <Option<Option<bool>> as Dom>::N;
        if i < <Option<Option<bool>> as Dom>::N { return AllO::V11(<Option<Option<bool>> as Dom>::at(i)); } i -= <Option<Option<bool>> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            AllO::V0(x) => off(0, <Option<Option<bool>> as Dom>::idx(x)),
            AllO::V1(x) => off(0 + <Option<Option<bool>> as Dom>::N, <Option<Option<bool>> as Dom>::idx(x)),
            AllO::V2(x) => off(0 + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N, <Option<Option<bool>> as Dom>::idx(x)),
            AllO::V3(x) => off(0 + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N, <Option<Option<bool>> as Dom>::idx(x)),
            AllO::V4(x) => off(0 + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N, <Option<Option<bool>> as Dom>::idx(x)),
            AllO::V5(x) => off(0 + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N, <Option<Option<bool>> as Dom>::idx(x)),
            AllO::V6(x) => off(0 + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N, <Option<Option<bool>> as Dom>::idx(x)),
            AllO::V7(x) => off(0 + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N, <Option<Option<bool>> as Dom>::idx(x)),
            AllO::V8(x) => off(0 + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N, <Option<Option<bool>> as Dom>::idx(x)),
            AllO::V9(x) => off(0 + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N, <Option<Option<bool>> as Dom>::idx(x)),
            AllO::V10(x) => off(0 + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N, <Option<Option<bool>> as Dom>::idx(x)),
            AllO::V11(x) => off(0 + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N + <Option<Option<bool>> as Dom>::N, <Option<Option<bool>> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<Option<bool>> as Dom>::ranks(out, next);
        <Option<Option<bool>> as Dom>::ranks(out, next);
        <Option<Option<bool>> as Dom>::ranks(out, next);
        <Option<Option<bool>> as Dom>::ranks(out, next);
        <Option<Option<bool>> as Dom>::ranks(out, next);
        <Option<Option<bool>> as Dom>::ranks(out, next);
        <Option<Option<bool>> as Dom>::ranks(out, next);
        <Option<Option<bool>> as Dom>::ranks(out, next);
        <Option<Option<bool>> as Dom>::ranks(out, next);
        <Option<Option<bool>> as Dom>::ranks(out, next);
        <Option<Option<bool>> as Dom>::ranks(out, next);
        <Option<Option<bool>> as Dom>::ranks(out, next);
    }
}
}
pub mod m_81 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB0 { V0 = -1, V1 = 0, V2 = 1, V3 = 7 }
impl Dom for DB0 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB0] = &[DB0::V0, DB0::V1, DB0::V2, DB0::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB0::V0 => 0,
            DB0::V1 => 1,
            DB0::V2 => 2,
            DB0::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_82 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB1 { V0 = -1, V1 = 0, V2 = 7, V3 = 1 }
impl Dom for DB1 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB1] = &[DB1::V0, DB1::V1, DB1::V2, DB1::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB1::V0 => 0,
            DB1::V1 => 1,
            DB1::V2 => 2,
            DB1::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_83 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D3 { V0 = -1, V1 = 1, V2 = 7, V3 = 0 }
impl Dom for D3 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D3] = &[D3::V0, D3::V1, D3::V2, D3::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D3::V0 => 0,
            D3::V1 => 1,
            D3::V2 => 2,
            D3::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_84 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB4 { V0 = -1, V1 = 7, V2 = 0, V3 = 1 }
impl Dom for DB4 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB4] = &[DB4::V0, DB4::V1, DB4::V2, DB4::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB4::V0 => 0,
            DB4::V1 => 1,
            DB4::V2 => 2,
            DB4::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_85 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D6 { V0 = 0, V1 = -1, V2 = 1, V3 = 7 }
impl Dom for D6 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D6] = &[D6::V0, D6::V1, D6::V2, D6::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D6::V0 => 0,
            D6::V1 => 1,
            D6::V2 => 2,
            D6::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_86 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB7 { V0 = 0, V1 = -1, V2 = 7, V3 = 1 }
impl Dom for DB7 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB7] = &[DB7::V0, DB7::V1, DB7::V2, DB7::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB7::V0 => 0,
            DB7::V1 => 1,
            DB7::V2 => 2,
            DB7::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_87 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB9 { V0 = 0, V1 = 1, V2 = 7, V3 = -1 }
impl Dom for DB9 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB9] = &[DB9::V0, DB9::V1, DB9::V2, DB9::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB9::V0 => 0,
            DB9::V1 => 1,
            DB9::V2 => 2,
            DB9::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_88 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB11 { V0 = 0, V1 = 7, V2 = 1, V3 = -1 }
impl Dom for DB11 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB11] = &[DB11::V0, DB11::V1, DB11::V2, DB11::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB11::V0 => 0,
            DB11::V1 => 1,
            DB11::V2 => 2,
            DB11::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_89 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB13 { V0 = 1, V1 = -1, V2 = 7, V3 = 0 }
impl Dom for DB13 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB13] = &[DB13::V0, DB13::V1, DB13::V2, DB13::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB13::V0 => 0,
            DB13::V1 => 1,
            DB13::V2 => 2,
            DB13::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_90 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB15 { V0 = 1, V1 = 0, V2 = 7, V3 = -1 }
impl Dom for DB15 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB15] = &[DB15::V0, DB15::V1, DB15::V2, DB15::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB15::V0 => 0,
            DB15::V1 => 1,
            DB15::V2 => 2,
            DB15::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_91 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB17 { V0 = 1, V1 = 7, V2 = 0, V3 = -1 }
impl Dom for DB17 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB17] = &[DB17::V0, DB17::V1, DB17::V2, DB17::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB17::V0 => 0,
            DB17::V1 => 1,
            DB17::V2 => 2,
            DB17::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_92 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB19 { V0 = 7, V1 = -1, V2 = 1, V3 = 0 }
impl Dom for DB19 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB19] = &[DB19::V0, DB19::V1, DB19::V2, DB19::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB19::V0 => 0,
            DB19::V1 => 1,
            DB19::V2 => 2,
            DB19::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_93 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB21 { V0 = 7, V1 = 0, V2 = 1, V3 = -1 }
impl Dom for DB21 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB21] = &[DB21::V0, DB21::V1, DB21::V2, DB21::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB21::V0 => 0,
            DB21::V1 => 1,
            DB21::V2 => 2,
            DB21::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_94 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB23 { V0 = 7, V1 = 1, V2 = 0, V3 = -1 }
impl Dom for DB23 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB23] = &[DB23::V0, DB23::V1, DB23::V2, DB23::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB23::V0 => 0,
            DB23::V1 => 1,
            DB23::V2 => 2,
            DB23::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_95 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DL1 { A, B, C = 2, D }
impl Dom for DL1 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DL1] = &[DL1::A, DL1::B, DL1::C, DL1::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DL1::A => 0,
            DL1::B => 1,
            DL1::C => 2,
            DL1::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_96 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DL2 { A, B, C = 3, D }
impl Dom for DL2 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DL2] = &[DL2::A, DL2::B, DL2::C, DL2::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DL2::A => 0,
            DL2::B => 1,
            DL2::C => 2,
            DL2::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_97 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DL3 { A, B, C = 7, D }
impl Dom for DL3 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DL3] = &[DL3::A, DL3::B, DL3::C, DL3::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DL3::A => 0,
            DL3::B => 1,
            DL3::C => 2,
            DL3::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_98 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DL4 { A, B, C = 8, D }
impl Dom for DL4 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DL4] = &[DL4::A, DL4::B, DL4::C, DL4::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DL4::A => 0,
            DL4::B => 1,
            DL4::C => 2,
            DL4::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_99 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DL5 { A, B, C = 31, D }
impl Dom for DL5 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DL5] = &[DL5::A, DL5::B, DL5::C, DL5::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DL5::A => 0,
            DL5::B => 1,
            DL5::C => 2,
            DL5::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_100 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DL6 { A, B, C = 32, D }
impl Dom for DL6 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DL6] = &[DL6::A, DL6::B, DL6::C, DL6::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DL6::A => 0,
            DL6::B => 1,
            DL6::C => 2,
            DL6::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_101 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DL7 { A, B, C = 63, D }
impl Dom for DL7 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DL7] = &[DL7::A, DL7::B, DL7::C, DL7::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DL7::A => 0,
            DL7::B => 1,
            DL7::C => 2,
            DL7::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_102 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DL8 { A, B, C = 64, D }
impl Dom for DL8 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DL8] = &[DL8::A, DL8::B, DL8::C, DL8::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DL8::A => 0,
            DL8::B => 1,
            DL8::C => 2,
            DL8::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_103 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DL9 { A, B, C = 127, D }
impl Dom for DL9 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DL9] = &[DL9::A, DL9::B, DL9::C, DL9::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DL9::A => 0,
            DL9::B => 1,
            DL9::C => 2,
            DL9::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_104 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DL10 { A, B, C = 128, D }
impl Dom for DL10 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DL10] = &[DL10::A, DL10::B, DL10::C, DL10::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DL10::A => 0,
            DL10::B => 1,
            DL10::C => 2,
            DL10::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_105 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DL11 { A, B, C = 255, D }
impl Dom for DL11 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DL11] = &[DL11::A, DL11::B, DL11::C, DL11::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DL11::A => 0,
            DL11::B => 1,
            DL11::C => 2,
            DL11::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_106 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DL12 { A, B, C = 256, D }
impl Dom for DL12 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DL12] = &[DL12::A, DL12::B, DL12::C, DL12::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DL12::A => 0,
            DL12::B => 1,
            DL12::C => 2,
            DL12::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_107 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DL13 { A, B, C = 65535, D }
impl Dom for DL13 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DL13] = &[DL13::A, DL13::B, DL13::C, DL13::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DL13::A => 0,
            DL13::B => 1,
            DL13::C => 2,
            DL13::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_108 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DL14 { A, B, C = -128, D }
impl Dom for DL14 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DL14] = &[DL14::A, DL14::B, DL14::C, DL14::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DL14::A => 0,
            DL14::B => 1,
            DL14::C => 2,
            DL14::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_109 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DMB { A = 9223372036854775807, B = -9223372036854775808i64 as isize, C = 0 }
impl Dom for DMB {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DMB] = &[DMB::A, DMB::B, DMB::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DMB::A => 0,
            DMB::B => 1,
            DMB::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_110 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
#[repr(i8)]
pub enum RBi8 { A = 127, B = -128, C }
impl Dom for RBi8 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[RBi8] = &[RBi8::A, RBi8::B, RBi8::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            RBi8::A => 0,
            RBi8::B => 1,
            RBi8::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_111 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[repr(u64)]
pub enum Ru64 { A = 18446744073709551615, B = 0, C }
impl Dom for Ru64 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[Ru64] = &[Ru64::A, Ru64::B, Ru64::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            Ru64::A => 0,
            Ru64::B => 1,
            Ru64::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_112 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[repr(u8)]
pub enum RPD { A(bool) = 3, B = 1, C(()) = 200 }
impl Dom for RPD {
    const N: usize = 1 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return RPD::A(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return RPD::B; } i -= 1;
        if i < <() as Dom>::N { return RPD::C(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            RPD::A(x) => off(0, <bool as Dom>::idx(x)),
            RPD::B => 0 + <bool as Dom>::N,
            RPD::C(x) => off(1 + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_113 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID0 { Some, None(&'static str), Ok }
impl Dom for ID0 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID0::Some; } i -= 1;
        if i < <&'static str as Dom>::N { return ID0::None(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID0::Ok; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID0::Some => 0,
            ID0::None(x) => off(1, <&'static str as Dom>::idx(x)),
            ID0::Ok => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_114 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I6 { K, T, F }
impl Dom for I6 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I6] = &[I6::K, I6::T, I6::F];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I6::K => 0,
            I6::T => 1,
            I6::F => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_115 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB9 { A, a, Item }
impl Dom for IB9 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB9] = &[IB9::A, IB9::a, IB9::Item];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB9::A => 0,
            IB9::a => 1,
            IB9::Item => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_116 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC12 { Iter(bool), Keys, Values(Option<bool>) }
impl Dom for IC12 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC12::Iter(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC12::Keys; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC12::Values(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC12::Iter(x) => off(0, <bool as Dom>::idx(x)),
            IC12::Keys => 0 + <bool as Dom>::N,
            IC12::Values(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_117 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID15 { IterMut, ValuesMut(&'static str), IntoIter }
impl Dom for ID15 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID15::IterMut; } i -= 1;
        if i < <&'static str as Dom>::N { return ID15::ValuesMut(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID15::IntoIter; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID15::IterMut => 0,
            ID15::ValuesMut(x) => off(1, <&'static str as Dom>::idx(x)),
            ID15::IntoIter => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_118 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I21 { SetStorage, __MapStorage, __SetStorage }
impl Dom for I21 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I21] = &[I21::SetStorage, I21::__MapStorage, I21::__SetStorage];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I21::SetStorage => 0,
            I21::__MapStorage => 1,
            I21::__SetStorage => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_119 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB24 { VacantEntry, OccupiedEntry, Entry }
impl Dom for IB24 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB24] = &[IB24::VacantEntry, IB24::OccupiedEntry, IB24::Entry];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB24::VacantEntry => 0,
            IB24::OccupiedEntry => 1,
            IB24::Entry => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_120 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC27 { SimpleOccupied(bool), SimpleVacant, Option(Option<bool>) }
impl Dom for IC27 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC27::SimpleOccupied(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC27::SimpleVacant; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC27::Option(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC27::SimpleOccupied(x) => off(0, <bool as Dom>::idx(x)),
            IC27::SimpleVacant => 0 + <bool as Dom>::N,
            IC27::Option(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_121 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID30 { Result, Box(&'static str), String }
impl Dom for ID30 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID30::Result; } i -= 1;
        if i < <&'static str as Dom>::N { return ID30::Box(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID30::String; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID30::Result => 0,
            ID30::Box(x) => off(1, <&'static str as Dom>::idx(x)),
            ID30::String => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_122 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I36 { str, u8, core }
impl Dom for I36 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I36] = &[I36::str, I36::u8, I36::core];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I36::str => 0,
            I36::u8 => 1,
            I36::core => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_123 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB39 { std, fixed_map, data }
impl Dom for IB39 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB39] = &[IB39::std, IB39::fixed_map, IB39::data];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB39::std => 0,
            IB39::fixed_map => 1,
            IB39::data => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_124 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC42 { start(bool), end, iter(Option<bool>) }
impl Dom for IC42 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC42::start(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC42::end; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC42::iter(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC42::start(x) => off(0, <bool as Dom>::idx(x)),
            IC42::end => 0 + <bool as Dom>::N,
            IC42::iter(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_125 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID45 { key, value(&'static str), val }
impl Dom for ID45 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID45::key; } i -= 1;
        if i < <&'static str as Dom>::N { return ID45::value(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID45::val; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID45::key => 0,
            ID45::value(x) => off(1, <&'static str as Dom>::idx(x)),
            ID45::val => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_126 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I51 { inner, opt, other }
impl Dom for I51 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I51] = &[I51::inner, I51::opt, I51::other];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I51::inner => 0,
            I51::opt => 1,
            I51::other => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_127 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB54 { hasher, f, option_to_entry }
impl Dom for IB54 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB54] = &[IB54::hasher, IB54::f, IB54::option_to_entry];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB54::hasher => 0,
            IB54::f => 1,
            IB54::option_to_entry => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_128 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC57 { BITS(bool), _0, _1(Option<bool>) }
impl Dom for IC57 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC57::BITS(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC57::_0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC57::_1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC57::BITS(x) => off(0, <bool as Dom>::idx(x)),
            IC57::_0 => 0 + <bool as Dom>::N,
            IC57::_1(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_129 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID60 { _2, __(&'static str), r#type }
impl Dom for ID60 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID60::_2; } i -= 1;
        if i < <&'static str as Dom>::N { return ID60::__(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID60::r#type; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID60::_2 => 0,
            ID60::__(x) => off(1, <&'static str as Dom>::idx(x)),
            ID60::r#type => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_130 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I66 { r#Self_, Ünï, 名 }
impl Dom for I66 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I66] = &[I66::r#Self_, I66::Ünï, I66::名];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I66::r#Self_ => 0,
            I66::Ünï => 1,
            I66::名 => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_131 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB69 { Default, Key, Map }
impl Dom for IB69 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB69] = &[IB69::Default, IB69::Key, IB69::Map];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB69::Default => 0,
            IB69::Key => 1,
            IB69::Map => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_132 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC72 { Set(bool), Hash, Ord(Option<bool>) }
impl Dom for IC72 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC72::Set(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC72::Hash; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC72::Ord(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC72::Set(x) => off(0, <bool as Dom>::idx(x)),
            IC72::Hash => 0 + <bool as Dom>::N,
            IC72::Ord(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_133 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID75 { Less, Equal(&'static str), Greater }
impl Dom for ID75 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID75::Less; } i -= 1;
        if i < <&'static str as Dom>::N { return ID75::Equal(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID75::Greater; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID75::Less => 0,
            ID75::Equal(x) => off(1, <&'static str as Dom>::idx(x)),
            ID75::Greater => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_134 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I81 { len, is_empty, insert }
impl Dom for I81 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I81] = &[I81::len, I81::is_empty, I81::insert];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I81::len => 0,
            I81::is_empty => 1,
            I81::insert => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_135 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB84 { remove, get, retain }
impl Dom for IB84 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB84] = &[IB84::remove, IB84::get, IB84::retain];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB84::remove => 0,
            IB84::get => 1,
            IB84::retain => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_136 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC87 { clear(bool), contains, empty(Option<bool>) }
impl Dom for IC87 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC87::clear(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC87::contains; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC87::empty(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC87::clear(x) => off(0, <bool as Dom>::idx(x)),
            IC87::contains => 0 + <bool as Dom>::N,
            IC87::empty(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_137 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID90 { entry }
impl Dom for ID90 {
    const N: usize = 1;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[ID90] = &[ID90::entry];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            ID90::entry => 0,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..1 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_138 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Value { A, B }
impl Dom for Value {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[Value] = &[Value::A, Value::B];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            Value::A => 0,
            Value::B => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_139 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum lower { A, B }
impl Dom for lower {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[lower] = &[lower::A, lower::B];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            lower::A => 0,
            lower::B => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_140 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Keys_ { A, B }
impl Dom for Keys_ {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[Keys_] = &[Keys_::A, Keys_::B];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            Keys_::A => 0,
            Keys_::B => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_141 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Twice { A(U2), B(U2), C(Option<U2>) }
impl Dom for Twice {
    const N: usize = 0 + <U2 as Dom>::N + <U2 as Dom>::N + <Option<U2> as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <U2 as Dom>::STATIC && <Option<U2> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return Twice::A(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <U2 as Dom>::N { return Twice::B(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <Option<U2> as Dom>::N { return Twice::C(<Option<U2> as Dom>::at(i)); } i -= <Option<U2> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            Twice::A(x) => off(0, <U2 as Dom>::idx(x)),
            Twice::B(x) => off(0 + <U2 as Dom>::N, <U2 as Dom>::idx(x)),
            Twice::C(x) => off(0 + <U2 as Dom>::N + <U2 as Dom>::N, <Option<U2> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
        <Option<U2> as Dom>::ranks(out, next);
    }
}
}
pub fn jobs(c: &mut fmcore::report::Ctx) {
    c.job("S1C", |w| fmcheck_slots::unit::<m_0::S1C>(w, "S1C"));
    c.job("S2UK", |w| fmcheck_slots::unit::<m_1::S2UK>(w, "S2UK"));
    c.job("S2BS", |w| fmcheck_slots::unit::<m_2::S2BS>(w, "S2BS"));
    c.job("S2BW", |w| fmcheck_slots::unit::<m_3::S2BW>(w, "S2BW"));
    c.job("S2SC", |w| fmcheck_slots::unit::<m_4::S2SC>(w, "S2SC"));
    c.job("S2OE", |w| fmcheck_slots::unit::<m_5::S2OE>(w, "S2OE"));
    c.job("S2EB", |w| fmcheck_slots::unit::<m_6::S2EB>(w, "S2EB"));
    c.job("S2ET", |w| fmcheck_slots::unit::<m_7::S2ET>(w, "S2ET"));
    c.job("S2KZ", |w| fmcheck_slots::unit::<m_8::S2KZ>(w, "S2KZ"));
    c.job("S2ZO", |w| fmcheck_slots::unit::<m_9::S2ZO>(w, "S2ZO"));
    c.job("S2CU", |w| fmcheck_slots::unit::<m_10::S2CU>(w, "S2CU"));
    c.job("S2CD", |w| fmcheck_slots::unit::<m_11::S2CD>(w, "S2CD"));
    c.job("S2DK", |w| fmcheck_slots::unit::<m_12::S2DK>(w, "S2DK"));
    c.job("S2TS", |w| fmcheck_slots::unit::<m_13::S2TS>(w, "S2TS"));
    c.job("S2TW", |w| fmcheck_slots::unit::<m_14::S2TW>(w, "S2TW"));
    c.job("S2WC", |w| fmcheck_slots::unit::<m_15::S2WC>(w, "S2WC"));
    c.job("S3UUD", |w| fmcheck_slots::unit::<m_16::S3UUD>(w, "S3UUD"));
    c.job("S3USB", |w| fmcheck_slots::unit::<m_17::S3USB>(w, "S3USB"));
    c.job("S3UOO", |w| fmcheck_slots::unit::<m_18::S3UOO>(w, "S3UOO"));
    c.job("S3UKD", |w| fmcheck_slots::unit::<m_19::S3UKD>(w, "S3UKD"));
    c.job("S3BUB", |w| fmcheck_slots::unit::<m_20::S3BUB>(w, "S3BUB"));
    c.job("S3BBO", |w| fmcheck_slots::unit::<m_21::S3BBO>(w, "S3BBO"));
    c.job("S3BSD", |w| fmcheck_slots::unit::<m_22::S3BSD>(w, "S3BSD"));
    c.job("S3BKB", |w| fmcheck_slots::unit::<m_23::S3BKB>(w, "S3BKB"));
    c.job("S3BDO", |w| fmcheck_slots::unit::<m_24::S3BDO>(w, "S3BDO"));
    c.job("S3SUD", |w| fmcheck_slots::unit::<m_25::S3SUD>(w, "S3SUD"));
    c.job("S3SSB", |w| fmcheck_slots::unit::<m_26::S3SSB>(w, "S3SSB"));
    c.job("S3SOO", |w| fmcheck_slots::unit::<m_27::S3SOO>(w, "S3SOO"));
    c.job("S3SKD", |w| fmcheck_slots::unit::<m_28::S3SKD>(w, "S3SKD"));
    c.job("S3OUB", |w| fmcheck_slots::unit::<m_29::S3OUB>(w, "S3OUB"));
    c.job("S3OBO", |w| fmcheck_slots::unit::<m_30::S3OBO>(w, "S3OBO"));
    c.job("S3OSD", |w| fmcheck_slots::unit::<m_31::S3OSD>(w, "S3OSD"));
    c.job("S3OKB", |w| fmcheck_slots::unit::<m_32::S3OKB>(w, "S3OKB"));
    c.job("S3ODO", |w| fmcheck_slots::unit::<m_33::S3ODO>(w, "S3ODO"));
    c.job("S3KUD", |w| fmcheck_slots::unit::<m_34::S3KUD>(w, "S3KUD"));
    c.job("S3KSB", |w| fmcheck_slots::unit::<m_35::S3KSB>(w, "S3KSB"));
    c.job("S3KOO", |w| fmcheck_slots::unit::<m_36::S3KOO>(w, "S3KOO"));
    c.job("S3KKD", |w| fmcheck_slots::unit::<m_37::S3KKD>(w, "S3KKD"));
    c.job("S3DUB", |w| fmcheck_slots::unit::<m_38::S3DUB>(w, "S3DUB"));
    c.job("S3DBO", |w| fmcheck_slots::unit::<m_39::S3DBO>(w, "S3DBO"));
    c.job("S3DSD", |w| fmcheck_slots::unit::<m_40::S3DSD>(w, "S3DSD"));
    c.job("S3DKB", |w| fmcheck_slots::unit::<m_41::S3DKB>(w, "S3DKB"));
    c.job("S3DDO", |w| fmcheck_slots::unit::<m_42::S3DDO>(w, "S3DDO"));
    c.job("S4UUSU", |w| fmcheck_slots::unit::<m_43::S4UUSU>(w, "S4UUSU"));
    c.job("S4UBBS", |w| fmcheck_slots::unit::<m_44::S4UBBS>(w, "S4UBBS"));
    c.job("S4USBB", |w| fmcheck_slots::unit::<m_45::S4USBB>(w, "S4USBB"));
    c.job("S4BUBU", |w| fmcheck_slots::unit::<m_46::S4BUBU>(w, "S4BUBU"));
    c.job("S4BBUS", |w| fmcheck_slots::unit::<m_47::S4BBUS>(w, "S4BBUS"));
    c.job("S4BSUB", |w| fmcheck_slots::unit::<m_48::S4BSUB>(w, "S4BSUB"));
    c.job("S4SUUU", |w| fmcheck_slots::unit::<m_49::S4SUUU>(w, "S4SUUU"));
    c.job("S4SUSS", |w| fmcheck_slots::unit::<m_50::S4SUSS>(w, "S4SUSS"));
    c.job("S4SBSB", |w| fmcheck_slots::unit::<m_51::S4SBSB>(w, "S4SBSB"));
    c.job("S4SSSU", |w| fmcheck_slots::unit::<m_52::S4SSSU>(w, "S4SSSU"));
    c.job("S5UUOOU", |w| fmcheck_slots::unit::<m_53::S5UUOOU>(w, "S5UUOOU"));
    c.job("S5UOOOU", |w| fmcheck_slots::unit::<m_54::S5UOOOU>(w, "S5UOOOU"));
    c.job("S5OUOOU", |w| fmcheck_slots::unit::<m_55::S5OUOOU>(w, "S5OUOOU"));
    c.job("S5OOOOU", |w| fmcheck_slots::unit::<m_56::S5OOOOU>(w, "S5OOOOU"));
    c.job("P8_0", |w| fmcheck_slots::unit::<m_57::P8_0>(w, "P8_0"));
    c.job("P12_0", |w| fmcheck_slots::unit::<m_58::P12_0>(w, "P12_0"));
    c.job("P12_8", |w| fmcheck_slots::unit::<m_59::P12_8>(w, "P12_8"));
    c.job("N2", |w| fmcheck_slots::unit::<m_60::N2>(w, "N2"));
    c.job("N6", |w| fmcheck_slots::unit::<m_61::N6>(w, "N6"));
    c.job("N10", |w| fmcheck_slots::unit::<m_62::N10>(w, "N10"));
    c.job("N14", |w| fmcheck_slots::unit::<m_63::N14>(w, "N14"));
    c.job("N18", |w| fmcheck_slots::unit::<m_64::N18>(w, "N18"));
    c.job("N22", |w| fmcheck_slots::unit::<m_65::N22>(w, "N22"));
    c.job("N26", |w| fmcheck_slots::unit::<m_66::N26>(w, "N26"));
    c.job("N30", |w| fmcheck_slots::unit::<m_67::N30>(w, "N30"));
    c.job("N34", |w| fmcheck_slots::unit::<m_68::N34>(w, "N34"));
    c.job("N38", |w| fmcheck_slots::unit::<m_69::N38>(w, "N38"));
    c.job("N42", |w| fmcheck_slots::unit::<m_70::N42>(w, "N42"));
    c.job("N46", |w| fmcheck_slots::unit::<m_71::N46>(w, "N46"));
    c.job("N50", |w| fmcheck_slots::unit::<m_72::N50>(w, "N50"));
    c.job("N54", |w| fmcheck_slots::unit::<m_73::N54>(w, "N54"));
    c.job("N58", |w| fmcheck_slots::unit::<m_74::N58>(w, "N58"));
    c.job("N62", |w| fmcheck_slots::unit::<m_75::N62>(w, "N62"));
    c.job("N66", |w| fmcheck_slots::unit::<m_76::N66>(w, "N66"));
    c.job("N97", |w| fmcheck_slots::unit::<m_77::N97>(w, "N97"));
    c.job("N129", |w| fmcheck_slots::unit::<m_78::N129>(w, "N129"));
    c.job("N258", |w| fmcheck_slots::unit::<m_79::N258>(w, "N258"));
    c.job("AllO", |w| fmcheck_slots::unit::<m_80::AllO>(w, "AllO"));
    c.job("DB0", |w| fmcheck_slots::unit::<m_81::DB0>(w, "DB0"));
    c.job("DB1", |w| fmcheck_slots::unit::<m_82::DB1>(w, "DB1"));
    c.job("D3", |w| fmcheck_slots::unit::<m_83::D3>(w, "D3"));
    c.job("DB4", |w| fmcheck_slots::unit::<m_84::DB4>(w, "DB4"));
    c.job("D6", |w| fmcheck_slots::unit::<m_85::D6>(w, "D6"));
    c.job("DB7", |w| fmcheck_slots::unit::<m_86::DB7>(w, "DB7"));
    c.job("DB9", |w| fmcheck_slots::unit::<m_87::DB9>(w, "DB9"));
    c.job("DB11", |w| fmcheck_slots::unit::<m_88::DB11>(w, "DB11"));
    c.job("DB13", |w| fmcheck_slots::unit::<m_89::DB13>(w, "DB13"));
    c.job("DB15", |w| fmcheck_slots::unit::<m_90::DB15>(w, "DB15"));
    c.job("DB17", |w| fmcheck_slots::unit::<m_91::DB17>(w, "DB17"));
    c.job("DB19", |w| fmcheck_slots::unit::<m_92::DB19>(w, "DB19"));
    c.job("DB21", |w| fmcheck_slots::unit::<m_93::DB21>(w, "DB21"));
    c.job("DB23", |w| fmcheck_slots::unit::<m_94::DB23>(w, "DB23"));
    c.job("DL1", |w| fmcheck_slots::unit::<m_95::DL1>(w, "DL1"));
    c.job("DL2", |w| fmcheck_slots::unit::<m_96::DL2>(w, "DL2"));
    c.job("DL3", |w| fmcheck_slots::unit::<m_97::DL3>(w, "DL3"));
    c.job("DL4", |w| fmcheck_slots::unit::<m_98::DL4>(w, "DL4"));
    c.job("DL5", |w| fmcheck_slots::unit::<m_99::DL5>(w, "DL5"));
    c.job("DL6", |w| fmcheck_slots::unit::<m_100::DL6>(w, "DL6"));
    c.job("DL7", |w| fmcheck_slots::unit::<m_101::DL7>(w, "DL7"));
    c.job("DL8", |w| fmcheck_slots::unit::<m_102::DL8>(w, "DL8"));
    c.job("DL9", |w| fmcheck_slots::unit::<m_103::DL9>(w, "DL9"));
    c.job("DL10", |w| fmcheck_slots::unit::<m_104::DL10>(w, "DL10"));
    c.job("DL11", |w| fmcheck_slots::unit::<m_105::DL11>(w, "DL11"));
    c.job("DL12", |w| fmcheck_slots::unit::<m_106::DL12>(w, "DL12"));
    c.job("DL13", |w| fmcheck_slots::unit::<m_107::DL13>(w, "DL13"));
    c.job("DL14", |w| fmcheck_slots::unit::<m_108::DL14>(w, "DL14"));
    c.job("DMB", |w| fmcheck_slots::unit::<m_109::DMB>(w, "DMB"));
    c.job("RBi8", |w| fmcheck_slots::unit::<m_110::RBi8>(w, "RBi8"));
    c.job("Ru64", |w| fmcheck_slots::unit::<m_111::Ru64>(w, "Ru64"));
    c.job("RPD", |w| fmcheck_slots::unit::<m_112::RPD>(w, "RPD"));
    c.job("ID0", |w| fmcheck_slots::unit::<m_113::ID0>(w, "ID0"));
    c.job("I6", |w| fmcheck_slots::unit::<m_114::I6>(w, "I6"));
    c.job("IB9", |w| fmcheck_slots::unit::<m_115::IB9>(w, "IB9"));
    c.job("IC12", |w| fmcheck_slots::unit::<m_116::IC12>(w, "IC12"));
    c.job("ID15", |w| fmcheck_slots::unit::<m_117::ID15>(w, "ID15"));
    c.job("I21", |w| fmcheck_slots::unit::<m_118::I21>(w, "I21"));
    c.job("IB24", |w| fmcheck_slots::unit::<m_119::IB24>(w, "IB24"));
    c.job("IC27", |w| fmcheck_slots::unit::<m_120::IC27>(w, "IC27"));
    c.job("ID30", |w| fmcheck_slots::unit::<m_121::ID30>(w, "ID30"));
    c.job("I36", |w| fmcheck_slots::unit::<m_122::I36>(w, "I36"));
    c.job("IB39", |w| fmcheck_slots::unit::<m_123::IB39>(w, "IB39"));
    c.job("IC42", |w| fmcheck_slots::unit::<m_124::IC42>(w, "IC42"));
    c.job("ID45", |w| fmcheck_slots::unit::<m_125::ID45>(w, "ID45"));
    c.job("I51", |w| fmcheck_slots::unit::<m_126::I51>(w, "I51"));
    c.job("IB54", |w| fmcheck_slots::unit::<m_127::IB54>(w, "IB54"));
    c.job("IC57", |w| fmcheck_slots::unit::<m_128::IC57>(w, "IC57"));
    c.job("ID60", |w| fmcheck_slots::unit::<m_129::ID60>(w, "ID60"));
    c.job("I66", |w| fmcheck_slots::unit::<m_130::I66>(w, "I66"));
    c.job("IB69", |w| fmcheck_slots::unit::<m_131::IB69>(w, "IB69"));
    c.job("IC72", |w| fmcheck_slots::unit::<m_132::IC72>(w, "IC72"));
    c.job("ID75", |w| fmcheck_slots::unit::<m_133::ID75>(w, "ID75"));
    c.job("I81", |w| fmcheck_slots::unit::<m_134::I81>(w, "I81"));
    c.job("IB84", |w| fmcheck_slots::unit::<m_135::IB84>(w, "IB84"));
    c.job("IC87", |w| fmcheck_slots::unit::<m_136::IC87>(w, "IC87"));
    c.job("ID90", |w| fmcheck_slots::unit::<m_137::ID90>(w, "ID90"));
    c.job("Value", |w| fmcheck_slots::unit::<m_138::Value>(w, "Value"));
    c.job("lower", |w| fmcheck_slots::unit::<m_139::lower>(w, "lower"));
    c.job("Keys_", |w| fmcheck_slots::unit::<m_140::Keys_>(w, "Keys_"));
    c.job("Twice", |w| fmcheck_slots::unit::<m_141::Twice>(w, "Twice"));
}
