//! Generated by gen2.py; do not edit.
#![allow(unused_imports, non_camel_case_types, non_upper_case_globals, non_snake_case, dead_code, uncommon_codepoints, clippy::all)]
#![recursion_limit = "1024"]
use fmcheck_dom::{off, Dom};
use fixed_map::Key;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U2 { V0, V1 }
impl Dom for U2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U2] = &[U2::V0, U2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U2::V0 => 0,
            U2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K2 { V0, V1 }
impl Dom for K2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K2] = &[K2::V0, K2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K2::V0 => 0,
            K2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U0 {  }
impl Dom for U0 {
    const N: usize = 0;
    const STATIC: bool = true;
    fn at(_: usize) -> Self { panic!("no such key") }
    fn idx(self) -> usize { match self {} }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..0 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum NestA { X(bool), Y }
impl Dom for NestA {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return NestA::X(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return NestA::Y; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            NestA::X(x) => off(0, <bool as Dom>::idx(x)),
            NestA::Y => 0 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
pub mod m_0 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S1K { V0(K2) }
impl Dom for S1K {
    const N: usize = 0 + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S1K::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S1K::V0(x) => off(0, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_1 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2UO { V0, V1(Option<bool>) }
impl Dom for S2UO {
    const N: usize = 1 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S2UO::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S2UO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2UO::V0 => 0,
            S2UO::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_2 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2BU { V0(bool), V1 }
impl Dom for S2BU {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S2BU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S2BU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2BU::V0(x) => off(0, <bool as Dom>::idx(x)),
            S2BU::V1 => 0 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_3 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2BD { V0(bool), V1(u8) }
impl Dom for S2BD {
    const N: usize = 0 + <bool as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S2BD::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <u8 as Dom>::N { return S2BD::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2BD::V0(x) => off(0, <bool as Dom>::idx(x)),
            S2BD::V1(x) => off(0 + <bool as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_4 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2SK { V0(()), V1(K2) }
impl Dom for S2SK {
    const N: usize = 0 + <() as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S2SK::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <K2 as Dom>::N { return S2SK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2SK::V0(x) => off(0, <() as Dom>::idx(x)),
            S2SK::V1(x) => off(0 + <() as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_5 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2OS { V0(Option<bool>), V1(()) }
impl Dom for S2OS {
    const N: usize = 0 + <Option<bool> as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S2OS::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <() as Dom>::N { return S2OS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2OS::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S2OS::V1(x) => off(0 + <Option<bool> as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_6 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2OW { V0(Option<bool>), V1(Option<u32>) }
impl Dom for S2OW {
    const N: usize = 0 + <Option<bool> as Dom>::N + <Option<u32> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<u32> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S2OW::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<u32> as Dom>::N { return S2OW::V1(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2OW::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S2OW::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<u32> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<u32> as Dom>::ranks(out, next);
    }
}
}
pub mod m_7 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2EC { V0(U2), V1(NestA) }
impl Dom for S2EC {
    const N: usize = 0 + <U2 as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return S2EC::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <NestA as Dom>::N { return S2EC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2EC::V0(x) => off(0, <U2 as Dom>::idx(x)),
            S2EC::V1(x) => off(0 + <U2 as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
}
pub mod m_8 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2KE { V0(K2), V1(U2) }
impl Dom for S2KE {
    const N: usize = 0 + <K2 as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S2KE::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <U2 as Dom>::N { return S2KE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2KE::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S2KE::V1(x) => off(0 + <K2 as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_9 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2ZB { V0(U0), V1(bool) }
impl Dom for S2ZB {
    const N: usize = 0 + <U0 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <U0 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U0 as Dom>::N { return S2ZB::V0(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        if i < <bool as Dom>::N { return S2ZB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2ZB::V0(x) => off(0, <U0 as Dom>::idx(x)),
            S2ZB::V1(x) => off(0 + <U0 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U0 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_10 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2ZT { V0(U0), V1(&'static str) }
impl Dom for S2ZT {
    const N: usize = 0 + <U0 as Dom>::N + <&'static str as Dom>::N;
    const STATIC: bool = true && <U0 as Dom>::STATIC && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U0 as Dom>::N { return S2ZT::V0(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        if i < <&'static str as Dom>::N { return S2ZT::V1(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2ZT::V0(x) => off(0, <U0 as Dom>::idx(x)),
            S2ZT::V1(x) => off(0 + <U0 as Dom>::N, <&'static str as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U0 as Dom>::ranks(out, next);
        <&'static str as Dom>::ranks(out, next);
    }
}
}
pub mod m_11 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2CZ { V0(NestA), V1(U0) }
impl Dom for S2CZ {
    const N: usize = 0 + <NestA as Dom>::N + <U0 as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <U0 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return S2CZ::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <U0 as Dom>::N { return S2CZ::V1(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2CZ::V0(x) => off(0, <NestA as Dom>::idx(x)),
            S2CZ::V1(x) => off(0 + <NestA as Dom>::N, <U0 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        <U0 as Dom>::ranks(out, next);
    }
}
}
pub mod m_12 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2DO { V0(u8), V1(Option<bool>) }
impl Dom for S2DO {
    const N: usize = 0 + <u8 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S2DO::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S2DO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2DO::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S2DO::V1(x) => off(0 + <u8 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_13 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2TU { V0(&'static str), V1 }
impl Dom for S2TU {
    const N: usize = 1 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <&'static str as Dom>::N { return S2TU::V0(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return S2TU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2TU::V0(x) => off(0, <&'static str as Dom>::idx(x)),
            S2TU::V1 => 0 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_14 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2TD { V0(&'static str), V1(u8) }
impl Dom for S2TD {
    const N: usize = 0 + <&'static str as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <&'static str as Dom>::N { return S2TD::V0(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i < <u8 as Dom>::N { return S2TD::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2TD::V0(x) => off(0, <&'static str as Dom>::idx(x)),
            S2TD::V1(x) => off(0 + <&'static str as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <&'static str as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_15 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2WK { V0(Option<u32>), V1(K2) }
impl Dom for S2WK {
    const N: usize = 0 + <Option<u32> as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <Option<u32> as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<u32> as Dom>::N { return S2WK::V0(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        if i < <K2 as Dom>::N { return S2WK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2WK::V0(x) => off(0, <Option<u32> as Dom>::idx(x)),
            S2WK::V1(x) => off(0 + <Option<u32> as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<u32> as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_16 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UUO { V0, V1, V2(Option<bool>) }
impl Dom for S3UUO {
    const N: usize = 2 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UUO::V0; } i -= 1;
        if i == 0 { return S3UUO::V1; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S3UUO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UUO::V0 => 0,
            S3UUO::V1 => 1,
            S3UUO::V2(x) => off(2, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_17 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UBD { V0, V1(bool), V2(u8) }
impl Dom for S3UBD {
    const N: usize = 1 + <bool as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UBD::V0; } i -= 1;
        if i < <bool as Dom>::N { return S3UBD::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <u8 as Dom>::N { return S3UBD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UBD::V0 => 0,
            S3UBD::V1(x) => off(1, <bool as Dom>::idx(x)),
            S3UBD::V2(x) => off(1 + <bool as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_18 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UOB { V0, V1(Option<bool>), V2(bool) }
impl Dom for S3UOB {
    const N: usize = 1 + <Option<bool> as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UOB::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S3UOB::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <bool as Dom>::N { return S3UOB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UOB::V0 => 0,
            S3UOB::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
            S3UOB::V2(x) => off(1 + <Option<bool> as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_19 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UKO { V0, V1(K2), V2(Option<bool>) }
impl Dom for S3UKO {
    const N: usize = 1 + <K2 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UKO::V0; } i -= 1;
        if i < <K2 as Dom>::N { return S3UKO::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3UKO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UKO::V0 => 0,
            S3UKO::V1(x) => off(1, <K2 as Dom>::idx(x)),
            S3UKO::V2(x) => off(1 + <K2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <K2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_20 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UDD { V0, V1(u8), V2(u8) }
impl Dom for S3UDD {
    const N: usize = 1 + <u8 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UDD::V0; } i -= 1;
        if i < <u8 as Dom>::N { return S3UDD::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <u8 as Dom>::N { return S3UDD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UDD::V0 => 0,
            S3UDD::V1(x) => off(1, <u8 as Dom>::idx(x)),
            S3UDD::V2(x) => off(1 + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_21 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BBB { V0(bool), V1(bool), V2(bool) }
impl Dom for S3BBB {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BBB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S3BBB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S3BBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BBB::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BBB::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S3BBB::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_22 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BSO { V0(bool), V1(()), V2(Option<bool>) }
impl Dom for S3BSO {
    const N: usize = 0 + <bool as Dom>::N + <() as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BSO::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S3BSO::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3BSO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BSO::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BSO::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S3BSO::V2(x) => off(0 + <bool as Dom>::N + <() as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_23 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BOD { V0(bool), V1(Option<bool>), V2(u8) }
impl Dom for S3BOD {
    const N: usize = 0 + <bool as Dom>::N + <Option<bool> as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BOD::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3BOD::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <u8 as Dom>::N { return S3BOD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BOD::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BOD::V1(x) => off(0 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3BOD::V2(x) => off(0 + <bool as Dom>::N + <Option<bool> as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_24 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BDB { V0(bool), V1(u8), V2(bool) }
impl Dom for S3BDB {
    const N: usize = 0 + <bool as Dom>::N + <u8 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <u8 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BDB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <u8 as Dom>::N { return S3BDB::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <bool as Dom>::N { return S3BDB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BDB::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BDB::V1(x) => off(0 + <bool as Dom>::N, <u8 as Dom>::idx(x)),
            S3BDB::V2(x) => off(0 + <bool as Dom>::N + <u8 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_25 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SUO { V0(()), V1, V2(Option<bool>) }
impl Dom for S3SUO {
    const N: usize = 1 + <() as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SUO::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S3SUO::V1; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S3SUO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SUO::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SUO::V1 => 0 + <() as Dom>::N,
            S3SUO::V2(x) => off(1 + <() as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_26 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SBD { V0(()), V1(bool), V2(u8) }
impl Dom for S3SBD {
    const N: usize = 0 + <() as Dom>::N + <bool as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SBD::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S3SBD::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <u8 as Dom>::N { return S3SBD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SBD::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SBD::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S3SBD::V2(x) => off(0 + <() as Dom>::N + <bool as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_27 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SOB { V0(()), V1(Option<bool>), V2(bool) }
impl Dom for S3SOB {
    const N: usize = 0 + <() as Dom>::N + <Option<bool> as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SOB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3SOB::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <bool as Dom>::N { return S3SOB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SOB::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SOB::V1(x) => off(0 + <() as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3SOB::V2(x) => off(0 + <() as Dom>::N + <Option<bool> as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_28 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SKO { V0(()), V1(K2), V2(Option<bool>) }
impl Dom for S3SKO {
    const N: usize = 0 + <() as Dom>::N + <K2 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <K2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SKO::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <K2 as Dom>::N { return S3SKO::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3SKO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SKO::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SKO::V1(x) => off(0 + <() as Dom>::N, <K2 as Dom>::idx(x)),
            S3SKO::V2(x) => off(0 + <() as Dom>::N + <K2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_29 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SDD { V0(()), V1(u8), V2(u8) }
impl Dom for S3SDD {
    const N: usize = 0 + <() as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SDD::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <u8 as Dom>::N { return S3SDD::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <u8 as Dom>::N { return S3SDD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SDD::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SDD::V1(x) => off(0 + <() as Dom>::N, <u8 as Dom>::idx(x)),
            S3SDD::V2(x) => off(0 + <() as Dom>::N + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_30 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OBB { V0(Option<bool>), V1(bool), V2(bool) }
impl Dom for S3OBB {
    const N: usize = 0 + <Option<bool> as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OBB::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <bool as Dom>::N { return S3OBB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S3OBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OBB::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OBB::V1(x) => off(0 + <Option<bool> as Dom>::N, <bool as Dom>::idx(x)),
            S3OBB::V2(x) => off(0 + <Option<bool> as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_31 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OSO { V0(Option<bool>), V1(()), V2(Option<bool>) }
impl Dom for S3OSO {
    const N: usize = 0 + <Option<bool> as Dom>::N + <() as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <() as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OSO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <() as Dom>::N { return S3OSO::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3OSO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OSO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OSO::V1(x) => off(0 + <Option<bool> as Dom>::N, <() as Dom>::idx(x)),
            S3OSO::V2(x) => off(0 + <Option<bool> as Dom>::N + <() as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_32 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OOD { V0(Option<bool>), V1(Option<bool>), V2(u8) }
impl Dom for S3OOD {
    const N: usize = 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OOD::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3OOD::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <u8 as Dom>::N { return S3OOD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OOD::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OOD::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3OOD::V2(x) => off(0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_33 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3ODB { V0(Option<bool>), V1(u8), V2(bool) }
impl Dom for S3ODB {
    const N: usize = 0 + <Option<bool> as Dom>::N + <u8 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <u8 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3ODB::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <u8 as Dom>::N { return S3ODB::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <bool as Dom>::N { return S3ODB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3ODB::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3ODB::V1(x) => off(0 + <Option<bool> as Dom>::N, <u8 as Dom>::idx(x)),
            S3ODB::V2(x) => off(0 + <Option<bool> as Dom>::N + <u8 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_34 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KUO { V0(K2), V1, V2(Option<bool>) }
impl Dom for S3KUO {
    const N: usize = 1 + <K2 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KUO::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i == 0 { return S3KUO::V1; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S3KUO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KUO::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KUO::V1 => 0 + <K2 as Dom>::N,
            S3KUO::V2(x) => off(1 + <K2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_35 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KBD { V0(K2), V1(bool), V2(u8) }
impl Dom for S3KBD {
    const N: usize = 0 + <K2 as Dom>::N + <bool as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <bool as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KBD::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <bool as Dom>::N { return S3KBD::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <u8 as Dom>::N { return S3KBD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KBD::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KBD::V1(x) => off(0 + <K2 as Dom>::N, <bool as Dom>::idx(x)),
            S3KBD::V2(x) => off(0 + <K2 as Dom>::N + <bool as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_36 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KOB { V0(K2), V1(Option<bool>), V2(bool) }
impl Dom for S3KOB {
    const N: usize = 0 + <K2 as Dom>::N + <Option<bool> as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KOB::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3KOB::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <bool as Dom>::N { return S3KOB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KOB::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KOB::V1(x) => off(0 + <K2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3KOB::V2(x) => off(0 + <K2 as Dom>::N + <Option<bool> as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_37 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KKO { V0(K2), V1(K2), V2(Option<bool>) }
impl Dom for S3KKO {
    const N: usize = 0 + <K2 as Dom>::N + <K2 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <K2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KKO::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <K2 as Dom>::N { return S3KKO::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3KKO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KKO::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KKO::V1(x) => off(0 + <K2 as Dom>::N, <K2 as Dom>::idx(x)),
            S3KKO::V2(x) => off(0 + <K2 as Dom>::N + <K2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_38 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KDD { V0(K2), V1(u8), V2(u8) }
impl Dom for S3KDD {
    const N: usize = 0 + <K2 as Dom>::N + <u8 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KDD::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <u8 as Dom>::N { return S3KDD::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <u8 as Dom>::N { return S3KDD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KDD::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KDD::V1(x) => off(0 + <K2 as Dom>::N, <u8 as Dom>::idx(x)),
            S3KDD::V2(x) => off(0 + <K2 as Dom>::N + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_39 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DBB { V0(u8), V1(bool), V2(bool) }
impl Dom for S3DBB {
    const N: usize = 0 + <u8 as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DBB::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <bool as Dom>::N { return S3DBB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S3DBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DBB::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DBB::V1(x) => off(0 + <u8 as Dom>::N, <bool as Dom>::idx(x)),
            S3DBB::V2(x) => off(0 + <u8 as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_40 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DSO { V0(u8), V1(()), V2(Option<bool>) }
impl Dom for S3DSO {
    const N: usize = 0 + <u8 as Dom>::N + <() as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <() as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DSO::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <() as Dom>::N { return S3DSO::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3DSO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DSO::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DSO::V1(x) => off(0 + <u8 as Dom>::N, <() as Dom>::idx(x)),
            S3DSO::V2(x) => off(0 + <u8 as Dom>::N + <() as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_41 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DOD { V0(u8), V1(Option<bool>), V2(u8) }
impl Dom for S3DOD {
    const N: usize = 0 + <u8 as Dom>::N + <Option<bool> as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DOD::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3DOD::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <u8 as Dom>::N { return S3DOD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DOD::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DOD::V1(x) => off(0 + <u8 as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3DOD::V2(x) => off(0 + <u8 as Dom>::N + <Option<bool> as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_42 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DDB { V0(u8), V1(u8), V2(bool) }
impl Dom for S3DDB {
    const N: usize = 0 + <u8 as Dom>::N + <u8 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DDB::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <u8 as Dom>::N { return S3DDB::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <bool as Dom>::N { return S3DDB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DDB::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DDB::V1(x) => off(0 + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
            S3DDB::V2(x) => off(0 + <u8 as Dom>::N + <u8 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_43 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UUBB { V0, V1, V2(bool), V3(bool) }
impl Dom for S4UUBB {
    const N: usize = 2 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UUBB::V0; } i -= 1;
        if i == 0 { return S4UUBB::V1; } i -= 1;
        if i < <bool as Dom>::N { return S4UUBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4UUBB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UUBB::V0 => 0,
            S4UUBB::V1 => 1,
            S4UUBB::V2(x) => off(2, <bool as Dom>::idx(x)),
            S4UUBB::V3(x) => off(2 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_44 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UBBU { V0, V1(bool), V2(bool), V3 }
impl Dom for S4UBBU {
    const N: usize = 2 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UBBU::V0; } i -= 1;
        if i < <bool as Dom>::N { return S4UBBU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4UBBU::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4UBBU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UBBU::V0 => 0,
            S4UBBU::V1(x) => off(1, <bool as Dom>::idx(x)),
            S4UBBU::V2(x) => off(1 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4UBBU::V3 => 1 + <bool as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_45 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4USUS { V0, V1(()), V2, V3(()) }
impl Dom for S4USUS {
    const N: usize = 2 + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4USUS::V0; } i -= 1;
        if i < <() as Dom>::N { return S4USUS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4USUS::V2; } i -= 1;
        if i < <() as Dom>::N { return S4USUS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4USUS::V0 => 0,
            S4USUS::V1(x) => off(1, <() as Dom>::idx(x)),
            S4USUS::V2 => 1 + <() as Dom>::N,
            S4USUS::V3(x) => off(2 + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_46 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BUUB { V0(bool), V1, V2, V3(bool) }
impl Dom for S4BUUB {
    const N: usize = 2 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BUUB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4BUUB::V1; } i -= 1;
        if i == 0 { return S4BUUB::V2; } i -= 1;
        if i < <bool as Dom>::N { return S4BUUB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BUUB::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BUUB::V1 => 0 + <bool as Dom>::N,
            S4BUUB::V2 => 1 + <bool as Dom>::N,
            S4BUUB::V3(x) => off(2 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_47 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BBUU { V0(bool), V1(bool), V2, V3 }
impl Dom for S4BBUU {
    const N: usize = 2 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BBUU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4BBUU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4BBUU::V2; } i -= 1;
        if i == 0 { return S4BBUU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BBUU::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BBUU::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4BBUU::V2 => 0 + <bool as Dom>::N + <bool as Dom>::N,
            S4BBUU::V3 => 1 + <bool as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_48 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BBSS { V0(bool), V1(bool), V2(()), V3(()) }
impl Dom for S4BBSS {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BBSS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4BBSS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4BBSS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4BBSS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BBSS::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BBSS::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4BBSS::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4BBSS::V3(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_49 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BSSB { V0(bool), V1(()), V2(()), V3(bool) }
impl Dom for S4BSSB {
    const N: usize = 0 + <bool as Dom>::N + <() as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BSSB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4BSSB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4BSSB::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4BSSB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BSSB::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BSSB::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4BSSB::V2(x) => off(0 + <bool as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
            S4BSSB::V3(x) => off(0 + <bool as Dom>::N + <() as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_50 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SUSU { V0(()), V1, V2(()), V3 }
impl Dom for S4SUSU {
    const N: usize = 2 + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SUSU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4SUSU::V1; } i -= 1;
        if i < <() as Dom>::N { return S4SUSU::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4SUSU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SUSU::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SUSU::V1 => 0 + <() as Dom>::N,
            S4SUSU::V2(x) => off(1 + <() as Dom>::N, <() as Dom>::idx(x)),
            S4SUSU::V3 => 1 + <() as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_51 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SBBS { V0(()), V1(bool), V2(bool), V3(()) }
impl Dom for S4SBBS {
    const N: usize = 0 + <() as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SBBS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4SBBS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4SBBS::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4SBBS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SBBS::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SBBS::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4SBBS::V2(x) => off(0 + <() as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4SBBS::V3(x) => off(0 + <() as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_52 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SSBB { V0(()), V1(()), V2(bool), V3(bool) }
impl Dom for S4SSBB {
    const N: usize = 0 + <() as Dom>::N + <() as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SSBB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4SSBB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4SSBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4SSBB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SSBB::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SSBB::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            S4SSBB::V2(x) => off(0 + <() as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4SSBB::V3(x) => off(0 + <() as Dom>::N + <() as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_53 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5UUOUU { V0, V1, V2(Option<bool>), V3, V4 }
impl Dom for S5UUOUU {
    const N: usize = 4 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S5UUOUU::V0; } i -= 1;
        if i == 0 { return S5UUOUU::V1; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UUOUU::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5UUOUU::V3; } i -= 1;
        if i == 0 { return S5UUOUU::V4; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5UUOUU::V0 => 0,
            S5UUOUU::V1 => 1,
            S5UUOUU::V2(x) => off(2, <Option<bool> as Dom>::idx(x)),
            S5UUOUU::V3 => 2 + <Option<bool> as Dom>::N,
            S5UUOUU::V4 => 3 + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_54 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5UOOUU { V0, V1(Option<bool>), V2(Option<bool>), V3, V4 }
impl Dom for S5UOOUU {
    const N: usize = 3 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S5UOOUU::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UOOUU::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5UOOUU::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5UOOUU::V3; } i -= 1;
        if i == 0 { return S5UOOUU::V4; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5UOOUU::V0 => 0,
            S5UOOUU::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
            S5UOOUU::V2(x) => off(1 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5UOOUU::V3 => 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
            S5UOOUU::V4 => 2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_55 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5OUOUU { V0(Option<bool>), V1, V2(Option<bool>), V3, V4 }
impl Dom for S5OUOUU {
    const N: usize = 3 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S5OUOUU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OUOUU::V1; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5OUOUU::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OUOUU::V3; } i -= 1;
        if i == 0 { return S5OUOUU::V4; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5OUOUU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S5OUOUU::V1 => 0 + <Option<bool> as Dom>::N,
            S5OUOUU::V2(x) => off(1 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OUOUU::V3 => 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
            S5OUOUU::V4 => 2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_56 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5OOOUU { V0(Option<bool>), V1(Option<bool>), V2(Option<bool>), V3, V4 }
impl Dom for S5OOOUU {
    const N: usize = 2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S5OOOUU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OOOUU::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OOOUU::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OOOUU::V3; } i -= 1;
        if i == 0 { return S5OOOUU::V4; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5OOOUU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S5OOOUU::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OOOUU::V2(x) => off(0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OOOUU::V3 => 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
            S5OOOUU::V4 => 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_57 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P6_4 { V0, V1, V2, V3, V4(bool), V5 }
impl Dom for P6_4 {
    const N: usize = 5 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P6_4::V0; } i -= 1;
        if i == 0 { return P6_4::V1; } i -= 1;
        if i == 0 { return P6_4::V2; } i -= 1;
        if i == 0 { return P6_4::V3; } i -= 1;
        if i < <bool as Dom>::N { return P6_4::V4(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P6_4::V5; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P6_4::V0 => 0,
            P6_4::V1 => 1,
            P6_4::V2 => 2,
            P6_4::V3 => 3,
            P6_4::V4(x) => off(4, <bool as Dom>::idx(x)),
            P6_4::V5 => 4 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_58 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P8_6 { V0, V1, V2, V3, V4, V5, V6(bool), V7 }
impl Dom for P8_6 {
    const N: usize = 7 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P8_6::V0; } i -= 1;
        if i == 0 { return P8_6::V1; } i -= 1;
        if i == 0 { return P8_6::V2; } i -= 1;
        if i == 0 { return P8_6::V3; } i -= 1;
        if i == 0 { return P8_6::V4; } i -= 1;
        if i == 0 { return P8_6::V5; } i -= 1;
        if i < <bool as Dom>::N { return P8_6::V6(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P8_6::V7; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P8_6::V0 => 0,
            P8_6::V1 => 1,
            P8_6::V2 => 2,
            P8_6::V3 => 3,
            P8_6::V4 => 4,
            P8_6::V5 => 5,
            P8_6::V6(x) => off(6, <bool as Dom>::idx(x)),
            P8_6::V7 => 6 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_59 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P12_6 { V0, V1, V2, V3, V4, V5, V6(bool), V7, V8, V9, V10, V11 }
impl Dom for P12_6 {
    const N: usize = 11 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P12_6::V0; } i -= 1;
        if i == 0 { return P12_6::V1; } i -= 1;
        if i == 0 { return P12_6::V2; } i -= 1;
        if i == 0 { return P12_6::V3; } i -= 1;
        if i == 0 { return P12_6::V4; } i -= 1;
        if i == 0 { return P12_6::V5; } i -= 1;
        if i < <bool as Dom>::N { return P12_6::V6(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P12_6::V7; } i -= 1;
        if i == 0 { return P12_6::V8; } i -= 1;
        if i == 0 { return P12_6::V9; } i -= 1;
        if i == 0 { return P12_6::V10; } i -= 1;
        if i == 0 { return P12_6::V11; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P12_6::V0 => 0,
            P12_6::V1 => 1,
            P12_6::V2 => 2,
            P12_6::V3 => 3,
            P12_6::V4 => 4,
            P12_6::V5 => 5,
            P12_6::V6(x) => off(6, <bool as Dom>::idx(x)),
            P12_6::V7 => 6 + <bool as Dom>::N,
            P12_6::V8 => 7 + <bool as Dom>::N,
            P12_6::V9 => 8 + <bool as Dom>::N,
            P12_6::V10 => 9 + <bool as Dom>::N,
            P12_6::V11 => 10 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_60 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N1 { V0 }
impl Dom for N1 {
    const N: usize = 1;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N1] = &[N1::V0];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N1::V0 => 0,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..1 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_61 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N4 { V0, V1, V2, V3 }
impl Dom for N4 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N4] = &[N4::V0, N4::V1, N4::V2, N4::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N4::V0 => 0,
            N4::V1 => 1,
            N4::V2 => 2,
            N4::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_62 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N8 { V0, V1, V2, V3, V4, V5, V6, V7 }
impl Dom for N8 {
    const N: usize = 8;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N8] = &[N8::V0, N8::V1, N8::V2, N8::V3, N8::V4, N8::V5, N8::V6, N8::V7];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N8::V0 => 0,
            N8::V1 => 1,
            N8::V2 => 2,
            N8::V3 => 3,
            N8::V4 => 4,
            N8::V5 => 5,
            N8::V6 => 6,
            N8::V7 => 7,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..8 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_63 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N12 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11 }
impl Dom for N12 {
    const N: usize = 12;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N12] = &[N12::V0, N12::V1, N12::V2, N12::V3, N12::V4, N12::V5, N12::V6, N12::V7, N12::V8, N12::V9, N12::V10, N12::V11];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N12::V0 => 0,
            N12::V1 => 1,
            N12::V2 => 2,
            N12::V3 => 3,
            N12::V4 => 4,
            N12::V5 => 5,
            N12::V6 => 6,
            N12::V7 => 7,
            N12::V8 => 8,
            N12::V9 => 9,
            N12::V10 => 10,
            N12::V11 => 11,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..12 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_64 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N16 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }
impl Dom for N16 {
    const N: usize = 16;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N16] = &[N16::V0, N16::V1, N16::V2, N16::V3, N16::V4, N16::V5, N16::V6, N16::V7, N16::V8, N16::V9, N16::V10, N16::V11, N16::V12, N16::V13, N16::V14, N16::V15];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N16::V0 => 0,
            N16::V1 => 1,
            N16::V2 => 2,
            N16::V3 => 3,
            N16::V4 => 4,
            N16::V5 => 5,
            N16::V6 => 6,
            N16::V7 => 7,
            N16::V8 => 8,
            N16::V9 => 9,
            N16::V10 => 10,
            N16::V11 => 11,
            N16::V12 => 12,
            N16::V13 => 13,
            N16::V14 => 14,
            N16::V15 => 15,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..16 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_65 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N20 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19 }
impl Dom for N20 {
    const N: usize = 20;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N20] = &[N20::V0, N20::V1, N20::V2, N20::V3, N20::V4, N20::V5, N20::V6, N20::V7, N20::V8, N20::V9, N20::V10, N20::V11, N20::V12, N20::V13, N20::V14, N20::V15, N20::V16, N20::V17, N20::V18, N20::V19];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N20::V0 => 0,
            N20::V1 => 1,
            N20::V2 => 2,
            N20::V3 => 3,
            N20::V4 => 4,
            N20::V5 => 5,
            N20::V6 => 6,
            N20::V7 => 7,
            N20::V8 => 8,
            N20::V9 => 9,
            N20::V10 => 10,
            N20::V11 => 11,
            N20::V12 => 12,
            N20::V13 => 13,
            N20::V14 => 14,
            N20::V15 => 15,
            N20::V16 => 16,
            N20::V17 => 17,
            N20::V18 => 18,
            N20::V19 => 19,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..20 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_66 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N24 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23 }
impl Dom for N24 {
    const N: usize = 24;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N24] = &[N24::V0, N24::V1, N24::V2, N24::V3, N24::V4, N24::V5, N24::V6, N24::V7, N24::V8, N24::V9, N24::V10, N24::V11, N24::V12, N24::V13, N24::V14, N24::V15, N24::V16, N24::V17, N24::V18, N24::V19, N24::V20, N24::V21, N24::V22, N24::V23];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N24::V0 => 0,
            N24::V1 => 1,
            N24::V2 => 2,
            N24::V3 => 3,
            N24::V4 => 4,
            N24::V5 => 5,
            N24::V6 => 6,
            N24::V7 => 7,
            N24::V8 => 8,
            N24::V9 => 9,
            N24::V10 => 10,
            N24::V11 => 11,
            N24::V12 => 12,
            N24::V13 => 13,
            N24::V14 => 14,
            N24::V15 => 15,
            N24::V16 => 16,
            N24::V17 => 17,
            N24::V18 => 18,
            N24::V19 => 19,
            N24::V20 => 20,
            N24::V21 => 21,
            N24::V22 => 22,
            N24::V23 => 23,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..24 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_67 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N28 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27 }
impl Dom for N28 {
    const N: usize = 28;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N28] = &[N28::V0, N28::V1, N28::V2, N28::V3, N28::V4, N28::V5, N28::V6, N28::V7, N28::V8, N28::V9, N28::V10, N28::V11, N28::V12, N28::V13, N28::V14, N28::V15, N28::V16, N28::V17, N28::V18, N28::V19, N28::V20, N28::V21, N28::V22, N28::V23, N28::V24, N28::V25, N28::V26, N28::V27];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N28::V0 => 0,
            N28::V1 => 1,
            N28::V2 => 2,
            N28::V3 => 3,
            N28::V4 => 4,
            N28::V5 => 5,
            N28::V6 => 6,
            N28::V7 => 7,
            N28::V8 => 8,
            N28::V9 => 9,
            N28::V10 => 10,
            N28::V11 => 11,
            N28::V12 => 12,
            N28::V13 => 13,
            N28::V14 => 14,
            N28::V15 => 15,
            N28::V16 => 16,
            N28::V17 => 17,
            N28::V18 => 18,
            N28::V19 => 19,
            N28::V20 => 20,
            N28::V21 => 21,
            N28::V22 => 22,
            N28::V23 => 23,
            N28::V24 => 24,
            N28::V25 => 25,
            N28::V26 => 26,
            N28::V27 => 27,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..28 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_68 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N32 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31 }
impl Dom for N32 {
    const N: usize = 32;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N32] = &[N32::V0, N32::V1, N32::V2, N32::V3, N32::V4, N32::V5, N32::V6, N32::V7, N32::V8, N32::V9, N32::V10, N32::V11, N32::V12, N32::V13, N32::V14, N32::V15, N32::V16, N32::V17, N32::V18, N32::V19, N32::V20, N32::V21, N32::V22, N32::V23, N32::V24, N32::V25, N32::V26, N32::V27, N32::V28, N32::V29, N32::V30, N32::V31];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N32::V0 => 0,
            N32::V1 => 1,
            N32::V2 => 2,
            N32::V3 => 3,
            N32::V4 => 4,
            N32::V5 => 5,
            N32::V6 => 6,
            N32::V7 => 7,
            N32::V8 => 8,
            N32::V9 => 9,
            N32::V10 => 10,
            N32::V11 => 11,
            N32::V12 => 12,
            N32::V13 => 13,
            N32::V14 => 14,
            N32::V15 => 15,
            N32::V16 => 16,
            N32::V17 => 17,
            N32::V18 => 18,
            N32::V19 => 19,
            N32::V20 => 20,
            N32::V21 => 21,
            N32::V22 => 22,
            N32::V23 => 23,
            N32::V24 => 24,
            N32::V25 => 25,
            N32::V26 => 26,
            N32::V27 => 27,
            N32::V28 => 28,
            N32::V29 => 29,
            N32::V30 => 30,
            N32::V31 => 31,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..32 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_69 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N36 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35 }
impl Dom for N36 {
    const N: usize = 36;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N36] = &[N36::V0, N36::V1, N36::V2, N36::V3, N36::V4, N36::V5, N36::V6, N36::V7, N36::V8, N36::V9, N36::V10, N36::V11, N36::V12, N36::V13, N36::V14, N36::V15, N36::V16, N36::V17, N36::V18, N36::V19, N36::V20, N36::V21, N36::V22, N36::V23, N36::V24, N36::V25, N36::V26, N36::V27, N36::V28, N36::V29, N36::V30, N36::V31, N36::V32, N36::V33, N36::V34, N36::V35];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N36::V0 => 0,
            N36::V1 => 1,
            N36::V2 => 2,
            N36::V3 => 3,
            N36::V4 => 4,
            N36::V5 => 5,
            N36::V6 => 6,
            N36::V7 => 7,
            N36::V8 => 8,
            N36::V9 => 9,
            N36::V10 => 10,
            N36::V11 => 11,
            N36::V12 => 12,
            N36::V13 => 13,
            N36::V14 => 14,
            N36::V15 => 15,
            N36::V16 => 16,
            N36::V17 => 17,
            N36::V18 => 18,
            N36::V19 => 19,
            N36::V20 => 20,
            N36::V21 => 21,
            N36::V22 => 22,
            N36::V23 => 23,
            N36::V24 => 24,
            N36::V25 => 25,
            N36::V26 => 26,
            N36::V27 => 27,
            N36::V28 => 28,
            N36::V29 => 29,
            N36::V30 => 30,
            N36::V31 => 31,
            N36::V32 => 32,
            N36::V33 => 33,
            N36::V34 => 34,
            N36::V35 => 35,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..36 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_70 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N40 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39 }
impl Dom for N40 {
    const N: usize = 40;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N40] = &[N40::V0, N40::V1, N40::V2, N40::V3, N40::V4, N40::V5, N40::V6, N40::V7, N40::V8, N40::V9, N40::V10, N40::V11, N40::V12, N40::V13, N40::V14, N40::V15, N40::V16, N40::V17, N40::V18, N40::V19, N40::V20, N40::V21, N40::V22, N40::V23, N40::V24, N40::V25, N40::V26, N40::V27, N40::V28, N40::V29, N40::V30, N40::V31, N40::V32, N40::V33, N40::V34, N40::V35, N40::V36, N40::V37, N40::V38, N40::V39];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N40::V0 => 0,
            N40::V1 => 1,
            N40::V2 => 2,
            N40::V3 => 3,
            N40::V4 => 4,
            N40::V5 => 5,
            N40::V6 => 6,
            N40::V7 => 7,
            N40::V8 => 8,
            N40::V9 => 9,
            N40::V10 => 10,
            N40::V11 => 11,
            N40::V12 => 12,
            N40::V13 => 13,
            N40::V14 => 14,
            N40::V15 => 15,
            N40::V16 => 16,
            N40::V17 => 17,
            N40::V18 => 18,
            N40::V19 => 19,
            N40::V20 => 20,
            N40::V21 => 21,
            N40::V22 => 22,
            N40::V23 => 23,
            N40::V24 => 24,
            N40::V25 => 25,
            N40::V26 => 26,
            N40::V27 => 27,
            N40::V28 => 28,
            N40::V29 => 29,
            N40::V30 => 30,
            N40::V31 => 31,
            N40::V32 => 32,
            N40::V33 => 33,
            N40::V34 => 34,
            N40::V35 => 35,
            N40::V36 => 36,
            N40::V37 => 37,
            N40::V38 => 38,
            N40::V39 => 39,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..40 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_71 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N44 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43 }
impl Dom for N44 {
    const N: usize = 44;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N44] = &[N44::V0, N44::V1, N44::V2, N44::V3, N44::V4, N44::V5, N44::V6, N44::V7, N44::V8, N44::V9, N44::V10, N44::V11, N44::V12, N44::V13, N44::V14, N44::V15, N44::V16, N44::V17, N44::V18, N44::V19, N44::V20, N44::V21, N44::V22, N44::V23, N44::V24, N44::V25, N44::V26, N44::V27, N44::V28, N44::V29, N44::V30, N44::V31, N44::V32, N44::V33, N44::V34, N44::V35, N44::V36, N44::V37, N44::V38, N44::V39, N44::V40, N44::V41, N44::V42, N44::V43];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N44::V0 => 0,
            N44::V1 => 1,
            N44::V2 => 2,
            N44::V3 => 3,
            N44::V4 => 4,
            N44::V5 => 5,
            N44::V6 => 6,
            N44::V7 => 7,
            N44::V8 => 8,
            N44::V9 => 9,
            N44::V10 => 10,
            N44::V11 => 11,
            N44::V12 => 12,
            N44::V13 => 13,
            N44::V14 => 14,
            N44::V15 => 15,
            N44::V16 => 16,
            N44::V17 => 17,
            N44::V18 => 18,
            N44::V19 => 19,
            N44::V20 => 20,
            N44::V21 => 21,
            N44::V22 => 22,
            N44::V23 => 23,
            N44::V24 => 24,
            N44::V25 => 25,
            N44::V26 => 26,
            N44::V27 => 27,
            N44::V28 => 28,
            N44::V29 => 29,
            N44::V30 => 30,
            N44::V31 => 31,
            N44::V32 => 32,
            N44::V33 => 33,
            N44::V34 => 34,
            N44::V35 => 35,
            N44::V36 => 36,
            N44::V37 => 37,
            N44::V38 => 38,
            N44::V39 => 39,
            N44::V40 => 40,
            N44::V41 => 41,
            N44::V42 => 42,
            N44::V43 => 43,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..44 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_72 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N48 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47 }
impl Dom for N48 {
    const N: usize = 48;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N48] = &[N48::V0, N48::V1, N48::V2, N48::V3, N48::V4, N48::V5, N48::V6, N48::V7, N48::V8, N48::V9, N48::V10, N48::V11, N48::V12, N48::V13, N48::V14, N48::V15, N48::V16, N48::V17, N48::V18, N48::V19, N48::V20, N48::V21, N48::V22, N48::V23, N48::V24, N48::V25, N48::V26, N48::V27, N48::V28, N48::V29, N48::V30, N48::V31, N48::V32, N48::V33, N48::V34, N48::V35, N48::V36, N48::V37, N48::V38, N48::V39, N48::V40, N48::V41, N48::V42, N48::V43, N48::V44, N48::V45, N48::V46, N48::V47];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N48::V0 => 0,
            N48::V1 => 1,
            N48::V2 => 2,
            N48::V3 => 3,
            N48::V4 => 4,
            N48::V5 => 5,
            N48::V6 => 6,
            N48::V7 => 7,
            N48::V8 => 8,
            N48::V9 => 9,
            N48::V10 => 10,
            N48::V11 => 11,
            N48::V12 => 12,
            N48::V13 => 13,
            N48::V14 => 14,
            N48::V15 => 15,
            N48::V16 => 16,
            N48::V17 => 17,
            N48::V18 => 18,
            N48::V19 => 19,
            N48::V20 => 20,
            N48::V21 => 21,
            N48::V22 => 22,
            N48::V23 => 23,
            N48::V24 => 24,
            N48::V25 => 25,
            N48::V26 => 26,
            N48::V27 => 27,
            N48::V28 => 28,
            N48::V29 => 29,
            N48::V30 => 30,
            N48::V31 => 31,
            N48::V32 => 32,
            N48::V33 => 33,
            N48::V34 => 34,
            N48::V35 => 35,
            N48::V36 => 36,
            N48::V37 => 37,
            N48::V38 => 38,
            N48::V39 => 39,
            N48::V40 => 40,
            N48::V41 => 41,
            N48::V42 => 42,
            N48::V43 => 43,
            N48::V44 => 44,
            N48::V45 => 45,
            N48::V46 => 46,
            N48::V47 => 47,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..48 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_73 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N52 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51 }
impl Dom for N52 {
    const N: usize = 52;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N52] = &[N52::V0, N52::V1, N52::V2, N52::V3, N52::V4, N52::V5, N52::V6, N52::V7, N52::V8, N52::V9, N52::V10, N52::V11, N52::V12, N52::V13, N52::V14, N52::V15, N52::V16, N52::V17, N52::V18, N52::V19, N52::V20, N52::V21, N52::V22, N52::V23, N52::V24, N52::V25, N52::V26, N52::V27, N52::V28, N52::V29, N52::V30, N52::V31, N52::V32, N52::V33, N52::V34, N52::V35, N52::V36, N52::V37, N52::V38, N52::V39, N52::V40, N52::V41, N52::V42, N52::V43, N52::V44, N52::V45, N52::V46, N52::V47, N52::V48, N52::V49, N52::V50, N52::V51];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N52::V0 => 0,
            N52::V1 => 1,
            N52::V2 => 2,
            N52::V3 => 3,
            N52::V4 => 4,
            N52::V5 => 5,
            N52::V6 => 6,
            N52::V7 => 7,
            N52::V8 => 8,
            N52::V9 => 9,
            N52::V10 => 10,
            N52::V11 => 11,
            N52::V12 => 12,
            N52::V13 => 13,
            N52::V14 => 14,
            N52::V15 => 15,
            N52::V16 => 16,
            N52::V17 => 17,
            N52::V18 => 18,
            N52::V19 => 19,
            N52::V20 => 20,
            N52::V21 => 21,
            N52::V22 => 22,
            N52::V23 => 23,
            N52::V24 => 24,
            N52::V25 => 25,
            N52::V26 => 26,
            N52::V27 => 27,
            N52::V28 => 28,
            N52::V29 => 29,
            N52::V30 => 30,
            N52::V31 => 31,
            N52::V32 => 32,
            N52::V33 => 33,
            N52::V34 => 34,
            N52::V35 => 35,
            N52::V36 => 36,
            N52::V37 => 37,
            N52::V38 => 38,
            N52::V39 => 39,
            N52::V40 => 40,
            N52::V41 => 41,
            N52::V42 => 42,
            N52::V43 => 43,
            N52::V44 => 44,
            N52::V45 => 45,
            N52::V46 => 46,
            N52::V47 => 47,
            N52::V48 => 48,
            N52::V49 => 49,
            N52::V50 => 50,
            N52::V51 => 51,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..52 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_74 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N56 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55 }
impl Dom for N56 {
    const N: usize = 56;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N56] = &[N56::V0, N56::V1, N56::V2, N56::V3, N56::V4, N56::V5, N56::V6, N56::V7, N56::V8, N56::V9, N56::V10, N56::V11, N56::V12, N56::V13, N56::V14, N56::V15, N56::V16, N56::V17, N56::V18, N56::V19, N56::V20, N56::V21, N56::V22, N56::V23, N56::V24, N56::V25, N56::V26, N56::V27, N56::V28, N56::V29, N56::V30, N56::V31, N56::V32, N56::V33, N56::V34, N56::V35, N56::V36, N56::V37, N56::V38, N56::V39, N56::V40, N56::V41, N56::V42, N56::V43, N56::V44, N56::V45, N56::V46, N56::V47, N56::V48, N56::V49, N56::V50, N56::V51, N56::V52, N56::V53, N56::V54, N56::V55];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N56::V0 => 0,
            N56::V1 => 1,
            N56::V2 => 2,
            N56::V3 => 3,
            N56::V4 => 4,
            N56::V5 => 5,
            N56::V6 => 6,
            N56::V7 => 7,
            N56::V8 => 8,
            N56::V9 => 9,
            N56::V10 => 10,
            N56::V11 => 11,
            N56::V12 => 12,
            N56::V13 => 13,
            N56::V14 => 14,
            N56::V15 => 15,
            N56::V16 => 16,
            N56::V17 => 17,
            N56::V18 => 18,
            N56::V19 => 19,
            N56::V20 => 20,
            N56::V21 => 21,
            N56::V22 => 22,
            N56::V23 => 23,
            N56::V24 => 24,
            N56::V25 => 25,
            N56::V26 => 26,
            N56::V27 => 27,
            N56::V28 => 28,
            N56::V29 => 29,
            N56::V30 => 30,
            N56::V31 => 31,
            N56::V32 => 32,
            N56::V33 => 33,
            N56::V34 => 34,
            N56::V35 => 35,
            N56::V36 => 36,
            N56::V37 => 37,
            N56::V38 => 38,
            N56::V39 => 39,
            N56::V40 => 40,
            N56::V41 => 41,
            N56::V42 => 42,
            N56::V43 => 43,
            N56::V44 => 44,
            N56::V45 => 45,
            N56::V46 => 46,
            N56::V47 => 47,
            N56::V48 => 48,
            N56::V49 => 49,
            N56::V50 => 50,
            N56::V51 => 51,
            N56::V52 => 52,
            N56::V53 => 53,
            N56::V54 => 54,
            N56::V55 => 55,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..56 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_75 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N60 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59 }
impl Dom for N60 {
    const N: usize = 60;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N60] = &[N60::V0, N60::V1, N60::V2, N60::V3, N60::V4, N60::V5, N60::V6, N60::V7, N60::V8, N60::V9, N60::V10, N60::V11, N60::V12, N60::V13, N60::V14, N60::V15, N60::V16, N60::V17, N60::V18, N60::V19, N60::V20, N60::V21, N60::V22, N60::V23, N60::V24, N60::V25, N60::V26, N60::V27, N60::V28, N60::V29, N60::V30, N60::V31, N60::V32, N60::V33, N60::V34, N60::V35, N60::V36, N60::V37, N60::V38, N60::V39, N60::V40, N60::V41, N60::V42, N60::V43, N60::V44, N60::V45, N60::V46, N60::V47, N60::V48, N60::V49, N60::V50, N60::V51, N60::V52, N60::V53, N60::V54, N60::V55, N60::V56, N60::V57, N60::V58, N60::V59];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N60::V0 => 0,
            N60::V1 => 1,
            N60::V2 => 2,
            N60::V3 => 3,
            N60::V4 => 4,
            N60::V5 => 5,
            N60::V6 => 6,
            N60::V7 => 7,
            N60::V8 => 8,
            N60::V9 => 9,
            N60::V10 => 10,
            N60::V11 => 11,
            N60::V12 => 12,
            N60::V13 => 13,
            N60::V14 => 14,
            N60::V15 => 15,
            N60::V16 => 16,
            N60::V17 => 17,
            N60::V18 => 18,
            N60::V19 => 19,
            N60::V20 => 20,
            N60::V21 => 21,
            N60::V22 => 22,
            N60::V23 => 23,
            N60::V24 => 24,
            N60::V25 => 25,
            N60::V26 => 26,
            N60::V27 => 27,
            N60::V28 => 28,
            N60::V29 => 29,
            N60::V30 => 30,
            N60::V31 => 31,
            N60::V32 => 32,
            N60::V33 => 33,
            N60::V34 => 34,
            N60::V35 => 35,
            N60::V36 => 36,
            N60::V37 => 37,
            N60::V38 => 38,
            N60::V39 => 39,
            N60::V40 => 40,
            N60::V41 => 41,
            N60::V42 => 42,
            N60::V43 => 43,
            N60::V44 => 44,
            N60::V45 => 45,
            N60::V46 => 46,
            N60::V47 => 47,
            N60::V48 => 48,
            N60::V49 => 49,
            N60::V50 => 50,
            N60::V51 => 51,
            N60::V52 => 52,
            N60::V53 => 53,
            N60::V54 => 54,
            N60::V55 => 55,
            N60::V56 => 56,
            N60::V57 => 57,
            N60::V58 => 58,
            N60::V59 => 59,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..60 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_76 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N64 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }
impl Dom for N64 {
    const N: usize = 64;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N64] = &[N64::V0, N64::V1, N64::V2, N64::V3, N64::V4, N64::V5, N64::V6, N64::V7, N64::V8, N64::V9, N64::V10, N64::V11, N64::V12, N64::V13, N64::V14, N64::V15, N64::V16, N64::V17, N64::V18, N64::V19, N64::V20, N64::V21, N64::V22, N64::V23, N64::V24, N64::V25, N64::V26, N64::V27, N64::V28, N64::V29, N64::V30, N64::V31, N64::V32, N64::V33, N64::V34, N64::V35, N64::V36, N64::V37, N64::V38, N64::V39, N64::V40, N64::V41, N64::V42, N64::V43, N64::V44, N64::V45, N64::V46, N64::V47, N64::V48, N64::V49, N64::V50, N64::V51, N64::V52, N64::V53, N64::V54, N64::V55, N64::V56, N64::V57, N64::V58, N64::V59, N64::V60, N64::V61, N64::V62, N64::V63];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N64::V0 => 0,
            N64::V1 => 1,
            N64::V2 => 2,
            N64::V3 => 3,
            N64::V4 => 4,
            N64::V5 => 5,
            N64::V6 => 6,
            N64::V7 => 7,
            N64::V8 => 8,
            N64::V9 => 9,
            N64::V10 => 10,
            N64::V11 => 11,
            N64::V12 => 12,
            N64::V13 => 13,
            N64::V14 => 14,
            N64::V15 => 15,
            N64::V16 => 16,
            N64::V17 => 17,
            N64::V18 => 18,
            N64::V19 => 19,
            N64::V20 => 20,
            N64::V21 => 21,
            N64::V22 => 22,
            N64::V23 => 23,
            N64::V24 => 24,
            N64::V25 => 25,
            N64::V26 => 26,
            N64::V27 => 27,
            N64::V28 => 28,
            N64::V29 => 29,
            N64::V30 => 30,
            N64::V31 => 31,
            N64::V32 => 32,
            N64::V33 => 33,
            N64::V34 => 34,
            N64::V35 => 35,
            N64::V36 => 36,
            N64::V37 => 37,
            N64::V38 => 38,
            N64::V39 => 39,
            N64::V40 => 40,
            N64::V41 => 41,
            N64::V42 => 42,
            N64::V43 => 43,
            N64::V44 => 44,
            N64::V45 => 45,
            N64::V46 => 46,
            N64::V47 => 47,
            N64::V48 => 48,
            N64::V49 => 49,
            N64::V50 => 50,
            N64::V51 => 51,
            N64::V52 => 52,
            N64::V53 => 53,
            N64::V54 => 54,
            N64::V55 => 55,
            N64::V56 => 56,
            N64::V57 => 57,
            N64::V58 => 58,
            N64::V59 => 59,
            N64::V60 => 60,
            N64::V61 => 61,
            N64::V62 => 62,
            N64::V63 => 63,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..64 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_77 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N95 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94 }
impl Dom for N95 {
    const N: usize = 95;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N95] = &[N95::V0, N95::V1, N95::V2, N95::V3, N95::V4, N95::V5, N95::V6, N95::V7, N95::V8, N95::V9, N95::V10, N95::V11, N95::V12, N95::V13, N95::V14, N95::V15, N95::V16, N95::V17, N95::V18, N95::V19, N95::V20, N95::V21, N95::V22, N95::V23, N95::V24, N95::V25, N95::V26, N95::V27, N95::V28, N95::V29, N95::V30, N95::V31, N95::V32, N95::V33, N95::V34, N95::V35, N95::V36, N95::V37, N95::V38, N95::V39, N95::V40, N95::V41, N95::V42, N95::V43, N95::V44, N95::V45, N95::V46, N95::V47, N95::V48, N95::V49, N95::V50, N95::V51, N95::V52, N95::V53, N95::V54, N95::V55, N95::V56, N95::V57, N95::V58, N95::V59, N95::V60, N95::V61, N95::V62, N95::V63, N95::V64, N95::V65, N95::V66, N95::V67, N95::V68, N95::V69, N95::V70, N95::V71, N95::V72, N95::V73, N95::V74, N95::V75, N95::V76, N95::V77, N95::V78, N95::V79, N95::V80, N95::V81, N95::V82, N95::V83, N95::V84, N95::V85, N95::V86, N95::V87, N95::V88, N95::V89, N95::V90, N95::V91, N95::V92, N95::V93, N95::V94];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N95::V0 => 0,
            N95::V1 => 1,
            N95::V2 => 2,
            N95::V3 => 3,
            N95::V4 => 4,
            N95::V5 => 5,
            N95::V6 => 6,
            N95::V7 => 7,
            N95::V8 => 8,
            N95::V9 => 9,
            N95::V10 => 10,
            N95::V11 => 11,
            N95::V12 => 12,
            N95::V13 => 13,
            N95::V14 => 14,
            N95::V15 => 15,
            N95::V16 => 16,
            N95::V17 => 17,
            N95::V18 => 18,
            N95::V19 => 19,
            N95::V20 => 20,
            N95::V21 => 21,
            N95::V22 => 22,
            N95::V23 => 23,
            N95::V24 => 24,
            N95::V25 => 25,
            N95::V26 => 26,
            N95::V27 => 27,
            N95::V28 => 28,
            N95::V29 => 29,
            N95::V30 => 30,
            N95::V31 => 31,
            N95::V32 => 32,
            N95::V33 => 33,
            N95::V34 => 34,
            N95::V35 => 35,
            N95::V36 => 36,
            N95::V37 => 37,
            N95::V38 => 38,
            N95::V39 => 39,
            N95::V40 => 40,
            N95::V41 => 41,
            N95::V42 => 42,
            N95::V43 => 43,
            N95::V44 => 44,
            N95::V45 => 45,
            N95::V46 => 46,
            N95::V47 => 47,
            N95::V48 => 48,
            N95::V49 => 49,
            N95::V50 => 50,
            N95::V51 => 51,
            N95::V52 => 52,
            N95::V53 => 53,
            N95::V54 => 54,
            N95::V55 => 55,
            N95::V56 => 56,
            N95::V57 => 57,
            N95::V58 => 58,
            N95::V59 => 59,
            N95::V60 => 60,
            N95::V61 => 61,
            N95::V62 => 62,
            N95::V63 => 63,
            N95::V64 => 64,
            N95::V65 => 65,
            N95::V66 => 66,
            N95::V67 => 67,
            N95::V68 => 68,
            N95::V69 => 69,
            N95::V70 => 70,
            N95::V71 => 71,
            N95::V72 => 72,
            N95::V73 => 73,
            N95::V74 => 74,
            N95::V75 => 75,
            N95::V76 => 76,
            N95::V77 => 77,
            N95::V78 => 78,
            N95::V79 => 79,
            N95::V80 => 80,
            N95::V81 => 81,
            N95::V82 => 82,
            N95::V83 => 83,
            N95::V84 => 84,
            N95::V85 => 85,
            N95::V86 => 86,
            N95::V87 => 87,
            N95::V88 => 88,
            N95::V89 => 89,
            N95::V90 => 90,
            N95::V91 => 91,
            N95::V92 => 92,
            N95::V93 => 93,
            N95::V94 => 94,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..95 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_78 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N127 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126 }
impl Dom for N127 {
    const N: usize = 127;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N127] = &[N127::V0, N127::V1, N127::V2, N127::V3, N127::V4, N127::V5, N127::V6, N127::V7, N127::V8, N127::V9, N127::V10, N127::V11, N127::V12, N127::V13, N127::V14, N127::V15, N127::V16, N127::V17, N127::V18, N127::V19, N127::V20, N127::V21, N127::V22, N127::V23, N127::V24, N127::V25, N127::V26, N127::V27, N127::V28, N127::V29, N127::V30, N127::V31, N127::V32, N127::V33, N127::V34, N127::V35, N127::V36, N127::V37, N127::V38, N127::V39, N127::V40, N127::V41, N127::V42, N127::V43, N127::V44, N127::V45, N127::V46, N127::V47, N127::V48, N127::V49, N127::V50, N127::V51, N127::V52, N127::V53, N127::V54, N127::V55, N127::V56, N127::V57, N127::V58, N127::V59, N127::V60, N127::V61, N127::V62, N127::V63, N127::V64, N127::V65, N127::V66, N127::V67, N127::V68, N127::V69, N127::V70, N127::V71, N127::V72, N127::V73, N127::V74, N127::V75, N127::V76, N127::V77, N127::V78, N127::V79, N127::V80, N127::V81, N127::V82, N127::V83, N127::V84, N127::V85, N127::V86, N127::V87, N127::V88, N127::V89, N127::V90, N127::V91, N127::V92, N127::V93, N127::V94, N127::V95, N127::V96, N127::V97, N127::V98, N127::V99, N127::V100, N127::V101, N127::V102, N127::V103, N127::V104, N127::V105, N127::V106, N127::V107, N127::V108, N127::V109, N127::V110, N127::V111, N127::V112, N127::V113, N127::V114, N127::V115, N127::V116, N127::V117, N127::V118, N127::V119, N127::V120, N127::V121, N127::V122, N127::V123, N127::V124, N127::V125, N127::V126];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N127::V0 => 0,
            N127::V1 => 1,
            N127::V2 => 2,
            N127::V3 => 3,
            N127::V4 => 4,
            N127::V5 => 5,
            N127::V6 => 6,
            N127::V7 => 7,
            N127::V8 => 8,
            N127::V9 => 9,
            N127::V10 => 10,
            N127::V11 => 11,
            N127::V12 => 12,
            N127::V13 => 13,
            N127::V14 => 14,
            N127::V15 => 15,
            N127::V16 => 16,
            N127::V17 => 17,
            N127::V18 => 18,
            N127::V19 => 19,
            N127::V20 => 20,
            N127::V21 => 21,
            N127::V22 => 22,
            N127::V23 => 23,
            N127::V24 => 24,
            N127::V25 => 25,
            N127::V26 => 26,
            N127::V27 => 27,
            N127::V28 => 28,
            N127::V29 => 29,
            N127::V30 => 30,
            N127::V31 => 31,
            N127::V32 => 32,
            N127::V33 => 33,
            N127::V34 => 34,
            N127::V35 => 35,
            N127::V36 => 36,
            N127::V37 => 37,
            N127::V38 => 38,
            N127::V39 => 39,
            N127::V40 => 40,
            N127::V41 => 41,
            N127::V42 => 42,
            N127::V43 => 43,
            N127::V44 => 44,
            N127::V45 => 45,
            N127::V46 => 46,
            N127::V47 => 47,
            N127::V48 => 48,
            N127::V49 => 49,
            N127::V50 => 50,
            N127::V51 => 51,
            N127::V52 => 52,
            N127::V53 => 53,
            N127::V54 => 54,
            N127::V55 => 55,
            N127::V56 => 56,
            N127::V57 => 57,
            N127::V58 => 58,
            N127::V59 => 59,
            N127::V60 => 60,
            N127::V61 => 61,
            N127::V62 => 62,
            N127::V63 => 63,
            N127::V64 => 64,
            N127::V65 => 65,
            N127::V66 => 66,
            N127::V67 => 67,
            N127::V68 => 68,
            N127::V69 => 69,
            N127::V70 => 70,
            N127::V71 => 71,
            N127::V72 => 72,
            N127::V73 => 73,
            N127::V74 => 74,
            N127::V75 => 75,
            N127::V76 => 76,
            N127::V77 => 77,
            N127::V78 => 78,
            N127::V79 => 79,
            N127::V80 => 80,
            N127::V81 => 81,
            N127::V82 => 82,
            N127::V83 => 83,
            N127::V84 => 84,
            N127::V85 => 85,
            N127::V86 => 86,
            N127::V87 => 87,
            N127::V88 => 88,
            N127::V89 => 89,
            N127::V90 => 90,
            N127::V91 => 91,
            N127::V92 => 92,
            N127::V93 => 93,
            N127::V94 => 94,
            N127::V95 => 95,
            N127::V96 => 96,
            N127::V97 => 97,
            N127::V98 => 98,
            N127::V99 => 99,
            N127::V100 => 100,
            N127::V101 => 101,
            N127::V102 => 102,
            N127::V103 => 103,
            N127::V104 => 104,
            N127::V105 => 105,
            N127::V106 => 106,
            N127::V107 => 107,
            N127::V108 => 108,
            N127::V109 => 109,
            N127::V110 => 110,
            N127::V111 => 111,
            N127::V112 => 112,
            N127::V113 => 113,
            N127::V114 => 114,
            N127::V115 => 115,
            N127::V116 => 116,
            N127::V117 => 117,
            N127::V118 => 118,
            N127::V119 => 119,
            N127::V120 => 120,
            N127::V121 => 121,
            N127::V122 => 122,
            N127::V123 => 123,
            N127::V124 => 124,
            N127::V125 => 125,
            N127::V126 => 126,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..127 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_79 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N254 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253 }
impl Dom for N254 {
    const N: usize = 254;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N254] = &[N254::V0, N254::V1, N254::V2, N254::V3, N254::V4, N254::V5, N254::V6, N254::V7, N254::V8, N254::V9, N254::V10, N254::V11, N254::V12, N254::V13, N254::V14, N254::V15, N254::V16, N254::V17, N254::V18, N254::V19, N254::V20, N254::V21, N254::V22, N254::V23, N254::V24, N254::V25, N254::V26, N254::V27, N254::V28, N254::V29, N254::V30, N254::V31, N254::V32, N254::V33, N254::V34, N254::V35, N254::V36, N254::V37, N254::V38, N254::V39, N254::V40, N254::V41, N254::V42, N254::V43, N254::V44, N254::V45, N254::V46, N254::V47, N254::V48, N254::V49, N254::V50, N254::V51, N254::V52, N254::V53, N254::V54, N254::V55, N254::V56, N254::V57, N254::V58, N254::V59, N254::V60, N254::V61, N254::V62, N254::V63, N254::V64, N254::V65, N254::V66, N254::V67, N254::V68, N254::V69, N254::V70, N254::V71, N254::V72, N254::V73, N254::V74, N254::V75, N254::V76, N254::V77, N254::V78, N254::V79, N254::V80, N254::V81, N254::V82, N254::V83, N254::V84, N254::V85, N254::V86, N254::V87, N254::V88, N254::V89, N254::V90, N254::V91, N254::V92, N254::V93, N254::V94, N254::V95, N254::V96, N254::V97, N254::V98, N254::V99, N254::V100, N254::V101, N254::V102, N254::V103, N254::V104, N254::V105, N254::V106, N254::V107, N254::V108, N254::V109, N254::V110, N254::V111, N254::V112, N254::V113, N254::V114, N254::V115, N254::V116, N254::V117, N254::V118, N254::V119, N254::V120, N254::V121, N254::V122, N254::V123, N254::V124, N254::V125, N254::V126, N254::V127, N254::V128, N254::V129, N254::V130, N254::V131, N254::V132, N254::V133, N254::V134, N254::V135, N254::V136, N254::V137, N254::V138, N254::V139, N254::V140, N254::V141, N254::V142, N254::V143, N254::V144, N254::V145, N254::V146, N254::V147, N254::V148, N254::V149, N254::V150, N254::V151, N254::V152, N254::V153, N254::V154, N254::V155, N254::V156, N254::V157, N254::V158, N254::V159, N254::V160, N254::V161, N254::V162, N254::V163, N254::V164, N254::V165, N254::V166, N254::V167, N254::V168, N254::V169, N254::V170, N254::V171, N254::V172, N254::V173, N254::V174, N254::V175, N254::V176, N254::V177, N254::V178, N254::V179, N254::V180, N254::V181, N254::V182, N254::V183, N254::V184, N254::V185, N254::V186, N254::V187, N254::V188, N254::V189, N254::V190, N254::V191, N254::V192, N254::V193, N254::V194, N254::V195, N254::V196, N254::V197, N254::V198, N254::V199, N254::V200, N254::V201, N254::V202, N254::V203, N254::V204, N254::V205, N254::V206, N254::V207, N254::V208, N254::V209, N254::V210, N254::V211, N254::V212, N254::V213, N254::V214, N254::V215, N254::V216, N254::V217, N254::V218, N254::V219, N254::V220, N254::V221, N254::V222, N254::V223, N254::V224, N254::V225, N254::V226, N254::V227, N254::V228, N254::V229, N254::V230, N254::V231, N254::V232, N254::V233, N254::V234, N254::V235, N254::V236, N254::V237, N254::V238, N254::V239, N254::V240, N254::V241, N254::V242, N254::V243, N254::V244, N254::V245, N254::V246, N254::V247, N254::V248, N254::V249, N254::V250, N254::V251, N254::V252, N254::V253];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N254::V0 => 0,
            N254::V1 => 1,
            N254::V2 => 2,
            N254::V3 => 3,
            N254::V4 => 4,
            N254::V5 => 5,
            N254::V6 => 6,
            N254::V7 => 7,
            N254::V8 => 8,
            N254::V9 => 9,
            N254::V10 => 10,
            N254::V11 => 11,
            N254::V12 => 12,
            N254::V13 => 13,
            N254::V14 => 14,
            N254::V15 => 15,
            N254::V16 => 16,
            N254::V17 => 17,
            N254::V18 => 18,
            N254::V19 => 19,
            N254::V20 => 20,
            N254::V21 => 21,
            N254::V22 => 22,
            N254::V23 => 23,
            N254::V24 => 24,
            N254::V25 => 25,
            N254::V26 => 26,
            N254::V27 => 27,
            N254::V28 => 28,
            N254::V29 => 29,
            N254::V30 => 30,
            N254::V31 => 31,
            N254::V32 => 32,
            N254::V33 => 33,
            N254::V34 => 34,
            N254::V35 => 35,
            N254::V36 => 36,
            N254::V37 => 37,
            N254::V38 => 38,
            N254::V39 => 39,
            N254::V40 => 40,
            N254::V41 => 41,
            N254::V42 => 42,
            N254::V43 => 43,
            N254::V44 => 44,
            N254::V45 => 45,
            N254::V46 => 46,
            N254::V47 => 47,
            N254::V48 => 48,
            N254::V49 => 49,
            N254::V50 => 50,
            N254::V51 => 51,
            N254::V52 => 52,
            N254::V53 => 53,
            N254::V54 => 54,
            N254::V55 => 55,
            N254::V56 => 56,
            N254::V57 => 57,
            N254::V58 => 58,
            N254::V59 => 59,
            N254::V60 => 60,
            N254::V61 => 61,
            N254::V62 => 62,
            N254::V63 => 63,
            N254::V64 => 64,
            N254::V65 => 65,
            N254::V66 => 66,
            N254::V67 => 67,
            N254::V68 => 68,
            N254::V69 => 69,
            N254::V70 => 70,
            N254::V71 => 71,
            N254::V72 => 72,
            N254::V73 => 73,
            N254::V74 => 74,
            N254::V75 => 75,
            N254::V76 => 76,
            N254::V77 => 77,
            N254::V78 => 78,
            N254::V79 => 79,
            N254::V80 => 80,
            N254::V81 => 81,
            N254::V82 => 82,
            N254::V83 => 83,
            N254::V84 => 84,
            N254::V85 => 85,
            N254::V86 => 86,
            N254::V87 => 87,
            N254::V88 => 88,
            N254::V89 => 89,
            N254::V90 => 90,
            N254::V91 => 91,
            N254::V92 => 92,
            N254::V93 => 93,
            N254::V94 => 94,
            N254::V95 => 95,
            N254::V96 => 96,
            N254::V97 => 97,
            N254::V98 => 98,
            N254::V99 => 99,
            N254::V100 => 100,
            N254::V101 => 101,
            N254::V102 => 102,
            N254::V103 => 103,
            N254::V104 => 104,
            N254::V105 => 105,
            N254::V106 => 106,
            N254::V107 => 107,
            N254::V108 => 108,
            N254::V109 => 109,
            N254::V110 => 110,
            N254::V111 => 111,
            N254::V112 => 112,
            N254::V113 => 113,
            N254::V114 => 114,
            N254::V115 => 115,
            N254::V116 => 116,
            N254::V117 => 117,
            N254::V118 => 118,
            N254::V119 => 119,
            N254::V120 => 120,
            N254::V121 => 121,
            N254::V122 => 122,
            N254::V123 => 123,
            N254::V124 => 124,
            N254::V125 => 125,
            N254::V126 => 126,
            N254::V127 => 127,
            N254::V128 => 128,
            N254::V129 => 129,
            N254::V130 => 130,
            N254::V131 => 131,
            N254::V132 => 132,
            N254::V133 => 133,
            N254::V134 => 134,
            N254::V135 => 135,
            N254::V136 => 136,
            N254::V137 => 137,
            N254::V138 => 138,
            N254::V139 => 139,
            N254::V140 => 140,
            N254::V141 => 141,
            N254::V142 => 142,
            N254::V143 => 143,
            N254::V144 => 144,
            N254::V145 => 145,
            N254::V146 => 146,
            N254::V147 => 147,
            N254::V148 => 148,
            N254::V149 => 149,
            N254::V150 => 150,
            N254::V151 => 151,
            N254::V152 => 152,
            N254::V153 => 153,
            N254::V154 => 154,
            N254::V155 => 155,
            N254::V156 => 156,
            N254::V157 => 157,
            N254::V158 => 158,
            N254::V159 => 159,
            N254::V160 => 160,
            N254::V161 => 161,
            N254::V162 => 162,
            N254::V163 => 163,
            N254::V164 => 164,
            N254::V165 => 165,
            N254::V166 => 166,
            N254::V167 => 167,
            N254::V168 => 168,
            N254::V169 => 169,
            N254::V170 => 170,
            N254::V171 => 171,
            N254::V172 => 172,
            N254::V173 => 173,
            N254::V174 => 174,
            N254::V175 => 175,
            N254::V176 => 176,
            N254::V177 => 177,
            N254::V178 => 178,
            N254::V179 => 179,
            N254::V180 => 180,
            N254::V181 => 181,
            N254::V182 => 182,
            N254::V183 => 183,
            N254::V184 => 184,
            N254::V185 => 185,
            N254::V186 => 186,
            N254::V187 => 187,
            N254::V188 => 188,
            N254::V189 => 189,
            N254::V190 => 190,
            N254::V191 => 191,
            N254::V192 => 192,
            N254::V193 => 193,
            N254::V194 => 194,
            N254::V195 => 195,
            N254::V196 => 196,
            N254::V197 => 197,
            N254::V198 => 198,
            N254::V199 => 199,
            N254::V200 => 200,
            N254::V201 => 201,
            N254::V202 => 202,
            N254::V203 => 203,
            N254::V204 => 204,
            N254::V205 => 205,
            N254::V206 => 206,
            N254::V207 => 207,
            N254::V208 => 208,
            N254::V209 => 209,
            N254::V210 => 210,
            N254::V211 => 211,
            N254::V212 => 212,
            N254::V213 => 213,
            N254::V214 => 214,
            N254::V215 => 215,
            N254::V216 => 216,
            N254::V217 => 217,
            N254::V218 => 218,
            N254::V219 => 219,
            N254::V220 => 220,
            N254::V221 => 221,
            N254::V222 => 222,
            N254::V223 => 223,
            N254::V224 => 224,
            N254::V225 => 225,
            N254::V226 => 226,
            N254::V227 => 227,
            N254::V228 => 228,
            N254::V229 => 229,
            N254::V230 => 230,
            N254::V231 => 231,
            N254::V232 => 232,
            N254::V233 => 233,
            N254::V234 => 234,
            N254::V235 => 235,
            N254::V236 => 236,
            N254::V237 => 237,
            N254::V238 => 238,
            N254::V239 => 239,
            N254::V240 => 240,
            N254::V241 => 241,
            N254::V242 => 242,
            N254::V243 => 243,
            N254::V244 => 244,
            N254::V245 => 245,
            N254::V246 => 246,
            N254::V247 => 247,
            N254::V248 => 248,
            N254::V249 => 249,
            N254::V250 => 250,
            N254::V251 => 251,
            N254::V252 => 252,
            N254::V253 => 253,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..254 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_80 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum M65 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64(bool) }
impl Dom for M65 {
    const N: usize = 63 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return M65::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return M65::V1; } i -= 1;
        if i == 0 { return M65::V2; } i -= 1;
        if i == 0 { return M65::V3; } i -= 1;
        if i == 0 { return M65::V4; } i -= 1;
        if i == 0 { return M65::V5; } i -= 1;
        if i == 0 { return M65::V6; } i -= 1;
        if i == 0 { return M65::V7; } i -= 1;
        if i == 0 { return M65::V8; } i -= 1;
        if i == 0 { return M65::V9; } i -= 1;
        if i == 0 { return M65::V10; } i -= 1;
        if i == 0 { return M65::V11; } i -= 1;
        if i == 0 { return M65::V12; } i -= 1;
        if i == 0 { return M65::V13; } i -= 1;
        if i == 0 { return M65::V14; } i -= 1;
        if i == 0 { return M65::V15; } i -= 1;
        if i == 0 { return M65::V16; } i -= 1;
        if i == 0 { return M65::V17; } i -= 1;
        if i == 0 { return M65::V18; } i -= 1;
        if i == 0 { return M65::V19; } i -= 1;
        if i == 0 { return M65::V20; } i -= 1;
        if i == 0 { return M65::V21; } i -= 1;
        if i == 0 { return M65::V22; } i -= 1;
        if i == 0 { return M65::V23; } i -= 1;
        if i == 0 { return M65::V24; } i -= 1;
        if i == 0 { return M65::V25; } i -= 1;
        if i == 0 { return M65::V26; } i -= 1;
        if i == 0 { return M65::V27; } i -= 1;
        if i == 0 { return M65::V28; } i -= 1;
        if i == 0 { return M65::V29; } i -= 1;
        if i == 0 { return M65::V30; } i -= 1;
        if i == 0 { return M65::V31; } i -= 1;
        if i == 0 { return M65::V32; } i -= 1;
        if i == 0 { return M65::V33; } i -= 1;
        if i == 0 { return M65::V34; } i -= 1;
        if i == 0 { return M65::V35; } i -= 1;
        if i == 0 { return M65::V36; } i -= 1;
        if i == 0 { return M65::V37; } i -= 1;
        if i == 0 { return M65::V38; } i -= 1;
        if i == 0 { return M65::V39; } i -= 1;
        if i == 0 { return M65::V40; } i -= 1;
        if i == 0 { return M65::V41; } i -= 1;
        if i == 0 { return M65::V42; } i -= 1;
        if i == 0 { return M65::V43; } i -= 1;
        if i == 0 { return M65::V44; } i -= 1;
        if i == 0 { return M65::V45; } i -= 1;
        if i == 0 { return M65::V46; } i -= 1;
        if i == 0 { return M65::V47; } i -= 1;
        if i == 0 { return M65::V48; } i -= 1;
        if i == 0 { return M65::V49; } i -= 1;
        if i == 0 { return M65::V50; } i -= 1;
        if i == 0 { return M65::V51; } i -= 1;
        if i == 0 { return M65::V52; } i -= 1;
        if i == 0 { return M65::V53; } i -= 1;
        if i == 0 { return M65::V54; } i -= 1;
        if i == 0 { return M65::V55; } i -= 1;
        if i == 0 { return M65::V56; } i -= 1;
        if i == 0 { return M65::V57; } i -= 1;
        if i == 0 { return M65::V58; } i -= 1;
        if i == 0 { return M65::V59; } i -= 1;
        if i == 0 { return M65::V60; } i -= 1;
        if i == 0 { return M65::V61; } i -= 1;
        if i == 0 { return M65::V62; } i -= 1;
        if i == 0 { return M65::V63; } i -= 1;
        if i < <bool as Dom>::N { return M65::V64(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            M65::V0(x) => off(0, <bool as Dom>::idx(x)),
            M65::V1 => 0 + <bool as Dom>::N,
            M65::V2 => 1 + <bool as Dom>::N,
            M65::V3 => 2 + <bool as Dom>::N,
            M65::V4 => 3 + <bool as Dom>::N,
            M65::V5 => 4 + <bool as Dom>::N,
            M65::V6 => 5 + <bool as Dom>::N,
            M65::V7 => 6 + <bool as Dom>::N,
            M65::V8 => 7 + <bool as Dom>::N,
            M65::V9 => 8 + <bool as Dom>::N,
            M65::V10 => 9 + <bool as Dom>::N,
            M65::V11 => 10 + <bool as Dom>::N,
            M65::V12 => 11 + <bool as Dom>::N,
            M65::V13 => 12 + <bool as Dom>::N,
            M65::V14 => 13 + <bool as Dom>::N,
            M65::V15 => 14 + <bool as Dom>::N,
            M65::V16 => 15 + <bool as Dom>::N,
            M65::V17 => 16 + <bool as Dom>::N,
            M65::V18 => 17 + <bool as Dom>::N,
            M65::V19 => 18 + <bool as Dom>::N,
            M65::V20 => 19 + <bool as Dom>::N,
            M65::V21 => 20 + <bool as Dom>::N,
            M65::V22 => 21 + <bool as Dom>::N,
            M65::V23 => 22 + <bool as Dom>::N,
            M65::V24 => 23 + <bool as Dom>::N,
            M65::V25 => 24 + <bool as Dom>::N,
            M65::V26 => 25 + <bool as Dom>::N,
            M65::V27 => 26 + <bool as Dom>::N,
            M65::V28 => 27 + <bool as Dom>::N,
            M65::V29 => 28 + <bool as Dom>::N,
            M65::V30 => 29 + <bool as Dom>::N,
            M65::V31 => 30 + <bool as Dom>::N,
            M65::V32 => 31 + <bool as Dom>::N,
            M65::V33 => 32 + <bool as Dom>::N,
            M65::V34 => 33 + <bool as Dom>::N,
            M65::V35 => 34 + <bool as Dom>::N,
            M65::V36 => 35 + <bool as Dom>::N,
            M65::V37 => 36 + <bool as Dom>::N,
            M65::V38 => 37 + <bool as Dom>::N,
            M65::V39 => 38 + <bool as Dom>::N,
            M65::V40 => 39 + <bool as Dom>::N,
            M65::V41 => 40 + <bool as Dom>::N,
            M65::V42 => 41 + <bool as Dom>::N,
            M65::V43 => 42 + <bool as Dom>::N,
            M65::V44 => 43 + <bool as Dom>::N,
            M65::V45 => 44 + <bool as Dom>::N,
            M65::V46 => 45 + <bool as Dom>::N,
            M65::V47 => 46 + <bool as Dom>::N,
            M65::V48 => 47 + <bool as Dom>::N,
            M65::V49 => 48 + <bool as Dom>::N,
            M65::V50 => 49 + <bool as Dom>::N,
            M65::V51 => 50 + <bool as Dom>::N,
            M65::V52 => 51 + <bool as Dom>::N,
            M65::V53 => 52 + <bool as Dom>::N,
            M65::V54 => 53 + <bool as Dom>::N,
            M65::V55 => 54 + <bool as Dom>::N,
            M65::V56 => 55 + <bool as Dom>::N,
            M65::V57 => 56 + <bool as Dom>::N,
            M65::V58 => 57 + <bool as Dom>::N,
            M65::V59 => 58 + <bool as Dom>::N,
            M65::V60 => 59 + <bool as Dom>::N,
            M65::V61 => 60 + <bool as Dom>::N,
            M65::V62 => 61 + <bool as Dom>::N,
            M65::V63 => 62 + <bool as Dom>::N,
            M65::V64(x) => off(63 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_81 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
#[repr(i64)]
pub enum RBi64 { A = 9223372036854775807, B = -9223372036854775808, C }
impl Dom for RBi64 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[RBi64] = &[RBi64::A, RBi64::B, RBi64::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            RBi64::A => 0,
            RBi64::B => 1,
            RBi64::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_82 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[repr(u8)]
pub enum RP { A(bool), B, C(Option<bool>) }
impl Dom for RP {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return RP::A(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return RP::B; } i -= 1;
        if i < <Option<bool> as Dom>::N { return RP::C(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            RP::A(x) => off(0, <bool as Dom>::idx(x)),
            RP::B => 0 + <bool as Dom>::N,
            RP::C(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_83 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC0 { Some(bool), None, Ok(Option<bool>) }
impl Dom for IC0 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC0::Some(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC0::None; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC0::Ok(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC0::Some(x) => off(0, <bool as Dom>::idx(x)),
            IC0::None => 0 + <bool as Dom>::N,
            IC0::Ok(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_84 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID3 { Err, Self_(&'static str), V }
impl Dom for ID3 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID3::Err; } i -= 1;
        if i < <&'static str as Dom>::N { return ID3::Self_(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID3::V; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID3::Err => 0,
            ID3::Self_(x) => off(1, <&'static str as Dom>::idx(x)),
            ID3::V => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_85 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I9 { A, a, Item }
impl Dom for I9 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I9] = &[I9::A, I9::a, I9::Item];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I9::A => 0,
            I9::a => 1,
            I9::Item => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_86 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB12 { Iter, Keys, Values }
impl Dom for IB12 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB12] = &[IB12::Iter, IB12::Keys, IB12::Values];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB12::Iter => 0,
            IB12::Keys => 1,
            IB12::Values => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_87 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC15 { IterMut(bool), ValuesMut, IntoIter(Option<bool>) }
impl Dom for IC15 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC15::IterMut(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC15::ValuesMut; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC15::IntoIter(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC15::IterMut(x) => off(0, <bool as Dom>::idx(x)),
            IC15::ValuesMut => 0 + <bool as Dom>::N,
            IC15::IntoIter(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_88 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID18 { Occupied, Vacant(&'static str), MapStorage }
impl Dom for ID18 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID18::Occupied; } i -= 1;
        if i < <&'static str as Dom>::N { return ID18::Vacant(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID18::MapStorage; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID18::Occupied => 0,
            ID18::Vacant(x) => off(1, <&'static str as Dom>::idx(x)),
            ID18::MapStorage => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_89 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I24 { VacantEntry, OccupiedEntry, Entry }
impl Dom for I24 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I24] = &[I24::VacantEntry, I24::OccupiedEntry, I24::Entry];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I24::VacantEntry => 0,
            I24::OccupiedEntry => 1,
            I24::Entry => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_90 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB27 { SimpleOccupied, SimpleVacant, Option }
impl Dom for IB27 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB27] = &[IB27::SimpleOccupied, IB27::SimpleVacant, IB27::Option];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB27::SimpleOccupied => 0,
            IB27::SimpleVacant => 1,
            IB27::Option => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_91 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC30 { Result(bool), Box, String(Option<bool>) }
impl Dom for IC30 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC30::Result(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC30::Box; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC30::String(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC30::Result(x) => off(0, <bool as Dom>::idx(x)),
            IC30::Box => 0 + <bool as Dom>::N,
            IC30::String(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_92 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID33 { Vec, bool(&'static str), usize }
impl Dom for ID33 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID33::Vec; } i -= 1;
        if i < <&'static str as Dom>::N { return ID33::bool(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID33::usize; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID33::Vec => 0,
            ID33::bool(x) => off(1, <&'static str as Dom>::idx(x)),
            ID33::usize => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_93 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I39 { std, fixed_map, data }
impl Dom for I39 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I39] = &[I39::std, I39::fixed_map, I39::data];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I39::std => 0,
            I39::fixed_map => 1,
            I39::data => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_94 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB42 { start, end, iter }
impl Dom for IB42 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB42] = &[IB42::start, IB42::end, IB42::iter];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB42::start => 0,
            IB42::end => 1,
            IB42::iter => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_95 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC45 { key(bool), value, val(Option<bool>) }
impl Dom for IC45 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC45::key(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC45::value; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC45::val(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC45::key(x) => off(0, <bool as Dom>::idx(x)),
            IC45::value => 0 + <bool as Dom>::N,
            IC45::val(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_96 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID48 { v, k(&'static str), func }
impl Dom for ID48 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID48::v; } i -= 1;
        if i < <&'static str as Dom>::N { return ID48::k(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID48::func; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID48::v => 0,
            ID48::k(x) => off(1, <&'static str as Dom>::idx(x)),
            ID48::func => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_97 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I54 { hasher, f, option_to_entry }
impl Dom for I54 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I54] = &[I54::hasher, I54::f, I54::option_to_entry];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I54::hasher => 0,
            I54::f => 1,
            I54::option_to_entry => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_98 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB57 { BITS, _0, _1 }
impl Dom for IB57 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB57] = &[IB57::BITS, IB57::_0, IB57::_1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB57::BITS => 0,
            IB57::_0 => 1,
            IB57::_1 => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_99 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC60 { _2(bool), __, r#type(Option<bool>) }
impl Dom for IC60 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC60::_2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC60::__; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC60::r#type(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC60::_2(x) => off(0, <bool as Dom>::idx(x)),
            IC60::__ => 0 + <bool as Dom>::N,
            IC60::r#type(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_100 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID63 { r#fn, r#match(&'static str), r#loop }
impl Dom for ID63 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID63::r#fn; } i -= 1;
        if i < <&'static str as Dom>::N { return ID63::r#match(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID63::r#loop; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID63::r#fn => 0,
            ID63::r#match(x) => off(1, <&'static str as Dom>::idx(x)),
            ID63::r#loop => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_101 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I69 { Default, Key, Map }
impl Dom for I69 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I69] = &[I69::Default, I69::Key, I69::Map];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I69::Default => 0,
            I69::Key => 1,
            I69::Map => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_102 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB72 { Set, Hash, Ord }
impl Dom for IB72 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB72] = &[IB72::Set, IB72::Hash, IB72::Ord];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB72::Set => 0,
            IB72::Hash => 1,
            IB72::Ord => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_103 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC75 { Less(bool), Equal, Greater(Option<bool>) }
impl Dom for IC75 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC75::Less(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC75::Equal; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC75::Greater(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC75::Less(x) => off(0, <bool as Dom>::idx(x)),
            IC75::Equal => 0 + <bool as Dom>::N,
            IC75::Greater(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_104 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID78 { Copy, Clone(&'static str), EMPTY }
impl Dom for ID78 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID78::Copy; } i -= 1;
        if i < <&'static str as Dom>::N { return ID78::Clone(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID78::EMPTY; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID78::Copy => 0,
            ID78::Clone(x) => off(1, <&'static str as Dom>::idx(x)),
            ID78::EMPTY => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_105 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I84 { remove, get, retain }
impl Dom for I84 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I84] = &[I84::remove, I84::get, I84::retain];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I84::remove => 0,
            I84::get => 1,
            I84::retain => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_106 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB87 { clear, contains, empty }
impl Dom for IB87 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB87] = &[IB87::clear, IB87::contains, IB87::empty];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB87::clear => 0,
            IB87::contains => 1,
            IB87::empty => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_107 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC90 { entry(bool) }
impl Dom for IC90 {
    const N: usize = 0 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC90::entry(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC90::entry(x) => off(0, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_108 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum T { A, B }
impl Dom for T {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[T] = &[T::A, T::B];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            T::A => 0,
            T::B => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_109 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum r#type { A, B }
impl Dom for r#type {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[r#type] = &[r#type::A, r#type::B];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            r#type::A => 0,
            r#type::B => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_110 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Data { A, B }
impl Dom for Data {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[Data] = &[Data::A, Data::B];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            Data::A => 0,
            Data::B => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub fn jobs(c: &mut fmcore::report::Ctx) {
    c.job("S1K", |w| fmcheck_slots::unit::<m_0::S1K>(w, "S1K"));
    c.job("S2UO", |w| fmcheck_slots::unit::<m_1::S2UO>(w, "S2UO"));
    c.job("S2BU", |w| fmcheck_slots::unit::<m_2::S2BU>(w, "S2BU"));
    c.job("S2BD", |w| fmcheck_slots::unit::<m_3::S2BD>(w, "S2BD"));
    c.job("S2SK", |w| fmcheck_slots::unit::<m_4::S2SK>(w, "S2SK"));
    c.job("S2OS", |w| fmcheck_slots::unit::<m_5::S2OS>(w, "S2OS"));
    c.job("S2OW", |w| fmcheck_slots::unit::<m_6::S2OW>(w, "S2OW"));
    c.job("S2EC", |w| fmcheck_slots::unit::<m_7::S2EC>(w, "S2EC"));
    c.job("S2KE", |w| fmcheck_slots::unit::<m_8::S2KE>(w, "S2KE"));
    c.job("S2ZB", |w| fmcheck_slots::unit::<m_9::S2ZB>(w, "S2ZB"));
    c.job("S2ZT", |w| fmcheck_slots::unit::<m_10::S2ZT>(w, "S2ZT"));
    c.job("S2CZ", |w| fmcheck_slots::unit::<m_11::S2CZ>(w, "S2CZ"));
    c.job("S2DO", |w| fmcheck_slots::unit::<m_12::S2DO>(w, "S2DO"));
    c.job("S2TU", |w| fmcheck_slots::unit::<m_13::S2TU>(w, "S2TU"));
    c.job("S2TD", |w| fmcheck_slots::unit::<m_14::S2TD>(w, "S2TD"));
    c.job("S2WK", |w| fmcheck_slots::unit::<m_15::S2WK>(w, "S2WK"));
    c.job("S3UUO", |w| fmcheck_slots::unit::<m_16::S3UUO>(w, "S3UUO"));
    c.job("S3UBD", |w| fmcheck_slots::unit::<m_17::S3UBD>(w, "S3UBD"));
    c.job("S3UOB", |w| fmcheck_slots::unit::<m_18::S3UOB>(w, "S3UOB"));
    c.job("S3UKO", |w| fmcheck_slots::unit::<m_19::S3UKO>(w, "S3UKO"));
    c.job("S3UDD", |w| fmcheck_slots::unit::<m_20::S3UDD>(w, "S3UDD"));
    c.job("S3BBB", |w| fmcheck_slots::unit::<m_21::S3BBB>(w, "S3BBB"));
    c.job("S3BSO", |w| fmcheck_slots::unit::<m_22::S3BSO>(w, "S3BSO"));
    c.job("S3BOD", |w| fmcheck_slots::unit::<m_23::S3BOD>(w, "S3BOD"));
    c.job("S3BDB", |w| fmcheck_slots::unit::<m_24::S3BDB>(w, "S3BDB"));
    c.job("S3SUO", |w| fmcheck_slots::unit::<m_25::S3SUO>(w, "S3SUO"));
    c.job("S3SBD", |w| fmcheck_slots::unit::<m_26::S3SBD>(w, "S3SBD"));
    c.job("S3SOB", |w| fmcheck_slots::unit::<m_27::S3SOB>(w, "S3SOB"));
    c.job("S3SKO", |w| fmcheck_slots::unit::<m_28::S3SKO>(w, "S3SKO"));
    c.job("S3SDD", |w| fmcheck_slots::unit::<m_29::S3SDD>(w, "S3SDD"));
    c.job("S3OBB", |w| fmcheck_slots::unit::<m_30::S3OBB>(w, "S3OBB"));
    c.job("S3OSO", |w| fmcheck_slots::unit::<m_31::S3OSO>(w, "S3OSO"));
    c.job("S3OOD", |w| fmcheck_slots::unit::<m_32::S3OOD>(w, "S3OOD"));
    c.job("S3ODB", |w| fmcheck_slots::unit::<m_33::S3ODB>(w, "S3ODB"));
    c.job("S3KUO", |w| fmcheck_slots::unit::<m_34::S3KUO>(w, "S3KUO"));
    c.job("S3KBD", |w| fmcheck_slots::unit::<m_35::S3KBD>(w, "S3KBD"));
    c.job("S3KOB", |w| fmcheck_slots::unit::<m_36::S3KOB>(w, "S3KOB"));
    c.job("S3KKO", |w| fmcheck_slots::unit::<m_37::S3KKO>(w, "S3KKO"));
    c.job("S3KDD", |w| fmcheck_slots::unit::<m_38::S3KDD>(w, "S3KDD"));
    c.job("S3DBB", |w| fmcheck_slots::unit::<m_39::S3DBB>(w, "S3DBB"));
    c.job("S3DSO", |w| fmcheck_slots::unit::<m_40::S3DSO>(w, "S3DSO"));
    c.job("S3DOD", |w| fmcheck_slots::unit::<m_41::S3DOD>(w, "S3DOD"));
    c.job("S3DDB", |w| fmcheck_slots::unit::<m_42::S3DDB>(w, "S3DDB"));
    c.job("S4UUBB", |w| fmcheck_slots::unit::<m_43::S4UUBB>(w, "S4UUBB"));
    c.job("S4UBBU", |w| fmcheck_slots::unit::<m_44::S4UBBU>(w, "S4UBBU"));
    c.job("S4USUS", |w| fmcheck_slots::unit::<m_45::S4USUS>(w, "S4USUS"));
    c.job("S4BUUB", |w| fmcheck_slots::unit::<m_46::S4BUUB>(w, "S4BUUB"));
    c.job("S4BBUU", |w| fmcheck_slots::unit::<m_47::S4BBUU>(w, "S4BBUU"));
    c.job("S4BBSS", |w| fmcheck_slots::unit::<m_48::S4BBSS>(w, "S4BBSS"));
    c.job("S4BSSB", |w| fmcheck_slots::unit::<m_49::S4BSSB>(w, "S4BSSB"));
    c.job("S4SUSU", |w| fmcheck_slots::unit::<m_50::S4SUSU>(w, "S4SUSU"));
    c.job("S4SBBS", |w| fmcheck_slots::unit::<m_51::S4SBBS>(w, "S4SBBS"));
    c.job("S4SSBB", |w| fmcheck_slots::unit::<m_52::S4SSBB>(w, "S4SSBB"));
    c.job("S5UUOUU", |w| fmcheck_slots::unit::<m_53::S5UUOUU>(w, "S5UUOUU"));
    c.job("S5UOOUU", |w| fmcheck_slots::unit::<m_54::S5UOOUU>(w, "S5UOOUU"));
    c.job("S5OUOUU", |w| fmcheck_slots::unit::<m_55::S5OUOUU>(w, "S5OUOUU"));
    c.job("S5OOOUU", |w| fmcheck_slots::unit::<m_56::S5OOOUU>(w, "S5OOOUU"));
    c.job("P6_4", |w| fmcheck_slots::unit::<m_57::P6_4>(w, "P6_4"));
    c.job("P8_6", |w| fmcheck_slots::unit::<m_58::P8_6>(w, "P8_6"));
    c.job("P12_6", |w| fmcheck_slots::unit::<m_59::P12_6>(w, "P12_6"));
    c.job("N1", |w| fmcheck_slots::unit::<m_60::N1>(w, "N1"));
    c.job("N4", |w| fmcheck_slots::unit::<m_61::N4>(w, "N4"));
    c.job("N8", |w| fmcheck_slots::unit::<m_62::N8>(w, "N8"));
    c.job("N12", |w| fmcheck_slots::unit::<m_63::N12>(w, "N12"));
    c.job("N16", |w| fmcheck_slots::unit::<m_64::N16>(w, "N16"));
    c.job("N20", |w| fmcheck_slots::unit::<m_65::N20>(w, "N20"));
    c.job("N24", |w| fmcheck_slots::unit::<m_66::N24>(w, "N24"));
    c.job("N28", |w| fmcheck_slots::unit::<m_67::N28>(w, "N28"));
    c.job("N32", |w| fmcheck_slots::unit::<m_68::N32>(w, "N32"));
    c.job("N36", |w| fmcheck_slots::unit::<m_69::N36>(w, "N36"));
    c.job("N40", |w| fmcheck_slots::unit::<m_70::N40>(w, "N40"));
    c.job("N44", |w| fmcheck_slots::unit::<m_71::N44>(w, "N44"));
    c.job("N48", |w| fmcheck_slots::unit::<m_72::N48>(w, "N48"));
    c.job("N52", |w| fmcheck_slots::unit::<m_73::N52>(w, "N52"));
    c.job("N56", |w| fmcheck_slots::unit::<m_74::N56>(w, "N56"));
    c.job("N60", |w| fmcheck_slots::unit::<m_75::N60>(w, "N60"));
    c.job("N64", |w| fmcheck_slots::unit::<m_76::N64>(w, "N64"));
    c.job("N95", |w| fmcheck_slots::unit::<m_77::N95>(w, "N95"));
    c.job("N127", |w| fmcheck_slots::unit::<m_78::N127>(w, "N127"));
    c.job("N254", |w| fmcheck_slots::unit::<m_79::N254>(w, "N254"));
    c.job("M65", |w| fmcheck_slots::unit::<m_80::M65>(w, "M65"));
    c.job("RBi64", |w| fmcheck_slots::unit::<m_81::RBi64>(w, "RBi64"));
    c.job("RP", |w| fmcheck_slots::unit::<m_82::RP>(w, "RP"));
    c.job("IC0", |w| fmcheck_slots::unit::<m_83::IC0>(w, "IC0"));
    c.job("ID3", |w| fmcheck_slots::unit::<m_84::ID3>(w, "ID3"));
    c.job("I9", |w| fmcheck_slots::unit::<m_85::I9>(w, "I9"));
    c.job("IB12", |w| fmcheck_slots::unit::<m_86::IB12>(w, "IB12"));
    c.job("IC15", |w| fmcheck_slots::unit::<m_87::IC15>(w, "IC15"));
    c.job("ID18", |w| fmcheck_slots::unit::<m_88::ID18>(w, "ID18"));
    c.job("I24", |w| fmcheck_slots::unit::<m_89::I24>(w, "I24"));
    c.job("IB27", |w| fmcheck_slots::unit::<m_90::IB27>(w, "IB27"));
    c.job("IC30", |w| fmcheck_slots::unit::<m_91::IC30>(w, "IC30"));
    c.job("ID33", |w| fmcheck_slots::unit::<m_92::ID33>(w, "ID33"));
    c.job("I39", |w| fmcheck_slots::unit::<m_93::I39>(w, "I39"));
    c.job("IB42", |w| fmcheck_slots::unit::<m_94::IB42>(w, "IB42"));
    c.job("IC45", |w| fmcheck_slots::unit::<m_95::IC45>(w, "IC45"));
    c.job("ID48", |w| fmcheck_slots::unit::<m_96::ID48>(w, "ID48"));
    c.job("I54", |w| fmcheck_slots::unit::<m_97::I54>(w, "I54"));
    c.job("IB57", |w| fmcheck_slots::unit::<m_98::IB57>(w, "IB57"));
    c.job("IC60", |w| fmcheck_slots::unit::<m_99::IC60>(w, "IC60"));
    c.job("ID63", |w| fmcheck_slots::unit::<m_100::ID63>(w, "ID63"));
    c.job("I69", |w| fmcheck_slots::unit::<m_101::I69>(w, "I69"));
    c.job("IB72", |w| fmcheck_slots::unit::<m_102::IB72>(w, "IB72"));
    c.job("IC75", |w| fmcheck_slots::unit::<m_103::IC75>(w, "IC75"));
    c.job("ID78", |w| fmcheck_slots::unit::<m_104::ID78>(w, "ID78"));
    c.job("I84", |w| fmcheck_slots::unit::<m_105::I84>(w, "I84"));
    c.job("IB87", |w| fmcheck_slots::unit::<m_106::IB87>(w, "IB87"));
    c.job("IC90", |w| fmcheck_slots::unit::<m_107::IC90>(w, "IC90"));
    c.job("T", |w| fmcheck_slots::unit::<m_108::T>(w, "T"));
    c.job("r#type", |w| fmcheck_slots::unit::<m_109::r#type>(w, "r#type"));
    c.job("Data", |w| fmcheck_slots::unit::<m_110::Data>(w, "Data"));
}
