//! Generated by gen2.py; do not edit.
#![allow(unused_imports, non_camel_case_types, non_upper_case_globals, non_snake_case, dead_code, uncommon_codepoints, clippy::all)]
#![recursion_limit = "1024"]
use fmcheck_dom::{off, Dom};
use fixed_map::Key;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U2 { V0, V1 }
impl Dom for U2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U2] = &[U2::V0, U2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U2::V0 => 0,
            U2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K2 { V0, V1 }
impl Dom for K2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K2] = &[K2::V0, K2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K2::V0 => 0,
            K2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U0 {  }
impl Dom for U0 {
    const N: usize = 0;
    const STATIC: bool = true;
    fn at(_: usize) -> Self { panic!("no such key") }
    fn idx(self) -> usize { match self {} }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..0 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum NestA { X(bool), Y }
impl Dom for NestA {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return NestA::X(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return NestA::Y; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            NestA::X(x) => off(0, <bool as Dom>::idx(x)),
            NestA::Y => 0 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
pub mod m_0 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S1S { V0(()) }
impl Dom for S1S {
    const N: usize = 0 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S1S::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S1S::V0(x) => off(0, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_1 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S1W { V0(Option<u32>) }
impl Dom for S1W {
    const N: usize = 0 + <Option<u32> as Dom>::N;
    const STATIC: bool = true && <Option<u32> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<u32> as Dom>::N { return S1W::V0(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S1W::V0(x) => off(0, <Option<u32> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<u32> as Dom>::ranks(out, next);
    }
}
}
pub mod m_2 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2UD { V0, V1(u8) }
impl Dom for S2UD {
    const N: usize = 1 + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S2UD::V0; } i -= 1;
        if i < <u8 as Dom>::N { return S2UD::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2UD::V0 => 0,
            S2UD::V1(x) => off(1, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_3 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2BK { V0(bool), V1(K2) }
impl Dom for S2BK {
    const N: usize = 0 + <bool as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S2BK::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <K2 as Dom>::N { return S2BK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2BK::V0(x) => off(0, <bool as Dom>::idx(x)),
            S2BK::V1(x) => off(0 + <bool as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_4 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2SS { V0(()), V1(()) }
impl Dom for S2SS {
    const N: usize = 0 + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S2SS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S2SS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2SS::V0(x) => off(0, <() as Dom>::idx(x)),
            S2SS::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_5 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2SW { V0(()), V1(Option<u32>) }
impl Dom for S2SW {
    const N: usize = 0 + <() as Dom>::N + <Option<u32> as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <Option<u32> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S2SW::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <Option<u32> as Dom>::N { return S2SW::V1(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2SW::V0(x) => off(0, <() as Dom>::idx(x)),
            S2SW::V1(x) => off(0 + <() as Dom>::N, <Option<u32> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <Option<u32> as Dom>::ranks(out, next);
    }
}
}
pub mod m_6 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2OC { V0(Option<bool>), V1(NestA) }
impl Dom for S2OC {
    const N: usize = 0 + <Option<bool> as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S2OC::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <NestA as Dom>::N { return S2OC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2OC::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S2OC::V1(x) => off(0 + <Option<bool> as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
}
pub mod m_7 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2EE { V0(U2), V1(U2) }
impl Dom for S2EE {
    const N: usize = 0 + <U2 as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return S2EE::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <U2 as Dom>::N { return S2EE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2EE::V0(x) => off(0, <U2 as Dom>::idx(x)),
            S2EE::V1(x) => off(0 + <U2 as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_8 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2KB { V0(K2), V1(bool) }
impl Dom for S2KB {
    const N: usize = 0 + <K2 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S2KB::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <bool as Dom>::N { return S2KB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2KB::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S2KB::V1(x) => off(0 + <K2 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_9 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2KT { V0(K2), V1(&'static str) }
impl Dom for S2KT {
    const N: usize = 0 + <K2 as Dom>::N + <&'static str as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S2KT::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <&'static str as Dom>::N { return S2KT::V1(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2KT::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S2KT::V1(x) => off(0 + <K2 as Dom>::N, <&'static str as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <&'static str as Dom>::ranks(out, next);
    }
}
}
pub mod m_10 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2ZZ { V0(U0), V1(U0) }
impl Dom for S2ZZ {
    const N: usize = 0 + <U0 as Dom>::N + <U0 as Dom>::N;
    const STATIC: bool = true && <U0 as Dom>::STATIC && <U0 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U0 as Dom>::N { return S2ZZ::V0(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        if i < <U0 as Dom>::N { return S2ZZ::V1(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2ZZ::V0(x) => off(0, <U0 as Dom>::idx(x)),
            S2ZZ::V1(x) => off(0 + <U0 as Dom>::N, <U0 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U0 as Dom>::ranks(out, next);
        <U0 as Dom>::ranks(out, next);
    }
}
}
pub mod m_11 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2CO { V0(NestA), V1(Option<bool>) }
impl Dom for S2CO {
    const N: usize = 0 + <NestA as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return S2CO::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S2CO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2CO::V0(x) => off(0, <NestA as Dom>::idx(x)),
            S2CO::V1(x) => off(0 + <NestA as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_12 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2DU { V0(u8), V1 }
impl Dom for S2DU {
    const N: usize = 1 + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S2DU::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return S2DU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2DU::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S2DU::V1 => 0 + <u8 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_13 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2DD { V0(u8), V1(u8) }
impl Dom for S2DD {
    const N: usize = 0 + <u8 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S2DD::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <u8 as Dom>::N { return S2DD::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2DD::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S2DD::V1(x) => off(0 + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_14 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2TK { V0(&'static str), V1(K2) }
impl Dom for S2TK {
    const N: usize = 0 + <&'static str as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <&'static str as Dom>::N { return S2TK::V0(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i < <K2 as Dom>::N { return S2TK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2TK::V0(x) => off(0, <&'static str as Dom>::idx(x)),
            S2TK::V1(x) => off(0 + <&'static str as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <&'static str as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_15 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2WS { V0(Option<u32>), V1(()) }
impl Dom for S2WS {
    const N: usize = 0 + <Option<u32> as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <Option<u32> as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<u32> as Dom>::N { return S2WS::V0(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        if i < <() as Dom>::N { return S2WS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2WS::V0(x) => off(0, <Option<u32> as Dom>::idx(x)),
            S2WS::V1(x) => off(0 + <Option<u32> as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<u32> as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_16 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2WW { V0(Option<u32>), V1(Option<u32>) }
impl Dom for S2WW {
    const N: usize = 0 + <Option<u32> as Dom>::N + <Option<u32> as Dom>::N;
    const STATIC: bool = true && <Option<u32> as Dom>::STATIC && <Option<u32> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<u32> as Dom>::N { return S2WW::V0(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        if i < <Option<u32> as Dom>::N { return S2WW::V1(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2WW::V0(x) => off(0, <Option<u32> as Dom>::idx(x)),
            S2WW::V1(x) => off(0 + <Option<u32> as Dom>::N, <Option<u32> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<u32> as Dom>::ranks(out, next);
        <Option<u32> as Dom>::ranks(out, next);
    }
}
}
pub mod m_17 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UBS { V0, V1(bool), V2(()) }
impl Dom for S3UBS {
    const N: usize = 1 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UBS::V0; } i -= 1;
        if i < <bool as Dom>::N { return S3UBS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S3UBS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UBS::V0 => 0,
            S3UBS::V1(x) => off(1, <bool as Dom>::idx(x)),
            S3UBS::V2(x) => off(1 + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_18 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3USK { V0, V1(()), V2(K2) }
impl Dom for S3USK {
    const N: usize = 1 + <() as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3USK::V0; } i -= 1;
        if i < <() as Dom>::N { return S3USK::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <K2 as Dom>::N { return S3USK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3USK::V0 => 0,
            S3USK::V1(x) => off(1, <() as Dom>::idx(x)),
            S3USK::V2(x) => off(1 + <() as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_19 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UKU { V0, V1(K2), V2 }
impl Dom for S3UKU {
    const N: usize = 2 + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UKU::V0; } i -= 1;
        if i < <K2 as Dom>::N { return S3UKU::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i == 0 { return S3UKU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UKU::V0 => 0,
            S3UKU::V1(x) => off(1, <K2 as Dom>::idx(x)),
            S3UKU::V2 => 1 + <K2 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <K2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_20 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UDS { V0, V1(u8), V2(()) }
impl Dom for S3UDS {
    const N: usize = 1 + <u8 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UDS::V0; } i -= 1;
        if i < <u8 as Dom>::N { return S3UDS::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <() as Dom>::N { return S3UDS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UDS::V0 => 0,
            S3UDS::V1(x) => off(1, <u8 as Dom>::idx(x)),
            S3UDS::V2(x) => off(1 + <u8 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_21 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BUK { V0(bool), V1, V2(K2) }
impl Dom for S3BUK {
    const N: usize = 1 + <bool as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BUK::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S3BUK::V1; } i -= 1;
        if i < <K2 as Dom>::N { return S3BUK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BUK::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BUK::V1 => 0 + <bool as Dom>::N,
            S3BUK::V2(x) => off(1 + <bool as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_22 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BSU { V0(bool), V1(()), V2 }
impl Dom for S3BSU {
    const N: usize = 1 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BSU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S3BSU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S3BSU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BSU::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BSU::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S3BSU::V2 => 0 + <bool as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_23 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BOS { V0(bool), V1(Option<bool>), V2(()) }
impl Dom for S3BOS {
    const N: usize = 0 + <bool as Dom>::N + <Option<bool> as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BOS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3BOS::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <() as Dom>::N { return S3BOS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BOS::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BOS::V1(x) => off(0 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3BOS::V2(x) => off(0 + <bool as Dom>::N + <Option<bool> as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_24 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BKK { V0(bool), V1(K2), V2(K2) }
impl Dom for S3BKK {
    const N: usize = 0 + <bool as Dom>::N + <K2 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <K2 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BKK::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <K2 as Dom>::N { return S3BKK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <K2 as Dom>::N { return S3BKK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BKK::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BKK::V1(x) => off(0 + <bool as Dom>::N, <K2 as Dom>::idx(x)),
            S3BKK::V2(x) => off(0 + <bool as Dom>::N + <K2 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_25 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SUU { V0(()), V1, V2 }
impl Dom for S3SUU {
    const N: usize = 2 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SUU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S3SUU::V1; } i -= 1;
        if i == 0 { return S3SUU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SUU::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SUU::V1 => 0 + <() as Dom>::N,
            S3SUU::V2 => 1 + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_26 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SBS { V0(()), V1(bool), V2(()) }
impl Dom for S3SBS {
    const N: usize = 0 + <() as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SBS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S3SBS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S3SBS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SBS::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SBS::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S3SBS::V2(x) => off(0 + <() as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_27 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SSK { V0(()), V1(()), V2(K2) }
impl Dom for S3SSK {
    const N: usize = 0 + <() as Dom>::N + <() as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SSK::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S3SSK::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <K2 as Dom>::N { return S3SSK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SSK::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SSK::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            S3SSK::V2(x) => off(0 + <() as Dom>::N + <() as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_28 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SKU { V0(()), V1(K2), V2 }
impl Dom for S3SKU {
    const N: usize = 1 + <() as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SKU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <K2 as Dom>::N { return S3SKU::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i == 0 { return S3SKU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SKU::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SKU::V1(x) => off(0 + <() as Dom>::N, <K2 as Dom>::idx(x)),
            S3SKU::V2 => 0 + <() as Dom>::N + <K2 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_29 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SDS { V0(()), V1(u8), V2(()) }
impl Dom for S3SDS {
    const N: usize = 0 + <() as Dom>::N + <u8 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <u8 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SDS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <u8 as Dom>::N { return S3SDS::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <() as Dom>::N { return S3SDS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SDS::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SDS::V1(x) => off(0 + <() as Dom>::N, <u8 as Dom>::idx(x)),
            S3SDS::V2(x) => off(0 + <() as Dom>::N + <u8 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_30 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OUK { V0(Option<bool>), V1, V2(K2) }
impl Dom for S3OUK {
    const N: usize = 1 + <Option<bool> as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OUK::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S3OUK::V1; } i -= 1;
        if i < <K2 as Dom>::N { return S3OUK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OUK::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OUK::V1 => 0 + <Option<bool> as Dom>::N,
            S3OUK::V2(x) => off(1 + <Option<bool> as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_31 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OSU { V0(Option<bool>), V1(()), V2 }
impl Dom for S3OSU {
    const N: usize = 1 + <Option<bool> as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OSU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <() as Dom>::N { return S3OSU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S3OSU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OSU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OSU::V1(x) => off(0 + <Option<bool> as Dom>::N, <() as Dom>::idx(x)),
            S3OSU::V2 => 0 + <Option<bool> as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_32 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OOS { V0(Option<bool>), V1(Option<bool>), V2(()) }
impl Dom for S3OOS {
    const N: usize = 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OOS::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3OOS::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <() as Dom>::N { return S3OOS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OOS::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OOS::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3OOS::V2(x) => off(0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_33 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OKK { V0(Option<bool>), V1(K2), V2(K2) }
impl Dom for S3OKK {
    const N: usize = 0 + <Option<bool> as Dom>::N + <K2 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <K2 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OKK::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <K2 as Dom>::N { return S3OKK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <K2 as Dom>::N { return S3OKK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OKK::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OKK::V1(x) => off(0 + <Option<bool> as Dom>::N, <K2 as Dom>::idx(x)),
            S3OKK::V2(x) => off(0 + <Option<bool> as Dom>::N + <K2 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_34 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KUU { V0(K2), V1, V2 }
impl Dom for S3KUU {
    const N: usize = 2 + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KUU::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i == 0 { return S3KUU::V1; } i -= 1;
        if i == 0 { return S3KUU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KUU::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KUU::V1 => 0 + <K2 as Dom>::N,
            S3KUU::V2 => 1 + <K2 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_35 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KBS { V0(K2), V1(bool), V2(()) }
impl Dom for S3KBS {
    const N: usize = 0 + <K2 as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KBS::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <bool as Dom>::N { return S3KBS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S3KBS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KBS::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KBS::V1(x) => off(0 + <K2 as Dom>::N, <bool as Dom>::idx(x)),
            S3KBS::V2(x) => off(0 + <K2 as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_36 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KSK { V0(K2), V1(()), V2(K2) }
impl Dom for S3KSK {
    const N: usize = 0 + <K2 as Dom>::N + <() as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <() as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KSK::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <() as Dom>::N { return S3KSK::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <K2 as Dom>::N { return S3KSK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KSK::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KSK::V1(x) => off(0 + <K2 as Dom>::N, <() as Dom>::idx(x)),
            S3KSK::V2(x) => off(0 + <K2 as Dom>::N + <() as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_37 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KKU { V0(K2), V1(K2), V2 }
impl Dom for S3KKU {
    const N: usize = 1 + <K2 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KKU::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <K2 as Dom>::N { return S3KKU::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i == 0 { return S3KKU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KKU::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KKU::V1(x) => off(0 + <K2 as Dom>::N, <K2 as Dom>::idx(x)),
            S3KKU::V2 => 0 + <K2 as Dom>::N + <K2 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_38 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KDS { V0(K2), V1(u8), V2(()) }
impl Dom for S3KDS {
    const N: usize = 0 + <K2 as Dom>::N + <u8 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <u8 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KDS::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <u8 as Dom>::N { return S3KDS::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <() as Dom>::N { return S3KDS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KDS::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KDS::V1(x) => off(0 + <K2 as Dom>::N, <u8 as Dom>::idx(x)),
            S3KDS::V2(x) => off(0 + <K2 as Dom>::N + <u8 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_39 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DUK { V0(u8), V1, V2(K2) }
impl Dom for S3DUK {
    const N: usize = 1 + <u8 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DUK::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return S3DUK::V1; } i -= 1;
        if i < <K2 as Dom>::N { return S3DUK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DUK::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DUK::V1 => 0 + <u8 as Dom>::N,
            S3DUK::V2(x) => off(1 + <u8 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_40 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DSU { V0(u8), V1(()), V2 }
impl Dom for S3DSU {
    const N: usize = 1 + <u8 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DSU::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <() as Dom>::N { return S3DSU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S3DSU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DSU::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DSU::V1(x) => off(0 + <u8 as Dom>::N, <() as Dom>::idx(x)),
            S3DSU::V2 => 0 + <u8 as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_41 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DOS { V0(u8), V1(Option<bool>), V2(()) }
impl Dom for S3DOS {
    const N: usize = 0 + <u8 as Dom>::N + <Option<bool> as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DOS::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3DOS::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <() as Dom>::N { return S3DOS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DOS::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DOS::V1(x) => off(0 + <u8 as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3DOS::V2(x) => off(0 + <u8 as Dom>::N + <Option<bool> as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_42 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DKK { V0(u8), V1(K2), V2(K2) }
impl Dom for S3DKK {
    const N: usize = 0 + <u8 as Dom>::N + <K2 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <K2 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DKK::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <K2 as Dom>::N { return S3DKK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <K2 as Dom>::N { return S3DKK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DKK::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DKK::V1(x) => off(0 + <u8 as Dom>::N, <K2 as Dom>::idx(x)),
            S3DKK::V2(x) => off(0 + <u8 as Dom>::N + <K2 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_43 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UUUB { V0, V1, V2, V3(bool) }
impl Dom for S4UUUB {
    const N: usize = 3 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UUUB::V0; } i -= 1;
        if i == 0 { return S4UUUB::V1; } i -= 1;
        if i == 0 { return S4UUUB::V2; } i -= 1;
        if i < <bool as Dom>::N { return S4UUUB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UUUB::V0 => 0,
            S4UUUB::V1 => 1,
            S4UUUB::V2 => 2,
            S4UUUB::V3(x) => off(3, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_44 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UBUU { V0, V1(bool), V2, V3 }
impl Dom for S4UBUU {
    const N: usize = 3 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UBUU::V0; } i -= 1;
        if i < <bool as Dom>::N { return S4UBUU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4UBUU::V2; } i -= 1;
        if i == 0 { return S4UBUU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UBUU::V0 => 0,
            S4UBUU::V1(x) => off(1, <bool as Dom>::idx(x)),
            S4UBUU::V2 => 1 + <bool as Dom>::N,
            S4UBUU::V3 => 2 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_45 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UBSS { V0, V1(bool), V2(()), V3(()) }
impl Dom for S4UBSS {
    const N: usize = 1 + <bool as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UBSS::V0; } i -= 1;
        if i < <bool as Dom>::N { return S4UBSS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4UBSS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4UBSS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UBSS::V0 => 0,
            S4UBSS::V1(x) => off(1, <bool as Dom>::idx(x)),
            S4UBSS::V2(x) => off(1 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4UBSS::V3(x) => off(1 + <bool as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_46 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4USSB { V0, V1(()), V2(()), V3(bool) }
impl Dom for S4USSB {
    const N: usize = 1 + <() as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4USSB::V0; } i -= 1;
        if i < <() as Dom>::N { return S4USSB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4USSB::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4USSB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4USSB::V0 => 0,
            S4USSB::V1(x) => off(1, <() as Dom>::idx(x)),
            S4USSB::V2(x) => off(1 + <() as Dom>::N, <() as Dom>::idx(x)),
            S4USSB::V3(x) => off(1 + <() as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_47 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BUSU { V0(bool), V1, V2(()), V3 }
impl Dom for S4BUSU {
    const N: usize = 2 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BUSU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4BUSU::V1; } i -= 1;
        if i < <() as Dom>::N { return S4BUSU::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4BUSU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BUSU::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BUSU::V1 => 0 + <bool as Dom>::N,
            S4BUSU::V2(x) => off(1 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4BUSU::V3 => 1 + <bool as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_48 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BBBS { V0(bool), V1(bool), V2(bool), V3(()) }
impl Dom for S4BBBS {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BBBS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4BBBS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4BBBS::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4BBBS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BBBS::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BBBS::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4BBBS::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4BBBS::V3(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_49 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BSBB { V0(bool), V1(()), V2(bool), V3(bool) }
impl Dom for S4BSBB {
    const N: usize = 0 + <bool as Dom>::N + <() as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BSBB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4BSBB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4BSBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4BSBB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BSBB::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BSBB::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4BSBB::V2(x) => off(0 + <bool as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4BSBB::V3(x) => off(0 + <bool as Dom>::N + <() as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_50 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SUBU { V0(()), V1, V2(bool), V3 }
impl Dom for S4SUBU {
    const N: usize = 2 + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SUBU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4SUBU::V1; } i -= 1;
        if i < <bool as Dom>::N { return S4SUBU::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4SUBU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SUBU::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SUBU::V1 => 0 + <() as Dom>::N,
            S4SUBU::V2(x) => off(1 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4SUBU::V3 => 1 + <() as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_51 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SBUS { V0(()), V1(bool), V2, V3(()) }
impl Dom for S4SBUS {
    const N: usize = 1 + <() as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SBUS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4SBUS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4SBUS::V2; } i -= 1;
        if i < <() as Dom>::N { return S4SBUS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SBUS::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SBUS::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4SBUS::V2 => 0 + <() as Dom>::N + <bool as Dom>::N,
            S4SBUS::V3(x) => off(1 + <() as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_52 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SSUB { V0(()), V1(()), V2, V3(bool) }
impl Dom for S4SSUB {
    const N: usize = 1 + <() as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SSUB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4SSUB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4SSUB::V2; } i -= 1;
        if i < <bool as Dom>::N { return S4SSUB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SSUB::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SSUB::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            S4SSUB::V2 => 0 + <() as Dom>::N + <() as Dom>::N,
            S4SSUB::V3(x) => off(1 + <() as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_53 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5UUUUO { V0, V1, V2, V3, V4(Option<bool>) }
impl Dom for S5UUUUO {
    const N: usize = 4 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S5UUUUO::V0; } i -= 1;
        if i == 0 { return S5UUUUO::V1; } i -= 1;
        if i == 0 { return S5UUUUO::V2; } i -= 1;
        if i == 0 { return S5UUUUO::V3; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UUUUO::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5UUUUO::V0 => 0,
            S5UUUUO::V1 => 1,
            S5UUUUO::V2 => 2,
            S5UUUUO::V3 => 3,
            S5UUUUO::V4(x) => off(4, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_54 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5UOUUO { V0, V1(Option<bool>), V2, V3, V4(Option<bool>) }
impl Dom for S5UOUUO {
    const N: usize = 3 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S5UOUUO::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UOUUO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5UOUUO::V2; } i -= 1;
        if i == 0 { return S5UOUUO::V3; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UOUUO::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5UOUUO::V0 => 0,
            S5UOUUO::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
            S5UOUUO::V2 => 1 + <Option<bool> as Dom>::N,
            S5UOUUO::V3 => 2 + <Option<bool> as Dom>::N,
            S5UOUUO::V4(x) => off(3 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_55 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5OUUUO { V0(Option<bool>), V1, V2, V3, V4(Option<bool>) }
impl Dom for S5OUUUO {
    const N: usize = 3 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S5OUUUO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OUUUO::V1; } i -= 1;
        if i == 0 { return S5OUUUO::V2; } i -= 1;
        if i == 0 { return S5OUUUO::V3; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5OUUUO::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5OUUUO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S5OUUUO::V1 => 0 + <Option<bool> as Dom>::N,
            S5OUUUO::V2 => 1 + <Option<bool> as Dom>::N,
            S5OUUUO::V3 => 2 + <Option<bool> as Dom>::N,
            S5OUUUO::V4(x) => off(3 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_56 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5OOUUO { V0(Option<bool>), V1(Option<bool>), V2, V3, V4(Option<bool>) }
impl Dom for S5OOUUO {
    const N: usize = 2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S5OOUUO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OOUUO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OOUUO::V2; } i -= 1;
        if i == 0 { return S5OOUUO::V3; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5OOUUO::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5OOUUO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S5OOUUO::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OOUUO::V2 => 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
            S5OOUUO::V3 => 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
            S5OOUUO::V4(x) => off(2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_57 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P6_1 { V0, V1(bool), V2, V3, V4, V5 }
impl Dom for P6_1 {
    const N: usize = 5 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P6_1::V0; } i -= 1;
        if i < <bool as Dom>::N { return P6_1::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P6_1::V2; } i -= 1;
        if i == 0 { return P6_1::V3; } i -= 1;
        if i == 0 { return P6_1::V4; } i -= 1;
        if i == 0 { return P6_1::V5; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P6_1::V0 => 0,
            P6_1::V1(x) => off(1, <bool as Dom>::idx(x)),
            P6_1::V2 => 1 + <bool as Dom>::N,
            P6_1::V3 => 2 + <bool as Dom>::N,
            P6_1::V4 => 3 + <bool as Dom>::N,
            P6_1::V5 => 4 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_58 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P8_3 { V0, V1, V2, V3(bool), V4, V5, V6, V7 }
impl Dom for P8_3 {
    const N: usize = 7 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P8_3::V0; } i -= 1;
        if i == 0 { return P8_3::V1; } i -= 1;
        if i == 0 { return P8_3::V2; } i -= 1;
        if i < <bool as Dom>::N { return P8_3::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P8_3::V4; } i -= 1;
        if i == 0 { return P8_3::V5; } i -= 1;
        if i == 0 { return P8_3::V6; } i -= 1;
        if i == 0 { return P8_3::V7; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P8_3::V0 => 0,
            P8_3::V1 => 1,
            P8_3::V2 => 2,
            P8_3::V3(x) => off(3, <bool as Dom>::idx(x)),
            P8_3::V4 => 3 + <bool as Dom>::N,
            P8_3::V5 => 4 + <bool as Dom>::N,
            P8_3::V6 => 5 + <bool as Dom>::N,
            P8_3::V7 => 6 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_59 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P12_3 { V0, V1, V2, V3(bool), V4, V5, V6, V7, V8, V9, V10, V11 }
impl Dom for P12_3 {
    const N: usize = 11 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P12_3::V0; } i -= 1;
        if i == 0 { return P12_3::V1; } i -= 1;
        if i == 0 { return P12_3::V2; } i -= 1;
        if i < <bool as Dom>::N { return P12_3::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P12_3::V4; } i -= 1;
        if i == 0 { return P12_3::V5; } i -= 1;
        if i == 0 { return P12_3::V6; } i -= 1;
        if i == 0 { return P12_3::V7; } i -= 1;
        if i == 0 { return P12_3::V8; } i -= 1;
        if i == 0 { return P12_3::V9; } i -= 1;
        if i == 0 { return P12_3::V10; } i -= 1;
        if i == 0 { return P12_3::V11; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P12_3::V0 => 0,
            P12_3::V1 => 1,
            P12_3::V2 => 2,
            P12_3::V3(x) => off(3, <bool as Dom>::idx(x)),
            P12_3::V4 => 3 + <bool as Dom>::N,
            P12_3::V5 => 4 + <bool as Dom>::N,
            P12_3::V6 => 5 + <bool as Dom>::N,
            P12_3::V7 => 6 + <bool as Dom>::N,
            P12_3::V8 => 7 + <bool as Dom>::N,
            P12_3::V9 => 8 + <bool as Dom>::N,
            P12_3::V10 => 9 + <bool as Dom>::N,
            P12_3::V11 => 10 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_60 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P12_11 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11(bool) }
impl Dom for P12_11 {
    const N: usize = 11 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P12_11::V0; } i -= 1;
        if i == 0 { return P12_11::V1; } i -= 1;
        if i == 0 { return P12_11::V2; } i -= 1;
        if i == 0 { return P12_11::V3; } i -= 1;
        if i == 0 { return P12_11::V4; } i -= 1;
        if i == 0 { return P12_11::V5; } i -= 1;
        if i == 0 { return P12_11::V6; } i -= 1;
        if i == 0 { return P12_11::V7; } i -= 1;
        if i == 0 { return P12_11::V8; } i -= 1;
        if i == 0 { return P12_11::V9; } i -= 1;
        if i == 0 { return P12_11::V10; } i -= 1;
        if i < <bool as Dom>::N { return P12_11::V11(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P12_11::V0 => 0,
            P12_11::V1 => 1,
            P12_11::V2 => 2,
            P12_11::V3 => 3,
            P12_11::V4 => 4,
            P12_11::V5 => 5,
            P12_11::V6 => 6,
            P12_11::V7 => 7,
            P12_11::V8 => 8,
            P12_11::V9 => 9,
            P12_11::V10 => 10,
            P12_11::V11(x) => off(11, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_61 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B5 { V0, V1, V2, V3, V4 }
impl Dom for B5 {
    const N: usize = 5;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B5] = &[B5::V0, B5::V1, B5::V2, B5::V3, B5::V4];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B5::V0 => 0,
            B5::V1 => 1,
            B5::V2 => 2,
            B5::V3 => 3,
            B5::V4 => 4,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..5 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_62 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B9 { V0, V1, V2, V3, V4, V5, V6, V7, V8 }
impl Dom for B9 {
    const N: usize = 9;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B9] = &[B9::V0, B9::V1, B9::V2, B9::V3, B9::V4, B9::V5, B9::V6, B9::V7, B9::V8];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B9::V0 => 0,
            B9::V1 => 1,
            B9::V2 => 2,
            B9::V3 => 3,
            B9::V4 => 4,
            B9::V5 => 5,
            B9::V6 => 6,
            B9::V7 => 7,
            B9::V8 => 8,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..9 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_63 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B13 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12 }
impl Dom for B13 {
    const N: usize = 13;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B13] = &[B13::V0, B13::V1, B13::V2, B13::V3, B13::V4, B13::V5, B13::V6, B13::V7, B13::V8, B13::V9, B13::V10, B13::V11, B13::V12];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B13::V0 => 0,
            B13::V1 => 1,
            B13::V2 => 2,
            B13::V3 => 3,
            B13::V4 => 4,
            B13::V5 => 5,
            B13::V6 => 6,
            B13::V7 => 7,
            B13::V8 => 8,
            B13::V9 => 9,
            B13::V10 => 10,
            B13::V11 => 11,
            B13::V12 => 12,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..13 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_64 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B17 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16 }
impl Dom for B17 {
    const N: usize = 17;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B17] = &[B17::V0, B17::V1, B17::V2, B17::V3, B17::V4, B17::V5, B17::V6, B17::V7, B17::V8, B17::V9, B17::V10, B17::V11, B17::V12, B17::V13, B17::V14, B17::V15, B17::V16];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B17::V0 => 0,
            B17::V1 => 1,
            B17::V2 => 2,
            B17::V3 => 3,
            B17::V4 => 4,
            B17::V5 => 5,
            B17::V6 => 6,
            B17::V7 => 7,
            B17::V8 => 8,
            B17::V9 => 9,
            B17::V10 => 10,
            B17::V11 => 11,
            B17::V12 => 12,
            B17::V13 => 13,
            B17::V14 => 14,
            B17::V15 => 15,
            B17::V16 => 16,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..17 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_65 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B21 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20 }
impl Dom for B21 {
    const N: usize = 21;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B21] = &[B21::V0, B21::V1, B21::V2, B21::V3, B21::V4, B21::V5, B21::V6, B21::V7, B21::V8, B21::V9, B21::V10, B21::V11, B21::V12, B21::V13, B21::V14, B21::V15, B21::V16, B21::V17, B21::V18, B21::V19, B21::V20];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B21::V0 => 0,
            B21::V1 => 1,
            B21::V2 => 2,
            B21::V3 => 3,
            B21::V4 => 4,
            B21::V5 => 5,
            B21::V6 => 6,
            B21::V7 => 7,
            B21::V8 => 8,
            B21::V9 => 9,
            B21::V10 => 10,
            B21::V11 => 11,
            B21::V12 => 12,
            B21::V13 => 13,
            B21::V14 => 14,
            B21::V15 => 15,
            B21::V16 => 16,
            B21::V17 => 17,
            B21::V18 => 18,
            B21::V19 => 19,
            B21::V20 => 20,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..21 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_66 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B25 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24 }
impl Dom for B25 {
    const N: usize = 25;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B25] = &[B25::V0, B25::V1, B25::V2, B25::V3, B25::V4, B25::V5, B25::V6, B25::V7, B25::V8, B25::V9, B25::V10, B25::V11, B25::V12, B25::V13, B25::V14, B25::V15, B25::V16, B25::V17, B25::V18, B25::V19, B25::V20, B25::V21, B25::V22, B25::V23, B25::V24];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B25::V0 => 0,
            B25::V1 => 1,
            B25::V2 => 2,
            B25::V3 => 3,
            B25::V4 => 4,
            B25::V5 => 5,
            B25::V6 => 6,
            B25::V7 => 7,
            B25::V8 => 8,
            B25::V9 => 9,
            B25::V10 => 10,
            B25::V11 => 11,
            B25::V12 => 12,
            B25::V13 => 13,
            B25::V14 => 14,
            B25::V15 => 15,
            B25::V16 => 16,
            B25::V17 => 17,
            B25::V18 => 18,
            B25::V19 => 19,
            B25::V20 => 20,
            B25::V21 => 21,
            B25::V22 => 22,
            B25::V23 => 23,
            B25::V24 => 24,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..25 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_67 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B29 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28 }
impl Dom for B29 {
    const N: usize = 29;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B29] = &[B29::V0, B29::V1, B29::V2, B29::V3, B29::V4, B29::V5, B29::V6, B29::V7, B29::V8, B29::V9, B29::V10, B29::V11, B29::V12, B29::V13, B29::V14, B29::V15, B29::V16, B29::V17, B29::V18, B29::V19, B29::V20, B29::V21, B29::V22, B29::V23, B29::V24, B29::V25, B29::V26, B29::V27, B29::V28];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B29::V0 => 0,
            B29::V1 => 1,
            B29::V2 => 2,
            B29::V3 => 3,
            B29::V4 => 4,
            B29::V5 => 5,
            B29::V6 => 6,
            B29::V7 => 7,
            B29::V8 => 8,
            B29::V9 => 9,
            B29::V10 => 10,
            B29::V11 => 11,
            B29::V12 => 12,
            B29::V13 => 13,
            B29::V14 => 14,
            B29::V15 => 15,
            B29::V16 => 16,
            B29::V17 => 17,
            B29::V18 => 18,
            B29::V19 => 19,
            B29::V20 => 20,
            B29::V21 => 21,
            B29::V22 => 22,
            B29::V23 => 23,
            B29::V24 => 24,
            B29::V25 => 25,
            B29::V26 => 26,
            B29::V27 => 27,
            B29::V28 => 28,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..29 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_68 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B33 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32 }
impl Dom for B33 {
    const N: usize = 33;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B33] = &[B33::V0, B33::V1, B33::V2, B33::V3, B33::V4, B33::V5, B33::V6, B33::V7, B33::V8, B33::V9, B33::V10, B33::V11, B33::V12, B33::V13, B33::V14, B33::V15, B33::V16, B33::V17, B33::V18, B33::V19, B33::V20, B33::V21, B33::V22, B33::V23, B33::V24, B33::V25, B33::V26, B33::V27, B33::V28, B33::V29, B33::V30, B33::V31, B33::V32];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B33::V0 => 0,
            B33::V1 => 1,
            B33::V2 => 2,
            B33::V3 => 3,
            B33::V4 => 4,
            B33::V5 => 5,
            B33::V6 => 6,
            B33::V7 => 7,
            B33::V8 => 8,
            B33::V9 => 9,
            B33::V10 => 10,
            B33::V11 => 11,
            B33::V12 => 12,
            B33::V13 => 13,
            B33::V14 => 14,
            B33::V15 => 15,
            B33::V16 => 16,
            B33::V17 => 17,
            B33::V18 => 18,
            B33::V19 => 19,
            B33::V20 => 20,
            B33::V21 => 21,
            B33::V22 => 22,
            B33::V23 => 23,
            B33::V24 => 24,
            B33::V25 => 25,
            B33::V26 => 26,
            B33::V27 => 27,
            B33::V28 => 28,
            B33::V29 => 29,
            B33::V30 => 30,
            B33::V31 => 31,
            B33::V32 => 32,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..33 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_69 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B37 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36 }
impl Dom for B37 {
    const N: usize = 37;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B37] = &[B37::V0, B37::V1, B37::V2, B37::V3, B37::V4, B37::V5, B37::V6, B37::V7, B37::V8, B37::V9, B37::V10, B37::V11, B37::V12, B37::V13, B37::V14, B37::V15, B37::V16, B37::V17, B37::V18, B37::V19, B37::V20, B37::V21, B37::V22, B37::V23, B37::V24, B37::V25, B37::V26, B37::V27, B37::V28, B37::V29, B37::V30, B37::V31, B37::V32, B37::V33, B37::V34, B37::V35, B37::V36];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B37::V0 => 0,
            B37::V1 => 1,
            B37::V2 => 2,
            B37::V3 => 3,
            B37::V4 => 4,
            B37::V5 => 5,
            B37::V6 => 6,
            B37::V7 => 7,
            B37::V8 => 8,
            B37::V9 => 9,
            B37::V10 => 10,
            B37::V11 => 11,
            B37::V12 => 12,
            B37::V13 => 13,
            B37::V14 => 14,
            B37::V15 => 15,
            B37::V16 => 16,
            B37::V17 => 17,
            B37::V18 => 18,
            B37::V19 => 19,
            B37::V20 => 20,
            B37::V21 => 21,
            B37::V22 => 22,
            B37::V23 => 23,
            B37::V24 => 24,
            B37::V25 => 25,
            B37::V26 => 26,
            B37::V27 => 27,
            B37::V28 => 28,
            B37::V29 => 29,
            B37::V30 => 30,
            B37::V31 => 31,
            B37::V32 => 32,
            B37::V33 => 33,
            B37::V34 => 34,
            B37::V35 => 35,
            B37::V36 => 36,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..37 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_70 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B41 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40 }
impl Dom for B41 {
    const N: usize = 41;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B41] = &[B41::V0, B41::V1, B41::V2, B41::V3, B41::V4, B41::V5, B41::V6, B41::V7, B41::V8, B41::V9, B41::V10, B41::V11, B41::V12, B41::V13, B41::V14, B41::V15, B41::V16, B41::V17, B41::V18, B41::V19, B41::V20, B41::V21, B41::V22, B41::V23, B41::V24, B41::V25, B41::V26, B41::V27, B41::V28, B41::V29, B41::V30, B41::V31, B41::V32, B41::V33, B41::V34, B41::V35, B41::V36, B41::V37, B41::V38, B41::V39, B41::V40];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B41::V0 => 0,
            B41::V1 => 1,
            B41::V2 => 2,
            B41::V3 => 3,
            B41::V4 => 4,
            B41::V5 => 5,
            B41::V6 => 6,
            B41::V7 => 7,
            B41::V8 => 8,
            B41::V9 => 9,
            B41::V10 => 10,
            B41::V11 => 11,
            B41::V12 => 12,
            B41::V13 => 13,
            B41::V14 => 14,
            B41::V15 => 15,
            B41::V16 => 16,
            B41::V17 => 17,
            B41::V18 => 18,
            B41::V19 => 19,
            B41::V20 => 20,
            B41::V21 => 21,
            B41::V22 => 22,
            B41::V23 => 23,
            B41::V24 => 24,
            B41::V25 => 25,
            B41::V26 => 26,
            B41::V27 => 27,
            B41::V28 => 28,
            B41::V29 => 29,
            B41::V30 => 30,
            B41::V31 => 31,
            B41::V32 => 32,
            B41::V33 => 33,
            B41::V34 => 34,
            B41::V35 => 35,
            B41::V36 => 36,
            B41::V37 => 37,
            B41::V38 => 38,
            B41::V39 => 39,
            B41::V40 => 40,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..41 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_71 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B45 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44 }
impl Dom for B45 {
    const N: usize = 45;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B45] = &[B45::V0, B45::V1, B45::V2, B45::V3, B45::V4, B45::V5, B45::V6, B45::V7, B45::V8, B45::V9, B45::V10, B45::V11, B45::V12, B45::V13, B45::V14, B45::V15, B45::V16, B45::V17, B45::V18, B45::V19, B45::V20, B45::V21, B45::V22, B45::V23, B45::V24, B45::V25, B45::V26, B45::V27, B45::V28, B45::V29, B45::V30, B45::V31, B45::V32, B45::V33, B45::V34, B45::V35, B45::V36, B45::V37, B45::V38, B45::V39, B45::V40, B45::V41, B45::V42, B45::V43, B45::V44];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B45::V0 => 0,
            B45::V1 => 1,
            B45::V2 => 2,
            B45::V3 => 3,
            B45::V4 => 4,
            B45::V5 => 5,
            B45::V6 => 6,
            B45::V7 => 7,
            B45::V8 => 8,
            B45::V9 => 9,
            B45::V10 => 10,
            B45::V11 => 11,
            B45::V12 => 12,
            B45::V13 => 13,
            B45::V14 => 14,
            B45::V15 => 15,
            B45::V16 => 16,
            B45::V17 => 17,
            B45::V18 => 18,
            B45::V19 => 19,
            B45::V20 => 20,
            B45::V21 => 21,
            B45::V22 => 22,
            B45::V23 => 23,
            B45::V24 => 24,
            B45::V25 => 25,
            B45::V26 => 26,
            B45::V27 => 27,
            B45::V28 => 28,
            B45::V29 => 29,
            B45::V30 => 30,
            B45::V31 => 31,
            B45::V32 => 32,
            B45::V33 => 33,
            B45::V34 => 34,
            B45::V35 => 35,
            B45::V36 => 36,
            B45::V37 => 37,
            B45::V38 => 38,
            B45::V39 => 39,
            B45::V40 => 40,
            B45::V41 => 41,
            B45::V42 => 42,
            B45::V43 => 43,
            B45::V44 => 44,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..45 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_72 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B49 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48 }
impl Dom for B49 {
    const N: usize = 49;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B49] = &[B49::V0, B49::V1, B49::V2, B49::V3, B49::V4, B49::V5, B49::V6, B49::V7, B49::V8, B49::V9, B49::V10, B49::V11, B49::V12, B49::V13, B49::V14, B49::V15, B49::V16, B49::V17, B49::V18, B49::V19, B49::V20, B49::V21, B49::V22, B49::V23, B49::V24, B49::V25, B49::V26, B49::V27, B49::V28, B49::V29, B49::V30, B49::V31, B49::V32, B49::V33, B49::V34, B49::V35, B49::V36, B49::V37, B49::V38, B49::V39, B49::V40, B49::V41, B49::V42, B49::V43, B49::V44, B49::V45, B49::V46, B49::V47, B49::V48];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B49::V0 => 0,
            B49::V1 => 1,
            B49::V2 => 2,
            B49::V3 => 3,
            B49::V4 => 4,
            B49::V5 => 5,
            B49::V6 => 6,
            B49::V7 => 7,
            B49::V8 => 8,
            B49::V9 => 9,
            B49::V10 => 10,
            B49::V11 => 11,
            B49::V12 => 12,
            B49::V13 => 13,
            B49::V14 => 14,
            B49::V15 => 15,
            B49::V16 => 16,
            B49::V17 => 17,
            B49::V18 => 18,
            B49::V19 => 19,
            B49::V20 => 20,
            B49::V21 => 21,
            B49::V22 => 22,
            B49::V23 => 23,
            B49::V24 => 24,
            B49::V25 => 25,
            B49::V26 => 26,
            B49::V27 => 27,
            B49::V28 => 28,
            B49::V29 => 29,
            B49::V30 => 30,
            B49::V31 => 31,
            B49::V32 => 32,
            B49::V33 => 33,
            B49::V34 => 34,
            B49::V35 => 35,
            B49::V36 => 36,
            B49::V37 => 37,
            B49::V38 => 38,
            B49::V39 => 39,
            B49::V40 => 40,
            B49::V41 => 41,
            B49::V42 => 42,
            B49::V43 => 43,
            B49::V44 => 44,
            B49::V45 => 45,
            B49::V46 => 46,
            B49::V47 => 47,
            B49::V48 => 48,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..49 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_73 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B53 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52 }
impl Dom for B53 {
    const N: usize = 53;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B53] = &[B53::V0, B53::V1, B53::V2, B53::V3, B53::V4, B53::V5, B53::V6, B53::V7, B53::V8, B53::V9, B53::V10, B53::V11, B53::V12, B53::V13, B53::V14, B53::V15, B53::V16, B53::V17, B53::V18, B53::V19, B53::V20, B53::V21, B53::V22, B53::V23, B53::V24, B53::V25, B53::V26, B53::V27, B53::V28, B53::V29, B53::V30, B53::V31, B53::V32, B53::V33, B53::V34, B53::V35, B53::V36, B53::V37, B53::V38, B53::V39, B53::V40, B53::V41, B53::V42, B53::V43, B53::V44, B53::V45, B53::V46, B53::V47, B53::V48, B53::V49, B53::V50, B53::V51, B53::V52];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B53::V0 => 0,
            B53::V1 => 1,
            B53::V2 => 2,
            B53::V3 => 3,
            B53::V4 => 4,
            B53::V5 => 5,
            B53::V6 => 6,
            B53::V7 => 7,
            B53::V8 => 8,
            B53::V9 => 9,
            B53::V10 => 10,
            B53::V11 => 11,
            B53::V12 => 12,
            B53::V13 => 13,
            B53::V14 => 14,
            B53::V15 => 15,
            B53::V16 => 16,
            B53::V17 => 17,
            B53::V18 => 18,
            B53::V19 => 19,
            B53::V20 => 20,
            B53::V21 => 21,
            B53::V22 => 22,
            B53::V23 => 23,
            B53::V24 => 24,
            B53::V25 => 25,
            B53::V26 => 26,
            B53::V27 => 27,
            B53::V28 => 28,
            B53::V29 => 29,
            B53::V30 => 30,
            B53::V31 => 31,
            B53::V32 => 32,
            B53::V33 => 33,
            B53::V34 => 34,
            B53::V35 => 35,
            B53::V36 => 36,
            B53::V37 => 37,
            B53::V38 => 38,
            B53::V39 => 39,
            B53::V40 => 40,
            B53::V41 => 41,
            B53::V42 => 42,
            B53::V43 => 43,
            B53::V44 => 44,
            B53::V45 => 45,
            B53::V46 => 46,
            B53::V47 => 47,
            B53::V48 => 48,
            B53::V49 => 49,
            B53::V50 => 50,
            B53::V51 => 51,
            B53::V52 => 52,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..53 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_74 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B57 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56 }
impl Dom for B57 {
    const N: usize = 57;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B57] = &[B57::V0, B57::V1, B57::V2, B57::V3, B57::V4, B57::V5, B57::V6, B57::V7, B57::V8, B57::V9, B57::V10, B57::V11, B57::V12, B57::V13, B57::V14, B57::V15, B57::V16, B57::V17, B57::V18, B57::V19, B57::V20, B57::V21, B57::V22, B57::V23, B57::V24, B57::V25, B57::V26, B57::V27, B57::V28, B57::V29, B57::V30, B57::V31, B57::V32, B57::V33, B57::V34, B57::V35, B57::V36, B57::V37, B57::V38, B57::V39, B57::V40, B57::V41, B57::V42, B57::V43, B57::V44, B57::V45, B57::V46, B57::V47, B57::V48, B57::V49, B57::V50, B57::V51, B57::V52, B57::V53, B57::V54, B57::V55, B57::V56];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B57::V0 => 0,
            B57::V1 => 1,
            B57::V2 => 2,
            B57::V3 => 3,
            B57::V4 => 4,
            B57::V5 => 5,
            B57::V6 => 6,
            B57::V7 => 7,
            B57::V8 => 8,
            B57::V9 => 9,
            B57::V10 => 10,
            B57::V11 => 11,
            B57::V12 => 12,
            B57::V13 => 13,
            B57::V14 => 14,
            B57::V15 => 15,
            B57::V16 => 16,
            B57::V17 => 17,
            B57::V18 => 18,
            B57::V19 => 19,
            B57::V20 => 20,
            B57::V21 => 21,
            B57::V22 => 22,
            B57::V23 => 23,
            B57::V24 => 24,
            B57::V25 => 25,
            B57::V26 => 26,
            B57::V27 => 27,
            B57::V28 => 28,
            B57::V29 => 29,
            B57::V30 => 30,
            B57::V31 => 31,
            B57::V32 => 32,
            B57::V33 => 33,
            B57::V34 => 34,
            B57::V35 => 35,
            B57::V36 => 36,
            B57::V37 => 37,
            B57::V38 => 38,
            B57::V39 => 39,
            B57::V40 => 40,
            B57::V41 => 41,
            B57::V42 => 42,
            B57::V43 => 43,
            B57::V44 => 44,
            B57::V45 => 45,
            B57::V46 => 46,
            B57::V47 => 47,
            B57::V48 => 48,
            B57::V49 => 49,
            B57::V50 => 50,
            B57::V51 => 51,
            B57::V52 => 52,
            B57::V53 => 53,
            B57::V54 => 54,
            B57::V55 => 55,
            B57::V56 => 56,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..57 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_75 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B61 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60 }
impl Dom for B61 {
    const N: usize = 61;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B61] = &[B61::V0, B61::V1, B61::V2, B61::V3, B61::V4, B61::V5, B61::V6, B61::V7, B61::V8, B61::V9, B61::V10, B61::V11, B61::V12, B61::V13, B61::V14, B61::V15, B61::V16, B61::V17, B61::V18, B61::V19, B61::V20, B61::V21, B61::V22, B61::V23, B61::V24, B61::V25, B61::V26, B61::V27, B61::V28, B61::V29, B61::V30, B61::V31, B61::V32, B61::V33, B61::V34, B61::V35, B61::V36, B61::V37, B61::V38, B61::V39, B61::V40, B61::V41, B61::V42, B61::V43, B61::V44, B61::V45, B61::V46, B61::V47, B61::V48, B61::V49, B61::V50, B61::V51, B61::V52, B61::V53, B61::V54, B61::V55, B61::V56, B61::V57, B61::V58, B61::V59, B61::V60];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B61::V0 => 0,
            B61::V1 => 1,
            B61::V2 => 2,
            B61::V3 => 3,
            B61::V4 => 4,
            B61::V5 => 5,
            B61::V6 => 6,
            B61::V7 => 7,
            B61::V8 => 8,
            B61::V9 => 9,
            B61::V10 => 10,
            B61::V11 => 11,
            B61::V12 => 12,
            B61::V13 => 13,
            B61::V14 => 14,
            B61::V15 => 15,
            B61::V16 => 16,
            B61::V17 => 17,
            B61::V18 => 18,
            B61::V19 => 19,
            B61::V20 => 20,
            B61::V21 => 21,
            B61::V22 => 22,
            B61::V23 => 23,
            B61::V24 => 24,
            B61::V25 => 25,
            B61::V26 => 26,
            B61::V27 => 27,
            B61::V28 => 28,
            B61::V29 => 29,
            B61::V30 => 30,
            B61::V31 => 31,
            B61::V32 => 32,
            B61::V33 => 33,
            B61::V34 => 34,
            B61::V35 => 35,
            B61::V36 => 36,
            B61::V37 => 37,
            B61::V38 => 38,
            B61::V39 => 39,
            B61::V40 => 40,
            B61::V41 => 41,
            B61::V42 => 42,
            B61::V43 => 43,
            B61::V44 => 44,
            B61::V45 => 45,
            B61::V46 => 46,
            B61::V47 => 47,
            B61::V48 => 48,
            B61::V49 => 49,
            B61::V50 => 50,
            B61::V51 => 51,
            B61::V52 => 52,
            B61::V53 => 53,
            B61::V54 => 54,
            B61::V55 => 55,
            B61::V56 => 56,
            B61::V57 => 57,
            B61::V58 => 58,
            B61::V59 => 59,
            B61::V60 => 60,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..61 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_76 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B65 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64 }
impl Dom for B65 {
    const N: usize = 65;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B65] = &[B65::V0, B65::V1, B65::V2, B65::V3, B65::V4, B65::V5, B65::V6, B65::V7, B65::V8, B65::V9, B65::V10, B65::V11, B65::V12, B65::V13, B65::V14, B65::V15, B65::V16, B65::V17, B65::V18, B65::V19, B65::V20, B65::V21, B65::V22, B65::V23, B65::V24, B65::V25, B65::V26, B65::V27, B65::V28, B65::V29, B65::V30, B65::V31, B65::V32, B65::V33, B65::V34, B65::V35, B65::V36, B65::V37, B65::V38, B65::V39, B65::V40, B65::V41, B65::V42, B65::V43, B65::V44, B65::V45, B65::V46, B65::V47, B65::V48, B65::V49, B65::V50, B65::V51, B65::V52, B65::V53, B65::V54, B65::V55, B65::V56, B65::V57, B65::V58, B65::V59, B65::V60, B65::V61, B65::V62, B65::V63, B65::V64];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B65::V0 => 0,
            B65::V1 => 1,
            B65::V2 => 2,
            B65::V3 => 3,
            B65::V4 => 4,
            B65::V5 => 5,
            B65::V6 => 6,
            B65::V7 => 7,
            B65::V8 => 8,
            B65::V9 => 9,
            B65::V10 => 10,
            B65::V11 => 11,
            B65::V12 => 12,
            B65::V13 => 13,
            B65::V14 => 14,
            B65::V15 => 15,
            B65::V16 => 16,
            B65::V17 => 17,
            B65::V18 => 18,
            B65::V19 => 19,
            B65::V20 => 20,
            B65::V21 => 21,
            B65::V22 => 22,
            B65::V23 => 23,
            B65::V24 => 24,
            B65::V25 => 25,
            B65::V26 => 26,
            B65::V27 => 27,
            B65::V28 => 28,
            B65::V29 => 29,
            B65::V30 => 30,
            B65::V31 => 31,
            B65::V32 => 32,
            B65::V33 => 33,
            B65::V34 => 34,
            B65::V35 => 35,
            B65::V36 => 36,
            B65::V37 => 37,
            B65::V38 => 38,
            B65::V39 => 39,
            B65::V40 => 40,
            B65::V41 => 41,
            B65::V42 => 42,
            B65::V43 => 43,
            B65::V44 => 44,
            B65::V45 => 45,
            B65::V46 => 46,
            B65::V47 => 47,
            B65::V48 => 48,
            B65::V49 => 49,
            B65::V50 => 50,
            B65::V51 => 51,
            B65::V52 => 52,
            B65::V53 => 53,
            B65::V54 => 54,
            B65::V55 => 55,
            B65::V56 => 56,
            B65::V57 => 57,
            B65::V58 => 58,
            B65::V59 => 59,
            B65::V60 => 60,
            B65::V61 => 61,
            B65::V62 => 62,
            B65::V63 => 63,
            B65::V64 => 64,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..65 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_77 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B96 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95 }
impl Dom for B96 {
    const N: usize = 96;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B96] = &[B96::V0, B96::V1, B96::V2, B96::V3, B96::V4, B96::V5, B96::V6, B96::V7, B96::V8, B96::V9, B96::V10, B96::V11, B96::V12, B96::V13, B96::V14, B96::V15, B96::V16, B96::V17, B96::V18, B96::V19, B96::V20, B96::V21, B96::V22, B96::V23, B96::V24, B96::V25, B96::V26, B96::V27, B96::V28, B96::V29, B96::V30, B96::V31, B96::V32, B96::V33, B96::V34, B96::V35, B96::V36, B96::V37, B96::V38, B96::V39, B96::V40, B96::V41, B96::V42, B96::V43, B96::V44, B96::V45, B96::V46, B96::V47, B96::V48, B96::V49, B96::V50, B96::V51, B96::V52, B96::V53, B96::V54, B96::V55, B96::V56, B96::V57, B96::V58, B96::V59, B96::V60, B96::V61, B96::V62, B96::V63, B96::V64, B96::V65, B96::V66, B96::V67, B96::V68, B96::V69, B96::V70, B96::V71, B96::V72, B96::V73, B96::V74, B96::V75, B96::V76, B96::V77, B96::V78, B96::V79, B96::V80, B96::V81, B96::V82, B96::V83, B96::V84, B96::V85, B96::V86, B96::V87, B96::V88, B96::V89, B96::V90, B96::V91, B96::V92, B96::V93, B96::V94, B96::V95];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B96::V0 => 0,
            B96::V1 => 1,
            B96::V2 => 2,
            B96::V3 => 3,
            B96::V4 => 4,
            B96::V5 => 5,
            B96::V6 => 6,
            B96::V7 => 7,
            B96::V8 => 8,
            B96::V9 => 9,
            B96::V10 => 10,
            B96::V11 => 11,
            B96::V12 => 12,
            B96::V13 => 13,
            B96::V14 => 14,
            B96::V15 => 15,
            B96::V16 => 16,
            B96::V17 => 17,
            B96::V18 => 18,
            B96::V19 => 19,
            B96::V20 => 20,
            B96::V21 => 21,
            B96::V22 => 22,
            B96::V23 => 23,
            B96::V24 => 24,
            B96::V25 => 25,
            B96::V26 => 26,
            B96::V27 => 27,
            B96::V28 => 28,
            B96::V29 => 29,
            B96::V30 => 30,
            B96::V31 => 31,
            B96::V32 => 32,
            B96::V33 => 33,
            B96::V34 => 34,
            B96::V35 => 35,
            B96::V36 => 36,
            B96::V37 => 37,
            B96::V38 => 38,
            B96::V39 => 39,
            B96::V40 => 40,
            B96::V41 => 41,
            B96::V42 => 42,
            B96::V43 => 43,
            B96::V44 => 44,
            B96::V45 => 45,
            B96::V46 => 46,
            B96::V47 => 47,
            B96::V48 => 48,
            B96::V49 => 49,
            B96::V50 => 50,
            B96::V51 => 51,
            B96::V52 => 52,
            B96::V53 => 53,
            B96::V54 => 54,
            B96::V55 => 55,
            B96::V56 => 56,
            B96::V57 => 57,
            B96::V58 => 58,
            B96::V59 => 59,
            B96::V60 => 60,
            B96::V61 => 61,
            B96::V62 => 62,
            B96::V63 => 63,
            B96::V64 => 64,
            B96::V65 => 65,
            B96::V66 => 66,
            B96::V67 => 67,
            B96::V68 => 68,
            B96::V69 => 69,
            B96::V70 => 70,
            B96::V71 => 71,
            B96::V72 => 72,
            B96::V73 => 73,
            B96::V74 => 74,
            B96::V75 => 75,
            B96::V76 => 76,
            B96::V77 => 77,
            B96::V78 => 78,
            B96::V79 => 79,
            B96::V80 => 80,
            B96::V81 => 81,
            B96::V82 => 82,
            B96::V83 => 83,
            B96::V84 => 84,
            B96::V85 => 85,
            B96::V86 => 86,
            B96::V87 => 87,
            B96::V88 => 88,
            B96::V89 => 89,
            B96::V90 => 90,
            B96::V91 => 91,
            B96::V92 => 92,
            B96::V93 => 93,
            B96::V94 => 94,
            B96::V95 => 95,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..96 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_78 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B128 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
impl Dom for B128 {
    const N: usize = 128;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B128] = &[B128::V0, B128::V1, B128::V2, B128::V3, B128::V4, B128::V5, B128::V6, B128::V7, B128::V8, B128::V9, B128::V10, B128::V11, B128::V12, B128::V13, B128::V14, B128::V15, B128::V16, B128::V17, B128::V18, B128::V19, B128::V20, B128::V21, B128::V22, B128::V23, B128::V24, B128::V25, B128::V26, B128::V27, B128::V28, B128::V29, B128::V30, B128::V31, B128::V32, B128::V33, B128::V34, B128::V35, B128::V36, B128::V37, B128::V38, B128::V39, B128::V40, B128::V41, B128::V42, B128::V43, B128::V44, B128::V45, B128::V46, B128::V47, B128::V48, B128::V49, B128::V50, B128::V51, B128::V52, B128::V53, B128::V54, B128::V55, B128::V56, B128::V57, B128::V58, B128::V59, B128::V60, B128::V61, B128::V62, B128::V63, B128::V64, B128::V65, B128::V66, B128::V67, B128::V68, B128::V69, B128::V70, B128::V71, B128::V72, B128::V73, B128::V74, B128::V75, B128::V76, B128::V77, B128::V78, B128::V79, B128::V80, B128::V81, B128::V82, B128::V83, B128::V84, B128::V85, B128::V86, B128::V87, B128::V88, B128::V89, B128::V90, B128::V91, B128::V92, B128::V93, B128::V94, B128::V95, B128::V96, B128::V97, B128::V98, B128::V99, B128::V100, B128::V101, B128::V102, B128::V103, B128::V104, B128::V105, B128::V106, B128::V107, B128::V108, B128::V109, B128::V110, B128::V111, B128::V112, B128::V113, B128::V114, B128::V115, B128::V116, B128::V117, B128::V118, B128::V119, B128::V120, B128::V121, B128::V122, B128::V123, B128::V124, B128::V125, B128::V126, B128::V127];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B128::V0 => 0,
            B128::V1 => 1,
            B128::V2 => 2,
            B128::V3 => 3,
            B128::V4 => 4,
            B128::V5 => 5,
            B128::V6 => 6,
            B128::V7 => 7,
            B128::V8 => 8,
            B128::V9 => 9,
            B128::V10 => 10,
            B128::V11 => 11,
            B128::V12 => 12,
            B128::V13 => 13,
            B128::V14 => 14,
            B128::V15 => 15,
            B128::V16 => 16,
            B128::V17 => 17,
            B128::V18 => 18,
            B128::V19 => 19,
            B128::V20 => 20,
            B128::V21 => 21,
            B128::V22 => 22,
            B128::V23 => 23,
            B128::V24 => 24,
            B128::V25 => 25,
            B128::V26 => 26,
            B128::V27 => 27,
            B128::V28 => 28,
            B128::V29 => 29,
            B128::V30 => 30,
            B128::V31 => 31,
            B128::V32 => 32,
            B128::V33 => 33,
            B128::V34 => 34,
            B128::V35 => 35,
            B128::V36 => 36,
            B128::V37 => 37,
            B128::V38 => 38,
            B128::V39 => 39,
            B128::V40 => 40,
            B128::V41 => 41,
            B128::V42 => 42,
            B128::V43 => 43,
            B128::V44 => 44,
            B128::V45 => 45,
            B128::V46 => 46,
            B128::V47 => 47,
            B128::V48 => 48,
            B128::V49 => 49,
            B128::V50 => 50,
            B128::V51 => 51,
            B128::V52 => 52,
            B128::V53 => 53,
            B128::V54 => 54,
            B128::V55 => 55,
            B128::V56 => 56,
            B128::V57 => 57,
            B128::V58 => 58,
            B128::V59 => 59,
            B128::V60 => 60,
            B128::V61 => 61,
            B128::V62 => 62,
            B128::V63 => 63,
            B128::V64 => 64,
            B128::V65 => 65,
            B128::V66 => 66,
            B128::V67 => 67,
            B128::V68 => 68,
            B128::V69 => 69,
            B128::V70 => 70,
            B128::V71 => 71,
            B128::V72 => 72,
            B128::V73 => 73,
            B128::V74 => 74,
            B128::V75 => 75,
            B128::V76 => 76,
            B128::V77 => 77,
            B128::V78 => 78,
            B128::V79 => 79,
            B128::V80 => 80,
            B128::V81 => 81,
            B128::V82 => 82,
            B128::V83 => 83,
            B128::V84 => 84,
            B128::V85 => 85,
            B128::V86 => 86,
            B128::V87 => 87,
            B128::V88 => 88,
            B128::V89 => 89,
            B128::V90 => 90,
            B128::V91 => 91,
            B128::V92 => 92,
            B128::V93 => 93,
            B128::V94 => 94,
            B128::V95 => 95,
            B128::V96 => 96,
            B128::V97 => 97,
            B128::V98 => 98,
            B128::V99 => 99,
            B128::V100 => 100,
            B128::V101 => 101,
            B128::V102 => 102,
            B128::V103 => 103,
            B128::V104 => 104,
            B128::V105 => 105,
            B128::V106 => 106,
            B128::V107 => 107,
            B128::V108 => 108,
            B128::V109 => 109,
            B128::V110 => 110,
            B128::V111 => 111,
            B128::V112 => 112,
            B128::V113 => 113,
            B128::V114 => 114,
            B128::V115 => 115,
            B128::V116 => 116,
            B128::V117 => 117,
            B128::V118 => 118,
            B128::V119 => 119,
            B128::V120 => 120,
            B128::V121 => 121,
            B128::V122 => 122,
            B128::V123 => 123,
            B128::V124 => 124,
            B128::V125 => 125,
            B128::V126 => 126,
            B128::V127 => 127,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..128 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_79 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N257 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256 }
impl Dom for N257 {
    const N: usize = 257;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N257] = &[N257::V0, N257::V1, N257::V2, N257::V3, N257::V4, N257::V5, N257::V6, N257::V7, N257::V8, N257::V9, N257::V10, N257::V11, N257::V12, N257::V13, N257::V14, N257::V15, N257::V16, N257::V17, N257::V18, N257::V19, N257::V20, N257::V21, N257::V22, N257::V23, N257::V24, N257::V25, N257::V26, N257::V27, N257::V28, N257::V29, N257::V30, N257::V31, N257::V32, N257::V33, N257::V34, N257::V35, N257::V36, N257::V37, N257::V38, N257::V39, N257::V40, N257::V41, N257::V42, N257::V43, N257::V44, N257::V45, N257::V46, N257::V47, N257::V48, N257::V49, N257::V50, N257::V51, N257::V52, N257::V53, N257::V54, N257::V55, N257::V56, N257::V57, N257::V58, N257::V59, N257::V60, N257::V61, N257::V62, N257::V63, N257::V64, N257::V65, N257::V66, N257::V67, N257::V68, N257::V69, N257::V70, N257::V71, N257::V72, N257::V73, N257::V74, N257::V75, N257::V76, N257::V77, N257::V78, N257::V79, N257::V80, N257::V81, N257::V82, N257::V83, N257::V84, N257::V85, N257::V86, N257::V87, N257::V88, N257::V89, N257::V90, N257::V91, N257::V92, N257::V93, N257::V94, N257::V95, N257::V96, N257::V97, N257::V98, N257::V99, N257::V100, N257::V101, N257::V102, N257::V103, N257::V104, N257::V105, N257::V106, N257::V107, N257::V108, N257::V109, N257::V110, N257::V111, N257::V112, N257::V113, N257::V114, N257::V115, N257::V116, N257::V117, N257::V118, N257::V119, N257::V120, N257::V121, N257::V122, N257::V123, N257::V124, N257::V125, N257::V126, N257::V127, N257::V128, N257::V129, N257::V130, N257::V131, N257::V132, N257::V133, N257::V134, N257::V135, N257::V136, N257::V137, N257::V138, N257::V139, N257::V140, N257::V141, N257::V142, N257::V143, N257::V144, N257::V145, N257::V146, N257::V147, N257::V148, N257::V149, N257::V150, N257::V151, N257::V152, N257::V153, N257::V154, N257::V155, N257::V156, N257::V157, N257::V158, N257::V159, N257::V160, N257::V161, N257::V162, N257::V163, N257::V164, N257::V165, N257::V166, N257::V167, N257::V168, N257::V169, N257::V170, N257::V171, N257::V172, N257::V173, N257::V174, N257::V175, N257::V176, N257::V177, N257::V178, N257::V179, N257::V180, N257::V181, N257::V182, N257::V183, N257::V184, N257::V185, N257::V186, N257::V187, N257::V188, N257::V189, N257::V190, N257::V191, N257::V192, N257::V193, N257::V194, N257::V195, N257::V196, N257::V197, N257::V198, N257::V199, N257::V200, N257::V201, N257::V202, N257::V203, N257::V204, N257::V205, N257::V206, N257::V207, N257::V208, N257::V209, N257::V210, N257::V211, N257::V212, N257::V213, N257::V214, N257::V215, N257::V216, N257::V217, N257::V218, N257::V219, N257::V220, N257::V221, N257::V222, N257::V223, N257::V224, N257::V225, N257::V226, N257::V227, N257::V228, N257::V229, N257::V230, N257::V231, N257::V232, N257::V233, N257::V234, N257::V235, N257::V236, N257::V237, N257::V238, N257::V239, N257::V240, N257::V241, N257::V242, N257::V243, N257::V244, N257::V245, N257::V246, N257::V247, N257::V248, N257::V249, N257::V250, N257::V251, N257::V252, N257::V253, N257::V254, N257::V255, N257::V256];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N257::V0 => 0,
            N257::V1 => 1,
            N257::V2 => 2,
            N257::V3 => 3,
            N257::V4 => 4,
            N257::V5 => 5,
            N257::V6 => 6,
            N257::V7 => 7,
            N257::V8 => 8,
            N257::V9 => 9,
            N257::V10 => 10,
            N257::V11 => 11,
            N257::V12 => 12,
            N257::V13 => 13,
            N257::V14 => 14,
            N257::V15 => 15,
            N257::V16 => 16,
            N257::V17 => 17,
            N257::V18 => 18,
            N257::V19 => 19,
            N257::V20 => 20,
            N257::V21 => 21,
            N257::V22 => 22,
            N257::V23 => 23,
            N257::V24 => 24,
            N257::V25 => 25,
            N257::V26 => 26,
            N257::V27 => 27,
            N257::V28 => 28,
            N257::V29 => 29,
            N257::V30 => 30,
            N257::V31 => 31,
            N257::V32 => 32,
            N257::V33 => 33,
            N257::V34 => 34,
            N257::V35 => 35,
            N257::V36 => 36,
            N257::V37 => 37,
            N257::V38 => 38,
            N257::V39 => 39,
            N257::V40 => 40,
            N257::V41 => 41,
            N257::V42 => 42,
            N257::V43 => 43,
            N257::V44 => 44,
            N257::V45 => 45,
            N257::V46 => 46,
            N257::V47 => 47,
            N257::V48 => 48,
            N257::V49 => 49,
            N257::V50 => 50,
            N257::V51 => 51,
            N257::V52 => 52,
            N257::V53 => 53,
            N257::V54 => 54,
            N257::V55 => 55,
            N257::V56 => 56,
            N257::V57 => 57,
            N257::V58 => 58,
            N257::V59 => 59,
            N257::V60 => 60,
            N257::V61 => 61,
            N257::V62 => 62,
            N257::V63 => 63,
            N257::V64 => 64,
            N257::V65 => 65,
            N257::V66 => 66,
            N257::V67 => 67,
            N257::V68 => 68,
            N257::V69 => 69,
            N257::V70 => 70,
            N257::V71 => 71,
            N257::V72 => 72,
            N257::V73 => 73,
            N257::V74 => 74,
            N257::V75 => 75,
            N257::V76 => 76,
            N257::V77 => 77,
            N257::V78 => 78,
            N257::V79 => 79,
            N257::V80 => 80,
            N257::V81 => 81,
            N257::V82 => 82,
            N257::V83 => 83,
            N257::V84 => 84,
            N257::V85 => 85,
            N257::V86 => 86,
            N257::V87 => 87,
            N257::V88 => 88,
            N257::V89 => 89,
            N257::V90 => 90,
            N257::V91 => 91,
            N257::V92 => 92,
            N257::V93 => 93,
            N257::V94 => 94,
            N257::V95 => 95,
            N257::V96 => 96,
            N257::V97 => 97,
            N257::V98 => 98,
            N257::V99 => 99,
            N257::V100 => 100,
            N257::V101 => 101,
            N257::V102 => 102,
            N257::V103 => 103,
            N257::V104 => 104,
            N257::V105 => 105,
            N257::V106 => 106,
            N257::V107 => 107,
            N257::V108 => 108,
            N257::V109 => 109,
            N257::V110 => 110,
            N257::V111 => 111,
            N257::V112 => 112,
            N257::V113 => 113,
            N257::V114 => 114,
            N257::V115 => 115,
            N257::V116 => 116,
            N257::V117 => 117,
            N257::V118 => 118,
            N257::V119 => 119,
            N257::V120 => 120,
            N257::V121 => 121,
            N257::V122 => 122,
            N257::V123 => 123,
            N257::V124 => 124,
            N257::V125 => 125,
            N257::V126 => 126,
            N257::V127 => 127,
            N257::V128 => 128,
            N257::V129 => 129,
            N257::V130 => 130,
            N257::V131 => 131,
            N257::V132 => 132,
            N257::V133 => 133,
            N257::V134 => 134,
            N257::V135 => 135,
            N257::V136 => 136,
            N257::V137 => 137,
            N257::V138 => 138,
            N257::V139 => 139,
            N257::V140 => 140,
            N257::V141 => 141,
            N257::V142 => 142,
            N257::V143 => 143,
            N257::V144 => 144,
            N257::V145 => 145,
            N257::V146 => 146,
            N257::V147 => 147,
            N257::V148 => 148,
            N257::V149 => 149,
            N257::V150 => 150,
            N257::V151 => 151,
            N257::V152 => 152,
            N257::V153 => 153,
            N257::V154 => 154,
            N257::V155 => 155,
            N257::V156 => 156,
            N257::V157 => 157,
            N257::V158 => 158,
            N257::V159 => 159,
            N257::V160 => 160,
            N257::V161 => 161,
            N257::V162 => 162,
            N257::V163 => 163,
            N257::V164 => 164,
            N257::V165 => 165,
            N257::V166 => 166,
            N257::V167 => 167,
            N257::V168 => 168,
            N257::V169 => 169,
            N257::V170 => 170,
            N257::V171 => 171,
            N257::V172 => 172,
            N257::V173 => 173,
            N257::V174 => 174,
            N257::V175 => 175,
            N257::V176 => 176,
            N257::V177 => 177,
            N257::V178 => 178,
            N257::V179 => 179,
            N257::V180 => 180,
            N257::V181 => 181,
            N257::V182 => 182,
            N257::V183 => 183,
            N257::V184 => 184,
            N257::V185 => 185,
            N257::V186 => 186,
            N257::V187 => 187,
            N257::V188 => 188,
            N257::V189 => 189,
            N257::V190 => 190,
            N257::V191 => 191,
            N257::V192 => 192,
            N257::V193 => 193,
            N257::V194 => 194,
            N257::V195 => 195,
            N257::V196 => 196,
            N257::V197 => 197,
            N257::V198 => 198,
            N257::V199 => 199,
            N257::V200 => 200,
            N257::V201 => 201,
            N257::V202 => 202,
            N257::V203 => 203,
            N257::V204 => 204,
            N257::V205 => 205,
            N257::V206 => 206,
            N257::V207 => 207,
            N257::V208 => 208,
            N257::V209 => 209,
            N257::V210 => 210,
            N257::V211 => 211,
            N257::V212 => 212,
            N257::V213 => 213,
            N257::V214 => 214,
            N257::V215 => 215,
            N257::V216 => 216,
            N257::V217 => 217,
            N257::V218 => 218,
            N257::V219 => 219,
            N257::V220 => 220,
            N257::V221 => 221,
            N257::V222 => 222,
            N257::V223 => 223,
            N257::V224 => 224,
            N257::V225 => 225,
            N257::V226 => 226,
            N257::V227 => 227,
            N257::V228 => 228,
            N257::V229 => 229,
            N257::V230 => 230,
            N257::V231 => 231,
            N257::V232 => 232,
            N257::V233 => 233,
            N257::V234 => 234,
            N257::V235 => 235,
            N257::V236 => 236,
            N257::V237 => 237,
            N257::V238 => 238,
            N257::V239 => 239,
            N257::V240 => 240,
            N257::V241 => 241,
            N257::V242 => 242,
            N257::V243 => 243,
            N257::V244 => 244,
            N257::V245 => 245,
            N257::V246 => 246,
            N257::V247 => 247,
            N257::V248 => 248,
            N257::V249 => 249,
            N257::V250 => 250,
            N257::V251 => 251,
            N257::V252 => 252,
            N257::V253 => 253,
            N257::V254 => 254,
            N257::V255 => 255,
            N257::V256 => 256,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..257 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_80 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum AllB { V0(bool), V1(bool), V2(bool), V3(bool), V4(bool), V5(bool), V6(bool), V7(bool), V8(bool), V9(bool), V10(bool), V11(bool), V12(bool), V13(bool), V14(bool), V15(bool), V16(bool), V17(bool), V18(bool), V19(bool) }
impl Dom for AllB {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return AllB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V4(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V5(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V6(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V7(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V8(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V9(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V10(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V11(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V12(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V13(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V14(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V15(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V16(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V17(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V18(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return AllB::V19(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            AllB::V0(x) => off(0, <bool as Dom>::idx(x)),
            AllB::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V3(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V4(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V5(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V6(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V7(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V8(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V9(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V10(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V11(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V12(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V13(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V14(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V15(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V16(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V17(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V18(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            AllB::V19(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_81 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D0 { V0 = -1, V1 = 0, V2 = 1, V3 = 7 }
impl Dom for D0 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D0] = &[D0::V0, D0::V1, D0::V2, D0::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D0::V0 => 0,
            D0::V1 => 1,
            D0::V2 => 2,
            D0::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_82 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D1 { V0 = -1, V1 = 0, V2 = 7, V3 = 1 }
impl Dom for D1 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D1] = &[D1::V0, D1::V1, D1::V2, D1::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D1::V0 => 0,
            D1::V1 => 1,
            D1::V2 => 2,
            D1::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_83 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D2 { V0 = -1, V1 = 1, V2 = 0, V3 = 7 }
impl Dom for D2 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D2] = &[D2::V0, D2::V1, D2::V2, D2::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D2::V0 => 0,
            D2::V1 => 1,
            D2::V2 => 2,
            D2::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_84 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB3 { V0 = -1, V1 = 1, V2 = 7, V3 = 0 }
impl Dom for DB3 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB3] = &[DB3::V0, DB3::V1, DB3::V2, DB3::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB3::V0 => 0,
            DB3::V1 => 1,
            DB3::V2 => 2,
            DB3::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_85 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D5 { V0 = -1, V1 = 7, V2 = 1, V3 = 0 }
impl Dom for D5 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D5] = &[D5::V0, D5::V1, D5::V2, D5::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D5::V0 => 0,
            D5::V1 => 1,
            D5::V2 => 2,
            D5::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_86 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB6 { V0 = 0, V1 = -1, V2 = 1, V3 = 7 }
impl Dom for DB6 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB6] = &[DB6::V0, DB6::V1, DB6::V2, DB6::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB6::V0 => 0,
            DB6::V1 => 1,
            DB6::V2 => 2,
            DB6::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_87 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D8 { V0 = 0, V1 = 1, V2 = -1, V3 = 7 }
impl Dom for D8 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D8] = &[D8::V0, D8::V1, D8::V2, D8::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D8::V0 => 0,
            D8::V1 => 1,
            D8::V2 => 2,
            D8::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_88 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D10 { V0 = 0, V1 = 7, V2 = -1, V3 = 1 }
impl Dom for D10 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D10] = &[D10::V0, D10::V1, D10::V2, D10::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D10::V0 => 0,
            D10::V1 => 1,
            D10::V2 => 2,
            D10::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_89 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D12 { V0 = 1, V1 = -1, V2 = 0, V3 = 7 }
impl Dom for D12 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D12] = &[D12::V0, D12::V1, D12::V2, D12::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D12::V0 => 0,
            D12::V1 => 1,
            D12::V2 => 2,
            D12::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_90 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D14 { V0 = 1, V1 = 0, V2 = -1, V3 = 7 }
impl Dom for D14 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D14] = &[D14::V0, D14::V1, D14::V2, D14::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D14::V0 => 0,
            D14::V1 => 1,
            D14::V2 => 2,
            D14::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_91 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D16 { V0 = 1, V1 = 7, V2 = -1, V3 = 0 }
impl Dom for D16 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D16] = &[D16::V0, D16::V1, D16::V2, D16::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D16::V0 => 0,
            D16::V1 => 1,
            D16::V2 => 2,
            D16::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_92 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D18 { V0 = 7, V1 = -1, V2 = 0, V3 = 1 }
impl Dom for D18 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D18] = &[D18::V0, D18::V1, D18::V2, D18::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D18::V0 => 0,
            D18::V1 => 1,
            D18::V2 => 2,
            D18::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_93 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D20 { V0 = 7, V1 = 0, V2 = -1, V3 = 1 }
impl Dom for D20 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D20] = &[D20::V0, D20::V1, D20::V2, D20::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D20::V0 => 0,
            D20::V1 => 1,
            D20::V2 => 2,
            D20::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_94 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D22 { V0 = 7, V1 = 1, V2 = -1, V3 = 0 }
impl Dom for D22 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D22] = &[D22::V0, D22::V1, D22::V2, D22::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D22::V0 => 0,
            D22::V1 => 1,
            D22::V2 => 2,
            D22::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_95 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DF0 { A = 1, B, C, D }
impl Dom for DF0 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DF0] = &[DF0::A, DF0::B, DF0::C, DF0::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DF0::A => 0,
            DF0::B => 1,
            DF0::C => 2,
            DF0::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_96 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DFB1 { A = 2, B, C, D }
impl Dom for DFB1 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DFB1] = &[DFB1::A, DFB1::B, DFB1::C, DFB1::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DFB1::A => 0,
            DFB1::B => 1,
            DFB1::C => 2,
            DFB1::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_97 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DFB2 { A = 3, B, C, D }
impl Dom for DFB2 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DFB2] = &[DFB2::A, DFB2::B, DFB2::C, DFB2::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DFB2::A => 0,
            DFB2::B => 1,
            DFB2::C => 2,
            DFB2::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_98 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DFB3 { A = 7, B, C, D }
impl Dom for DFB3 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DFB3] = &[DFB3::A, DFB3::B, DFB3::C, DFB3::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DFB3::A => 0,
            DFB3::B => 1,
            DFB3::C => 2,
            DFB3::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_99 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DFB4 { A = 8, B, C, D }
impl Dom for DFB4 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DFB4] = &[DFB4::A, DFB4::B, DFB4::C, DFB4::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DFB4::A => 0,
            DFB4::B => 1,
            DFB4::C => 2,
            DFB4::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_100 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DFB5 { A = 31, B, C, D }
impl Dom for DFB5 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DFB5] = &[DFB5::A, DFB5::B, DFB5::C, DFB5::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DFB5::A => 0,
            DFB5::B => 1,
            DFB5::C => 2,
            DFB5::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_101 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DFB6 { A = 32, B, C, D }
impl Dom for DFB6 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DFB6] = &[DFB6::A, DFB6::B, DFB6::C, DFB6::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DFB6::A => 0,
            DFB6::B => 1,
            DFB6::C => 2,
            DFB6::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_102 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DFB7 { A = 63, B, C, D }
impl Dom for DFB7 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DFB7] = &[DFB7::A, DFB7::B, DFB7::C, DFB7::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DFB7::A => 0,
            DFB7::B => 1,
            DFB7::C => 2,
            DFB7::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_103 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DFB8 { A = 64, B, C, D }
impl Dom for DFB8 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DFB8] = &[DFB8::A, DFB8::B, DFB8::C, DFB8::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DFB8::A => 0,
            DFB8::B => 1,
            DFB8::C => 2,
            DFB8::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_104 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DFB9 { A = 127, B, C, D }
impl Dom for DFB9 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DFB9] = &[DFB9::A, DFB9::B, DFB9::C, DFB9::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DFB9::A => 0,
            DFB9::B => 1,
            DFB9::C => 2,
            DFB9::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_105 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DFB10 { A = 128, B, C, D }
impl Dom for DFB10 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DFB10] = &[DFB10::A, DFB10::B, DFB10::C, DFB10::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DFB10::A => 0,
            DFB10::B => 1,
            DFB10::C => 2,
            DFB10::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_106 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DFB11 { A = 255, B, C, D }
impl Dom for DFB11 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DFB11] = &[DFB11::A, DFB11::B, DFB11::C, DFB11::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DFB11::A => 0,
            DFB11::B => 1,
            DFB11::C => 2,
            DFB11::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_107 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DFB12 { A = 256, B, C, D }
impl Dom for DFB12 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DFB12] = &[DFB12::A, DFB12::B, DFB12::C, DFB12::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DFB12::A => 0,
            DFB12::B => 1,
            DFB12::C => 2,
            DFB12::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_108 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DFB13 { A = 65535, B, C, D }
impl Dom for DFB13 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DFB13] = &[DFB13::A, DFB13::B, DFB13::C, DFB13::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DFB13::A => 0,
            DFB13::B => 1,
            DFB13::C => 2,
            DFB13::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_109 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DFB14 { A = -128, B, C, D }
impl Dom for DFB14 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DFB14] = &[DFB14::A, DFB14::B, DFB14::C, DFB14::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DFB14::A => 0,
            DFB14::B => 1,
            DFB14::C => 2,
            DFB14::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_110 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[repr(u8)]
pub enum Ru8 { A = 255, B = 0, C }
impl Dom for Ru8 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[Ru8] = &[Ru8::A, Ru8::B, Ru8::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            Ru8::A => 0,
            Ru8::B => 1,
            Ru8::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_111 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[repr(u16)]
pub enum Ru16 { A = 65535, B = 0, C }
impl Dom for Ru16 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[Ru16] = &[Ru16::A, Ru16::B, Ru16::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            Ru16::A => 0,
            Ru16::B => 1,
            Ru16::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_112 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
#[repr(u64)]
pub enum RBu64 { A = 18446744073709551615, B = 0, C }
impl Dom for RBu64 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[RBu64] = &[RBu64::A, RBu64::B, RBu64::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            RBu64::A => 0,
            RBu64::B => 1,
            RBu64::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_113 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[repr(C, u16)]
pub enum RPC { A(bool), B, C(&'static str) }
impl Dom for RPC {
    const N: usize = 1 + <bool as Dom>::N + <&'static str as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return RPC::A(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return RPC::B; } i -= 1;
        if i < <&'static str as Dom>::N { return RPC::C(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            RPC::A(x) => off(0, <bool as Dom>::idx(x)),
            RPC::B => 0 + <bool as Dom>::N,
            RPC::C(x) => off(1 + <bool as Dom>::N, <&'static str as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
    }
}
}
pub mod m_114 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I3 { Err, Self_, V }
impl Dom for I3 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I3] = &[I3::Err, I3::Self_, I3::V];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I3::Err => 0,
            I3::Self_ => 1,
            I3::V => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_115 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB6 { K, T, F }
impl Dom for IB6 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB6] = &[IB6::K, IB6::T, IB6::F];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB6::K => 0,
            IB6::T => 1,
            IB6::F => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_116 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC9 { A(bool), a, Item(Option<bool>) }
impl Dom for IC9 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC9::A(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC9::a; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC9::Item(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC9::A(x) => off(0, <bool as Dom>::idx(x)),
            IC9::a => 0 + <bool as Dom>::N,
            IC9::Item(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_117 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID12 { Iter, Keys(&'static str), Values }
impl Dom for ID12 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID12::Iter; } i -= 1;
        if i < <&'static str as Dom>::N { return ID12::Keys(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID12::Values; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID12::Iter => 0,
            ID12::Keys(x) => off(1, <&'static str as Dom>::idx(x)),
            ID12::Values => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_118 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I18 { Occupied, Vacant, MapStorage }
impl Dom for I18 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I18] = &[I18::Occupied, I18::Vacant, I18::MapStorage];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I18::Occupied => 0,
            I18::Vacant => 1,
            I18::MapStorage => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_119 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB21 { SetStorage, __MapStorage, __SetStorage }
impl Dom for IB21 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB21] = &[IB21::SetStorage, IB21::__MapStorage, IB21::__SetStorage];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB21::SetStorage => 0,
            IB21::__MapStorage => 1,
            IB21::__SetStorage => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_120 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC24 { VacantEntry(bool), OccupiedEntry, Entry(Option<bool>) }
impl Dom for IC24 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC24::VacantEntry(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC24::OccupiedEntry; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC24::Entry(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC24::VacantEntry(x) => off(0, <bool as Dom>::idx(x)),
            IC24::OccupiedEntry => 0 + <bool as Dom>::N,
            IC24::Entry(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_121 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID27 { SimpleOccupied, SimpleVacant(&'static str), Option }
impl Dom for ID27 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID27::SimpleOccupied; } i -= 1;
        if i < <&'static str as Dom>::N { return ID27::SimpleVacant(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID27::Option; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID27::SimpleOccupied => 0,
            ID27::SimpleVacant(x) => off(1, <&'static str as Dom>::idx(x)),
            ID27::Option => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_122 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I33 { Vec, bool, usize }
impl Dom for I33 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I33] = &[I33::Vec, I33::bool, I33::usize];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I33::Vec => 0,
            I33::bool => 1,
            I33::usize => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_123 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB36 { str, u8, core }
impl Dom for IB36 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB36] = &[IB36::str, IB36::u8, IB36::core];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB36::str => 0,
            IB36::u8 => 1,
            IB36::core => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_124 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC39 { std(bool), fixed_map, data(Option<bool>) }
impl Dom for IC39 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC39::std(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC39::fixed_map; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC39::data(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC39::std(x) => off(0, <bool as Dom>::idx(x)),
            IC39::fixed_map => 0 + <bool as Dom>::N,
            IC39::data(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_125 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID42 { start, end(&'static str), iter }
impl Dom for ID42 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID42::start; } i -= 1;
        if i < <&'static str as Dom>::N { return ID42::end(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID42::iter; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID42::start => 0,
            ID42::end(x) => off(1, <&'static str as Dom>::idx(x)),
            ID42::iter => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_126 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I48 { v, k, func }
impl Dom for I48 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I48] = &[I48::v, I48::k, I48::func];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I48::v => 0,
            I48::k => 1,
            I48::func => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_127 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB51 { inner, opt, other }
impl Dom for IB51 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB51] = &[IB51::inner, IB51::opt, IB51::other];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB51::inner => 0,
            IB51::opt => 1,
            IB51::other => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_128 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC54 { hasher(bool), f, option_to_entry(Option<bool>) }
impl Dom for IC54 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC54::hasher(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC54::f; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC54::option_to_entry(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC54::hasher(x) => off(0, <bool as Dom>::idx(x)),
            IC54::f => 0 + <bool as Dom>::N,
            IC54::option_to_entry(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_129 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID57 { BITS, _0(&'static str), _1 }
impl Dom for ID57 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID57::BITS; } i -= 1;
        if i < <&'static str as Dom>::N { return ID57::_0(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID57::_1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID57::BITS => 0,
            ID57::_0(x) => off(1, <&'static str as Dom>::idx(x)),
            ID57::_1 => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_130 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I63 { r#fn, r#match, r#loop }
impl Dom for I63 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I63] = &[I63::r#fn, I63::r#match, I63::r#loop];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I63::r#fn => 0,
            I63::r#match => 1,
            I63::r#loop => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_131 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB66 { r#Self_, Ünï, 名 }
impl Dom for IB66 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB66] = &[IB66::r#Self_, IB66::Ünï, IB66::名];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB66::r#Self_ => 0,
            IB66::Ünï => 1,
            IB66::名 => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_132 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC69 { Default(bool), Key, Map(Option<bool>) }
impl Dom for IC69 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC69::Default(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC69::Key; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC69::Map(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC69::Default(x) => off(0, <bool as Dom>::idx(x)),
            IC69::Key => 0 + <bool as Dom>::N,
            IC69::Map(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_133 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID72 { Set, Hash(&'static str), Ord }
impl Dom for ID72 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID72::Set; } i -= 1;
        if i < <&'static str as Dom>::N { return ID72::Hash(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID72::Ord; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID72::Set => 0,
            ID72::Hash(x) => off(1, <&'static str as Dom>::idx(x)),
            ID72::Ord => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_134 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I78 { Copy, Clone, EMPTY }
impl Dom for I78 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I78] = &[I78::Copy, I78::Clone, I78::EMPTY];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I78::Copy => 0,
            I78::Clone => 1,
            I78::EMPTY => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_135 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB81 { len, is_empty, insert }
impl Dom for IB81 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB81] = &[IB81::len, IB81::is_empty, IB81::insert];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB81::len => 0,
            IB81::is_empty => 1,
            IB81::insert => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_136 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC84 { remove(bool), get, retain(Option<bool>) }
impl Dom for IC84 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC84::remove(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC84::get; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC84::retain(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC84::remove(x) => off(0, <bool as Dom>::idx(x)),
            IC84::get => 0 + <bool as Dom>::N,
            IC84::retain(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_137 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID87 { clear, contains(&'static str), empty }
impl Dom for ID87 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID87::clear; } i -= 1;
        if i < <&'static str as Dom>::N { return ID87::contains(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID87::empty; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID87::clear => 0,
            ID87::contains(x) => off(1, <&'static str as Dom>::idx(x)),
            ID87::empty => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_138 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum A { A, B(bool) }
impl Dom for A {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return A::A; } i -= 1;
        if i < <bool as Dom>::N { return A::B(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            A::A => 0,
            A::B(x) => off(1, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_139 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum SetStorage { A, B }
impl Dom for SetStorage {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[SetStorage] = &[SetStorage::A, SetStorage::B];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            SetStorage::A => 0,
            SetStorage::B => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_140 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum __ { A, B }
impl Dom for __ {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[__] = &[__::A, __::B];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            __::A => 0,
            __::B => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub fn jobs(c: &mut fmcore::report::Ctx) {
    c.job("S1S", |w| fmcheck_slots::unit::<m_0::S1S>(w, "S1S"));
    c.job("S1W", |w| fmcheck_slots::unit::<m_1::S1W>(w, "S1W"));
    c.job("S2UD", |w| fmcheck_slots::unit::<m_2::S2UD>(w, "S2UD"));
    c.job("S2BK", |w| fmcheck_slots::unit::<m_3::S2BK>(w, "S2BK"));
    c.job("S2SS", |w| fmcheck_slots::unit::<m_4::S2SS>(w, "S2SS"));
    c.job("S2SW", |w| fmcheck_slots::unit::<m_5::S2SW>(w, "S2SW"));
    c.job("S2OC", |w| fmcheck_slots::unit::<m_6::S2OC>(w, "S2OC"));
    c.job("S2EE", |w| fmcheck_slots::unit::<m_7::S2EE>(w, "S2EE"));
    c.job("S2KB", |w| fmcheck_slots::unit::<m_8::S2KB>(w, "S2KB"));
    c.job("S2KT", |w| fmcheck_slots::unit::<m_9::S2KT>(w, "S2KT"));
    c.job("S2ZZ", |w| fmcheck_slots::unit::<m_10::S2ZZ>(w, "S2ZZ"));
    c.job("S2CO", |w| fmcheck_slots::unit::<m_11::S2CO>(w, "S2CO"));
    c.job("S2DU", |w| fmcheck_slots::unit::<m_12::S2DU>(w, "S2DU"));
    c.job("S2DD", |w| fmcheck_slots::unit::<m_13::S2DD>(w, "S2DD"));
    c.job("S2TK", |w| fmcheck_slots::unit::<m_14::S2TK>(w, "S2TK"));
    c.job("S2WS", |w| fmcheck_slots::unit::<m_15::S2WS>(w, "S2WS"));
    c.job("S2WW", |w| fmcheck_slots::unit::<m_16::S2WW>(w, "S2WW"));
    c.job("S3UBS", |w| fmcheck_slots::unit::<m_17::S3UBS>(w, "S3UBS"));
    c.job("S3USK", |w| fmcheck_slots::unit::<m_18::S3USK>(w, "S3USK"));
    c.job("S3UKU", |w| fmcheck_slots::unit::<m_19::S3UKU>(w, "S3UKU"));
    c.job("S3UDS", |w| fmcheck_slots::unit::<m_20::S3UDS>(w, "S3UDS"));
    c.job("S3BUK", |w| fmcheck_slots::unit::<m_21::S3BUK>(w, "S3BUK"));
    c.job("S3BSU", |w| fmcheck_slots::unit::<m_22::S3BSU>(w, "S3BSU"));
    c.job("S3BOS", |w| fmcheck_slots::unit::<m_23::S3BOS>(w, "S3BOS"));
    c.job("S3BKK", |w| fmcheck_slots::unit::<m_24::S3BKK>(w, "S3BKK"));
    c.job("S3SUU", |w| fmcheck_slots::unit::<m_25::S3SUU>(w, "S3SUU"));
    c.job("S3SBS", |w| fmcheck_slots::unit::<m_26::S3SBS>(w, "S3SBS"));
    c.job("S3SSK", |w| fmcheck_slots::unit::<m_27::S3SSK>(w, "S3SSK"));
    c.job("S3SKU", |w| fmcheck_slots::unit::<m_28::S3SKU>(w, "S3SKU"));
    c.job("S3SDS", |w| fmcheck_slots::unit::<m_29::S3SDS>(w, "S3SDS"));
    c.job("S3OUK", |w| fmcheck_slots::unit::<m_30::S3OUK>(w, "S3OUK"));
    c.job("S3OSU", |w| fmcheck_slots::unit::<m_31::S3OSU>(w, "S3OSU"));
    c.job("S3OOS", |w| fmcheck_slots::unit::<m_32::S3OOS>(w, "S3OOS"));
    c.job("S3OKK", |w| fmcheck_slots::unit::<m_33::S3OKK>(w, "S3OKK"));
    c.job("S3KUU", |w| fmcheck_slots::unit::<m_34::S3KUU>(w, "S3KUU"));
    c.job("S3KBS", |w| fmcheck_slots::unit::<m_35::S3KBS>(w, "S3KBS"));
    c.job("S3KSK", |w| fmcheck_slots::unit::<m_36::S3KSK>(w, "S3KSK"));
    c.job("S3KKU", |w| fmcheck_slots::unit::<m_37::S3KKU>(w, "S3KKU"));
    c.job("S3KDS", |w| fmcheck_slots::unit::<m_38::S3KDS>(w, "S3KDS"));
    c.job("S3DUK", |w| fmcheck_slots::unit::<m_39::S3DUK>(w, "S3DUK"));
    c.job("S3DSU", |w| fmcheck_slots::unit::<m_40::S3DSU>(w, "S3DSU"));
    c.job("S3DOS", |w| fmcheck_slots::unit::<m_41::S3DOS>(w, "S3DOS"));
    c.job("S3DKK", |w| fmcheck_slots::unit::<m_42::S3DKK>(w, "S3DKK"));
    c.job("S4UUUB", |w| fmcheck_slots::unit::<m_43::S4UUUB>(w, "S4UUUB"));
    c.job("S4UBUU", |w| fmcheck_slots::unit::<m_44::S4UBUU>(w, "S4UBUU"));
    c.job("S4UBSS", |w| fmcheck_slots::unit::<m_45::S4UBSS>(w, "S4UBSS"));
    c.job("S4USSB", |w| fmcheck_slots::unit::<m_46::S4USSB>(w, "S4USSB"));
    c.job("S4BUSU", |w| fmcheck_slots::unit::<m_47::S4BUSU>(w, "S4BUSU"));
    c.job("S4BBBS", |w| fmcheck_slots::unit::<m_48::S4BBBS>(w, "S4BBBS"));
    c.job("S4BSBB", |w| fmcheck_slots::unit::<m_49::S4BSBB>(w, "S4BSBB"));
    c.job("S4SUBU", |w| fmcheck_slots::unit::<m_50::S4SUBU>(w, "S4SUBU"));
    c.job("S4SBUS", |w| fmcheck_slots::unit::<m_51::S4SBUS>(w, "S4SBUS"));
    c.job("S4SSUB", |w| fmcheck_slots::unit::<m_52::S4SSUB>(w, "S4SSUB"));
    c.job("S5UUUUO", |w| fmcheck_slots::unit::<m_53::S5UUUUO>(w, "S5UUUUO"));
    c.job("S5UOUUO", |w| fmcheck_slots::unit::<m_54::S5UOUUO>(w, "S5UOUUO"));
    c.job("S5OUUUO", |w| fmcheck_slots::unit::<m_55::S5OUUUO>(w, "S5OUUUO"));
    c.job("S5OOUUO", |w| fmcheck_slots::unit::<m_56::S5OOUUO>(w, "S5OOUUO"));
    c.job("P6_1", |w| fmcheck_slots::unit::<m_57::P6_1>(w, "P6_1"));
    c.job("P8_3", |w| fmcheck_slots::unit::<m_58::P8_3>(w, "P8_3"));
    c.job("P12_3", |w| fmcheck_slots::unit::<m_59::P12_3>(w, "P12_3"));
    c.job("P12_11", |w| fmcheck_slots::unit::<m_60::P12_11>(w, "P12_11"));
    c.job("B5", |w| fmcheck_slots::unit::<m_61::B5>(w, "B5"));
    c.job("B9", |w| fmcheck_slots::unit::<m_62::B9>(w, "B9"));
    c.job("B13", |w| fmcheck_slots::unit::<m_63::B13>(w, "B13"));
    c.job("B17", |w| fmcheck_slots::unit::<m_64::B17>(w, "B17"));
    c.job("B21", |w| fmcheck_slots::unit::<m_65::B21>(w, "B21"));
    c.job("B25", |w| fmcheck_slots::unit::<m_66::B25>(w, "B25"));
    c.job("B29", |w| fmcheck_slots::unit::<m_67::B29>(w, "B29"));
    c.job("B33", |w| fmcheck_slots::unit::<m_68::B33>(w, "B33"));
    c.job("B37", |w| fmcheck_slots::unit::<m_69::B37>(w, "B37"));
    c.job("B41", |w| fmcheck_slots::unit::<m_70::B41>(w, "B41"));
    c.job("B45", |w| fmcheck_slots::unit::<m_71::B45>(w, "B45"));
    c.job("B49", |w| fmcheck_slots::unit::<m_72::B49>(w, "B49"));
    c.job("B53", |w| fmcheck_slots::unit::<m_73::B53>(w, "B53"));
    c.job("B57", |w| fmcheck_slots::unit::<m_74::B57>(w, "B57"));
    c.job("B61", |w| fmcheck_slots::unit::<m_75::B61>(w, "B61"));
    c.job("B65", |w| fmcheck_slots::unit::<m_76::B65>(w, "B65"));
    c.job("B96", |w| fmcheck_slots::unit::<m_77::B96>(w, "B96"));
    c.job("B128", |w| fmcheck_slots::unit::<m_78::B128>(w, "B128"));
    c.job("N257", |w| fmcheck_slots::unit::<m_79::N257>(w, "N257"));
    c.job("AllB", |w| fmcheck_slots::unit::<m_80::AllB>(w, "AllB"));
    c.job("D0", |w| fmcheck_slots::unit::<m_81::D0>(w, "D0"));
    c.job("D1", |w| fmcheck_slots::unit::<m_82::D1>(w, "D1"));
    c.job("D2", |w| fmcheck_slots::unit::<m_83::D2>(w, "D2"));
    c.job("DB3", |w| fmcheck_slots::unit::<m_84::DB3>(w, "DB3"));
    c.job("D5", |w| fmcheck_slots::unit::<m_85::D5>(w, "D5"));
    c.job("DB6", |w| fmcheck_slots::unit::<m_86::DB6>(w, "DB6"));
    c.job("D8", |w| fmcheck_slots::unit::<m_87::D8>(w, "D8"));
    c.job("D10", |w| fmcheck_slots::unit::<m_88::D10>(w, "D10"));
    c.job("D12", |w| fmcheck_slots::unit::<m_89::D12>(w, "D12"));
    c.job("D14", |w| fmcheck_slots::unit::<m_90::D14>(w, "D14"));
    c.job("D16", |w| fmcheck_slots::unit::<m_91::D16>(w, "D16"));
    c.job("D18", |w| fmcheck_slots::unit::<m_92::D18>(w, "D18"));
    c.job("D20", |w| fmcheck_slots::unit::<m_93::D20>(w, "D20"));
    c.job("D22", |w| fmcheck_slots::unit::<m_94::D22>(w, "D22"));
    c.job("DF0", |w| fmcheck_slots::unit::<m_95::DF0>(w, "DF0"));
    c.job("DFB1", |w| fmcheck_slots::unit::<m_96::DFB1>(w, "DFB1"));
    c.job("DFB2", |w| fmcheck_slots::unit::<m_97::DFB2>(w, "DFB2"));
    c.job("DFB3", |w| fmcheck_slots::unit::<m_98::DFB3>(w, "DFB3"));
    c.job("DFB4", |w| fmcheck_slots::unit::<m_99::DFB4>(w, "DFB4"));
    c.job("DFB5", |w| fmcheck_slots::unit::<m_100::DFB5>(w, "DFB5"));
    c.job("DFB6", |w| fmcheck_slots::unit::<m_101::DFB6>(w, "DFB6"));
    c.job("DFB7", |w| fmcheck_slots::unit::<m_102::DFB7>(w, "DFB7"));
    c.job("DFB8", |w| fmcheck_slots::unit::<m_103::DFB8>(w, "DFB8"));
    c.job("DFB9", |w| fmcheck_slots::unit::<m_104::DFB9>(w, "DFB9"));
    c.job("DFB10", |w| fmcheck_slots::unit::<m_105::DFB10>(w, "DFB10"));
    c.job("DFB11", |w| fmcheck_slots::unit::<m_106::DFB11>(w, "DFB11"));
    c.job("DFB12", |w| fmcheck_slots::unit::<m_107::DFB12>(w, "DFB12"));
    c.job("DFB13", |w| fmcheck_slots::unit::<m_108::DFB13>(w, "DFB13"));
    c.job("DFB14", |w| fmcheck_slots::unit::<m_109::DFB14>(w, "DFB14"));
    c.job("Ru8", |w| fmcheck_slots::unit::<m_110::Ru8>(w, "Ru8"));
    c.job("Ru16", |w| fmcheck_slots::unit::<m_111::Ru16>(w, "Ru16"));
    c.job("RBu64", |w| fmcheck_slots::unit::<m_112::RBu64>(w, "RBu64"));
    c.job("RPC", |w| fmcheck_slots::unit::<m_113::RPC>(w, "RPC"));
    c.job("I3", |w| fmcheck_slots::unit::<m_114::I3>(w, "I3"));
    c.job("IB6", |w| fmcheck_slots::unit::<m_115::IB6>(w, "IB6"));
    c.job("IC9", |w| fmcheck_slots::unit::<m_116::IC9>(w, "IC9"));
    c.job("ID12", |w| fmcheck_slots::unit::<m_117::ID12>(w, "ID12"));
    c.job("I18", |w| fmcheck_slots::unit::<m_118::I18>(w, "I18"));
    c.job("IB21", |w| fmcheck_slots::unit::<m_119::IB21>(w, "IB21"));
    c.job("IC24", |w| fmcheck_slots::unit::<m_120::IC24>(w, "IC24"));
    c.job("ID27", |w| fmcheck_slots::unit::<m_121::ID27>(w, "ID27"));
    c.job("I33", |w| fmcheck_slots::unit::<m_122::I33>(w, "I33"));
    c.job("IB36", |w| fmcheck_slots::unit::<m_123::IB36>(w, "IB36"));
    c.job("IC39", |w| fmcheck_slots::unit::<m_124::IC39>(w, "IC39"));
    c.job("ID42", |w| fmcheck_slots::unit::<m_125::ID42>(w, "ID42"));
    c.job("I48", |w| fmcheck_slots::unit::<m_126::I48>(w, "I48"));
    c.job("IB51", |w| fmcheck_slots::unit::<m_127::IB51>(w, "IB51"));
    c.job("IC54", |w| fmcheck_slots::unit::<m_128::IC54>(w, "IC54"));
    c.job("ID57", |w| fmcheck_slots::unit::<m_129::ID57>(w, "ID57"));
    c.job("I63", |w| fmcheck_slots::unit::<m_130::I63>(w, "I63"));
    c.job("IB66", |w| fmcheck_slots::unit::<m_131::IB66>(w, "IB66"));
    c.job("IC69", |w| fmcheck_slots::unit::<m_132::IC69>(w, "IC69"));
    c.job("ID72", |w| fmcheck_slots::unit::<m_133::ID72>(w, "ID72"));
    c.job("I78", |w| fmcheck_slots::unit::<m_134::I78>(w, "I78"));
    c.job("IB81", |w| fmcheck_slots::unit::<m_135::IB81>(w, "IB81"));
    c.job("IC84", |w| fmcheck_slots::unit::<m_136::IC84>(w, "IC84"));
    c.job("ID87", |w| fmcheck_slots::unit::<m_137::ID87>(w, "ID87"));
    c.job("A", |w| fmcheck_slots::unit::<m_138::A>(w, "A"));
    c.job("SetStorage", |w| fmcheck_slots::unit::<m_139::SetStorage>(w, "SetStorage"));
    c.job("__", |w| fmcheck_slots::unit::<m_140::__>(w, "__"));
}
