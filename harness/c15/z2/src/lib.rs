//! Generated by gen2.py; do not edit.
#![allow(unused_imports, non_camel_case_types, non_upper_case_globals, non_snake_case, dead_code, uncommon_codepoints, clippy::all)]
#![recursion_limit = "1024"]
use fmcheck_dom::{off, Dom};
use fixed_map::Key;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U2 { V0, V1 }
impl Dom for U2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U2] = &[U2::V0, U2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U2::V0 => 0,
            U2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K2 { V0, V1 }
impl Dom for K2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K2] = &[K2::V0, K2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K2::V0 => 0,
            K2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U0 {  }
impl Dom for U0 {
    const N: usize = 0;
    const STATIC: bool = true;
    fn at(_: usize) -> Self { panic!("no such key") }
    fn idx(self) -> usize { match self {} }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..0 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum NestA { X(bool), Y }
impl Dom for NestA {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return NestA::X(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return NestA::Y; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            NestA::X(x) => off(0, <bool as Dom>::idx(x)),
            NestA::Y => 0 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
pub mod m_0 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S1O { V0(Option<bool>) }
impl Dom for S1O {
    const N: usize = 0 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S1O::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S1O::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_1 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2UB { V0, V1(bool) }
impl Dom for S2UB {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S2UB::V0; } i -= 1;
        if i < <bool as Dom>::N { return S2UB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2UB::V0 => 0,
            S2UB::V1(x) => off(1, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_2 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2UT { V0, V1(&'static str) }
impl Dom for S2UT {
    const N: usize = 1 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S2UT::V0; } i -= 1;
        if i < <&'static str as Dom>::N { return S2UT::V1(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2UT::V0 => 0,
            S2UT::V1(x) => off(1, <&'static str as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
    }
}
}
pub mod m_3 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2BZ { V0(bool), V1(U0) }
impl Dom for S2BZ {
    const N: usize = 0 + <bool as Dom>::N + <U0 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <U0 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S2BZ::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <U0 as Dom>::N { return S2BZ::V1(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2BZ::V0(x) => off(0, <bool as Dom>::idx(x)),
            S2BZ::V1(x) => off(0 + <bool as Dom>::N, <U0 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <U0 as Dom>::ranks(out, next);
    }
}
}
pub mod m_4 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2SO { V0(()), V1(Option<bool>) }
impl Dom for S2SO {
    const N: usize = 0 + <() as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S2SO::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S2SO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2SO::V0(x) => off(0, <() as Dom>::idx(x)),
            S2SO::V1(x) => off(0 + <() as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_5 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2OU { V0(Option<bool>), V1 }
impl Dom for S2OU {
    const N: usize = 1 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S2OU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S2OU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2OU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S2OU::V1 => 0 + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_6 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2OD { V0(Option<bool>), V1(u8) }
impl Dom for S2OD {
    const N: usize = 0 + <Option<bool> as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S2OD::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <u8 as Dom>::N { return S2OD::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2OD::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S2OD::V1(x) => off(0 + <Option<bool> as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_7 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2EK { V0(U2), V1(K2) }
impl Dom for S2EK {
    const N: usize = 0 + <U2 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return S2EK::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <K2 as Dom>::N { return S2EK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2EK::V0(x) => off(0, <U2 as Dom>::idx(x)),
            S2EK::V1(x) => off(0 + <U2 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_8 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2KS { V0(K2), V1(()) }
impl Dom for S2KS {
    const N: usize = 0 + <K2 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S2KS::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <() as Dom>::N { return S2KS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2KS::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S2KS::V1(x) => off(0 + <K2 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_9 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2KW { V0(K2), V1(Option<u32>) }
impl Dom for S2KW {
    const N: usize = 0 + <K2 as Dom>::N + <Option<u32> as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <Option<u32> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S2KW::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <Option<u32> as Dom>::N { return S2KW::V1(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2KW::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S2KW::V1(x) => off(0 + <K2 as Dom>::N, <Option<u32> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <Option<u32> as Dom>::ranks(out, next);
    }
}
}
pub mod m_10 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2ZC { V0(U0), V1(NestA) }
impl Dom for S2ZC {
    const N: usize = 0 + <U0 as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <U0 as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U0 as Dom>::N { return S2ZC::V0(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        if i < <NestA as Dom>::N { return S2ZC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2ZC::V0(x) => off(0, <U0 as Dom>::idx(x)),
            S2ZC::V1(x) => off(0 + <U0 as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U0 as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
}
pub mod m_11 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2CE { V0(NestA), V1(U2) }
impl Dom for S2CE {
    const N: usize = 0 + <NestA as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return S2CE::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <U2 as Dom>::N { return S2CE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2CE::V0(x) => off(0, <NestA as Dom>::idx(x)),
            S2CE::V1(x) => off(0 + <NestA as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_12 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2DB { V0(u8), V1(bool) }
impl Dom for S2DB {
    const N: usize = 0 + <u8 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S2DB::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <bool as Dom>::N { return S2DB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2DB::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S2DB::V1(x) => off(0 + <u8 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_13 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2DT { V0(u8), V1(&'static str) }
impl Dom for S2DT {
    const N: usize = 0 + <u8 as Dom>::N + <&'static str as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S2DT::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <&'static str as Dom>::N { return S2DT::V1(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2DT::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S2DT::V1(x) => off(0 + <u8 as Dom>::N, <&'static str as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <&'static str as Dom>::ranks(out, next);
    }
}
}
pub mod m_14 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2TZ { V0(&'static str), V1(U0) }
impl Dom for S2TZ {
    const N: usize = 0 + <&'static str as Dom>::N + <U0 as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC && <U0 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <&'static str as Dom>::N { return S2TZ::V0(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i < <U0 as Dom>::N { return S2TZ::V1(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2TZ::V0(x) => off(0, <&'static str as Dom>::idx(x)),
            S2TZ::V1(x) => off(0 + <&'static str as Dom>::N, <U0 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <&'static str as Dom>::ranks(out, next);
        <U0 as Dom>::ranks(out, next);
    }
}
}
pub mod m_15 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2WO { V0(Option<u32>), V1(Option<bool>) }
impl Dom for S2WO {
    const N: usize = 0 + <Option<u32> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<u32> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<u32> as Dom>::N { return S2WO::V0(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S2WO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2WO::V0(x) => off(0, <Option<u32> as Dom>::idx(x)),
            S2WO::V1(x) => off(0 + <Option<u32> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<u32> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_16 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UUB { V0, V1, V2(bool) }
impl Dom for S3UUB {
    const N: usize = 2 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UUB::V0; } i -= 1;
        if i == 0 { return S3UUB::V1; } i -= 1;
        if i < <bool as Dom>::N { return S3UUB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UUB::V0 => 0,
            S3UUB::V1 => 1,
            S3UUB::V2(x) => off(2, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_17 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UBO { V0, V1(bool), V2(Option<bool>) }
impl Dom for S3UBO {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UBO::V0; } i -= 1;
        if i < <bool as Dom>::N { return S3UBO::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3UBO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UBO::V0 => 0,
            S3UBO::V1(x) => off(1, <bool as Dom>::idx(x)),
            S3UBO::V2(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_18 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3USD { V0, V1(()), V2(u8) }
impl Dom for S3USD {
    const N: usize = 1 + <() as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3USD::V0; } i -= 1;
        if i < <() as Dom>::N { return S3USD::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <u8 as Dom>::N { return S3USD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3USD::V0 => 0,
            S3USD::V1(x) => off(1, <() as Dom>::idx(x)),
            S3USD::V2(x) => off(1 + <() as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_19 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UKB { V0, V1(K2), V2(bool) }
impl Dom for S3UKB {
    const N: usize = 1 + <K2 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UKB::V0; } i -= 1;
        if i < <K2 as Dom>::N { return S3UKB::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <bool as Dom>::N { return S3UKB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UKB::V0 => 0,
            S3UKB::V1(x) => off(1, <K2 as Dom>::idx(x)),
            S3UKB::V2(x) => off(1 + <K2 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <K2 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_20 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UDO { V0, V1(u8), V2(Option<bool>) }
impl Dom for S3UDO {
    const N: usize = 1 + <u8 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UDO::V0; } i -= 1;
        if i < <u8 as Dom>::N { return S3UDO::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3UDO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UDO::V0 => 0,
            S3UDO::V1(x) => off(1, <u8 as Dom>::idx(x)),
            S3UDO::V2(x) => off(1 + <u8 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_21 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BUD { V0(bool), V1, V2(u8) }
impl Dom for S3BUD {
    const N: usize = 1 + <bool as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BUD::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S3BUD::V1; } i -= 1;
        if i < <u8 as Dom>::N { return S3BUD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BUD::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BUD::V1 => 0 + <bool as Dom>::N,
            S3BUD::V2(x) => off(1 + <bool as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_22 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BSB { V0(bool), V1(()), V2(bool) }
impl Dom for S3BSB {
    const N: usize = 0 + <bool as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BSB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S3BSB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S3BSB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BSB::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BSB::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S3BSB::V2(x) => off(0 + <bool as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_23 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BOO { V0(bool), V1(Option<bool>), V2(Option<bool>) }
impl Dom for S3BOO {
    const N: usize = 0 + <bool as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BOO::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3BOO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3BOO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BOO::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BOO::V1(x) => off(0 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3BOO::V2(x) => off(0 + <bool as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_24 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BKD { V0(bool), V1(K2), V2(u8) }
impl Dom for S3BKD {
    const N: usize = 0 + <bool as Dom>::N + <K2 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <K2 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BKD::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <K2 as Dom>::N { return S3BKD::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <u8 as Dom>::N { return S3BKD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BKD::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BKD::V1(x) => off(0 + <bool as Dom>::N, <K2 as Dom>::idx(x)),
            S3BKD::V2(x) => off(0 + <bool as Dom>::N + <K2 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_25 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SUB { V0(()), V1, V2(bool) }
impl Dom for S3SUB {
    const N: usize = 1 + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SUB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S3SUB::V1; } i -= 1;
        if i < <bool as Dom>::N { return S3SUB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SUB::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SUB::V1 => 0 + <() as Dom>::N,
            S3SUB::V2(x) => off(1 + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_26 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SBO { V0(()), V1(bool), V2(Option<bool>) }
impl Dom for S3SBO {
    const N: usize = 0 + <() as Dom>::N + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SBO::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S3SBO::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3SBO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SBO::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SBO::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S3SBO::V2(x) => off(0 + <() as Dom>::N + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_27 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SSD { V0(()), V1(()), V2(u8) }
impl Dom for S3SSD {
    const N: usize = 0 + <() as Dom>::N + <() as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SSD::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S3SSD::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <u8 as Dom>::N { return S3SSD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SSD::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SSD::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            S3SSD::V2(x) => off(0 + <() as Dom>::N + <() as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_28 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SKB { V0(()), V1(K2), V2(bool) }
impl Dom for S3SKB {
    const N: usize = 0 + <() as Dom>::N + <K2 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <K2 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SKB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <K2 as Dom>::N { return S3SKB::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <bool as Dom>::N { return S3SKB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SKB::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SKB::V1(x) => off(0 + <() as Dom>::N, <K2 as Dom>::idx(x)),
            S3SKB::V2(x) => off(0 + <() as Dom>::N + <K2 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_29 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SDO { V0(()), V1(u8), V2(Option<bool>) }
impl Dom for S3SDO {
    const N: usize = 0 + <() as Dom>::N + <u8 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <u8 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SDO::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <u8 as Dom>::N { return S3SDO::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3SDO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SDO::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SDO::V1(x) => off(0 + <() as Dom>::N, <u8 as Dom>::idx(x)),
            S3SDO::V2(x) => off(0 + <() as Dom>::N + <u8 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_30 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OUD { V0(Option<bool>), V1, V2(u8) }
impl Dom for S3OUD {
    const N: usize = 1 + <Option<bool> as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OUD::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S3OUD::V1; } i -= 1;
        if i < <u8 as Dom>::N { return S3OUD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OUD::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OUD::V1 => 0 + <Option<bool> as Dom>::N,
            S3OUD::V2(x) => off(1 + <Option<bool> as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_31 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OSB { V0(Option<bool>), V1(()), V2(bool) }
impl Dom for S3OSB {
    const N: usize = 0 + <Option<bool> as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OSB::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <() as Dom>::N { return S3OSB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S3OSB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OSB::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OSB::V1(x) => off(0 + <Option<bool> as Dom>::N, <() as Dom>::idx(x)),
            S3OSB::V2(x) => off(0 + <Option<bool> as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_32 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OOO { V0(Option<bool>), V1(Option<bool>), V2(Option<bool>) }
impl Dom for S3OOO {
    const N: usize = 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OOO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3OOO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3OOO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OOO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OOO::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3OOO::V2(x) => off(0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_33 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OKD { V0(Option<bool>), V1(K2), V2(u8) }
impl Dom for S3OKD {
    const N: usize = 0 + <Option<bool> as Dom>::N + <K2 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <K2 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OKD::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <K2 as Dom>::N { return S3OKD::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <u8 as Dom>::N { return S3OKD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OKD::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OKD::V1(x) => off(0 + <Option<bool> as Dom>::N, <K2 as Dom>::idx(x)),
            S3OKD::V2(x) => off(0 + <Option<bool> as Dom>::N + <K2 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_34 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KUB { V0(K2), V1, V2(bool) }
impl Dom for S3KUB {
    const N: usize = 1 + <K2 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KUB::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i == 0 { return S3KUB::V1; } i -= 1;
        if i < <bool as Dom>::N { return S3KUB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KUB::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KUB::V1 => 0 + <K2 as Dom>::N,
            S3KUB::V2(x) => off(1 + <K2 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_35 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KBO { V0(K2), V1(bool), V2(Option<bool>) }
impl Dom for S3KBO {
    const N: usize = 0 + <K2 as Dom>::N + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KBO::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <bool as Dom>::N { return S3KBO::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3KBO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KBO::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KBO::V1(x) => off(0 + <K2 as Dom>::N, <bool as Dom>::idx(x)),
            S3KBO::V2(x) => off(0 + <K2 as Dom>::N + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_36 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KSD { V0(K2), V1(()), V2(u8) }
impl Dom for S3KSD {
    const N: usize = 0 + <K2 as Dom>::N + <() as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <() as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KSD::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <() as Dom>::N { return S3KSD::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <u8 as Dom>::N { return S3KSD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KSD::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KSD::V1(x) => off(0 + <K2 as Dom>::N, <() as Dom>::idx(x)),
            S3KSD::V2(x) => off(0 + <K2 as Dom>::N + <() as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_37 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KKB { V0(K2), V1(K2), V2(bool) }
impl Dom for S3KKB {
    const N: usize = 0 + <K2 as Dom>::N + <K2 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <K2 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KKB::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <K2 as Dom>::N { return S3KKB::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <bool as Dom>::N { return S3KKB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KKB::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KKB::V1(x) => off(0 + <K2 as Dom>::N, <K2 as Dom>::idx(x)),
            S3KKB::V2(x) => off(0 + <K2 as Dom>::N + <K2 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_38 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KDO { V0(K2), V1(u8), V2(Option<bool>) }
impl Dom for S3KDO {
    const N: usize = 0 + <K2 as Dom>::N + <u8 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <u8 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KDO::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <u8 as Dom>::N { return S3KDO::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3KDO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KDO::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KDO::V1(x) => off(0 + <K2 as Dom>::N, <u8 as Dom>::idx(x)),
            S3KDO::V2(x) => off(0 + <K2 as Dom>::N + <u8 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_39 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DUD { V0(u8), V1, V2(u8) }
impl Dom for S3DUD {
    const N: usize = 1 + <u8 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DUD::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return S3DUD::V1; } i -= 1;
        if i < <u8 as Dom>::N { return S3DUD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DUD::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DUD::V1 => 0 + <u8 as Dom>::N,
            S3DUD::V2(x) => off(1 + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_40 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DSB { V0(u8), V1(()), V2(bool) }
impl Dom for S3DSB {
    const N: usize = 0 + <u8 as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DSB::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <() as Dom>::N { return S3DSB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S3DSB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DSB::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DSB::V1(x) => off(0 + <u8 as Dom>::N, <() as Dom>::idx(x)),
            S3DSB::V2(x) => off(0 + <u8 as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_41 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DOO { V0(u8), V1(Option<bool>), V2(Option<bool>) }
impl Dom for S3DOO {
    const N: usize = 0 + <u8 as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DOO::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3DOO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3DOO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DOO::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DOO::V1(x) => off(0 + <u8 as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3DOO::V2(x) => off(0 + <u8 as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_42 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DKD { V0(u8), V1(K2), V2(u8) }
impl Dom for S3DKD {
    const N: usize = 0 + <u8 as Dom>::N + <K2 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <K2 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DKD::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <K2 as Dom>::N { return S3DKD::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <u8 as Dom>::N { return S3DKD::V2(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DKD::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DKD::V1(x) => off(0 + <u8 as Dom>::N, <K2 as Dom>::idx(x)),
            S3DKD::V2(x) => off(0 + <u8 as Dom>::N + <K2 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_43 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UUUS { V0, V1, V2, V3(()) }
impl Dom for S4UUUS {
    const N: usize = 3 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UUUS::V0; } i -= 1;
        if i == 0 { return S4UUUS::V1; } i -= 1;
        if i == 0 { return S4UUUS::V2; } i -= 1;
        if i < <() as Dom>::N { return S4UUUS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UUUS::V0 => 0,
            S4UUUS::V1 => 1,
            S4UUUS::V2 => 2,
            S4UUUS::V3(x) => off(3, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_44 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UBUB { V0, V1(bool), V2, V3(bool) }
impl Dom for S4UBUB {
    const N: usize = 2 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UBUB::V0; } i -= 1;
        if i < <bool as Dom>::N { return S4UBUB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4UBUB::V2; } i -= 1;
        if i < <bool as Dom>::N { return S4UBUB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UBUB::V0 => 0,
            S4UBUB::V1(x) => off(1, <bool as Dom>::idx(x)),
            S4UBUB::V2 => 1 + <bool as Dom>::N,
            S4UBUB::V3(x) => off(2 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_45 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4USUU { V0, V1(()), V2, V3 }
impl Dom for S4USUU {
    const N: usize = 3 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4USUU::V0; } i -= 1;
        if i < <() as Dom>::N { return S4USUU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4USUU::V2; } i -= 1;
        if i == 0 { return S4USUU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4USUU::V0 => 0,
            S4USUU::V1(x) => off(1, <() as Dom>::idx(x)),
            S4USUU::V2 => 1 + <() as Dom>::N,
            S4USUU::V3 => 2 + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_46 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4USSS { V0, V1(()), V2(()), V3(()) }
impl Dom for S4USSS {
    const N: usize = 1 + <() as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4USSS::V0; } i -= 1;
        if i < <() as Dom>::N { return S4USSS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4USSS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4USSS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4USSS::V0 => 0,
            S4USSS::V1(x) => off(1, <() as Dom>::idx(x)),
            S4USSS::V2(x) => off(1 + <() as Dom>::N, <() as Dom>::idx(x)),
            S4USSS::V3(x) => off(1 + <() as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_47 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BUSB { V0(bool), V1, V2(()), V3(bool) }
impl Dom for S4BUSB {
    const N: usize = 1 + <bool as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BUSB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4BUSB::V1; } i -= 1;
        if i < <() as Dom>::N { return S4BUSB::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4BUSB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BUSB::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BUSB::V1 => 0 + <bool as Dom>::N,
            S4BUSB::V2(x) => off(1 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4BUSB::V3(x) => off(1 + <bool as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_48 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BBSU { V0(bool), V1(bool), V2(()), V3 }
impl Dom for S4BBSU {
    const N: usize = 1 + <bool as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BBSU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4BBSU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4BBSU::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4BBSU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BBSU::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BBSU::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4BBSU::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4BBSU::V3 => 0 + <bool as Dom>::N + <bool as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_49 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BSBS { V0(bool), V1(()), V2(bool), V3(()) }
impl Dom for S4BSBS {
    const N: usize = 0 + <bool as Dom>::N + <() as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BSBS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4BSBS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4BSBS::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4BSBS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BSBS::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BSBS::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4BSBS::V2(x) => off(0 + <bool as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4BSBS::V3(x) => off(0 + <bool as Dom>::N + <() as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_50 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SUBB { V0(()), V1, V2(bool), V3(bool) }
impl Dom for S4SUBB {
    const N: usize = 1 + <() as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SUBB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4SUBB::V1; } i -= 1;
        if i < <bool as Dom>::N { return S4SUBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4SUBB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SUBB::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SUBB::V1 => 0 + <() as Dom>::N,
            S4SUBB::V2(x) => off(1 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4SUBB::V3(x) => off(1 + <() as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_51 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SBBU { V0(()), V1(bool), V2(bool), V3 }
impl Dom for S4SBBU {
    const N: usize = 1 + <() as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SBBU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4SBBU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4SBBU::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4SBBU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SBBU::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SBBU::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4SBBU::V2(x) => off(0 + <() as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4SBBU::V3 => 0 + <() as Dom>::N + <bool as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_52 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SSUS { V0(()), V1(()), V2, V3(()) }
impl Dom for S4SSUS {
    const N: usize = 1 + <() as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SSUS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4SSUS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4SSUS::V2; } i -= 1;
        if i < <() as Dom>::N { return S4SSUS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SSUS::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SSUS::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            S4SSUS::V2 => 0 + <() as Dom>::N + <() as Dom>::N,
            S4SSUS::V3(x) => off(1 + <() as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_53 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5UUUOU { V0, V1, V2, V3(Option<bool>), V4 }
impl Dom for S5UUUOU {
    const N: usize = 4 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S5UUUOU::V0; } i -= 1;
        if i == 0 { return S5UUUOU::V1; } i -= 1;
        if i == 0 { return S5UUUOU::V2; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UUUOU::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5UUUOU::V4; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5UUUOU::V0 => 0,
            S5UUUOU::V1 => 1,
            S5UUUOU::V2 => 2,
            S5UUUOU::V3(x) => off(3, <Option<bool> as Dom>::idx(x)),
            S5UUUOU::V4 => 3 + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_54 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5UOUOU { V0, V1(Option<bool>), V2, V3(Option<bool>), V4 }
impl Dom for S5UOUOU {
    const N: usize = 3 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S5UOUOU::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UOUOU::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5UOUOU::V2; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UOUOU::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5UOUOU::V4; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5UOUOU::V0 => 0,
            S5UOUOU::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
            S5UOUOU::V2 => 1 + <Option<bool> as Dom>::N,
            S5UOUOU::V3(x) => off(2 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5UOUOU::V4 => 2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_55 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5OUUOU { V0(Option<bool>), V1, V2, V3(Option<bool>), V4 }
impl Dom for S5OUUOU {
    const N: usize = 3 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S5OUUOU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OUUOU::V1; } i -= 1;
        if i == 0 { return S5OUUOU::V2; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5OUUOU::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OUUOU::V4; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5OUUOU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S5OUUOU::V1 => 0 + <Option<bool> as Dom>::N,
            S5OUUOU::V2 => 1 + <Option<bool> as Dom>::N,
            S5OUUOU::V3(x) => off(2 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OUUOU::V4 => 2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_56 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5OOUOU { V0(Option<bool>), V1(Option<bool>), V2, V3(Option<bool>), V4 }
impl Dom for S5OOUOU {
    const N: usize = 2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S5OOUOU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OOUOU::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OOUOU::V2; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5OOUOU::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OOUOU::V4; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5OOUOU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S5OOUOU::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OOUOU::V2 => 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
            S5OOUOU::V3(x) => off(1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OOUOU::V4 => 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_57 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P6_2 { V0, V1, V2(bool), V3, V4, V5 }
impl Dom for P6_2 {
    const N: usize = 5 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P6_2::V0; } i -= 1;
        if i == 0 { return P6_2::V1; } i -= 1;
        if i < <bool as Dom>::N { return P6_2::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P6_2::V3; } i -= 1;
        if i == 0 { return P6_2::V4; } i -= 1;
        if i == 0 { return P6_2::V5; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P6_2::V0 => 0,
            P6_2::V1 => 1,
            P6_2::V2(x) => off(2, <bool as Dom>::idx(x)),
            P6_2::V3 => 2 + <bool as Dom>::N,
            P6_2::V4 => 3 + <bool as Dom>::N,
            P6_2::V5 => 4 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_58 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P8_4 { V0, V1, V2, V3, V4(bool), V5, V6, V7 }
impl Dom for P8_4 {
    const N: usize = 7 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P8_4::V0; } i -= 1;
        if i == 0 { return P8_4::V1; } i -= 1;
        if i == 0 { return P8_4::V2; } i -= 1;
        if i == 0 { return P8_4::V3; } i -= 1;
        if i < <bool as Dom>::N { return P8_4::V4(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P8_4::V5; } i -= 1;
        if i == 0 { return P8_4::V6; } i -= 1;
        if i == 0 { return P8_4::V7; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P8_4::V0 => 0,
            P8_4::V1 => 1,
            P8_4::V2 => 2,
            P8_4::V3 => 3,
            P8_4::V4(x) => off(4, <bool as Dom>::idx(x)),
            P8_4::V5 => 4 + <bool as Dom>::N,
            P8_4::V6 => 5 + <bool as Dom>::N,
            P8_4::V7 => 6 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_59 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P12_4 { V0, V1, V2, V3, V4(bool), V5, V6, V7, V8, V9, V10, V11 }
impl Dom for P12_4 {
    const N: usize = 11 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P12_4::V0; } i -= 1;
        if i == 0 { return P12_4::V1; } i -= 1;
        if i == 0 { return P12_4::V2; } i -= 1;
        if i == 0 { return P12_4::V3; } i -= 1;
        if i < <bool as Dom>::N { return P12_4::V4(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P12_4::V5; } i -= 1;
        if i == 0 { return P12_4::V6; } i -= 1;
        if i == 0 { return P12_4::V7; } i -= 1;
        if i == 0 { return P12_4::V8; } i -= 1;
        if i == 0 { return P12_4::V9; } i -= 1;
        if i == 0 { return P12_4::V10; } i -= 1;
        if i == 0 { return P12_4::V11; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P12_4::V0 => 0,
            P12_4::V1 => 1,
            P12_4::V2 => 2,
            P12_4::V3 => 3,
            P12_4::V4(x) => off(4, <bool as Dom>::idx(x)),
            P12_4::V5 => 4 + <bool as Dom>::N,
            P12_4::V6 => 5 + <bool as Dom>::N,
            P12_4::V7 => 6 + <bool as Dom>::N,
            P12_4::V8 => 7 + <bool as Dom>::N,
            P12_4::V9 => 8 + <bool as Dom>::N,
            P12_4::V10 => 9 + <bool as Dom>::N,
            P12_4::V11 => 10 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_60 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N0 {  }
impl Dom for N0 {
    const N: usize = 0;
    const STATIC: bool = true;
    fn at(_: usize) -> Self { panic!("no such key") }
    fn idx(self) -> usize { match self {} }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..0 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_61 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N3 { V0, V1, V2 }
impl Dom for N3 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N3] = &[N3::V0, N3::V1, N3::V2];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N3::V0 => 0,
            N3::V1 => 1,
            N3::V2 => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_62 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N7 { V0, V1, V2, V3, V4, V5, V6 }
impl Dom for N7 {
    const N: usize = 7;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N7] = &[N7::V0, N7::V1, N7::V2, N7::V3, N7::V4, N7::V5, N7::V6];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N7::V0 => 0,
            N7::V1 => 1,
            N7::V2 => 2,
            N7::V3 => 3,
            N7::V4 => 4,
            N7::V5 => 5,
            N7::V6 => 6,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..7 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_63 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N11 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10 }
impl Dom for N11 {
    const N: usize = 11;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N11] = &[N11::V0, N11::V1, N11::V2, N11::V3, N11::V4, N11::V5, N11::V6, N11::V7, N11::V8, N11::V9, N11::V10];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N11::V0 => 0,
            N11::V1 => 1,
            N11::V2 => 2,
            N11::V3 => 3,
            N11::V4 => 4,
            N11::V5 => 5,
            N11::V6 => 6,
            N11::V7 => 7,
            N11::V8 => 8,
            N11::V9 => 9,
            N11::V10 => 10,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..11 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_64 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N15 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14 }
impl Dom for N15 {
    const N: usize = 15;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N15] = &[N15::V0, N15::V1, N15::V2, N15::V3, N15::V4, N15::V5, N15::V6, N15::V7, N15::V8, N15::V9, N15::V10, N15::V11, N15::V12, N15::V13, N15::V14];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N15::V0 => 0,
            N15::V1 => 1,
            N15::V2 => 2,
            N15::V3 => 3,
            N15::V4 => 4,
            N15::V5 => 5,
            N15::V6 => 6,
            N15::V7 => 7,
            N15::V8 => 8,
            N15::V9 => 9,
            N15::V10 => 10,
            N15::V11 => 11,
            N15::V12 => 12,
            N15::V13 => 13,
            N15::V14 => 14,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..15 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_65 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N19 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18 }
impl Dom for N19 {
    const N: usize = 19;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N19] = &[N19::V0, N19::V1, N19::V2, N19::V3, N19::V4, N19::V5, N19::V6, N19::V7, N19::V8, N19::V9, N19::V10, N19::V11, N19::V12, N19::V13, N19::V14, N19::V15, N19::V16, N19::V17, N19::V18];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N19::V0 => 0,
            N19::V1 => 1,
            N19::V2 => 2,
            N19::V3 => 3,
            N19::V4 => 4,
            N19::V5 => 5,
            N19::V6 => 6,
            N19::V7 => 7,
            N19::V8 => 8,
            N19::V9 => 9,
            N19::V10 => 10,
            N19::V11 => 11,
            N19::V12 => 12,
            N19::V13 => 13,
            N19::V14 => 14,
            N19::V15 => 15,
            N19::V16 => 16,
            N19::V17 => 17,
            N19::V18 => 18,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..19 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_66 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N23 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22 }
impl Dom for N23 {
    const N: usize = 23;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N23] = &[N23::V0, N23::V1, N23::V2, N23::V3, N23::V4, N23::V5, N23::V6, N23::V7, N23::V8, N23::V9, N23::V10, N23::V11, N23::V12, N23::V13, N23::V14, N23::V15, N23::V16, N23::V17, N23::V18, N23::V19, N23::V20, N23::V21, N23::V22];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N23::V0 => 0,
            N23::V1 => 1,
            N23::V2 => 2,
            N23::V3 => 3,
            N23::V4 => 4,
            N23::V5 => 5,
            N23::V6 => 6,
            N23::V7 => 7,
            N23::V8 => 8,
            N23::V9 => 9,
            N23::V10 => 10,
            N23::V11 => 11,
            N23::V12 => 12,
            N23::V13 => 13,
            N23::V14 => 14,
            N23::V15 => 15,
            N23::V16 => 16,
            N23::V17 => 17,
            N23::V18 => 18,
            N23::V19 => 19,
            N23::V20 => 20,
            N23::V21 => 21,
            N23::V22 => 22,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..23 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_67 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N27 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26 }
impl Dom for N27 {
    const N: usize = 27;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N27] = &[N27::V0, N27::V1, N27::V2, N27::V3, N27::V4, N27::V5, N27::V6, N27::V7, N27::V8, N27::V9, N27::V10, N27::V11, N27::V12, N27::V13, N27::V14, N27::V15, N27::V16, N27::V17, N27::V18, N27::V19, N27::V20, N27::V21, N27::V22, N27::V23, N27::V24, N27::V25, N27::V26];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N27::V0 => 0,
            N27::V1 => 1,
            N27::V2 => 2,
            N27::V3 => 3,
            N27::V4 => 4,
            N27::V5 => 5,
            N27::V6 => 6,
            N27::V7 => 7,
            N27::V8 => 8,
            N27::V9 => 9,
            N27::V10 => 10,
            N27::V11 => 11,
            N27::V12 => 12,
            N27::V13 => 13,
            N27::V14 => 14,
            N27::V15 => 15,
            N27::V16 => 16,
            N27::V17 => 17,
            N27::V18 => 18,
            N27::V19 => 19,
            N27::V20 => 20,
            N27::V21 => 21,
            N27::V22 => 22,
            N27::V23 => 23,
            N27::V24 => 24,
            N27::V25 => 25,
            N27::V26 => 26,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..27 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_68 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N31 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30 }
impl Dom for N31 {
    const N: usize = 31;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N31] = &[N31::V0, N31::V1, N31::V2, N31::V3, N31::V4, N31::V5, N31::V6, N31::V7, N31::V8, N31::V9, N31::V10, N31::V11, N31::V12, N31::V13, N31::V14, N31::V15, N31::V16, N31::V17, N31::V18, N31::V19, N31::V20, N31::V21, N31::V22, N31::V23, N31::V24, N31::V25, N31::V26, N31::V27, N31::V28, N31::V29, N31::V30];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N31::V0 => 0,
            N31::V1 => 1,
            N31::V2 => 2,
            N31::V3 => 3,
            N31::V4 => 4,
            N31::V5 => 5,
            N31::V6 => 6,
            N31::V7 => 7,
            N31::V8 => 8,
            N31::V9 => 9,
            N31::V10 => 10,
            N31::V11 => 11,
            N31::V12 => 12,
            N31::V13 => 13,
            N31::V14 => 14,
            N31::V15 => 15,
            N31::V16 => 16,
            N31::V17 => 17,
            N31::V18 => 18,
            N31::V19 => 19,
            N31::V20 => 20,
            N31::V21 => 21,
            N31::V22 => 22,
            N31::V23 => 23,
            N31::V24 => 24,
            N31::V25 => 25,
            N31::V26 => 26,
            N31::V27 => 27,
            N31::V28 => 28,
            N31::V29 => 29,
            N31::V30 => 30,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..31 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_69 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N35 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34 }
impl Dom for N35 {
    const N: usize = 35;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N35] = &[N35::V0, N35::V1, N35::V2, N35::V3, N35::V4, N35::V5, N35::V6, N35::V7, N35::V8, N35::V9, N35::V10, N35::V11, N35::V12, N35::V13, N35::V14, N35::V15, N35::V16, N35::V17, N35::V18, N35::V19, N35::V20, N35::V21, N35::V22, N35::V23, N35::V24, N35::V25, N35::V26, N35::V27, N35::V28, N35::V29, N35::V30, N35::V31, N35::V32, N35::V33, N35::V34];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N35::V0 => 0,
            N35::V1 => 1,
            N35::V2 => 2,
            N35::V3 => 3,
            N35::V4 => 4,
            N35::V5 => 5,
            N35::V6 => 6,
            N35::V7 => 7,
            N35::V8 => 8,
            N35::V9 => 9,
            N35::V10 => 10,
            N35::V11 => 11,
            N35::V12 => 12,
            N35::V13 => 13,
            N35::V14 => 14,
            N35::V15 => 15,
            N35::V16 => 16,
            N35::V17 => 17,
            N35::V18 => 18,
            N35::V19 => 19,
            N35::V20 => 20,
            N35::V21 => 21,
            N35::V22 => 22,
            N35::V23 => 23,
            N35::V24 => 24,
            N35::V25 => 25,
            N35::V26 => 26,
            N35::V27 => 27,
            N35::V28 => 28,
            N35::V29 => 29,
            N35::V30 => 30,
            N35::V31 => 31,
            N35::V32 => 32,
            N35::V33 => 33,
            N35::V34 => 34,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..35 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_70 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N39 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38 }
impl Dom for N39 {
    const N: usize = 39;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N39] = &[N39::V0, N39::V1, N39::V2, N39::V3, N39::V4, N39::V5, N39::V6, N39::V7, N39::V8, N39::V9, N39::V10, N39::V11, N39::V12, N39::V13, N39::V14, N39::V15, N39::V16, N39::V17, N39::V18, N39::V19, N39::V20, N39::V21, N39::V22, N39::V23, N39::V24, N39::V25, N39::V26, N39::V27, N39::V28, N39::V29, N39::V30, N39::V31, N39::V32, N39::V33, N39::V34, N39::V35, N39::V36, N39::V37, N39::V38];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N39::V0 => 0,
            N39::V1 => 1,
            N39::V2 => 2,
            N39::V3 => 3,
            N39::V4 => 4,
            N39::V5 => 5,
            N39::V6 => 6,
            N39::V7 => 7,
            N39::V8 => 8,
            N39::V9 => 9,
            N39::V10 => 10,
            N39::V11 => 11,
            N39::V12 => 12,
            N39::V13 => 13,
            N39::V14 => 14,
            N39::V15 => 15,
            N39::V16 => 16,
            N39::V17 => 17,
            N39::V18 => 18,
            N39::V19 => 19,
            N39::V20 => 20,
            N39::V21 => 21,
            N39::V22 => 22,
            N39::V23 => 23,
            N39::V24 => 24,
            N39::V25 => 25,
            N39::V26 => 26,
            N39::V27 => 27,
            N39::V28 => 28,
            N39::V29 => 29,
            N39::V30 => 30,
            N39::V31 => 31,
            N39::V32 => 32,
            N39::V33 => 33,
            N39::V34 => 34,
            N39::V35 => 35,
            N39::V36 => 36,
            N39::V37 => 37,
            N39::V38 => 38,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..39 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_71 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N43 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42 }
impl Dom for N43 {
    const N: usize = 43;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N43] = &[N43::V0, N43::V1, N43::V2, N43::V3, N43::V4, N43::V5, N43::V6, N43::V7, N43::V8, N43::V9, N43::V10, N43::V11, N43::V12, N43::V13, N43::V14, N43::V15, N43::V16, N43::V17, N43::V18, N43::V19, N43::V20, N43::V21, N43::V22, N43::V23, N43::V24, N43::V25, N43::V26, N43::V27, N43::V28, N43::V29, N43::V30, N43::V31, N43::V32, N43::V33, N43::V34, N43::V35, N43::V36, N43::V37, N43::V38, N43::V39, N43::V40, N43::V41, N43::V42];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N43::V0 => 0,
            N43::V1 => 1,
            N43::V2 => 2,
            N43::V3 => 3,
            N43::V4 => 4,
            N43::V5 => 5,
            N43::V6 => 6,
            N43::V7 => 7,
            N43::V8 => 8,
            N43::V9 => 9,
            N43::V10 => 10,
            N43::V11 => 11,
            N43::V12 => 12,
            N43::V13 => 13,
            N43::V14 => 14,
            N43::V15 => 15,
            N43::V16 => 16,
            N43::V17 => 17,
            N43::V18 => 18,
            N43::V19 => 19,
            N43::V20 => 20,
            N43::V21 => 21,
            N43::V22 => 22,
            N43::V23 => 23,
            N43::V24 => 24,
            N43::V25 => 25,
            N43::V26 => 26,
            N43::V27 => 27,
            N43::V28 => 28,
            N43::V29 => 29,
            N43::V30 => 30,
            N43::V31 => 31,
            N43::V32 => 32,
            N43::V33 => 33,
            N43::V34 => 34,
            N43::V35 => 35,
            N43::V36 => 36,
            N43::V37 => 37,
            N43::V38 => 38,
            N43::V39 => 39,
            N43::V40 => 40,
            N43::V41 => 41,
            N43::V42 => 42,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..43 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_72 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N47 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46 }
impl Dom for N47 {
    const N: usize = 47;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N47] = &[N47::V0, N47::V1, N47::V2, N47::V3, N47::V4, N47::V5, N47::V6, N47::V7, N47::V8, N47::V9, N47::V10, N47::V11, N47::V12, N47::V13, N47::V14, N47::V15, N47::V16, N47::V17, N47::V18, N47::V19, N47::V20, N47::V21, N47::V22, N47::V23, N47::V24, N47::V25, N47::V26, N47::V27, N47::V28, N47::V29, N47::V30, N47::V31, N47::V32, N47::V33, N47::V34, N47::V35, N47::V36, N47::V37, N47::V38, N47::V39, N47::V40, N47::V41, N47::V42, N47::V43, N47::V44, N47::V45, N47::V46];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N47::V0 => 0,
            N47::V1 => 1,
            N47::V2 => 2,
            N47::V3 => 3,
            N47::V4 => 4,
            N47::V5 => 5,
            N47::V6 => 6,
            N47::V7 => 7,
            N47::V8 => 8,
            N47::V9 => 9,
            N47::V10 => 10,
            N47::V11 => 11,
            N47::V12 => 12,
            N47::V13 => 13,
            N47::V14 => 14,
            N47::V15 => 15,
            N47::V16 => 16,
            N47::V17 => 17,
            N47::V18 => 18,
            N47::V19 => 19,
            N47::V20 => 20,
            N47::V21 => 21,
            N47::V22 => 22,
            N47::V23 => 23,
            N47::V24 => 24,
            N47::V25 => 25,
            N47::V26 => 26,
            N47::V27 => 27,
            N47::V28 => 28,
            N47::V29 => 29,
            N47::V30 => 30,
            N47::V31 => 31,
            N47::V32 => 32,
            N47::V33 => 33,
            N47::V34 => 34,
            N47::V35 => 35,
            N47::V36 => 36,
            N47::V37 => 37,
            N47::V38 => 38,
            N47::V39 => 39,
            N47::V40 => 40,
            N47::V41 => 41,
            N47::V42 => 42,
            N47::V43 => 43,
            N47::V44 => 44,
            N47::V45 => 45,
            N47::V46 => 46,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..47 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_73 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N51 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50 }
impl Dom for N51 {
    const N: usize = 51;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N51] = &[N51::V0, N51::V1, N51::V2, N51::V3, N51::V4, N51::V5, N51::V6, N51::V7, N51::V8, N51::V9, N51::V10, N51::V11, N51::V12, N51::V13, N51::V14, N51::V15, N51::V16, N51::V17, N51::V18, N51::V19, N51::V20, N51::V21, N51::V22, N51::V23, N51::V24, N51::V25, N51::V26, N51::V27, N51::V28, N51::V29, N51::V30, N51::V31, N51::V32, N51::V33, N51::V34, N51::V35, N51::V36, N51::V37, N51::V38, N51::V39, N51::V40, N51::V41, N51::V42, N51::V43, N51::V44, N51::V45, N51::V46, N51::V47, N51::V48, N51::V49, N51::V50];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N51::V0 => 0,
            N51::V1 => 1,
            N51::V2 => 2,
            N51::V3 => 3,
            N51::V4 => 4,
            N51::V5 => 5,
            N51::V6 => 6,
            N51::V7 => 7,
            N51::V8 => 8,
            N51::V9 => 9,
            N51::V10 => 10,
            N51::V11 => 11,
            N51::V12 => 12,
            N51::V13 => 13,
            N51::V14 => 14,
            N51::V15 => 15,
            N51::V16 => 16,
            N51::V17 => 17,
            N51::V18 => 18,
            N51::V19 => 19,
            N51::V20 => 20,
            N51::V21 => 21,
            N51::V22 => 22,
            N51::V23 => 23,
            N51::V24 => 24,
            N51::V25 => 25,
            N51::V26 => 26,
            N51::V27 => 27,
            N51::V28 => 28,
            N51::V29 => 29,
            N51::V30 => 30,
            N51::V31 => 31,
            N51::V32 => 32,
            N51::V33 => 33,
            N51::V34 => 34,
            N51::V35 => 35,
            N51::V36 => 36,
            N51::V37 => 37,
            N51::V38 => 38,
            N51::V39 => 39,
            N51::V40 => 40,
            N51::V41 => 41,
            N51::V42 => 42,
            N51::V43 => 43,
            N51::V44 => 44,
            N51::V45 => 45,
            N51::V46 => 46,
            N51::V47 => 47,
            N51::V48 => 48,
            N51::V49 => 49,
            N51::V50 => 50,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..51 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_74 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N55 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54 }
impl Dom for N55 {
    const N: usize = 55;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N55] = &[N55::V0, N55::V1, N55::V2, N55::V3, N55::V4, N55::V5, N55::V6, N55::V7, N55::V8, N55::V9, N55::V10, N55::V11, N55::V12, N55::V13, N55::V14, N55::V15, N55::V16, N55::V17, N55::V18, N55::V19, N55::V20, N55::V21, N55::V22, N55::V23, N55::V24, N55::V25, N55::V26, N55::V27, N55::V28, N55::V29, N55::V30, N55::V31, N55::V32, N55::V33, N55::V34, N55::V35, N55::V36, N55::V37, N55::V38, N55::V39, N55::V40, N55::V41, N55::V42, N55::V43, N55::V44, N55::V45, N55::V46, N55::V47, N55::V48, N55::V49, N55::V50, N55::V51, N55::V52, N55::V53, N55::V54];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N55::V0 => 0,
            N55::V1 => 1,
            N55::V2 => 2,
            N55::V3 => 3,
            N55::V4 => 4,
            N55::V5 => 5,
            N55::V6 => 6,
            N55::V7 => 7,
            N55::V8 => 8,
            N55::V9 => 9,
            N55::V10 => 10,
            N55::V11 => 11,
            N55::V12 => 12,
            N55::V13 => 13,
            N55::V14 => 14,
            N55::V15 => 15,
            N55::V16 => 16,
            N55::V17 => 17,
            N55::V18 => 18,
            N55::V19 => 19,
            N55::V20 => 20,
            N55::V21 => 21,
            N55::V22 => 22,
            N55::V23 => 23,
            N55::V24 => 24,
            N55::V25 => 25,
            N55::V26 => 26,
            N55::V27 => 27,
            N55::V28 => 28,
            N55::V29 => 29,
            N55::V30 => 30,
            N55::V31 => 31,
            N55::V32 => 32,
            N55::V33 => 33,
            N55::V34 => 34,
            N55::V35 => 35,
            N55::V36 => 36,
            N55::V37 => 37,
            N55::V38 => 38,
            N55::V39 => 39,
            N55::V40 => 40,
            N55::V41 => 41,
            N55::V42 => 42,
            N55::V43 => 43,
            N55::V44 => 44,
            N55::V45 => 45,
            N55::V46 => 46,
            N55::V47 => 47,
            N55::V48 => 48,
            N55::V49 => 49,
            N55::V50 => 50,
            N55::V51 => 51,
            N55::V52 => 52,
            N55::V53 => 53,
            N55::V54 => 54,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..55 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_75 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N59 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58 }
impl Dom for N59 {
    const N: usize = 59;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N59] = &[N59::V0, N59::V1, N59::V2, N59::V3, N59::V4, N59::V5, N59::V6, N59::V7, N59::V8, N59::V9, N59::V10, N59::V11, N59::V12, N59::V13, N59::V14, N59::V15, N59::V16, N59::V17, N59::V18, N59::V19, N59::V20, N59::V21, N59::V22, N59::V23, N59::V24, N59::V25, N59::V26, N59::V27, N59::V28, N59::V29, N59::V30, N59::V31, N59::V32, N59::V33, N59::V34, N59::V35, N59::V36, N59::V37, N59::V38, N59::V39, N59::V40, N59::V41, N59::V42, N59::V43, N59::V44, N59::V45, N59::V46, N59::V47, N59::V48, N59::V49, N59::V50, N59::V51, N59::V52, N59::V53, N59::V54, N59::V55, N59::V56, N59::V57, N59::V58];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N59::V0 => 0,
            N59::V1 => 1,
            N59::V2 => 2,
            N59::V3 => 3,
            N59::V4 => 4,
            N59::V5 => 5,
            N59::V6 => 6,
            N59::V7 => 7,
            N59::V8 => 8,
            N59::V9 => 9,
            N59::V10 => 10,
            N59::V11 => 11,
            N59::V12 => 12,
            N59::V13 => 13,
            N59::V14 => 14,
            N59::V15 => 15,
            N59::V16 => 16,
            N59::V17 => 17,
            N59::V18 => 18,
            N59::V19 => 19,
            N59::V20 => 20,
            N59::V21 => 21,
            N59::V22 => 22,
            N59::V23 => 23,
            N59::V24 => 24,
            N59::V25 => 25,
            N59::V26 => 26,
            N59::V27 => 27,
            N59::V28 => 28,
            N59::V29 => 29,
            N59::V30 => 30,
            N59::V31 => 31,
            N59::V32 => 32,
            N59::V33 => 33,
            N59::V34 => 34,
            N59::V35 => 35,
            N59::V36 => 36,
            N59::V37 => 37,
            N59::V38 => 38,
            N59::V39 => 39,
            N59::V40 => 40,
            N59::V41 => 41,
            N59::V42 => 42,
            N59::V43 => 43,
            N59::V44 => 44,
            N59::V45 => 45,
            N59::V46 => 46,
            N59::V47 => 47,
            N59::V48 => 48,
            N59::V49 => 49,
            N59::V50 => 50,
            N59::V51 => 51,
            N59::V52 => 52,
            N59::V53 => 53,
            N59::V54 => 54,
            N59::V55 => 55,
            N59::V56 => 56,
            N59::V57 => 57,
            N59::V58 => 58,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..59 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_76 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N63 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62 }
impl Dom for N63 {
    const N: usize = 63;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N63] = &[N63::V0, N63::V1, N63::V2, N63::V3, N63::V4, N63::V5, N63::V6, N63::V7, N63::V8, N63::V9, N63::V10, N63::V11, N63::V12, N63::V13, N63::V14, N63::V15, N63::V16, N63::V17, N63::V18, N63::V19, N63::V20, N63::V21, N63::V22, N63::V23, N63::V24, N63::V25, N63::V26, N63::V27, N63::V28, N63::V29, N63::V30, N63::V31, N63::V32, N63::V33, N63::V34, N63::V35, N63::V36, N63::V37, N63::V38, N63::V39, N63::V40, N63::V41, N63::V42, N63::V43, N63::V44, N63::V45, N63::V46, N63::V47, N63::V48, N63::V49, N63::V50, N63::V51, N63::V52, N63::V53, N63::V54, N63::V55, N63::V56, N63::V57, N63::V58, N63::V59, N63::V60, N63::V61, N63::V62];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N63::V0 => 0,
            N63::V1 => 1,
            N63::V2 => 2,
            N63::V3 => 3,
            N63::V4 => 4,
            N63::V5 => 5,
            N63::V6 => 6,
            N63::V7 => 7,
            N63::V8 => 8,
            N63::V9 => 9,
            N63::V10 => 10,
            N63::V11 => 11,
            N63::V12 => 12,
            N63::V13 => 13,
            N63::V14 => 14,
            N63::V15 => 15,
            N63::V16 => 16,
            N63::V17 => 17,
            N63::V18 => 18,
            N63::V19 => 19,
            N63::V20 => 20,
            N63::V21 => 21,
            N63::V22 => 22,
            N63::V23 => 23,
            N63::V24 => 24,
            N63::V25 => 25,
            N63::V26 => 26,
            N63::V27 => 27,
            N63::V28 => 28,
            N63::V29 => 29,
            N63::V30 => 30,
            N63::V31 => 31,
            N63::V32 => 32,
            N63::V33 => 33,
            N63::V34 => 34,
            N63::V35 => 35,
            N63::V36 => 36,
            N63::V37 => 37,
            N63::V38 => 38,
            N63::V39 => 39,
            N63::V40 => 40,
            N63::V41 => 41,
            N63::V42 => 42,
            N63::V43 => 43,
            N63::V44 => 44,
            N63::V45 => 45,
            N63::V46 => 46,
            N63::V47 => 47,
            N63::V48 => 48,
            N63::V49 => 49,
            N63::V50 => 50,
            N63::V51 => 51,
            N63::V52 => 52,
            N63::V53 => 53,
            N63::V54 => 54,
            N63::V55 => 55,
            N63::V56 => 56,
            N63::V57 => 57,
            N63::V58 => 58,
            N63::V59 => 59,
            N63::V60 => 60,
            N63::V61 => 61,
            N63::V62 => 62,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..63 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_77 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N67 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66 }
impl Dom for N67 {
    const N: usize = 67;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N67] = &[N67::V0, N67::V1, N67::V2, N67::V3, N67::V4, N67::V5, N67::V6, N67::V7, N67::V8, N67::V9, N67::V10, N67::V11, N67::V12, N67::V13, N67::V14, N67::V15, N67::V16, N67::V17, N67::V18, N67::V19, N67::V20, N67::V21, N67::V22, N67::V23, N67::V24, N67::V25, N67::V26, N67::V27, N67::V28, N67::V29, N67::V30, N67::V31, N67::V32, N67::V33, N67::V34, N67::V35, N67::V36, N67::V37, N67::V38, N67::V39, N67::V40, N67::V41, N67::V42, N67::V43, N67::V44, N67::V45, N67::V46, N67::V47, N67::V48, N67::V49, N67::V50, N67::V51, N67::V52, N67::V53, N67::V54, N67::V55, N67::V56, N67::V57, N67::V58, N67::V59, N67::V60, N67::V61, N67::V62, N67::V63, N67::V64, N67::V65, N67::V66];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N67::V0 => 0,
            N67::V1 => 1,
            N67::V2 => 2,
            N67::V3 => 3,
            N67::V4 => 4,
            N67::V5 => 5,
            N67::V6 => 6,
            N67::V7 => 7,
            N67::V8 => 8,
            N67::V9 => 9,
            N67::V10 => 10,
            N67::V11 => 11,
            N67::V12 => 12,
            N67::V13 => 13,
            N67::V14 => 14,
            N67::V15 => 15,
            N67::V16 => 16,
            N67::V17 => 17,
            N67::V18 => 18,
            N67::V19 => 19,
            N67::V20 => 20,
            N67::V21 => 21,
            N67::V22 => 22,
            N67::V23 => 23,
            N67::V24 => 24,
            N67::V25 => 25,
            N67::V26 => 26,
            N67::V27 => 27,
            N67::V28 => 28,
            N67::V29 => 29,
            N67::V30 => 30,
            N67::V31 => 31,
            N67::V32 => 32,
            N67::V33 => 33,
            N67::V34 => 34,
            N67::V35 => 35,
            N67::V36 => 36,
            N67::V37 => 37,
            N67::V38 => 38,
            N67::V39 => 39,
            N67::V40 => 40,
            N67::V41 => 41,
            N67::V42 => 42,
            N67::V43 => 43,
            N67::V44 => 44,
            N67::V45 => 45,
            N67::V46 => 46,
            N67::V47 => 47,
            N67::V48 => 48,
            N67::V49 => 49,
            N67::V50 => 50,
            N67::V51 => 51,
            N67::V52 => 52,
            N67::V53 => 53,
            N67::V54 => 54,
            N67::V55 => 55,
            N67::V56 => 56,
            N67::V57 => 57,
            N67::V58 => 58,
            N67::V59 => 59,
            N67::V60 => 60,
            N67::V61 => 61,
            N67::V62 => 62,
            N67::V63 => 63,
            N67::V64 => 64,
            N67::V65 => 65,
            N67::V66 => 66,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..67 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_78 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N126 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125 }
impl Dom for N126 {
    const N: usize = 126;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N126] = &[N126::V0, N126::V1, N126::V2, N126::V3, N126::V4, N126::V5, N126::V6, N126::V7, N126::V8, N126::V9, N126::V10, N126::V11, N126::V12, N126::V13, N126::V14, N126::V15, N126::V16, N126::V17, N126::V18, N126::V19, N126::V20, N126::V21, N126::V22, N126::V23, N126::V24, N126::V25, N126::V26, N126::V27, N126::V28, N126::V29, N126::V30, N126::V31, N126::V32, N126::V33, N126::V34, N126::V35, N126::V36, N126::V37, N126::V38, N126::V39, N126::V40, N126::V41, N126::V42, N126::V43, N126::V44, N126::V45, N126::V46, N126::V47, N126::V48, N126::V49, N126::V50, N126::V51, N126::V52, N126::V53, N126::V54, N126::V55, N126::V56, N126::V57, N126::V58, N126::V59, N126::V60, N126::V61, N126::V62, N126::V63, N126::V64, N126::V65, N126::V66, N126::V67, N126::V68, N126::V69, N126::V70, N126::V71, N126::V72, N126::V73, N126::V74, N126::V75, N126::V76, N126::V77, N126::V78, N126::V79, N126::V80, N126::V81, N126::V82, N126::V83, N126::V84, N126::V85, N126::V86, N126::V87, N126::V88, N126::V89, N126::V90, N126::V91, N126::V92, N126::V93, N126::V94, N126::V95, N126::V96, N126::V97, N126::V98, N126::V99, N126::V100, N126::V101, N126::V102, N126::V103, N126::V104, N126::V105, N126::V106, N126::V107, N126::V108, N126::V109, N126::V110, N126::V111, N126::V112, N126::V113, N126::V114, N126::V115, N126::V116, N126::V117, N126::V118, N126::V119, N126::V120, N126::V121, N126::V122, N126::V123, N126::V124, N126::V125];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N126::V0 => 0,
            N126::V1 => 1,
            N126::V2 => 2,
            N126::V3 => 3,
            N126::V4 => 4,
            N126::V5 => 5,
            N126::V6 => 6,
            N126::V7 => 7,
            N126::V8 => 8,
            N126::V9 => 9,
            N126::V10 => 10,
            N126::V11 => 11,
            N126::V12 => 12,
            N126::V13 => 13,
            N126::V14 => 14,
            N126::V15 => 15,
            N126::V16 => 16,
            N126::V17 => 17,
            N126::V18 => 18,
            N126::V19 => 19,
            N126::V20 => 20,
            N126::V21 => 21,
            N126::V22 => 22,
            N126::V23 => 23,
            N126::V24 => 24,
            N126::V25 => 25,
            N126::V26 => 26,
            N126::V27 => 27,
            N126::V28 => 28,
            N126::V29 => 29,
            N126::V30 => 30,
            N126::V31 => 31,
            N126::V32 => 32,
            N126::V33 => 33,
            N126::V34 => 34,
            N126::V35 => 35,
            N126::V36 => 36,
            N126::V37 => 37,
            N126::V38 => 38,
            N126::V39 => 39,
            N126::V40 => 40,
            N126::V41 => 41,
            N126::V42 => 42,
            N126::V43 => 43,
            N126::V44 => 44,
            N126::V45 => 45,
            N126::V46 => 46,
            N126::V47 => 47,
            N126::V48 => 48,
            N126::V49 => 49,
            N126::V50 => 50,
            N126::V51 => 51,
            N126::V52 => 52,
            N126::V53 => 53,
            N126::V54 => 54,
            N126::V55 => 55,
            N126::V56 => 56,
            N126::V57 => 57,
            N126::V58 => 58,
            N126::V59 => 59,
            N126::V60 => 60,
            N126::V61 => 61,
            N126::V62 => 62,
            N126::V63 => 63,
            N126::V64 => 64,
            N126::V65 => 65,
            N126::V66 => 66,
            N126::V67 => 67,
            N126::V68 => 68,
            N126::V69 => 69,
            N126::V70 => 70,
            N126::V71 => 71,
            N126::V72 => 72,
            N126::V73 => 73,
            N126::V74 => 74,
            N126::V75 => 75,
            N126::V76 => 76,
            N126::V77 => 77,
            N126::V78 => 78,
            N126::V79 => 79,
            N126::V80 => 80,
            N126::V81 => 81,
            N126::V82 => 82,
            N126::V83 => 83,
            N126::V84 => 84,
            N126::V85 => 85,
            N126::V86 => 86,
            N126::V87 => 87,
            N126::V88 => 88,
            N126::V89 => 89,
            N126::V90 => 90,
            N126::V91 => 91,
            N126::V92 => 92,
            N126::V93 => 93,
            N126::V94 => 94,
            N126::V95 => 95,
            N126::V96 => 96,
            N126::V97 => 97,
            N126::V98 => 98,
            N126::V99 => 99,
            N126::V100 => 100,
            N126::V101 => 101,
            N126::V102 => 102,
            N126::V103 => 103,
            N126::V104 => 104,
            N126::V105 => 105,
            N126::V106 => 106,
            N126::V107 => 107,
            N126::V108 => 108,
            N126::V109 => 109,
            N126::V110 => 110,
            N126::V111 => 111,
            N126::V112 => 112,
            N126::V113 => 113,
            N126::V114 => 114,
            N126::V115 => 115,
            N126::V116 => 116,
            N126::V117 => 117,
            N126::V118 => 118,
            N126::V119 => 119,
            N126::V120 => 120,
            N126::V121 => 121,
            N126::V122 => 122,
            N126::V123 => 123,
            N126::V124 => 124,
            N126::V125 => 125,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..126 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_79 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N160 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159 }
impl Dom for N160 {
    const N: usize = 160;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N160] = &[N160::V0, N160::V1, N160::V2, N160::V3, N160::V4, N160::V5, N160::V6, N160::V7, N160::V8, N160::V9, N160::V10, N160::V11, N160::V12, N160::V13, N160::V14, N160::V15, N160::V16, N160::V17, N160::V18, N160::V19, N160::V20, N160::V21, N160::V22, N160::V23, N160::V24, N160::V25, N160::V26, N160::V27, N160::V28, N160::V29, N160::V30, N160::V31, N160::V32, N160::V33, N160::V34, N160::V35, N160::V36, N160::V37, N160::V38, N160::V39, N160::V40, N160::V41, N160::V42, N160::V43, N160::V44, N160::V45, N160::V46, N160::V47, N160::V48, N160::V49, N160::V50, N160::V51, N160::V52, N160::V53, N160::V54, N160::V55, N160::V56, N160::V57, N160::V58, N160::V59, N160::V60, N160::V61, N160::V62, N160::V63, N160::V64, N160::V65, N160::V66, N160::V67, N160::V68, N160::V69, N160::V70, N160::V71, N160::V72, N160::V73, N160::V74, N160::V75, N160::V76, N160::V77, N160::V78, N160::V79, N160::V80, N160::V81, N160::V82, N160::V83, N160::V84, N160::V85, N160::V86, N160::V87, N160::V88, N160::V89, N160::V90, N160::V91, N160::V92, N160::V93, N160::V94, N160::V95, N160::V96, N160::V97, N160::V98, N160::V99, N160::V100, N160::V101, N160::V102, N160::V103, N160::V104, N160::V105, N160::V106, N160::V107, N160::V108, N160::V109, N160::V110, N160::V111, N160::V112, N160::V113, N160::V114, N160::V115, N160::V116, N160::V117, N160::V118, N160::V119, N160::V120, N160::V121, N160::V122, N160::V123, N160::V124, N160::V125, N160::V126, N160::V127, N160::V128, N160::V129, N160::V130, N160::V131, N160::V132, N160::V133, N160::V134, N160::V135, N160::V136, N160::V137, N160::V138, N160::V139, N160::V140, N160::V141, N160::V142, N160::V143, N160::V144, N160::V145, N160::V146, N160::V147, N160::V148, N160::V149, N160::V150, N160::V151, N160::V152, N160::V153, N160::V154, N160::V155, N160::V156, N160::V157, N160::V158, N160::V159];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N160::V0 => 0,
            N160::V1 => 1,
            N160::V2 => 2,
            N160::V3 => 3,
            N160::V4 => 4,
            N160::V5 => 5,
            N160::V6 => 6,
            N160::V7 => 7,
            N160::V8 => 8,
            N160::V9 => 9,
            N160::V10 => 10,
            N160::V11 => 11,
            N160::V12 => 12,
            N160::V13 => 13,
            N160::V14 => 14,
            N160::V15 => 15,
            N160::V16 => 16,
            N160::V17 => 17,
            N160::V18 => 18,
            N160::V19 => 19,
            N160::V20 => 20,
            N160::V21 => 21,
            N160::V22 => 22,
            N160::V23 => 23,
            N160::V24 => 24,
            N160::V25 => 25,
            N160::V26 => 26,
            N160::V27 => 27,
            N160::V28 => 28,
            N160::V29 => 29,
            N160::V30 => 30,
            N160::V31 => 31,
            N160::V32 => 32,
            N160::V33 => 33,
            N160::V34 => 34,
            N160::V35 => 35,
            N160::V36 => 36,
            N160::V37 => 37,
            N160::V38 => 38,
            N160::V39 => 39,
            N160::V40 => 40,
            N160::V41 => 41,
            N160::V42 => 42,
            N160::V43 => 43,
            N160::V44 => 44,
            N160::V45 => 45,
            N160::V46 => 46,
            N160::V47 => 47,
            N160::V48 => 48,
            N160::V49 => 49,
            N160::V50 => 50,
            N160::V51 => 51,
            N160::V52 => 52,
            N160::V53 => 53,
            N160::V54 => 54,
            N160::V55 => 55,
            N160::V56 => 56,
            N160::V57 => 57,
            N160::V58 => 58,
            N160::V59 => 59,
            N160::V60 => 60,
            N160::V61 => 61,
            N160::V62 => 62,
            N160::V63 => 63,
            N160::V64 => 64,
            N160::V65 => 65,
            N160::V66 => 66,
            N160::V67 => 67,
            N160::V68 => 68,
            N160::V69 => 69,
            N160::V70 => 70,
            N160::V71 => 71,
            N160::V72 => 72,
            N160::V73 => 73,
            N160::V74 => 74,
            N160::V75 => 75,
            N160::V76 => 76,
            N160::V77 => 77,
            N160::V78 => 78,
            N160::V79 => 79,
            N160::V80 => 80,
            N160::V81 => 81,
            N160::V82 => 82,
            N160::V83 => 83,
            N160::V84 => 84,
            N160::V85 => 85,
            N160::V86 => 86,
            N160::V87 => 87,
            N160::V88 => 88,
            N160::V89 => 89,
            N160::V90 => 90,
            N160::V91 => 91,
            N160::V92 => 92,
            N160::V93 => 93,
            N160::V94 => 94,
            N160::V95 => 95,
            N160::V96 => 96,
            N160::V97 => 97,
            N160::V98 => 98,
            N160::V99 => 99,
            N160::V100 => 100,
            N160::V101 => 101,
            N160::V102 => 102,
            N160::V103 => 103,
            N160::V104 => 104,
            N160::V105 => 105,
            N160::V106 => 106,
            N160::V107 => 107,
            N160::V108 => 108,
            N160::V109 => 109,
            N160::V110 => 110,
            N160::V111 => 111,
            N160::V112 => 112,
            N160::V113 => 113,
            N160::V114 => 114,
            N160::V115 => 115,
            N160::V116 => 116,
            N160::V117 => 117,
            N160::V118 => 118,
            N160::V119 => 119,
            N160::V120 => 120,
            N160::V121 => 121,
            N160::V122 => 122,
            N160::V123 => 123,
            N160::V124 => 124,
            N160::V125 => 125,
            N160::V126 => 126,
            N160::V127 => 127,
            N160::V128 => 128,
            N160::V129 => 129,
            N160::V130 => 130,
            N160::V131 => 131,
            N160::V132 => 132,
            N160::V133 => 133,
            N160::V134 => 134,
            N160::V135 => 135,
            N160::V136 => 136,
            N160::V137 => 137,
            N160::V138 => 138,
            N160::V139 => 139,
            N160::V140 => 140,
            N160::V141 => 141,
            N160::V142 => 142,
            N160::V143 => 143,
            N160::V144 => 144,
            N160::V145 => 145,
            N160::V146 => 146,
            N160::V147 => 147,
            N160::V148 => 148,
            N160::V149 => 149,
            N160::V150 => 150,
            N160::V151 => 151,
            N160::V152 => 152,
            N160::V153 => 153,
            N160::V154 => 154,
            N160::V155 => 155,
            N160::V156 => 156,
            N160::V157 => 157,
            N160::V158 => 158,
            N160::V159 => 159,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..160 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_80 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum M9 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8(bool) }
impl Dom for M9 {
    const N: usize = 7 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return M9::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return M9::V1; } i -= 1;
        if i == 0 { return M9::V2; } i -= 1;
        if i == 0 { return M9::V3; } i -= 1;
        if i == 0 { return M9::V4; } i -= 1;
        if i == 0 { return M9::V5; } i -= 1;
        if i == 0 { return M9::V6; } i -= 1;
        if i == 0 { return M9::V7; } i -= 1;
        if i < <bool as Dom>::N { return M9::V8(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            M9::V0(x) => off(0, <bool as Dom>::idx(x)),
            M9::V1 => 0 + <bool as Dom>::N,
            M9::V2 => 1 + <bool as Dom>::N,
            M9::V3 => 2 + <bool as Dom>::N,
            M9::V4 => 3 + <bool as Dom>::N,
            M9::V5 => 4 + <bool as Dom>::N,
            M9::V6 => 5 + <bool as Dom>::N,
            M9::V7 => 6 + <bool as Dom>::N,
            M9::V8(x) => off(7 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_81 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum M33 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32(bool) }
impl Dom for M33 {
    const N: usize = 31 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return M33::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return M33::V1; } i -= 1;
        if i == 0 { return M33::V2; } i -= 1;
        if i == 0 { return M33::V3; } i -= 1;
        if i == 0 { return M33::V4; } i -= 1;
        if i == 0 { return M33::V5; } i -= 1;
        if i == 0 { return M33::V6; } i -= 1;
        if i == 0 { return M33::V7; } i -= 1;
        if i == 0 { return M33::V8; } i -= 1;
        if i == 0 { return M33::V9; } i -= 1;
        if i == 0 { return M33::V10; } i -= 1;
        if i == 0 { return M33::V11; } i -= 1;
        if i == 0 { return M33::V12; } i -= 1;
        if i == 0 { return M33::V13; } i -= 1;
        if i == 0 { return M33::V14; } i -= 1;
        if i == 0 { return M33::V15; } i -= 1;
        if i == 0 { return M33::V16; } i -= 1;
        if i == 0 { return M33::V17; } i -= 1;
        if i == 0 { return M33::V18; } i -= 1;
        if i == 0 { return M33::V19; } i -= 1;
        if i == 0 { return M33::V20; } i -= 1;
        if i == 0 { return M33::V21; } i -= 1;
        if i == 0 { return M33::V22; } i -= 1;
        if i == 0 { return M33::V23; } i -= 1;
        if i == 0 { return M33::V24; } i -= 1;
        if i == 0 { return M33::V25; } i -= 1;
        if i == 0 { return M33::V26; } i -= 1;
        if i == 0 { return M33::V27; } i -= 1;
        if i == 0 { return M33::V28; } i -= 1;
        if i == 0 { return M33::V29; } i -= 1;
        if i == 0 { return M33::V30; } i -= 1;
        if i == 0 { return M33::V31; } i -= 1;
        if i < <bool as Dom>::N { return M33::V32(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            M33::V0(x) => off(0, <bool as Dom>::idx(x)),
            M33::V1 => 0 + <bool as Dom>::N,
            M33::V2 => 1 + <bool as Dom>::N,
            M33::V3 => 2 + <bool as Dom>::N,
            M33::V4 => 3 + <bool as Dom>::N,
            M33::V5 => 4 + <bool as Dom>::N,
            M33::V6 => 5 + <bool as Dom>::N,
            M33::V7 => 6 + <bool as Dom>::N,
            M33::V8 => 7 + <bool as Dom>::N,
            M33::V9 => 8 + <bool as Dom>::N,
            M33::V10 => 9 + <bool as Dom>::N,
            M33::V11 => 10 + <bool as Dom>::N,
            M33::V12 => 11 + <bool as Dom>::N,
            M33::V13 => 12 + <bool as Dom>::N,
            M33::V14 => 13 + <bool as Dom>::N,
            M33::V15 => 14 + <bool as Dom>::N,
            M33::V16 => 15 + <bool as Dom>::N,
            M33::V17 => 16 + <bool as Dom>::N,
            M33::V18 => 17 + <bool as Dom>::N,
            M33::V19 => 18 + <bool as Dom>::N,
            M33::V20 => 19 + <bool as Dom>::N,
            M33::V21 => 20 + <bool as Dom>::N,
            M33::V22 => 21 + <bool as Dom>::N,
            M33::V23 => 22 + <bool as Dom>::N,
            M33::V24 => 23 + <bool as Dom>::N,
            M33::V25 => 24 + <bool as Dom>::N,
            M33::V26 => 25 + <bool as Dom>::N,
            M33::V27 => 26 + <bool as Dom>::N,
            M33::V28 => 27 + <bool as Dom>::N,
            M33::V29 => 28 + <bool as Dom>::N,
            M33::V30 => 29 + <bool as Dom>::N,
            M33::V31 => 30 + <bool as Dom>::N,
            M33::V32(x) => off(31 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_82 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D9 { V0 = 0, V1 = 1, V2 = 7, V3 = -1 }
impl Dom for D9 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D9] = &[D9::V0, D9::V1, D9::V2, D9::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D9::V0 => 0,
            D9::V1 => 1,
            D9::V2 => 2,
            D9::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_83 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D11 { V0 = 0, V1 = 7, V2 = 1, V3 = -1 }
impl Dom for D11 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D11] = &[D11::V0, D11::V1, D11::V2, D11::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D11::V0 => 0,
            D11::V1 => 1,
            D11::V2 => 2,
            D11::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_84 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D13 { V0 = 1, V1 = -1, V2 = 7, V3 = 0 }
impl Dom for D13 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D13] = &[D13::V0, D13::V1, D13::V2, D13::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D13::V0 => 0,
            D13::V1 => 1,
            D13::V2 => 2,
            D13::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_85 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D15 { V0 = 1, V1 = 0, V2 = 7, V3 = -1 }
impl Dom for D15 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D15] = &[D15::V0, D15::V1, D15::V2, D15::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D15::V0 => 0,
            D15::V1 => 1,
            D15::V2 => 2,
            D15::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_86 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D17 { V0 = 1, V1 = 7, V2 = 0, V3 = -1 }
impl Dom for D17 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D17] = &[D17::V0, D17::V1, D17::V2, D17::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D17::V0 => 0,
            D17::V1 => 1,
            D17::V2 => 2,
            D17::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_87 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D19 { V0 = 7, V1 = -1, V2 = 1, V3 = 0 }
impl Dom for D19 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D19] = &[D19::V0, D19::V1, D19::V2, D19::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D19::V0 => 0,
            D19::V1 => 1,
            D19::V2 => 2,
            D19::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_88 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D21 { V0 = 7, V1 = 0, V2 = 1, V3 = -1 }
impl Dom for D21 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D21] = &[D21::V0, D21::V1, D21::V2, D21::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D21::V0 => 0,
            D21::V1 => 1,
            D21::V2 => 2,
            D21::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_89 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D23 { V0 = 7, V1 = 1, V2 = 0, V3 = -1 }
impl Dom for D23 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D23] = &[D23::V0, D23::V1, D23::V2, D23::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D23::V0 => 0,
            D23::V1 => 1,
            D23::V2 => 2,
            D23::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_90 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DF1 { A = 2, B, C, D }
impl Dom for DF1 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DF1] = &[DF1::A, DF1::B, DF1::C, DF1::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DF1::A => 0,
            DF1::B => 1,
            DF1::C => 2,
            DF1::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_91 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DF2 { A = 3, B, C, D }
impl Dom for DF2 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DF2] = &[DF2::A, DF2::B, DF2::C, DF2::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DF2::A => 0,
            DF2::B => 1,
            DF2::C => 2,
            DF2::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_92 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DF3 { A = 7, B, C, D }
impl Dom for DF3 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DF3] = &[DF3::A, DF3::B, DF3::C, DF3::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DF3::A => 0,
            DF3::B => 1,
            DF3::C => 2,
            DF3::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_93 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DF4 { A = 8, B, C, D }
impl Dom for DF4 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DF4] = &[DF4::A, DF4::B, DF4::C, DF4::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DF4::A => 0,
            DF4::B => 1,
            DF4::C => 2,
            DF4::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_94 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DF5 { A = 31, B, C, D }
impl Dom for DF5 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DF5] = &[DF5::A, DF5::B, DF5::C, DF5::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DF5::A => 0,
            DF5::B => 1,
            DF5::C => 2,
            DF5::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_95 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DF6 { A = 32, B, C, D }
impl Dom for DF6 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DF6] = &[DF6::A, DF6::B, DF6::C, DF6::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DF6::A => 0,
            DF6::B => 1,
            DF6::C => 2,
            DF6::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_96 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DF7 { A = 63, B, C, D }
impl Dom for DF7 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DF7] = &[DF7::A, DF7::B, DF7::C, DF7::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DF7::A => 0,
            DF7::B => 1,
            DF7::C => 2,
            DF7::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_97 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DF8 { A = 64, B, C, D }
impl Dom for DF8 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DF8] = &[DF8::A, DF8::B, DF8::C, DF8::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DF8::A => 0,
            DF8::B => 1,
            DF8::C => 2,
            DF8::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_98 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DF9 { A = 127, B, C, D }
impl Dom for DF9 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DF9] = &[DF9::A, DF9::B, DF9::C, DF9::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DF9::A => 0,
            DF9::B => 1,
            DF9::C => 2,
            DF9::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_99 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DF10 { A = 128, B, C, D }
impl Dom for DF10 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DF10] = &[DF10::A, DF10::B, DF10::C, DF10::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DF10::A => 0,
            DF10::B => 1,
            DF10::C => 2,
            DF10::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_100 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DF11 { A = 255, B, C, D }
impl Dom for DF11 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DF11] = &[DF11::A, DF11::B, DF11::C, DF11::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DF11::A => 0,
            DF11::B => 1,
            DF11::C => 2,
            DF11::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_101 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DF12 { A = 256, B, C, D }
impl Dom for DF12 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DF12] = &[DF12::A, DF12::B, DF12::C, DF12::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DF12::A => 0,
            DF12::B => 1,
            DF12::C => 2,
            DF12::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_102 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DF13 { A = 65535, B, C, D }
impl Dom for DF13 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DF13] = &[DF13::A, DF13::B, DF13::C, DF13::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DF13::A => 0,
            DF13::B => 1,
            DF13::C => 2,
            DF13::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_103 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DF14 { A = -128, B, C, D }
impl Dom for DF14 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DF14] = &[DF14::A, DF14::B, DF14::C, DF14::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DF14::A => 0,
            DF14::B => 1,
            DF14::C => 2,
            DF14::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_104 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DM { A = 9223372036854775807, B = -9223372036854775808i64 as isize, C = 0 }
impl Dom for DM {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DM] = &[DM::A, DM::B, DM::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DM::A => 0,
            DM::B => 1,
            DM::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_105 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
#[repr(u8)]
pub enum RBu8 { A = 255, B = 0, C }
impl Dom for RBu8 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[RBu8] = &[RBu8::A, RBu8::B, RBu8::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            RBu8::A => 0,
            RBu8::B => 1,
            RBu8::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_106 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
#[repr(u16)]
pub enum RBu16 { A = 65535, B = 0, C }
impl Dom for RBu16 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[RBu16] = &[RBu16::A, RBu16::B, RBu16::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            RBu16::A => 0,
            RBu16::B => 1,
            RBu16::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_107 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[repr(C)]
pub enum RC { A = 5, B = -5, C }
impl Dom for RC {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[RC] = &[RC::A, RC::B, RC::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            RC::A => 0,
            RC::B => 1,
            RC::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_108 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I0 { Some, None, Ok }
impl Dom for I0 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I0] = &[I0::Some, I0::None, I0::Ok];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I0::Some => 0,
            I0::None => 1,
            I0::Ok => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_109 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB3 { Err, Self_, V }
impl Dom for IB3 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB3] = &[IB3::Err, IB3::Self_, IB3::V];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB3::Err => 0,
            IB3::Self_ => 1,
            IB3::V => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_110 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC6 { K(bool), T, F(Option<bool>) }
impl Dom for IC6 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC6::K(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC6::T; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC6::F(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC6::K(x) => off(0, <bool as Dom>::idx(x)),
            IC6::T => 0 + <bool as Dom>::N,
            IC6::F(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_111 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID9 { A, a(&'static str), Item }
impl Dom for ID9 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID9::A; } i -= 1;
        if i < <&'static str as Dom>::N { return ID9::a(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID9::Item; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID9::A => 0,
            ID9::a(x) => off(1, <&'static str as Dom>::idx(x)),
            ID9::Item => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_112 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I15 { IterMut, ValuesMut, IntoIter }
impl Dom for I15 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I15] = &[I15::IterMut, I15::ValuesMut, I15::IntoIter];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I15::IterMut => 0,
            I15::ValuesMut => 1,
            I15::IntoIter => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_113 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB18 { Occupied, Vacant, MapStorage }
impl Dom for IB18 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB18] = &[IB18::Occupied, IB18::Vacant, IB18::MapStorage];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB18::Occupied => 0,
            IB18::Vacant => 1,
            IB18::MapStorage => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_114 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC21 { SetStorage(bool), __MapStorage, __SetStorage(Option<bool>) }
impl Dom for IC21 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC21::SetStorage(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC21::__MapStorage; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC21::__SetStorage(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC21::SetStorage(x) => off(0, <bool as Dom>::idx(x)),
            IC21::__MapStorage => 0 + <bool as Dom>::N,
            IC21::__SetStorage(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_115 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID24 { VacantEntry, OccupiedEntry(&'static str), Entry }
impl Dom for ID24 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID24::VacantEntry; } i -= 1;
        if i < <&'static str as Dom>::N { return ID24::OccupiedEntry(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID24::Entry; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID24::VacantEntry => 0,
            ID24::OccupiedEntry(x) => off(1, <&'static str as Dom>::idx(x)),
            ID24::Entry => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_116 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I30 { Result, Box, String }
impl Dom for I30 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I30] = &[I30::Result, I30::Box, I30::String];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I30::Result => 0,
            I30::Box => 1,
            I30::String => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_117 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB33 { Vec, bool, usize }
impl Dom for IB33 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB33] = &[IB33::Vec, IB33::bool, IB33::usize];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB33::Vec => 0,
            IB33::bool => 1,
            IB33::usize => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_118 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC36 { str(bool), u8, core(Option<bool>) }
impl Dom for IC36 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC36::str(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC36::u8; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC36::core(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC36::str(x) => off(0, <bool as Dom>::idx(x)),
            IC36::u8 => 0 + <bool as Dom>::N,
            IC36::core(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_119 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID39 { std, fixed_map(&'static str), data }
impl Dom for ID39 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID39::std; } i -= 1;
        if i < <&'static str as Dom>::N { return ID39::fixed_map(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID39::data; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID39::std => 0,
            ID39::fixed_map(x) => off(1, <&'static str as Dom>::idx(x)),
            ID39::data => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_120 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I45 { key, value, val }
impl Dom for I45 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I45] = &[I45::key, I45::value, I45::val];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I45::key => 0,
            I45::value => 1,
            I45::val => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_121 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB48 { v, k, func }
impl Dom for IB48 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB48] = &[IB48::v, IB48::k, IB48::func];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB48::v => 0,
            IB48::k => 1,
            IB48::func => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_122 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC51 { inner(bool), opt, other(Option<bool>) }
impl Dom for IC51 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC51::inner(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC51::opt; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC51::other(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC51::inner(x) => off(0, <bool as Dom>::idx(x)),
            IC51::opt => 0 + <bool as Dom>::N,
            IC51::other(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_123 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID54 { hasher, f(&'static str), option_to_entry }
impl Dom for ID54 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID54::hasher; } i -= 1;
        if i < <&'static str as Dom>::N { return ID54::f(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID54::option_to_entry; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID54::hasher => 0,
            ID54::f(x) => off(1, <&'static str as Dom>::idx(x)),
            ID54::option_to_entry => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_124 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I60 { _2, __, r#type }
impl Dom for I60 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I60] = &[I60::_2, I60::__, I60::r#type];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I60::_2 => 0,
            I60::__ => 1,
            I60::r#type => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_125 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB63 { r#fn, r#match, r#loop }
impl Dom for IB63 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB63] = &[IB63::r#fn, IB63::r#match, IB63::r#loop];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB63::r#fn => 0,
            IB63::r#match => 1,
            IB63::r#loop => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_126 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC66 { r#Self_(bool), Ünï, 名(Option<bool>) }
impl Dom for IC66 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC66::r#Self_(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC66::Ünï; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC66::名(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC66::r#Self_(x) => off(0, <bool as Dom>::idx(x)),
            IC66::Ünï => 0 + <bool as Dom>::N,
            IC66::名(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_127 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID69 { Default, Key(&'static str), Map }
impl Dom for ID69 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID69::Default; } i -= 1;
        if i < <&'static str as Dom>::N { return ID69::Key(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID69::Map; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID69::Default => 0,
            ID69::Key(x) => off(1, <&'static str as Dom>::idx(x)),
            ID69::Map => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_128 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I75 { Less, Equal, Greater }
impl Dom for I75 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I75] = &[I75::Less, I75::Equal, I75::Greater];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I75::Less => 0,
            I75::Equal => 1,
            I75::Greater => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_129 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB78 { Copy, Clone, EMPTY }
impl Dom for IB78 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB78] = &[IB78::Copy, IB78::Clone, IB78::EMPTY];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB78::Copy => 0,
            IB78::Clone => 1,
            IB78::EMPTY => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_130 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC81 { len(bool), is_empty, insert(Option<bool>) }
impl Dom for IC81 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC81::len(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC81::is_empty; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC81::insert(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC81::len(x) => off(0, <bool as Dom>::idx(x)),
            IC81::is_empty => 0 + <bool as Dom>::N,
            IC81::insert(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_131 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID84 { remove, get(&'static str), retain }
impl Dom for ID84 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID84::remove; } i -= 1;
        if i < <&'static str as Dom>::N { return ID84::get(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID84::retain; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID84::remove => 0,
            ID84::get(x) => off(1, <&'static str as Dom>::idx(x)),
            ID84::retain => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_132 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I90 { entry }
impl Dom for I90 {
    const N: usize = 1;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I90] = &[I90::entry];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I90::entry => 0,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..1 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_133 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Iter_ { A, B }
impl Dom for Iter_ {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[Iter_] = &[Iter_::A, Iter_::B];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            Iter_::A => 0,
            Iter_::B => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_134 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Storage { A, B }
impl Dom for Storage {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[Storage] = &[Storage::A, Storage::B];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            Storage::A => 0,
            Storage::B => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_135 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Ünïcode { A, B }
impl Dom for Ünïcode {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[Ünïcode] = &[Ünïcode::A, Ünïcode::B];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            Ünïcode::A => 0,
            Ünïcode::B => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_136 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Func { A, B }
impl Dom for Func {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[Func] = &[Func::A, Func::B];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            Func::A => 0,
            Func::B => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_137 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[cfg_attr(all(), allow(dead_code))]
pub enum Attr { A, B(bool) }
impl Dom for Attr {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return Attr::A; } i -= 1;
        if i < <bool as Dom>::N { return Attr::B(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            Attr::A => 0,
            Attr::B(x) => off(1, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub fn jobs(c: &mut fmcore::report::Ctx) {
    c.job("S1O", |w| fmcheck_slots::unit::<m_0::S1O>(w, "S1O"));
    c.job("S2UB", |w| fmcheck_slots::unit::<m_1::S2UB>(w, "S2UB"));
    c.job("S2UT", |w| fmcheck_slots::unit::<m_2::S2UT>(w, "S2UT"));
    c.job("S2BZ", |w| fmcheck_slots::unit::<m_3::S2BZ>(w, "S2BZ"));
    c.job("S2SO", |w| fmcheck_slots::unit::<m_4::S2SO>(w, "S2SO"));
    c.job("S2OU", |w| fmcheck_slots::unit::<m_5::S2OU>(w, "S2OU"));
    c.job("S2OD", |w| fmcheck_slots::unit::<m_6::S2OD>(w, "S2OD"));
    c.job("S2EK", |w| fmcheck_slots::unit::<m_7::S2EK>(w, "S2EK"));
    c.job("S2KS", |w| fmcheck_slots::unit::<m_8::S2KS>(w, "S2KS"));
    c.job("S2KW", |w| fmcheck_slots::unit::<m_9::S2KW>(w, "S2KW"));
    c.job("S2ZC", |w| fmcheck_slots::unit::<m_10::S2ZC>(w, "S2ZC"));
    c.job("S2CE", |w| fmcheck_slots::unit::<m_11::S2CE>(w, "S2CE"));
    c.job("S2DB", |w| fmcheck_slots::unit::<m_12::S2DB>(w, "S2DB"));
    c.job("S2DT", |w| fmcheck_slots::unit::<m_13::S2DT>(w, "S2DT"));
    c.job("S2TZ", |w| fmcheck_slots::unit::<m_14::S2TZ>(w, "S2TZ"));
    c.job("S2WO", |w| fmcheck_slots::unit::<m_15::S2WO>(w, "S2WO"));
    c.job("S3UUB", |w| fmcheck_slots::unit::<m_16::S3UUB>(w, "S3UUB"));
    c.job("S3UBO", |w| fmcheck_slots::unit::<m_17::S3UBO>(w, "S3UBO"));
    c.job("S3USD", |w| fmcheck_slots::unit::<m_18::S3USD>(w, "S3USD"));
    c.job("S3UKB", |w| fmcheck_slots::unit::<m_19::S3UKB>(w, "S3UKB"));
    c.job("S3UDO", |w| fmcheck_slots::unit::<m_20::S3UDO>(w, "S3UDO"));
    c.job("S3BUD", |w| fmcheck_slots::unit::<m_21::S3BUD>(w, "S3BUD"));
    c.job("S3BSB", |w| fmcheck_slots::unit::<m_22::S3BSB>(w, "S3BSB"));
    c.job("S3BOO", |w| fmcheck_slots::unit::<m_23::S3BOO>(w, "S3BOO"));
    c.job("S3BKD", |w| fmcheck_slots::unit::<m_24::S3BKD>(w, "S3BKD"));
    c.job("S3SUB", |w| fmcheck_slots::unit::<m_25::S3SUB>(w, "S3SUB"));
    c.job("S3SBO", |w| fmcheck_slots::unit::<m_26::S3SBO>(w, "S3SBO"));
    c.job("S3SSD", |w| fmcheck_slots::unit::<m_27::S3SSD>(w, "S3SSD"));
    c.job("S3SKB", |w| fmcheck_slots::unit::<m_28::S3SKB>(w, "S3SKB"));
    c.job("S3SDO", |w| fmcheck_slots::unit::<m_29::S3SDO>(w, "S3SDO"));
    c.job("S3OUD", |w| fmcheck_slots::unit::<m_30::S3OUD>(w, "S3OUD"));
    c.job("S3OSB", |w| fmcheck_slots::unit::<m_31::S3OSB>(w, "S3OSB"));
    c.job("S3OOO", |w| fmcheck_slots::unit::<m_32::S3OOO>(w, "S3OOO"));
    c.job("S3OKD", |w| fmcheck_slots::unit::<m_33::S3OKD>(w, "S3OKD"));
    c.job("S3KUB", |w| fmcheck_slots::unit::<m_34::S3KUB>(w, "S3KUB"));
    c.job("S3KBO", |w| fmcheck_slots::unit::<m_35::S3KBO>(w, "S3KBO"));
    c.job("S3KSD", |w| fmcheck_slots::unit::<m_36::S3KSD>(w, "S3KSD"));
    c.job("S3KKB", |w| fmcheck_slots::unit::<m_37::S3KKB>(w, "S3KKB"));
    c.job("S3KDO", |w| fmcheck_slots::unit::<m_38::S3KDO>(w, "S3KDO"));
    c.job("S3DUD", |w| fmcheck_slots::unit::<m_39::S3DUD>(w, "S3DUD"));
    c.job("S3DSB", |w| fmcheck_slots::unit::<m_40::S3DSB>(w, "S3DSB"));
    c.job("S3DOO", |w| fmcheck_slots::unit::<m_41::S3DOO>(w, "S3DOO"));
    c.job("S3DKD", |w| fmcheck_slots::unit::<m_42::S3DKD>(w, "S3DKD"));
    c.job("S4UUUS", |w| fmcheck_slots::unit::<m_43::S4UUUS>(w, "S4UUUS"));
    c.job("S4UBUB", |w| fmcheck_slots::unit::<m_44::S4UBUB>(w, "S4UBUB"));
    c.job("S4USUU", |w| fmcheck_slots::unit::<m_45::S4USUU>(w, "S4USUU"));
    c.job("S4USSS", |w| fmcheck_slots::unit::<m_46::S4USSS>(w, "S4USSS"));
    c.job("S4BUSB", |w| fmcheck_slots::unit::<m_47::S4BUSB>(w, "S4BUSB"));
    c.job("S4BBSU", |w| fmcheck_slots::unit::<m_48::S4BBSU>(w, "S4BBSU"));
    c.job("S4BSBS", |w| fmcheck_slots::unit::<m_49::S4BSBS>(w, "S4BSBS"));
    c.job("S4SUBB", |w| fmcheck_slots::unit::<m_50::S4SUBB>(w, "S4SUBB"));
    c.job("S4SBBU", |w| fmcheck_slots::unit::<m_51::S4SBBU>(w, "S4SBBU"));
    c.job("S4SSUS", |w| fmcheck_slots::unit::<m_52::S4SSUS>(w, "S4SSUS"));
    c.job("S5UUUOU", |w| fmcheck_slots::unit::<m_53::S5UUUOU>(w, "S5UUUOU"));
    c.job("S5UOUOU", |w| fmcheck_slots::unit::<m_54::S5UOUOU>(w, "S5UOUOU"));
    c.job("S5OUUOU", |w| fmcheck_slots::unit::<m_55::S5OUUOU>(w, "S5OUUOU"));
    c.job("S5OOUOU", |w| fmcheck_slots::unit::<m_56::S5OOUOU>(w, "S5OOUOU"));
    c.job("P6_2", |w| fmcheck_slots::unit::<m_57::P6_2>(w, "P6_2"));
    c.job("P8_4", |w| fmcheck_slots::unit::<m_58::P8_4>(w, "P8_4"));
    c.job("P12_4", |w| fmcheck_slots::unit::<m_59::P12_4>(w, "P12_4"));
    c.job("N0", |w| fmcheck_slots::unit::<m_60::N0>(w, "N0"));
    c.job("N3", |w| fmcheck_slots::unit::<m_61::N3>(w, "N3"));
    c.job("N7", |w| fmcheck_slots::unit::<m_62::N7>(w, "N7"));
    c.job("N11", |w| fmcheck_slots::unit::<m_63::N11>(w, "N11"));
    c.job("N15", |w| fmcheck_slots::unit::<m_64::N15>(w, "N15"));
    c.job("N19", |w| fmcheck_slots::unit::<m_65::N19>(w, "N19"));
    c.job("N23", |w| fmcheck_slots::unit::<m_66::N23>(w, "N23"));
    c.job("N27", |w| fmcheck_slots::unit::<m_67::N27>(w, "N27"));
    c.job("N31", |w| fmcheck_slots::unit::<m_68::N31>(w, "N31"));
    c.job("N35", |w| fmcheck_slots::unit::<m_69::N35>(w, "N35"));
    c.job("N39", |w| fmcheck_slots::unit::<m_70::N39>(w, "N39"));
    c.job("N43", |w| fmcheck_slots::unit::<m_71::N43>(w, "N43"));
    c.job("N47", |w| fmcheck_slots::unit::<m_72::N47>(w, "N47"));
    c.job("N51", |w| fmcheck_slots::unit::<m_73::N51>(w, "N51"));
    c.job("N55", |w| fmcheck_slots::unit::<m_74::N55>(w, "N55"));
    c.job("N59", |w| fmcheck_slots::unit::<m_75::N59>(w, "N59"));
    c.job("N63", |w| fmcheck_slots::unit::<m_76::N63>(w, "N63"));
    c.job("N67", |w| fmcheck_slots::unit::<m_77::N67>(w, "N67"));
    c.job("N126", |w| fmcheck_slots::unit::<m_78::N126>(w, "N126"));
    c.job("N160", |w| fmcheck_slots::unit::<m_79::N160>(w, "N160"));
    c.job("M9", |w| fmcheck_slots::unit::<m_80::M9>(w, "M9"));
    c.job("M33", |w| fmcheck_slots::unit::<m_81::M33>(w, "M33"));
    c.job("D9", |w| fmcheck_slots::unit::<m_82::D9>(w, "D9"));
    c.job("D11", |w| fmcheck_slots::unit::<m_83::D11>(w, "D11"));
    c.job("D13", |w| fmcheck_slots::unit::<m_84::D13>(w, "D13"));
    c.job("D15", |w| fmcheck_slots::unit::<m_85::D15>(w, "D15"));
    c.job("D17", |w| fmcheck_slots::unit::<m_86::D17>(w, "D17"));
    c.job("D19", |w| fmcheck_slots::unit::<m_87::D19>(w, "D19"));
    c.job("D21", |w| fmcheck_slots::unit::<m_88::D21>(w, "D21"));
    c.job("D23", |w| fmcheck_slots::unit::<m_89::D23>(w, "D23"));
    c.job("DF1", |w| fmcheck_slots::unit::<m_90::DF1>(w, "DF1"));
    c.job("DF2", |w| fmcheck_slots::unit::<m_91::DF2>(w, "DF2"));
    c.job("DF3", |w| fmcheck_slots::unit::<m_92::DF3>(w, "DF3"));
    c.job("DF4", |w| fmcheck_slots::unit::<m_93::DF4>(w, "DF4"));
    c.job("DF5", |w| fmcheck_slots::unit::<m_94::DF5>(w, "DF5"));
    c.job("DF6", |w| fmcheck_slots::unit::<m_95::DF6>(w, "DF6"));
    c.job("DF7", |w| fmcheck_slots::unit::<m_96::DF7>(w, "DF7"));
    c.job("DF8", |w| fmcheck_slots::unit::<m_97::DF8>(w, "DF8"));
    c.job("DF9", |w| fmcheck_slots::unit::<m_98::DF9>(w, "DF9"));
    c.job("DF10", |w| fmcheck_slots::unit::<m_99::DF10>(w, "DF10"));
    c.job("DF11", |w| fmcheck_slots::unit::<m_100::DF11>(w, "DF11"));
    c.job("DF12", |w| fmcheck_slots::unit::<m_101::DF12>(w, "DF12"));
    c.job("DF13", |w| fmcheck_slots::unit::<m_102::DF13>(w, "DF13"));
    c.job("DF14", |w| fmcheck_slots::unit::<m_103::DF14>(w, "DF14"));
    c.job("DM", |w| fmcheck_slots::unit::<m_104::DM>(w, "DM"));
    c.job("RBu8", |w| fmcheck_slots::unit::<m_105::RBu8>(w, "RBu8"));
    c.job("RBu16", |w| fmcheck_slots::unit::<m_106::RBu16>(w, "RBu16"));
    c.job("RC", |w| fmcheck_slots::unit::<m_107::RC>(w, "RC"));
    c.job("I0", |w| fmcheck_slots::unit::<m_108::I0>(w, "I0"));
    c.job("IB3", |w| fmcheck_slots::unit::<m_109::IB3>(w, "IB3"));
    c.job("IC6", |w| fmcheck_slots::unit::<m_110::IC6>(w, "IC6"));
    c.job("ID9", |w| fmcheck_slots::unit::<m_111::ID9>(w, "ID9"));
    c.job("I15", |w| fmcheck_slots::unit::<m_112::I15>(w, "I15"));
    c.job("IB18", |w| fmcheck_slots::unit::<m_113::IB18>(w, "IB18"));
    c.job("IC21", |w| fmcheck_slots::unit::<m_114::IC21>(w, "IC21"));
    c.job("ID24", |w| fmcheck_slots::unit::<m_115::ID24>(w, "ID24"));
    c.job("I30", |w| fmcheck_slots::unit::<m_116::I30>(w, "I30"));
    c.job("IB33", |w| fmcheck_slots::unit::<m_117::IB33>(w, "IB33"));
    c.job("IC36", |w| fmcheck_slots::unit::<m_118::IC36>(w, "IC36"));
    c.job("ID39", |w| fmcheck_slots::unit::<m_119::ID39>(w, "ID39"));
    c.job("I45", |w| fmcheck_slots::unit::<m_120::I45>(w, "I45"));
    c.job("IB48", |w| fmcheck_slots::unit::<m_121::IB48>(w, "IB48"));
    c.job("IC51", |w| fmcheck_slots::unit::<m_122::IC51>(w, "IC51"));
    c.job("ID54", |w| fmcheck_slots::unit::<m_123::ID54>(w, "ID54"));
    c.job("I60", |w| fmcheck_slots::unit::<m_124::I60>(w, "I60"));
    c.job("IB63", |w| fmcheck_slots::unit::<m_125::IB63>(w, "IB63"));
    c.job("IC66", |w| fmcheck_slots::unit::<m_126::IC66>(w, "IC66"));
    c.job("ID69", |w| fmcheck_slots::unit::<m_127::ID69>(w, "ID69"));
    c.job("I75", |w| fmcheck_slots::unit::<m_128::I75>(w, "I75"));
    c.job("IB78", |w| fmcheck_slots::unit::<m_129::IB78>(w, "IB78"));
    c.job("IC81", |w| fmcheck_slots::unit::<m_130::IC81>(w, "IC81"));
    c.job("ID84", |w| fmcheck_slots::unit::<m_131::ID84>(w, "ID84"));
    c.job("I90", |w| fmcheck_slots::unit::<m_132::I90>(w, "I90"));
    c.job("Iter_", |w| fmcheck_slots::unit::<m_133::Iter_>(w, "Iter_"));
    c.job("Storage", |w| fmcheck_slots::unit::<m_134::Storage>(w, "Storage"));
    c.job("Ünïcode", |w| fmcheck_slots::unit::<m_135::Ünïcode>(w, "Ünïcode"));
    c.job("Func", |w| fmcheck_slots::unit::<m_136::Func>(w, "Func"));
    c.job("Attr", |w| fmcheck_slots::unit::<m_137::Attr>(w, "Attr"));
}
