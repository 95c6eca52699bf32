//! Generated by gen2.py; do not edit.
#![allow(unused_imports, non_camel_case_types, non_upper_case_globals, non_snake_case, dead_code, uncommon_codepoints, clippy::all)]
#![recursion_limit = "1024"]
use fmcheck_dom::{off, Dom};
use fixed_map::Key;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U2 { V0, V1 }
impl Dom for U2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U2] = &[U2::V0, U2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U2::V0 => 0,
            U2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K2 { V0, V1 }
impl Dom for K2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K2] = &[K2::V0, K2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K2::V0 => 0,
            K2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U0 {  }
impl Dom for U0 {
    const N: usize = 0;
    const STATIC: bool = true;
    fn at(_: usize) -> Self { panic!("no such key") }
    fn idx(self) -> usize { match self {} }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..0 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum NestA { X(bool), Y }
impl Dom for NestA {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return NestA::X(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return NestA::Y; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            NestA::X(x) => off(0, <bool as Dom>::idx(x)),
            NestA::Y => 0 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
pub mod m_0 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S1Z { V0(U0) }
impl Dom for S1Z {
    const N: usize = 0 + <U0 as Dom>::N;
    const STATIC: bool = true && <U0 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U0 as Dom>::N { return S1Z::V0(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S1Z::V0(x) => off(0, <U0 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U0 as Dom>::ranks(out, next);
    }
}
}
pub mod m_1 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2UE { V0, V1(U2) }
impl Dom for S2UE {
    const N: usize = 1 + <U2 as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S2UE::V0; } i -= 1;
        if i < <U2 as Dom>::N { return S2UE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2UE::V0 => 0,
            S2UE::V1(x) => off(1, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <U2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_2 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2BB { V0(bool), V1(bool) }
impl Dom for S2BB {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S2BB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S2BB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2BB::V0(x) => off(0, <bool as Dom>::idx(x)),
            S2BB::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_3 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2BT { V0(bool), V1(&'static str) }
impl Dom for S2BT {
    const N: usize = 0 + <bool as Dom>::N + <&'static str as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S2BT::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <&'static str as Dom>::N { return S2BT::V1(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2BT::V0(x) => off(0, <bool as Dom>::idx(x)),
            S2BT::V1(x) => off(0 + <bool as Dom>::N, <&'static str as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <&'static str as Dom>::ranks(out, next);
    }
}
}
pub mod m_4 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2SZ { V0(()), V1(U0) }
impl Dom for S2SZ {
    const N: usize = 0 + <() as Dom>::N + <U0 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <U0 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S2SZ::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <U0 as Dom>::N { return S2SZ::V1(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2SZ::V0(x) => off(0, <() as Dom>::idx(x)),
            S2SZ::V1(x) => off(0 + <() as Dom>::N, <U0 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <U0 as Dom>::ranks(out, next);
    }
}
}
pub mod m_5 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2OO { V0(Option<bool>), V1(Option<bool>) }
impl Dom for S2OO {
    const N: usize = 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S2OO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S2OO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2OO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S2OO::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_6 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2EU { V0(U2), V1 }
impl Dom for S2EU {
    const N: usize = 1 + <U2 as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return S2EU::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i == 0 { return S2EU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2EU::V0(x) => off(0, <U2 as Dom>::idx(x)),
            S2EU::V1 => 0 + <U2 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_7 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2ED { V0(U2), V1(u8) }
impl Dom for S2ED {
    const N: usize = 0 + <U2 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return S2ED::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <u8 as Dom>::N { return S2ED::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2ED::V0(x) => off(0, <U2 as Dom>::idx(x)),
            S2ED::V1(x) => off(0 + <U2 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_8 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2KK { V0(K2), V1(K2) }
impl Dom for S2KK {
    const N: usize = 0 + <K2 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S2KK::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <K2 as Dom>::N { return S2KK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2KK::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S2KK::V1(x) => off(0 + <K2 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_9 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2ZS { V0(U0), V1(()) }
impl Dom for S2ZS {
    const N: usize = 0 + <U0 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <U0 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U0 as Dom>::N { return S2ZS::V0(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        if i < <() as Dom>::N { return S2ZS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2ZS::V0(x) => off(0, <U0 as Dom>::idx(x)),
            S2ZS::V1(x) => off(0 + <U0 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U0 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_10 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2ZW { V0(U0), V1(Option<u32>) }
impl Dom for S2ZW {
    const N: usize = 0 + <U0 as Dom>::N + <Option<u32> as Dom>::N;
    const STATIC: bool = true && <U0 as Dom>::STATIC && <Option<u32> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U0 as Dom>::N { return S2ZW::V0(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        if i < <Option<u32> as Dom>::N { return S2ZW::V1(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2ZW::V0(x) => off(0, <U0 as Dom>::idx(x)),
            S2ZW::V1(x) => off(0 + <U0 as Dom>::N, <Option<u32> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U0 as Dom>::ranks(out, next);
        <Option<u32> as Dom>::ranks(out, next);
    }
}
}
pub mod m_11 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2CC { V0(NestA), V1(NestA) }
impl Dom for S2CC {
    const N: usize = 0 + <NestA as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return S2CC::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <NestA as Dom>::N { return S2CC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2CC::V0(x) => off(0, <NestA as Dom>::idx(x)),
            S2CC::V1(x) => off(0 + <NestA as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
}
pub mod m_12 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2DE { V0(u8), V1(U2) }
impl Dom for S2DE {
    const N: usize = 0 + <u8 as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S2DE::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <U2 as Dom>::N { return S2DE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2DE::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S2DE::V1(x) => off(0 + <u8 as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_13 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2TB { V0(&'static str), V1(bool) }
impl Dom for S2TB {
    const N: usize = 0 + <&'static str as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <&'static str as Dom>::N { return S2TB::V0(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i < <bool as Dom>::N { return S2TB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2TB::V0(x) => off(0, <&'static str as Dom>::idx(x)),
            S2TB::V1(x) => off(0 + <&'static str as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <&'static str as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_14 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2TT { V0(&'static str), V1(&'static str) }
impl Dom for S2TT {
    const N: usize = 0 + <&'static str as Dom>::N + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <&'static str as Dom>::N { return S2TT::V0(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i < <&'static str as Dom>::N { return S2TT::V1(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2TT::V0(x) => off(0, <&'static str as Dom>::idx(x)),
            S2TT::V1(x) => off(0 + <&'static str as Dom>::N, <&'static str as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <&'static str as Dom>::ranks(out, next);
        <&'static str as Dom>::ranks(out, next);
    }
}
}
pub mod m_15 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2WZ { V0(Option<u32>), V1(U0) }
impl Dom for S2WZ {
    const N: usize = 0 + <Option<u32> as Dom>::N + <U0 as Dom>::N;
    const STATIC: bool = true && <Option<u32> as Dom>::STATIC && <U0 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<u32> as Dom>::N { return S2WZ::V0(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        if i < <U0 as Dom>::N { return S2WZ::V1(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2WZ::V0(x) => off(0, <Option<u32> as Dom>::idx(x)),
            S2WZ::V1(x) => off(0 + <Option<u32> as Dom>::N, <U0 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<u32> as Dom>::ranks(out, next);
        <U0 as Dom>::ranks(out, next);
    }
}
}
pub mod m_16 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UUK { V0, V1, V2(K2) }
impl Dom for S3UUK {
    const N: usize = 2 + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UUK::V0; } i -= 1;
        if i == 0 { return S3UUK::V1; } i -= 1;
        if i < <K2 as Dom>::N { return S3UUK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UUK::V0 => 0,
            S3UUK::V1 => 1,
            S3UUK::V2(x) => off(2, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_17 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3USU { V0, V1(()), V2 }
impl Dom for S3USU {
    const N: usize = 2 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3USU::V0; } i -= 1;
        if i < <() as Dom>::N { return S3USU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S3USU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3USU::V0 => 0,
            S3USU::V1(x) => off(1, <() as Dom>::idx(x)),
            S3USU::V2 => 1 + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_18 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UOS { V0, V1(Option<bool>), V2(()) }
impl Dom for S3UOS {
    const N: usize = 1 + <Option<bool> as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UOS::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S3UOS::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <() as Dom>::N { return S3UOS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UOS::V0 => 0,
            S3UOS::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
            S3UOS::V2(x) => off(1 + <Option<bool> as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_19 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UKK { V0, V1(K2), V2(K2) }
impl Dom for S3UKK {
    const N: usize = 1 + <K2 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UKK::V0; } i -= 1;
        if i < <K2 as Dom>::N { return S3UKK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <K2 as Dom>::N { return S3UKK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UKK::V0 => 0,
            S3UKK::V1(x) => off(1, <K2 as Dom>::idx(x)),
            S3UKK::V2(x) => off(1 + <K2 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <K2 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_20 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BUU { V0(bool), V1, V2 }
impl Dom for S3BUU {
    const N: usize = 2 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BUU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S3BUU::V1; } i -= 1;
        if i == 0 { return S3BUU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BUU::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BUU::V1 => 0 + <bool as Dom>::N,
            S3BUU::V2 => 1 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_21 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BBS { V0(bool), V1(bool), V2(()) }
impl Dom for S3BBS {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BBS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S3BBS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S3BBS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BBS::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BBS::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S3BBS::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_22 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BSK { V0(bool), V1(()), V2(K2) }
impl Dom for S3BSK {
    const N: usize = 0 + <bool as Dom>::N + <() as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BSK::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S3BSK::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <K2 as Dom>::N { return S3BSK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BSK::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BSK::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S3BSK::V2(x) => off(0 + <bool as Dom>::N + <() as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_23 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BKU { V0(bool), V1(K2), V2 }
impl Dom for S3BKU {
    const N: usize = 1 + <bool as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BKU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <K2 as Dom>::N { return S3BKU::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i == 0 { return S3BKU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BKU::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BKU::V1(x) => off(0 + <bool as Dom>::N, <K2 as Dom>::idx(x)),
            S3BKU::V2 => 0 + <bool as Dom>::N + <K2 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_24 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BDS { V0(bool), V1(u8), V2(()) }
impl Dom for S3BDS {
    const N: usize = 0 + <bool as Dom>::N + <u8 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <u8 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BDS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <u8 as Dom>::N { return S3BDS::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <() as Dom>::N { return S3BDS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BDS::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BDS::V1(x) => off(0 + <bool as Dom>::N, <u8 as Dom>::idx(x)),
            S3BDS::V2(x) => off(0 + <bool as Dom>::N + <u8 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_25 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SUK { V0(()), V1, V2(K2) }
impl Dom for S3SUK {
    const N: usize = 1 + <() as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SUK::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S3SUK::V1; } i -= 1;
        if i < <K2 as Dom>::N { return S3SUK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SUK::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SUK::V1 => 0 + <() as Dom>::N,
            S3SUK::V2(x) => off(1 + <() as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_26 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SSU { V0(()), V1(()), V2 }
impl Dom for S3SSU {
    const N: usize = 1 + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SSU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S3SSU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S3SSU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SSU::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SSU::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            S3SSU::V2 => 0 + <() as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_27 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SOS { V0(()), V1(Option<bool>), V2(()) }
impl Dom for S3SOS {
    const N: usize = 0 + <() as Dom>::N + <Option<bool> as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SOS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3SOS::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <() as Dom>::N { return S3SOS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SOS::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SOS::V1(x) => off(0 + <() as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3SOS::V2(x) => off(0 + <() as Dom>::N + <Option<bool> as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_28 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SKK { V0(()), V1(K2), V2(K2) }
impl Dom for S3SKK {
    const N: usize = 0 + <() as Dom>::N + <K2 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <K2 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SKK::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <K2 as Dom>::N { return S3SKK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <K2 as Dom>::N { return S3SKK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SKK::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SKK::V1(x) => off(0 + <() as Dom>::N, <K2 as Dom>::idx(x)),
            S3SKK::V2(x) => off(0 + <() as Dom>::N + <K2 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_29 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OUU { V0(Option<bool>), V1, V2 }
impl Dom for S3OUU {
    const N: usize = 2 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OUU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S3OUU::V1; } i -= 1;
        if i == 0 { return S3OUU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OUU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OUU::V1 => 0 + <Option<bool> as Dom>::N,
            S3OUU::V2 => 1 + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_30 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OBS { V0(Option<bool>), V1(bool), V2(()) }
impl Dom for S3OBS {
    const N: usize = 0 + <Option<bool> as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OBS::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <bool as Dom>::N { return S3OBS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S3OBS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OBS::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OBS::V1(x) => off(0 + <Option<bool> as Dom>::N, <bool as Dom>::idx(x)),
            S3OBS::V2(x) => off(0 + <Option<bool> as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_31 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OSK { V0(Option<bool>), V1(()), V2(K2) }
impl Dom for S3OSK {
    const N: usize = 0 + <Option<bool> as Dom>::N + <() as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <() as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OSK::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <() as Dom>::N { return S3OSK::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <K2 as Dom>::N { return S3OSK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OSK::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OSK::V1(x) => off(0 + <Option<bool> as Dom>::N, <() as Dom>::idx(x)),
            S3OSK::V2(x) => off(0 + <Option<bool> as Dom>::N + <() as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_32 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OKU { V0(Option<bool>), V1(K2), V2 }
impl Dom for S3OKU {
    const N: usize = 1 + <Option<bool> as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OKU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <K2 as Dom>::N { return S3OKU::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i == 0 { return S3OKU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OKU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OKU::V1(x) => off(0 + <Option<bool> as Dom>::N, <K2 as Dom>::idx(x)),
            S3OKU::V2 => 0 + <Option<bool> as Dom>::N + <K2 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_33 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3ODS { V0(Option<bool>), V1(u8), V2(()) }
impl Dom for S3ODS {
    const N: usize = 0 + <Option<bool> as Dom>::N + <u8 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <u8 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3ODS::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <u8 as Dom>::N { return S3ODS::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <() as Dom>::N { return S3ODS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3ODS::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3ODS::V1(x) => off(0 + <Option<bool> as Dom>::N, <u8 as Dom>::idx(x)),
            S3ODS::V2(x) => off(0 + <Option<bool> as Dom>::N + <u8 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_34 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KUK { V0(K2), V1, V2(K2) }
impl Dom for S3KUK {
    const N: usize = 1 + <K2 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KUK::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i == 0 { return S3KUK::V1; } i -= 1;
        if i < <K2 as Dom>::N { return S3KUK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KUK::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KUK::V1 => 0 + <K2 as Dom>::N,
            S3KUK::V2(x) => off(1 + <K2 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_35 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KSU { V0(K2), V1(()), V2 }
impl Dom for S3KSU {
    const N: usize = 1 + <K2 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KSU::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <() as Dom>::N { return S3KSU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S3KSU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KSU::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KSU::V1(x) => off(0 + <K2 as Dom>::N, <() as Dom>::idx(x)),
            S3KSU::V2 => 0 + <K2 as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_36 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KOS { V0(K2), V1(Option<bool>), V2(()) }
impl Dom for S3KOS {
    const N: usize = 0 + <K2 as Dom>::N + <Option<bool> as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KOS::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3KOS::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <() as Dom>::N { return S3KOS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KOS::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KOS::V1(x) => off(0 + <K2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3KOS::V2(x) => off(0 + <K2 as Dom>::N + <Option<bool> as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_37 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KKK { V0(K2), V1(K2), V2(K2) }
impl Dom for S3KKK {
    const N: usize = 0 + <K2 as Dom>::N + <K2 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <K2 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KKK::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <K2 as Dom>::N { return S3KKK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <K2 as Dom>::N { return S3KKK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KKK::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KKK::V1(x) => off(0 + <K2 as Dom>::N, <K2 as Dom>::idx(x)),
            S3KKK::V2(x) => off(0 + <K2 as Dom>::N + <K2 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_38 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DUU { V0(u8), V1, V2 }
impl Dom for S3DUU {
    const N: usize = 2 + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DUU::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return S3DUU::V1; } i -= 1;
        if i == 0 { return S3DUU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DUU::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DUU::V1 => 0 + <u8 as Dom>::N,
            S3DUU::V2 => 1 + <u8 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_39 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DBS { V0(u8), V1(bool), V2(()) }
impl Dom for S3DBS {
    const N: usize = 0 + <u8 as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DBS::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <bool as Dom>::N { return S3DBS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S3DBS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DBS::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DBS::V1(x) => off(0 + <u8 as Dom>::N, <bool as Dom>::idx(x)),
            S3DBS::V2(x) => off(0 + <u8 as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_40 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DSK { V0(u8), V1(()), V2(K2) }
impl Dom for S3DSK {
    const N: usize = 0 + <u8 as Dom>::N + <() as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <() as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DSK::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <() as Dom>::N { return S3DSK::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <K2 as Dom>::N { return S3DSK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DSK::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DSK::V1(x) => off(0 + <u8 as Dom>::N, <() as Dom>::idx(x)),
            S3DSK::V2(x) => off(0 + <u8 as Dom>::N + <() as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_41 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DKU { V0(u8), V1(K2), V2 }
impl Dom for S3DKU {
    const N: usize = 1 + <u8 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DKU::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <K2 as Dom>::N { return S3DKU::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i == 0 { return S3DKU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DKU::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DKU::V1(x) => off(0 + <u8 as Dom>::N, <K2 as Dom>::idx(x)),
            S3DKU::V2 => 0 + <u8 as Dom>::N + <K2 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_42 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DDS { V0(u8), V1(u8), V2(()) }
impl Dom for S3DDS {
    const N: usize = 0 + <u8 as Dom>::N + <u8 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DDS::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <u8 as Dom>::N { return S3DDS::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <() as Dom>::N { return S3DDS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DDS::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DDS::V1(x) => off(0 + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
            S3DDS::V2(x) => off(0 + <u8 as Dom>::N + <u8 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_43 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UUBS { V0, V1, V2(bool), V3(()) }
impl Dom for S4UUBS {
    const N: usize = 2 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UUBS::V0; } i -= 1;
        if i == 0 { return S4UUBS::V1; } i -= 1;
        if i < <bool as Dom>::N { return S4UUBS::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4UUBS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UUBS::V0 => 0,
            S4UUBS::V1 => 1,
            S4UUBS::V2(x) => off(2, <bool as Dom>::idx(x)),
            S4UUBS::V3(x) => off(2 + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_44 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UBBB { V0, V1(bool), V2(bool), V3(bool) }
impl Dom for S4UBBB {
    const N: usize = 1 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UBBB::V0; } i -= 1;
        if i < <bool as Dom>::N { return S4UBBB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4UBBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4UBBB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UBBB::V0 => 0,
            S4UBBB::V1(x) => off(1, <bool as Dom>::idx(x)),
            S4UBBB::V2(x) => off(1 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4UBBB::V3(x) => off(1 + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_45 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4USBU { V0, V1(()), V2(bool), V3 }
impl Dom for S4USBU {
    const N: usize = 2 + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4USBU::V0; } i -= 1;
        if i < <() as Dom>::N { return S4USBU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4USBU::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4USBU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4USBU::V0 => 0,
            S4USBU::V1(x) => off(1, <() as Dom>::idx(x)),
            S4USBU::V2(x) => off(1 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4USBU::V3 => 1 + <() as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_46 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BUUS { V0(bool), V1, V2, V3(()) }
impl Dom for S4BUUS {
    const N: usize = 2 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BUUS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4BUUS::V1; } i -= 1;
        if i == 0 { return S4BUUS::V2; } i -= 1;
        if i < <() as Dom>::N { return S4BUUS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BUUS::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BUUS::V1 => 0 + <bool as Dom>::N,
            S4BUUS::V2 => 1 + <bool as Dom>::N,
            S4BUUS::V3(x) => off(2 + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_47 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BBUB { V0(bool), V1(bool), V2, V3(bool) }
impl Dom for S4BBUB {
    const N: usize = 1 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BBUB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4BBUB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4BBUB::V2; } i -= 1;
        if i < <bool as Dom>::N { return S4BBUB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BBUB::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BBUB::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4BBUB::V2 => 0 + <bool as Dom>::N + <bool as Dom>::N,
            S4BBUB::V3(x) => off(1 + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_48 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BSUU { V0(bool), V1(()), V2, V3 }
impl Dom for S4BSUU {
    const N: usize = 2 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BSUU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4BSUU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4BSUU::V2; } i -= 1;
        if i == 0 { return S4BSUU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BSUU::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BSUU::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4BSUU::V2 => 0 + <bool as Dom>::N + <() as Dom>::N,
            S4BSUU::V3 => 1 + <bool as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_49 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BSSS { V0(bool), V1(()), V2(()), V3(()) }
impl Dom for S4BSSS {
    const N: usize = 0 + <bool as Dom>::N + <() as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BSSS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4BSSS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4BSSS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4BSSS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BSSS::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BSSS::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4BSSS::V2(x) => off(0 + <bool as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
            S4BSSS::V3(x) => off(0 + <bool as Dom>::N + <() as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_50 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SUSB { V0(()), V1, V2(()), V3(bool) }
impl Dom for S4SUSB {
    const N: usize = 1 + <() as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SUSB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4SUSB::V1; } i -= 1;
        if i < <() as Dom>::N { return S4SUSB::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4SUSB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SUSB::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SUSB::V1 => 0 + <() as Dom>::N,
            S4SUSB::V2(x) => off(1 + <() as Dom>::N, <() as Dom>::idx(x)),
            S4SUSB::V3(x) => off(1 + <() as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_51 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SBSU { V0(()), V1(bool), V2(()), V3 }
impl Dom for S4SBSU {
    const N: usize = 1 + <() as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SBSU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4SBSU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4SBSU::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4SBSU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SBSU::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SBSU::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4SBSU::V2(x) => off(0 + <() as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4SBSU::V3 => 0 + <() as Dom>::N + <bool as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_52 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SSBS { V0(()), V1(()), V2(bool), V3(()) }
impl Dom for S4SSBS {
    const N: usize = 0 + <() as Dom>::N + <() as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SSBS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4SSBS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4SSBS::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4SSBS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SSBS::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SSBS::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            S4SSBS::V2(x) => off(0 + <() as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4SSBS::V3(x) => off(0 + <() as Dom>::N + <() as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_53 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5UUOUO { V0, V1, V2(Option<bool>), V3, V4(Option<bool>) }
impl Dom for S5UUOUO {
    const N: usize = 3 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S5UUOUO::V0; } i -= 1;
        if i == 0 { return S5UUOUO::V1; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UUOUO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5UUOUO::V3; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UUOUO::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5UUOUO::V0 => 0,
            S5UUOUO::V1 => 1,
            S5UUOUO::V2(x) => off(2, <Option<bool> as Dom>::idx(x)),
            S5UUOUO::V3 => 2 + <Option<bool> as Dom>::N,
            S5UUOUO::V4(x) => off(3 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_54 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5UOOUO { V0, V1(Option<bool>), V2(Option<bool>), V3, V4(Option<bool>) }
impl Dom for S5UOOUO {
    const N: usize = 2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S5UOOUO::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UOOUO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5UOOUO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5UOOUO::V3; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UOOUO::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5UOOUO::V0 => 0,
            S5UOOUO::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
            S5UOOUO::V2(x) => off(1 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5UOOUO::V3 => 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
            S5UOOUO::V4(x) => off(2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_55 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5OUOUO { V0(Option<bool>), V1, V2(Option<bool>), V3, V4(Option<bool>) }
impl Dom for S5OUOUO {
    const N: usize = 2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S5OUOUO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OUOUO::V1; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5OUOUO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OUOUO::V3; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5OUOUO::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5OUOUO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S5OUOUO::V1 => 0 + <Option<bool> as Dom>::N,
            S5OUOUO::V2(x) => off(1 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OUOUO::V3 => 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
            S5OUOUO::V4(x) => off(2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_56 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5OOOUO { V0(Option<bool>), V1(Option<bool>), V2(Option<bool>), V3, V4(Option<bool>) }
impl Dom for S5OOOUO {
    const N: usize = 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S5OOOUO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OOOUO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OOOUO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OOOUO::V3; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5OOOUO::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5OOOUO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S5OOOUO::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OOOUO::V2(x) => off(0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OOOUO::V3 => 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
            S5OOOUO::V4(x) => off(1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_57 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P6_5 { V0, V1, V2, V3, V4, V5(bool) }
impl Dom for P6_5 {
    const N: usize = 5 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P6_5::V0; } i -= 1;
        if i == 0 { return P6_5::V1; } i -= 1;
        if i == 0 { return P6_5::V2; } i -= 1;
        if i == 0 { return P6_5::V3; } i -= 1;
        if i == 0 { return P6_5::V4; } i -= 1;
        if i < <bool as Dom>::N { return P6_5::V5(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P6_5::V0 => 0,
            P6_5::V1 => 1,
            P6_5::V2 => 2,
            P6_5::V3 => 3,
            P6_5::V4 => 4,
            P6_5::V5(x) => off(5, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_58 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P8_7 { V0, V1, V2, V3, V4, V5, V6, V7(bool) }
impl Dom for P8_7 {
    const N: usize = 7 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P8_7::V0; } i -= 1;
        if i == 0 { return P8_7::V1; } i -= 1;
        if i == 0 { return P8_7::V2; } i -= 1;
        if i == 0 { return P8_7::V3; } i -= 1;
        if i == 0 { return P8_7::V4; } i -= 1;
        if i == 0 { return P8_7::V5; } i -= 1;
        if i == 0 { return P8_7::V6; } i -= 1;
        if i < <bool as Dom>::N { return P8_7::V7(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P8_7::V0 => 0,
            P8_7::V1 => 1,
            P8_7::V2 => 2,
            P8_7::V3 => 3,
            P8_7::V4 => 4,
            P8_7::V5 => 5,
            P8_7::V6 => 6,
            P8_7::V7(x) => off(7, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_59 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P12_7 { V0, V1, V2, V3, V4, V5, V6, V7(bool), V8, V9, V10, V11 }
impl Dom for P12_7 {
    const N: usize = 11 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P12_7::V0; } i -= 1;
        if i == 0 { return P12_7::V1; } i -= 1;
        if i == 0 { return P12_7::V2; } i -= 1;
        if i == 0 { return P12_7::V3; } i -= 1;
        if i == 0 { return P12_7::V4; } i -= 1;
        if i == 0 { return P12_7::V5; } i -= 1;
        if i == 0 { return P12_7::V6; } i -= 1;
        if i < <bool as Dom>::N { return P12_7::V7(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P12_7::V8; } i -= 1;
        if i == 0 { return P12_7::V9; } i -= 1;
        if i == 0 { return P12_7::V10; } i -= 1;
        if i == 0 { return P12_7::V11; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P12_7::V0 => 0,
            P12_7::V1 => 1,
            P12_7::V2 => 2,
            P12_7::V3 => 3,
            P12_7::V4 => 4,
            P12_7::V5 => 5,
            P12_7::V6 => 6,
            P12_7::V7(x) => off(7, <bool as Dom>::idx(x)),
            P12_7::V8 => 7 + <bool as Dom>::N,
            P12_7::V9 => 8 + <bool as Dom>::N,
            P12_7::V10 => 9 + <bool as Dom>::N,
            P12_7::V11 => 10 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_60 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B1 { V0 }
impl Dom for B1 {
    const N: usize = 1;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B1] = &[B1::V0];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B1::V0 => 0,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..1 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_61 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B4 { V0, V1, V2, V3 }
impl Dom for B4 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B4] = &[B4::V0, B4::V1, B4::V2, B4::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B4::V0 => 0,
            B4::V1 => 1,
            B4::V2 => 2,
            B4::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_62 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B8 { V0, V1, V2, V3, V4, V5, V6, V7 }
impl Dom for B8 {
    const N: usize = 8;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B8] = &[B8::V0, B8::V1, B8::V2, B8::V3, B8::V4, B8::V5, B8::V6, B8::V7];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B8::V0 => 0,
            B8::V1 => 1,
            B8::V2 => 2,
            B8::V3 => 3,
            B8::V4 => 4,
            B8::V5 => 5,
            B8::V6 => 6,
            B8::V7 => 7,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..8 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_63 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B12 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11 }
impl Dom for B12 {
    const N: usize = 12;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B12] = &[B12::V0, B12::V1, B12::V2, B12::V3, B12::V4, B12::V5, B12::V6, B12::V7, B12::V8, B12::V9, B12::V10, B12::V11];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B12::V0 => 0,
            B12::V1 => 1,
            B12::V2 => 2,
            B12::V3 => 3,
            B12::V4 => 4,
            B12::V5 => 5,
            B12::V6 => 6,
            B12::V7 => 7,
            B12::V8 => 8,
            B12::V9 => 9,
            B12::V10 => 10,
            B12::V11 => 11,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..12 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_64 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B16 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }
impl Dom for B16 {
    const N: usize = 16;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B16] = &[B16::V0, B16::V1, B16::V2, B16::V3, B16::V4, B16::V5, B16::V6, B16::V7, B16::V8, B16::V9, B16::V10, B16::V11, B16::V12, B16::V13, B16::V14, B16::V15];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B16::V0 => 0,
            B16::V1 => 1,
            B16::V2 => 2,
            B16::V3 => 3,
            B16::V4 => 4,
            B16::V5 => 5,
            B16::V6 => 6,
            B16::V7 => 7,
            B16::V8 => 8,
            B16::V9 => 9,
            B16::V10 => 10,
            B16::V11 => 11,
            B16::V12 => 12,
            B16::V13 => 13,
            B16::V14 => 14,
            B16::V15 => 15,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..16 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_65 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B20 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19 }
impl Dom for B20 {
    const N: usize = 20;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B20] = &[B20::V0, B20::V1, B20::V2, B20::V3, B20::V4, B20::V5, B20::V6, B20::V7, B20::V8, B20::V9, B20::V10, B20::V11, B20::V12, B20::V13, B20::V14, B20::V15, B20::V16, B20::V17, B20::V18, B20::V19];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B20::V0 => 0,
            B20::V1 => 1,
            B20::V2 => 2,
            B20::V3 => 3,
            B20::V4 => 4,
            B20::V5 => 5,
            B20::V6 => 6,
            B20::V7 => 7,
            B20::V8 => 8,
            B20::V9 => 9,
            B20::V10 => 10,
            B20::V11 => 11,
            B20::V12 => 12,
            B20::V13 => 13,
            B20::V14 => 14,
            B20::V15 => 15,
            B20::V16 => 16,
            B20::V17 => 17,
            B20::V18 => 18,
            B20::V19 => 19,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..20 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_66 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B24 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23 }
impl Dom for B24 {
    const N: usize = 24;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B24] = &[B24::V0, B24::V1, B24::V2, B24::V3, B24::V4, B24::V5, B24::V6, B24::V7, B24::V8, B24::V9, B24::V10, B24::V11, B24::V12, B24::V13, B24::V14, B24::V15, B24::V16, B24::V17, B24::V18, B24::V19, B24::V20, B24::V21, B24::V22, B24::V23];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B24::V0 => 0,
            B24::V1 => 1,
            B24::V2 => 2,
            B24::V3 => 3,
            B24::V4 => 4,
            B24::V5 => 5,
            B24::V6 => 6,
            B24::V7 => 7,
            B24::V8 => 8,
            B24::V9 => 9,
            B24::V10 => 10,
            B24::V11 => 11,
            B24::V12 => 12,
            B24::V13 => 13,
            B24::V14 => 14,
            B24::V15 => 15,
            B24::V16 => 16,
            B24::V17 => 17,
            B24::V18 => 18,
            B24::V19 => 19,
            B24::V20 => 20,
            B24::V21 => 21,
            B24::V22 => 22,
            B24::V23 => 23,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..24 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_67 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B28 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27 }
impl Dom for B28 {
    const N: usize = 28;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B28] = &[B28::V0, B28::V1, B28::V2, B28::V3, B28::V4, B28::V5, B28::V6, B28::V7, B28::V8, B28::V9, B28::V10, B28::V11, B28::V12, B28::V13, B28::V14, B28::V15, B28::V16, B28::V17, B28::V18, B28::V19, B28::V20, B28::V21, B28::V22, B28::V23, B28::V24, B28::V25, B28::V26, B28::V27];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B28::V0 => 0,
            B28::V1 => 1,
            B28::V2 => 2,
            B28::V3 => 3,
            B28::V4 => 4,
            B28::V5 => 5,
            B28::V6 => 6,
            B28::V7 => 7,
            B28::V8 => 8,
            B28::V9 => 9,
            B28::V10 => 10,
            B28::V11 => 11,
            B28::V12 => 12,
            B28::V13 => 13,
            B28::V14 => 14,
            B28::V15 => 15,
            B28::V16 => 16,
            B28::V17 => 17,
            B28::V18 => 18,
            B28::V19 => 19,
            B28::V20 => 20,
            B28::V21 => 21,
            B28::V22 => 22,
            B28::V23 => 23,
            B28::V24 => 24,
            B28::V25 => 25,
            B28::V26 => 26,
            B28::V27 => 27,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..28 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_68 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B32 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31 }
impl Dom for B32 {
    const N: usize = 32;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B32] = &[B32::V0, B32::V1, B32::V2, B32::V3, B32::V4, B32::V5, B32::V6, B32::V7, B32::V8, B32::V9, B32::V10, B32::V11, B32::V12, B32::V13, B32::V14, B32::V15, B32::V16, B32::V17, B32::V18, B32::V19, B32::V20, B32::V21, B32::V22, B32::V23, B32::V24, B32::V25, B32::V26, B32::V27, B32::V28, B32::V29, B32::V30, B32::V31];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B32::V0 => 0,
            B32::V1 => 1,
            B32::V2 => 2,
            B32::V3 => 3,
            B32::V4 => 4,
            B32::V5 => 5,
            B32::V6 => 6,
            B32::V7 => 7,
            B32::V8 => 8,
            B32::V9 => 9,
            B32::V10 => 10,
            B32::V11 => 11,
            B32::V12 => 12,
            B32::V13 => 13,
            B32::V14 => 14,
            B32::V15 => 15,
            B32::V16 => 16,
            B32::V17 => 17,
            B32::V18 => 18,
            B32::V19 => 19,
            B32::V20 => 20,
            B32::V21 => 21,
            B32::V22 => 22,
            B32::V23 => 23,
            B32::V24 => 24,
            B32::V25 => 25,
            B32::V26 => 26,
            B32::V27 => 27,
            B32::V28 => 28,
            B32::V29 => 29,
            B32::V30 => 30,
            B32::V31 => 31,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..32 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_69 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B36 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35 }
impl Dom for B36 {
    const N: usize = 36;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B36] = &[B36::V0, B36::V1, B36::V2, B36::V3, B36::V4, B36::V5, B36::V6, B36::V7, B36::V8, B36::V9, B36::V10, B36::V11, B36::V12, B36::V13, B36::V14, B36::V15, B36::V16, B36::V17, B36::V18, B36::V19, B36::V20, B36::V21, B36::V22, B36::V23, B36::V24, B36::V25, B36::V26, B36::V27, B36::V28, B36::V29, B36::V30, B36::V31, B36::V32, B36::V33, B36::V34, B36::V35];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B36::V0 => 0,
            B36::V1 => 1,
            B36::V2 => 2,
            B36::V3 => 3,
            B36::V4 => 4,
            B36::V5 => 5,
            B36::V6 => 6,
            B36::V7 => 7,
            B36::V8 => 8,
            B36::V9 => 9,
            B36::V10 => 10,
            B36::V11 => 11,
            B36::V12 => 12,
            B36::V13 => 13,
            B36::V14 => 14,
            B36::V15 => 15,
            B36::V16 => 16,
            B36::V17 => 17,
            B36::V18 => 18,
            B36::V19 => 19,
            B36::V20 => 20,
            B36::V21 => 21,
            B36::V22 => 22,
            B36::V23 => 23,
            B36::V24 => 24,
            B36::V25 => 25,
            B36::V26 => 26,
            B36::V27 => 27,
            B36::V28 => 28,
            B36::V29 => 29,
            B36::V30 => 30,
            B36::V31 => 31,
            B36::V32 => 32,
            B36::V33 => 33,
            B36::V34 => 34,
            B36::V35 => 35,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..36 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_70 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B40 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39 }
impl Dom for B40 {
    const N: usize = 40;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B40] = &[B40::V0, B40::V1, B40::V2, B40::V3, B40::V4, B40::V5, B40::V6, B40::V7, B40::V8, B40::V9, B40::V10, B40::V11, B40::V12, B40::V13, B40::V14, B40::V15, B40::V16, B40::V17, B40::V18, B40::V19, B40::V20, B40::V21, B40::V22, B40::V23, B40::V24, B40::V25, B40::V26, B40::V27, B40::V28, B40::V29, B40::V30, B40::V31, B40::V32, B40::V33, B40::V34, B40::V35, B40::V36, B40::V37, B40::V38, B40::V39];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B40::V0 => 0,
            B40::V1 => 1,
            B40::V2 => 2,
            B40::V3 => 3,
            B40::V4 => 4,
            B40::V5 => 5,
            B40::V6 => 6,
            B40::V7 => 7,
            B40::V8 => 8,
            B40::V9 => 9,
            B40::V10 => 10,
            B40::V11 => 11,
            B40::V12 => 12,
            B40::V13 => 13,
            B40::V14 => 14,
            B40::V15 => 15,
            B40::V16 => 16,
            B40::V17 => 17,
            B40::V18 => 18,
            B40::V19 => 19,
            B40::V20 => 20,
            B40::V21 => 21,
            B40::V22 => 22,
            B40::V23 => 23,
            B40::V24 => 24,
            B40::V25 => 25,
            B40::V26 => 26,
            B40::V27 => 27,
            B40::V28 => 28,
            B40::V29 => 29,
            B40::V30 => 30,
            B40::V31 => 31,
            B40::V32 => 32,
            B40::V33 => 33,
            B40::V34 => 34,
            B40::V35 => 35,
            B40::V36 => 36,
            B40::V37 => 37,
            B40::V38 => 38,
            B40::V39 => 39,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..40 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_71 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B44 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43 }
impl Dom for B44 {
    const N: usize = 44;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B44] = &[B44::V0, B44::V1, B44::V2, B44::V3, B44::V4, B44::V5, B44::V6, B44::V7, B44::V8, B44::V9, B44::V10, B44::V11, B44::V12, B44::V13, B44::V14, B44::V15, B44::V16, B44::V17, B44::V18, B44::V19, B44::V20, B44::V21, B44::V22, B44::V23, B44::V24, B44::V25, B44::V26, B44::V27, B44::V28, B44::V29, B44::V30, B44::V31, B44::V32, B44::V33, B44::V34, B44::V35, B44::V36, B44::V37, B44::V38, B44::V39, B44::V40, B44::V41, B44::V42, B44::V43];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B44::V0 => 0,
            B44::V1 => 1,
            B44::V2 => 2,
            B44::V3 => 3,
            B44::V4 => 4,
            B44::V5 => 5,
            B44::V6 => 6,
            B44::V7 => 7,
            B44::V8 => 8,
            B44::V9 => 9,
            B44::V10 => 10,
            B44::V11 => 11,
            B44::V12 => 12,
            B44::V13 => 13,
            B44::V14 => 14,
            B44::V15 => 15,
            B44::V16 => 16,
            B44::V17 => 17,
            B44::V18 => 18,
            B44::V19 => 19,
            B44::V20 => 20,
            B44::V21 => 21,
            B44::V22 => 22,
            B44::V23 => 23,
            B44::V24 => 24,
            B44::V25 => 25,
            B44::V26 => 26,
            B44::V27 => 27,
            B44::V28 => 28,
            B44::V29 => 29,
            B44::V30 => 30,
            B44::V31 => 31,
            B44::V32 => 32,
            B44::V33 => 33,
            B44::V34 => 34,
            B44::V35 => 35,
            B44::V36 => 36,
            B44::V37 => 37,
            B44::V38 => 38,
            B44::V39 => 39,
            B44::V40 => 40,
            B44::V41 => 41,
            B44::V42 => 42,
            B44::V43 => 43,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..44 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_72 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B48 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47 }
impl Dom for B48 {
    const N: usize = 48;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B48] = &[B48::V0, B48::V1, B48::V2, B48::V3, B48::V4, B48::V5, B48::V6, B48::V7, B48::V8, B48::V9, B48::V10, B48::V11, B48::V12, B48::V13, B48::V14, B48::V15, B48::V16, B48::V17, B48::V18, B48::V19, B48::V20, B48::V21, B48::V22, B48::V23, B48::V24, B48::V25, B48::V26, B48::V27, B48::V28, B48::V29, B48::V30, B48::V31, B48::V32, B48::V33, B48::V34, B48::V35, B48::V36, B48::V37, B48::V38, B48::V39, B48::V40, B48::V41, B48::V42, B48::V43, B48::V44, B48::V45, B48::V46, B48::V47];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B48::V0 => 0,
            B48::V1 => 1,
            B48::V2 => 2,
            B48::V3 => 3,
            B48::V4 => 4,
            B48::V5 => 5,
            B48::V6 => 6,
            B48::V7 => 7,
            B48::V8 => 8,
            B48::V9 => 9,
            B48::V10 => 10,
            B48::V11 => 11,
            B48::V12 => 12,
            B48::V13 => 13,
            B48::V14 => 14,
            B48::V15 => 15,
            B48::V16 => 16,
            B48::V17 => 17,
            B48::V18 => 18,
            B48::V19 => 19,
            B48::V20 => 20,
            B48::V21 => 21,
            B48::V22 => 22,
            B48::V23 => 23,
            B48::V24 => 24,
            B48::V25 => 25,
            B48::V26 => 26,
            B48::V27 => 27,
            B48::V28 => 28,
            B48::V29 => 29,
            B48::V30 => 30,
            B48::V31 => 31,
            B48::V32 => 32,
            B48::V33 => 33,
            B48::V34 => 34,
            B48::V35 => 35,
            B48::V36 => 36,
            B48::V37 => 37,
            B48::V38 => 38,
            B48::V39 => 39,
            B48::V40 => 40,
            B48::V41 => 41,
            B48::V42 => 42,
            B48::V43 => 43,
            B48::V44 => 44,
            B48::V45 => 45,
            B48::V46 => 46,
            B48::V47 => 47,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..48 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_73 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B52 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51 }
impl Dom for B52 {
    const N: usize = 52;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B52] = &[B52::V0, B52::V1, B52::V2, B52::V3, B52::V4, B52::V5, B52::V6, B52::V7, B52::V8, B52::V9, B52::V10, B52::V11, B52::V12, B52::V13, B52::V14, B52::V15, B52::V16, B52::V17, B52::V18, B52::V19, B52::V20, B52::V21, B52::V22, B52::V23, B52::V24, B52::V25, B52::V26, B52::V27, B52::V28, B52::V29, B52::V30, B52::V31, B52::V32, B52::V33, B52::V34, B52::V35, B52::V36, B52::V37, B52::V38, B52::V39, B52::V40, B52::V41, B52::V42, B52::V43, B52::V44, B52::V45, B52::V46, B52::V47, B52::V48, B52::V49, B52::V50, B52::V51];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B52::V0 => 0,
            B52::V1 => 1,
            B52::V2 => 2,
            B52::V3 => 3,
            B52::V4 => 4,
            B52::V5 => 5,
            B52::V6 => 6,
            B52::V7 => 7,
            B52::V8 => 8,
            B52::V9 => 9,
            B52::V10 => 10,
            B52::V11 => 11,
            B52::V12 => 12,
            B52::V13 => 13,
            B52::V14 => 14,
            B52::V15 => 15,
            B52::V16 => 16,
            B52::V17 => 17,
            B52::V18 => 18,
            B52::V19 => 19,
            B52::V20 => 20,
            B52::V21 => 21,
            B52::V22 => 22,
            B52::V23 => 23,
            B52::V24 => 24,
            B52::V25 => 25,
            B52::V26 => 26,
            B52::V27 => 27,
            B52::V28 => 28,
            B52::V29 => 29,
            B52::V30 => 30,
            B52::V31 => 31,
            B52::V32 => 32,
            B52::V33 => 33,
            B52::V34 => 34,
            B52::V35 => 35,
            B52::V36 => 36,
            B52::V37 => 37,
            B52::V38 => 38,
            B52::V39 => 39,
            B52::V40 => 40,
            B52::V41 => 41,
            B52::V42 => 42,
            B52::V43 => 43,
            B52::V44 => 44,
            B52::V45 => 45,
            B52::V46 => 46,
            B52::V47 => 47,
            B52::V48 => 48,
            B52::V49 => 49,
            B52::V50 => 50,
            B52::V51 => 51,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..52 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_74 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B56 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55 }
impl Dom for B56 {
    const N: usize = 56;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B56] = &[B56::V0, B56::V1, B56::V2, B56::V3, B56::V4, B56::V5, B56::V6, B56::V7, B56::V8, B56::V9, B56::V10, B56::V11, B56::V12, B56::V13, B56::V14, B56::V15, B56::V16, B56::V17, B56::V18, B56::V19, B56::V20, B56::V21, B56::V22, B56::V23, B56::V24, B56::V25, B56::V26, B56::V27, B56::V28, B56::V29, B56::V30, B56::V31, B56::V32, B56::V33, B56::V34, B56::V35, B56::V36, B56::V37, B56::V38, B56::V39, B56::V40, B56::V41, B56::V42, B56::V43, B56::V44, B56::V45, B56::V46, B56::V47, B56::V48, B56::V49, B56::V50, B56::V51, B56::V52, B56::V53, B56::V54, B56::V55];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B56::V0 => 0,
            B56::V1 => 1,
            B56::V2 => 2,
            B56::V3 => 3,
            B56::V4 => 4,
            B56::V5 => 5,
            B56::V6 => 6,
            B56::V7 => 7,
            B56::V8 => 8,
            B56::V9 => 9,
            B56::V10 => 10,
            B56::V11 => 11,
            B56::V12 => 12,
            B56::V13 => 13,
            B56::V14 => 14,
            B56::V15 => 15,
            B56::V16 => 16,
            B56::V17 => 17,
            B56::V18 => 18,
            B56::V19 => 19,
            B56::V20 => 20,
            B56::V21 => 21,
            B56::V22 => 22,
            B56::V23 => 23,
            B56::V24 => 24,
            B56::V25 => 25,
            B56::V26 => 26,
            B56::V27 => 27,
            B56::V28 => 28,
            B56::V29 => 29,
            B56::V30 => 30,
            B56::V31 => 31,
            B56::V32 => 32,
            B56::V33 => 33,
            B56::V34 => 34,
            B56::V35 => 35,
            B56::V36 => 36,
            B56::V37 => 37,
            B56::V38 => 38,
            B56::V39 => 39,
            B56::V40 => 40,
            B56::V41 => 41,
            B56::V42 => 42,
            B56::V43 => 43,
            B56::V44 => 44,
            B56::V45 => 45,
            B56::V46 => 46,
            B56::V47 => 47,
            B56::V48 => 48,
            B56::V49 => 49,
            B56::V50 => 50,
            B56::V51 => 51,
            B56::V52 => 52,
            B56::V53 => 53,
            B56::V54 => 54,
            B56::V55 => 55,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..56 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_75 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B60 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59 }
impl Dom for B60 {
    const N: usize = 60;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B60] = &[B60::V0, B60::V1, B60::V2, B60::V3, B60::V4, B60::V5, B60::V6, B60::V7, B60::V8, B60::V9, B60::V10, B60::V11, B60::V12, B60::V13, B60::V14, B60::V15, B60::V16, B60::V17, B60::V18, B60::V19, B60::V20, B60::V21, B60::V22, B60::V23, B60::V24, B60::V25, B60::V26, B60::V27, B60::V28, B60::V29, B60::V30, B60::V31, B60::V32, B60::V33, B60::V34, B60::V35, B60::V36, B60::V37, B60::V38, B60::V39, B60::V40, B60::V41, B60::V42, B60::V43, B60::V44, B60::V45, B60::V46, B60::V47, B60::V48, B60::V49, B60::V50, B60::V51, B60::V52, B60::V53, B60::V54, B60::V55, B60::V56, B60::V57, B60::V58, B60::V59];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B60::V0 => 0,
            B60::V1 => 1,
            B60::V2 => 2,
            B60::V3 => 3,
            B60::V4 => 4,
            B60::V5 => 5,
            B60::V6 => 6,
            B60::V7 => 7,
            B60::V8 => 8,
            B60::V9 => 9,
            B60::V10 => 10,
            B60::V11 => 11,
            B60::V12 => 12,
            B60::V13 => 13,
            B60::V14 => 14,
            B60::V15 => 15,
            B60::V16 => 16,
            B60::V17 => 17,
            B60::V18 => 18,
            B60::V19 => 19,
            B60::V20 => 20,
            B60::V21 => 21,
            B60::V22 => 22,
            B60::V23 => 23,
            B60::V24 => 24,
            B60::V25 => 25,
            B60::V26 => 26,
            B60::V27 => 27,
            B60::V28 => 28,
            B60::V29 => 29,
            B60::V30 => 30,
            B60::V31 => 31,
            B60::V32 => 32,
            B60::V33 => 33,
            B60::V34 => 34,
            B60::V35 => 35,
            B60::V36 => 36,
            B60::V37 => 37,
            B60::V38 => 38,
            B60::V39 => 39,
            B60::V40 => 40,
            B60::V41 => 41,
            B60::V42 => 42,
            B60::V43 => 43,
            B60::V44 => 44,
            B60::V45 => 45,
            B60::V46 => 46,
            B60::V47 => 47,
            B60::V48 => 48,
            B60::V49 => 49,
            B60::V50 => 50,
            B60::V51 => 51,
            B60::V52 => 52,
            B60::V53 => 53,
            B60::V54 => 54,
            B60::V55 => 55,
            B60::V56 => 56,
            B60::V57 => 57,
            B60::V58 => 58,
            B60::V59 => 59,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..60 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_76 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B64 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }
impl Dom for B64 {
    const N: usize = 64;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B64] = &[B64::V0, B64::V1, B64::V2, B64::V3, B64::V4, B64::V5, B64::V6, B64::V7, B64::V8, B64::V9, B64::V10, B64::V11, B64::V12, B64::V13, B64::V14, B64::V15, B64::V16, B64::V17, B64::V18, B64::V19, B64::V20, B64::V21, B64::V22, B64::V23, B64::V24, B64::V25, B64::V26, B64::V27, B64::V28, B64::V29, B64::V30, B64::V31, B64::V32, B64::V33, B64::V34, B64::V35, B64::V36, B64::V37, B64::V38, B64::V39, B64::V40, B64::V41, B64::V42, B64::V43, B64::V44, B64::V45, B64::V46, B64::V47, B64::V48, B64::V49, B64::V50, B64::V51, B64::V52, B64::V53, B64::V54, B64::V55, B64::V56, B64::V57, B64::V58, B64::V59, B64::V60, B64::V61, B64::V62, B64::V63];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B64::V0 => 0,
            B64::V1 => 1,
            B64::V2 => 2,
            B64::V3 => 3,
            B64::V4 => 4,
            B64::V5 => 5,
            B64::V6 => 6,
            B64::V7 => 7,
            B64::V8 => 8,
            B64::V9 => 9,
            B64::V10 => 10,
            B64::V11 => 11,
            B64::V12 => 12,
            B64::V13 => 13,
            B64::V14 => 14,
            B64::V15 => 15,
            B64::V16 => 16,
            B64::V17 => 17,
            B64::V18 => 18,
            B64::V19 => 19,
            B64::V20 => 20,
            B64::V21 => 21,
            B64::V22 => 22,
            B64::V23 => 23,
            B64::V24 => 24,
            B64::V25 => 25,
            B64::V26 => 26,
            B64::V27 => 27,
            B64::V28 => 28,
            B64::V29 => 29,
            B64::V30 => 30,
            B64::V31 => 31,
            B64::V32 => 32,
            B64::V33 => 33,
            B64::V34 => 34,
            B64::V35 => 35,
            B64::V36 => 36,
            B64::V37 => 37,
            B64::V38 => 38,
            B64::V39 => 39,
            B64::V40 => 40,
            B64::V41 => 41,
            B64::V42 => 42,
            B64::V43 => 43,
            B64::V44 => 44,
            B64::V45 => 45,
            B64::V46 => 46,
            B64::V47 => 47,
            B64::V48 => 48,
            B64::V49 => 49,
            B64::V50 => 50,
            B64::V51 => 51,
            B64::V52 => 52,
            B64::V53 => 53,
            B64::V54 => 54,
            B64::V55 => 55,
            B64::V56 => 56,
            B64::V57 => 57,
            B64::V58 => 58,
            B64::V59 => 59,
            B64::V60 => 60,
            B64::V61 => 61,
            B64::V62 => 62,
            B64::V63 => 63,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..64 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_77 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B95 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94 }
impl Dom for B95 {
    const N: usize = 95;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B95] = &[B95::V0, B95::V1, B95::V2, B95::V3, B95::V4, B95::V5, B95::V6, B95::V7, B95::V8, B95::V9, B95::V10, B95::V11, B95::V12, B95::V13, B95::V14, B95::V15, B95::V16, B95::V17, B95::V18, B95::V19, B95::V20, B95::V21, B95::V22, B95::V23, B95::V24, B95::V25, B95::V26, B95::V27, B95::V28, B95::V29, B95::V30, B95::V31, B95::V32, B95::V33, B95::V34, B95::V35, B95::V36, B95::V37, B95::V38, B95::V39, B95::V40, B95::V41, B95::V42, B95::V43, B95::V44, B95::V45, B95::V46, B95::V47, B95::V48, B95::V49, B95::V50, B95::V51, B95::V52, B95::V53, B95::V54, B95::V55, B95::V56, B95::V57, B95::V58, B95::V59, B95::V60, B95::V61, B95::V62, B95::V63, B95::V64, B95::V65, B95::V66, B95::V67, B95::V68, B95::V69, B95::V70, B95::V71, B95::V72, B95::V73, B95::V74, B95::V75, B95::V76, B95::V77, B95::V78, B95::V79, B95::V80, B95::V81, B95::V82, B95::V83, B95::V84, B95::V85, B95::V86, B95::V87, B95::V88, B95::V89, B95::V90, B95::V91, B95::V92, B95::V93, B95::V94];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B95::V0 => 0,
            B95::V1 => 1,
            B95::V2 => 2,
            B95::V3 => 3,
            B95::V4 => 4,
            B95::V5 => 5,
            B95::V6 => 6,
            B95::V7 => 7,
            B95::V8 => 8,
            B95::V9 => 9,
            B95::V10 => 10,
            B95::V11 => 11,
            B95::V12 => 12,
            B95::V13 => 13,
            B95::V14 => 14,
            B95::V15 => 15,
            B95::V16 => 16,
            B95::V17 => 17,
            B95::V18 => 18,
            B95::V19 => 19,
            B95::V20 => 20,
            B95::V21 => 21,
            B95::V22 => 22,
            B95::V23 => 23,
            B95::V24 => 24,
            B95::V25 => 25,
            B95::V26 => 26,
            B95::V27 => 27,
            B95::V28 => 28,
            B95::V29 => 29,
            B95::V30 => 30,
            B95::V31 => 31,
            B95::V32 => 32,
            B95::V33 => 33,
            B95::V34 => 34,
            B95::V35 => 35,
            B95::V36 => 36,
            B95::V37 => 37,
            B95::V38 => 38,
            B95::V39 => 39,
            B95::V40 => 40,
            B95::V41 => 41,
            B95::V42 => 42,
            B95::V43 => 43,
            B95::V44 => 44,
            B95::V45 => 45,
            B95::V46 => 46,
            B95::V47 => 47,
            B95::V48 => 48,
            B95::V49 => 49,
            B95::V50 => 50,
            B95::V51 => 51,
            B95::V52 => 52,
            B95::V53 => 53,
            B95::V54 => 54,
            B95::V55 => 55,
            B95::V56 => 56,
            B95::V57 => 57,
            B95::V58 => 58,
            B95::V59 => 59,
            B95::V60 => 60,
            B95::V61 => 61,
            B95::V62 => 62,
            B95::V63 => 63,
            B95::V64 => 64,
            B95::V65 => 65,
            B95::V66 => 66,
            B95::V67 => 67,
            B95::V68 => 68,
            B95::V69 => 69,
            B95::V70 => 70,
            B95::V71 => 71,
            B95::V72 => 72,
            B95::V73 => 73,
            B95::V74 => 74,
            B95::V75 => 75,
            B95::V76 => 76,
            B95::V77 => 77,
            B95::V78 => 78,
            B95::V79 => 79,
            B95::V80 => 80,
            B95::V81 => 81,
            B95::V82 => 82,
            B95::V83 => 83,
            B95::V84 => 84,
            B95::V85 => 85,
            B95::V86 => 86,
            B95::V87 => 87,
            B95::V88 => 88,
            B95::V89 => 89,
            B95::V90 => 90,
            B95::V91 => 91,
            B95::V92 => 92,
            B95::V93 => 93,
            B95::V94 => 94,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..95 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_78 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B127 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126 }
impl Dom for B127 {
    const N: usize = 127;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B127] = &[B127::V0, B127::V1, B127::V2, B127::V3, B127::V4, B127::V5, B127::V6, B127::V7, B127::V8, B127::V9, B127::V10, B127::V11, B127::V12, B127::V13, B127::V14, B127::V15, B127::V16, B127::V17, B127::V18, B127::V19, B127::V20, B127::V21, B127::V22, B127::V23, B127::V24, B127::V25, B127::V26, B127::V27, B127::V28, B127::V29, B127::V30, B127::V31, B127::V32, B127::V33, B127::V34, B127::V35, B127::V36, B127::V37, B127::V38, B127::V39, B127::V40, B127::V41, B127::V42, B127::V43, B127::V44, B127::V45, B127::V46, B127::V47, B127::V48, B127::V49, B127::V50, B127::V51, B127::V52, B127::V53, B127::V54, B127::V55, B127::V56, B127::V57, B127::V58, B127::V59, B127::V60, B127::V61, B127::V62, B127::V63, B127::V64, B127::V65, B127::V66, B127::V67, B127::V68, B127::V69, B127::V70, B127::V71, B127::V72, B127::V73, B127::V74, B127::V75, B127::V76, B127::V77, B127::V78, B127::V79, B127::V80, B127::V81, B127::V82, B127::V83, B127::V84, B127::V85, B127::V86, B127::V87, B127::V88, B127::V89, B127::V90, B127::V91, B127::V92, B127::V93, B127::V94, B127::V95, B127::V96, B127::V97, B127::V98, B127::V99, B127::V100, B127::V101, B127::V102, B127::V103, B127::V104, B127::V105, B127::V106, B127::V107, B127::V108, B127::V109, B127::V110, B127::V111, B127::V112, B127::V113, B127::V114, B127::V115, B127::V116, B127::V117, B127::V118, B127::V119, B127::V120, B127::V121, B127::V122, B127::V123, B127::V124, B127::V125, B127::V126];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B127::V0 => 0,
            B127::V1 => 1,
            B127::V2 => 2,
            B127::V3 => 3,
            B127::V4 => 4,
            B127::V5 => 5,
            B127::V6 => 6,
            B127::V7 => 7,
            B127::V8 => 8,
            B127::V9 => 9,
            B127::V10 => 10,
            B127::V11 => 11,
            B127::V12 => 12,
            B127::V13 => 13,
            B127::V14 => 14,
            B127::V15 => 15,
            B127::V16 => 16,
            B127::V17 => 17,
            B127::V18 => 18,
            B127::V19 => 19,
            B127::V20 => 20,
            B127::V21 => 21,
            B127::V22 => 22,
            B127::V23 => 23,
            B127::V24 => 24,
            B127::V25 => 25,
            B127::V26 => 26,
            B127::V27 => 27,
            B127::V28 => 28,
            B127::V29 => 29,
            B127::V30 => 30,
            B127::V31 => 31,
            B127::V32 => 32,
            B127::V33 => 33,
            B127::V34 => 34,
            B127::V35 => 35,
            B127::V36 => 36,
            B127::V37 => 37,
            B127::V38 => 38,
            B127::V39 => 39,
            B127::V40 => 40,
            B127::V41 => 41,
            B127::V42 => 42,
            B127::V43 => 43,
            B127::V44 => 44,
            B127::V45 => 45,
            B127::V46 => 46,
            B127::V47 => 47,
            B127::V48 => 48,
            B127::V49 => 49,
            B127::V50 => 50,
            B127::V51 => 51,
            B127::V52 => 52,
            B127::V53 => 53,
            B127::V54 => 54,
            B127::V55 => 55,
            B127::V56 => 56,
            B127::V57 => 57,
            B127::V58 => 58,
            B127::V59 => 59,
            B127::V60 => 60,
            B127::V61 => 61,
            B127::V62 => 62,
            B127::V63 => 63,
            B127::V64 => 64,
            B127::V65 => 65,
            B127::V66 => 66,
            B127::V67 => 67,
            B127::V68 => 68,
            B127::V69 => 69,
            B127::V70 => 70,
            B127::V71 => 71,
            B127::V72 => 72,
            B127::V73 => 73,
            B127::V74 => 74,
            B127::V75 => 75,
            B127::V76 => 76,
            B127::V77 => 77,
            B127::V78 => 78,
            B127::V79 => 79,
            B127::V80 => 80,
            B127::V81 => 81,
            B127::V82 => 82,
            B127::V83 => 83,
            B127::V84 => 84,
            B127::V85 => 85,
            B127::V86 => 86,
            B127::V87 => 87,
            B127::V88 => 88,
            B127::V89 => 89,
            B127::V90 => 90,
            B127::V91 => 91,
            B127::V92 => 92,
            B127::V93 => 93,
            B127::V94 => 94,
            B127::V95 => 95,
            B127::V96 => 96,
            B127::V97 => 97,
            B127::V98 => 98,
            B127::V99 => 99,
            B127::V100 => 100,
            B127::V101 => 101,
            B127::V102 => 102,
            B127::V103 => 103,
            B127::V104 => 104,
            B127::V105 => 105,
            B127::V106 => 106,
            B127::V107 => 107,
            B127::V108 => 108,
            B127::V109 => 109,
            B127::V110 => 110,
            B127::V111 => 111,
            B127::V112 => 112,
            B127::V113 => 113,
            B127::V114 => 114,
            B127::V115 => 115,
            B127::V116 => 116,
            B127::V117 => 117,
            B127::V118 => 118,
            B127::V119 => 119,
            B127::V120 => 120,
            B127::V121 => 121,
            B127::V122 => 122,
            B127::V123 => 123,
            B127::V124 => 124,
            B127::V125 => 125,
            B127::V126 => 126,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..127 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_79 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N255 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254 }
impl Dom for N255 {
    const N: usize = 255;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N255] = &[N255::V0, N255::V1, N255::V2, N255::V3, N255::V4, N255::V5, N255::V6, N255::V7, N255::V8, N255::V9, N255::V10, N255::V11, N255::V12, N255::V13, N255::V14, N255::V15, N255::V16, N255::V17, N255::V18, N255::V19, N255::V20, N255::V21, N255::V22, N255::V23, N255::V24, N255::V25, N255::V26, N255::V27, N255::V28, N255::V29, N255::V30, N255::V31, N255::V32, N255::V33, N255::V34, N255::V35, N255::V36, N255::V37, N255::V38, N255::V39, N255::V40, N255::V41, N255::V42, N255::V43, N255::V44, N255::V45, N255::V46, N255::V47, N255::V48, N255::V49, N255::V50, N255::V51, N255::V52, N255::V53, N255::V54, N255::V55, N255::V56, N255::V57, N255::V58, N255::V59, N255::V60, N255::V61, N255::V62, N255::V63, N255::V64, N255::V65, N255::V66, N255::V67, N255::V68, N255::V69, N255::V70, N255::V71, N255::V72, N255::V73, N255::V74, N255::V75, N255::V76, N255::V77, N255::V78, N255::V79, N255::V80, N255::V81, N255::V82, N255::V83, N255::V84, N255::V85, N255::V86, N255::V87, N255::V88, N255::V89, N255::V90, N255::V91, N255::V92, N255::V93, N255::V94, N255::V95, N255::V96, N255::V97, N255::V98, N255::V99, N255::V100, N255::V101, N255::V102, N255::V103, N255::V104, N255::V105, N255::V106, N255::V107, N255::V108, N255::V109, N255::V110, N255::V111, N255::V112, N255::V113, N255::V114, N255::V115, N255::V116, N255::V117, N255::V118, N255::V119, N255::V120, N255::V121, N255::V122, N255::V123, N255::V124, N255::V125, N255::V126, N255::V127, N255::V128, N255::V129, N255::V130, N255::V131, N255::V132, N255::V133, N255::V134, N255::V135, N255::V136, N255::V137, N255::V138, N255::V139, N255::V140, N255::V141, N255::V142, N255::V143, N255::V144, N255::V145, N255::V146, N255::V147, N255::V148, N255::V149, N255::V150, N255::V151, N255::V152, N255::V153, N255::V154, N255::V155, N255::V156, N255::V157, N255::V158, N255::V159, N255::V160, N255::V161, N255::V162, N255::V163, N255::V164, N255::V165, N255::V166, N255::V167, N255::V168, N255::V169, N255::V170, N255::V171, N255::V172, N255::V173, N255::V174, N255::V175, N255::V176, N255::V177, N255::V178, N255::V179, N255::V180, N255::V181, N255::V182, N255::V183, N255::V184, N255::V185, N255::V186, N255::V187, N255::V188, N255::V189, N255::V190, N255::V191, N255::V192, N255::V193, N255::V194, N255::V195, N255::V196, N255::V197, N255::V198, N255::V199, N255::V200, N255::V201, N255::V202, N255::V203, N255::V204, N255::V205, N255::V206, N255::V207, N255::V208, N255::V209, N255::V210, N255::V211, N255::V212, N255::V213, N255::V214, N255::V215, N255::V216, N255::V217, N255::V218, N255::V219, N255::V220, N255::V221, N255::V222, N255::V223, N255::V224, N255::V225, N255::V226, N255::V227, N255::V228, N255::V229, N255::V230, N255::V231, N255::V232, N255::V233, N255::V234, N255::V235, N255::V236, N255::V237, N255::V238, N255::V239, N255::V240, N255::V241, N255::V242, N255::V243, N255::V244, N255::V245, N255::V246, N255::V247, N255::V248, N255::V249, N255::V250, N255::V251, N255::V252, N255::V253, N255::V254];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N255::V0 => 0,
            N255::V1 => 1,
            N255::V2 => 2,
            N255::V3 => 3,
            N255::V4 => 4,
            N255::V5 => 5,
            N255::V6 => 6,
            N255::V7 => 7,
            N255::V8 => 8,
            N255::V9 => 9,
            N255::V10 => 10,
            N255::V11 => 11,
            N255::V12 => 12,
            N255::V13 => 13,
            N255::V14 => 14,
            N255::V15 => 15,
            N255::V16 => 16,
            N255::V17 => 17,
            N255::V18 => 18,
            N255::V19 => 19,
            N255::V20 => 20,
            N255::V21 => 21,
            N255::V22 => 22,
            N255::V23 => 23,
            N255::V24 => 24,
            N255::V25 => 25,
            N255::V26 => 26,
            N255::V27 => 27,
            N255::V28 => 28,
            N255::V29 => 29,
            N255::V30 => 30,
            N255::V31 => 31,
            N255::V32 => 32,
            N255::V33 => 33,
            N255::V34 => 34,
            N255::V35 => 35,
            N255::V36 => 36,
            N255::V37 => 37,
            N255::V38 => 38,
            N255::V39 => 39,
            N255::V40 => 40,
            N255::V41 => 41,
            N255::V42 => 42,
            N255::V43 => 43,
            N255::V44 => 44,
            N255::V45 => 45,
            N255::V46 => 46,
            N255::V47 => 47,
            N255::V48 => 48,
            N255::V49 => 49,
            N255::V50 => 50,
            N255::V51 => 51,
            N255::V52 => 52,
            N255::V53 => 53,
            N255::V54 => 54,
            N255::V55 => 55,
            N255::V56 => 56,
            N255::V57 => 57,
            N255::V58 => 58,
            N255::V59 => 59,
            N255::V60 => 60,
            N255::V61 => 61,
            N255::V62 => 62,
            N255::V63 => 63,
            N255::V64 => 64,
            N255::V65 => 65,
            N255::V66 => 66,
            N255::V67 => 67,
            N255::V68 => 68,
            N255::V69 => 69,
            N255::V70 => 70,
            N255::V71 => 71,
            N255::V72 => 72,
            N255::V73 => 73,
            N255::V74 => 74,
            N255::V75 => 75,
            N255::V76 => 76,
            N255::V77 => 77,
            N255::V78 => 78,
            N255::V79 => 79,
            N255::V80 => 80,
            N255::V81 => 81,
            N255::V82 => 82,
            N255::V83 => 83,
            N255::V84 => 84,
            N255::V85 => 85,
            N255::V86 => 86,
            N255::V87 => 87,
            N255::V88 => 88,
            N255::V89 => 89,
            N255::V90 => 90,
            N255::V91 => 91,
            N255::V92 => 92,
            N255::V93 => 93,
            N255::V94 => 94,
            N255::V95 => 95,
            N255::V96 => 96,
            N255::V97 => 97,
            N255::V98 => 98,
            N255::V99 => 99,
            N255::V100 => 100,
            N255::V101 => 101,
            N255::V102 => 102,
            N255::V103 => 103,
            N255::V104 => 104,
            N255::V105 => 105,
            N255::V106 => 106,
            N255::V107 => 107,
            N255::V108 => 108,
            N255::V109 => 109,
            N255::V110 => 110,
            N255::V111 => 111,
            N255::V112 => 112,
            N255::V113 => 113,
            N255::V114 => 114,
            N255::V115 => 115,
            N255::V116 => 116,
            N255::V117 => 117,
            N255::V118 => 118,
            N255::V119 => 119,
            N255::V120 => 120,
            N255::V121 => 121,
            N255::V122 => 122,
            N255::V123 => 123,
            N255::V124 => 124,
            N255::V125 => 125,
            N255::V126 => 126,
            N255::V127 => 127,
            N255::V128 => 128,
            N255::V129 => 129,
            N255::V130 => 130,
            N255::V131 => 131,
            N255::V132 => 132,
            N255::V133 => 133,
            N255::V134 => 134,
            N255::V135 => 135,
            N255::V136 => 136,
            N255::V137 => 137,
            N255::V138 => 138,
            N255::V139 => 139,
            N255::V140 => 140,
            N255::V141 => 141,
            N255::V142 => 142,
            N255::V143 => 143,
            N255::V144 => 144,
            N255::V145 => 145,
            N255::V146 => 146,
            N255::V147 => 147,
            N255::V148 => 148,
            N255::V149 => 149,
            N255::V150 => 150,
            N255::V151 => 151,
            N255::V152 => 152,
            N255::V153 => 153,
            N255::V154 => 154,
            N255::V155 => 155,
            N255::V156 => 156,
            N255::V157 => 157,
            N255::V158 => 158,
            N255::V159 => 159,
            N255::V160 => 160,
            N255::V161 => 161,
            N255::V162 => 162,
            N255::V163 => 163,
            N255::V164 => 164,
            N255::V165 => 165,
            N255::V166 => 166,
            N255::V167 => 167,
            N255::V168 => 168,
            N255::V169 => 169,
            N255::V170 => 170,
            N255::V171 => 171,
            N255::V172 => 172,
            N255::V173 => 173,
            N255::V174 => 174,
            N255::V175 => 175,
            N255::V176 => 176,
            N255::V177 => 177,
            N255::V178 => 178,
            N255::V179 => 179,
            N255::V180 => 180,
            N255::V181 => 181,
            N255::V182 => 182,
            N255::V183 => 183,
            N255::V184 => 184,
            N255::V185 => 185,
            N255::V186 => 186,
            N255::V187 => 187,
            N255::V188 => 188,
            N255::V189 => 189,
            N255::V190 => 190,
            N255::V191 => 191,
            N255::V192 => 192,
            N255::V193 => 193,
            N255::V194 => 194,
            N255::V195 => 195,
            N255::V196 => 196,
            N255::V197 => 197,
            N255::V198 => 198,
            N255::V199 => 199,
            N255::V200 => 200,
            N255::V201 => 201,
            N255::V202 => 202,
            N255::V203 => 203,
            N255::V204 => 204,
            N255::V205 => 205,
            N255::V206 => 206,
            N255::V207 => 207,
            N255::V208 => 208,
            N255::V209 => 209,
            N255::V210 => 210,
            N255::V211 => 211,
            N255::V212 => 212,
            N255::V213 => 213,
            N255::V214 => 214,
            N255::V215 => 215,
            N255::V216 => 216,
            N255::V217 => 217,
            N255::V218 => 218,
            N255::V219 => 219,
            N255::V220 => 220,
            N255::V221 => 221,
            N255::V222 => 222,
            N255::V223 => 223,
            N255::V224 => 224,
            N255::V225 => 225,
            N255::V226 => 226,
            N255::V227 => 227,
            N255::V228 => 228,
            N255::V229 => 229,
            N255::V230 => 230,
            N255::V231 => 231,
            N255::V232 => 232,
            N255::V233 => 233,
            N255::V234 => 234,
            N255::V235 => 235,
            N255::V236 => 236,
            N255::V237 => 237,
            N255::V238 => 238,
            N255::V239 => 239,
            N255::V240 => 240,
            N255::V241 => 241,
            N255::V242 => 242,
            N255::V243 => 243,
            N255::V244 => 244,
            N255::V245 => 245,
            N255::V246 => 246,
            N255::V247 => 247,
            N255::V248 => 248,
            N255::V249 => 249,
            N255::V250 => 250,
            N255::V251 => 251,
            N255::V252 => 252,
            N255::V253 => 253,
            N255::V254 => 254,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..255 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_80 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum M129 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128(bool) }
impl Dom for M129 {
    const N: usize = 127 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return M129::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return M129::V1; } i -= 1;
        if i == 0 { return M129::V2; } i -= 1;
        if i == 0 { return M129::V3; } i -= 1;
        if i == 0 { return M129::V4; } i -= 1;
        if i == 0 { return M129::V5; } i -= 1;
        if i == 0 { return M129::V6; } i -= 1;
        if i == 0 { return M129::V7; } i -= 1;
        if i == 0 { return M129::V8; } i -= 1;
        if i == 0 { return M129::V9; } i -= 1;
        if i == 0 { return M129::V10; } i -= 1;
        if i == 0 { return M129::V11; } i -= 1;
        if i == 0 { return M129::V12; } i -= 1;
        if i == 0 { return M129::V13; } i -= 1;
        if i == 0 { return M129::V14; } i -= 1;
        if i == 0 { return M129::V15; } i -= 1;
        if i == 0 { return M129::V16; } i -= 1;
        if i == 0 { return M129::V17; } i -= 1;
        if i == 0 { return M129::V18; } i -= 1;
        if i == 0 { return M129::V19; } i -= 1;
        if i == 0 { return M129::V20; } i -= 1;
        if i == 0 { return M129::V21; } i -= 1;
        if i == 0 { return M129::V22; } i -= 1;
        if i == 0 { return M129::V23; } i -= 1;
        if i == 0 { return M129::V24; } i -= 1;
        if i == 0 { return M129::V25; } i -= 1;
        if i == 0 { return M129::V26; } i -= 1;
        if i == 0 { return M129::V27; } i -= 1;
        if i == 0 { return M129::V28; } i -= 1;
        if i == 0 { return M129::V29; } i -= 1;
        if i == 0 { return M129::V30; } i -= 1;
        if i == 0 { return M129::V31; } i -= 1;
        if i == 0 { return M129::V32; } i -= 1;
        if i == 0 { return M129::V33; } i -= 1;
        if i == 0 { return M129::V34; } i -= 1;
        if i == 0 { return M129::V35; } i -= 1;
        if i == 0 { return M129::V36; } i -= 1;
        if i == 0 { return M129::V37; } i -= 1;
        if i == 0 { return M129::V38; } i -= 1;
        if i == 0 { return M129::V39; } i -= 1;
        if i == 0 { return M129::V40; } i -= 1;
        if i == 0 { return M129::V41; } i -= 1;
        if i == 0 { return M129::V42; } i -= 1;
        if i == 0 { return M129::V43; } i -= 1;
        if i == 0 { return M129::V44; } i -= 1;
        if i == 0 { return M129::V45; } i -= 1;
        if i == 0 { return M129::V46; } i -= 1;
        if i == 0 { return M129::V47; } i -= 1;
        if i == 0 { return M129::V48; } i -= 1;
        if i == 0 { return M129::V49; } i -= 1;
        if i == 0 { return M129::V50; } i -= 1;
        if i == 0 { return M129::V51; } i -= 1;
        if i == 0 { return M129::V52; } i -= 1;
        if i == 0 { return M129::V53; } i -= 1;
        if i == 0 { return M129::V54; } i -= 1;
        if i == 0 { return M129::V55; } i -= 1;
        if i == 0 { return M129::V56; } i -= 1;
        if i == 0 { return M129::V57; } i -= 1;
        if i == 0 { return M129::V58; } i -= 1;
        if i == 0 { return M129::V59; } i -= 1;
        if i == 0 { return M129::V60; } i -= 1;
        if i == 0 { return M129::V61; } i -= 1;
        if i == 0 { return M129::V62; } i -= 1;
        if i == 0 { return M129::V63; } i -= 1;
        if i == 0 { return M129::V64; } i -= 1;
        if i == 0 { return M129::V65; } i -= 1;
        if i == 0 { return M129::V66; } i -= 1;
        if i == 0 { return M129::V67; } i -= 1;
        if i == 0 { return M129::V68; } i -= 1;
        if i == 0 { return M129::V69; } i -= 1;
        if i == 0 { return M129::V70; } i -= 1;
        if i == 0 { return M129::V71; } i -= 1;
        if i == 0 { return M129::V72; } i -= 1;
        if i == 0 { return M129::V73; } i -= 1;
        if i == 0 { return M129::V74; } i -= 1;
        if i == 0 { return M129::V75; } i -= 1;
        if i == 0 { return M129::V76; } i -= 1;
        if i == 0 { return M129::V77; } i -= 1;
        if i == 0 { return M129::V78; } i -= 1;
        if i == 0 { return M129::V79; } i -= 1;
        if i == 0 { return M129::V80; } i -= 1;
        if i == 0 { return M129::V81; } i -= 1;
        if i == 0 { return M129::V82; } i -= 1;
        if i == 0 { return M129::V83; } i -= 1;
        if i == 0 { return M129::V84; } i -= 1;
        if i == 0 { return M129::V85; } i -= 1;
        if i == 0 { return M129::V86; } i -= 1;
        if i == 0 { return M129::V87; } i -= 1;
        if i == 0 { return M129::V88; } i -= 1;
        if i == 0 { return M129::V89; } i -= 1;
        if i == 0 { return M129::V90; } i -= 1;
        if i == 0 { return M129::V91; } i -= 1;
        if i == 0 { return M129::V92; } i -= 1;
        if i == 0 { return M129::V93; } i -= 1;
        if i == 0 { return M129::V94; } i -= 1;
        if i == 0 { return M129::V95; } i -= 1;
        if i == 0 { return M129::V96; } i -= 1;
        if i == 0 { return M129::V97; } i -= 1;
        if i == 0 { return M129::V98; } i -= 1;
        if i == 0 { return M129::V99; } i -= 1;
        if i == 0 { return M129::V100; } i -= 1;
        if i == 0 { return M129::V101; } i -= 1;
        if i == 0 { return M129::V102; } i -= 1;
        if i == 0 { return M129::V103; } i -= 1;
        if i == 0 { return M129::V104; } i -= 1;
        if i == 0 { return M129::V105; } i -= 1;
        if i == 0 { return M129::V106; } i -= 1;
        if i == 0 { return M129::V107; } i -= 1;
        if i == 0 { return M129::V108; } i -= 1;
        if i == 0 { return M129::V109; } i -= 1;
        if i == 0 { return M129::V110; } i -= 1;
        if i == 0 { return M129::V111; } i -= 1;
        if i == 0 { return M129::V112; } i -= 1;
        if i == 0 { return M129::V113; } i -= 1;
        if i == 0 { return M129::V114; } i -= 1;
        if i == 0 { return M129::V115; } i -= 1;
        if i == 0 { return M129::V116; } i -= 1;
        if i == 0 { return M129::V117; } i -= 1;
        if i == 0 { return M129::V118; } i -= 1;
        if i == 0 { return M129::V119; } i -= 1;
        if i == 0 { return M129::V120; } i -= 1;
        if i == 0 { return M129::V121; } i -= 1;
        if i == 0 { return M129::V122; } i -= 1;
        if i == 0 { return M129::V123; } i -= 1;
        if i == 0 { return M129::V124; } i -= 1;
        if i == 0 { return M129::V125; } i -= 1;
        if i == 0 { return M129::V126; } i -= 1;
        if i == 0 { return M129::V127; } i -= 1;
        if i < <bool as Dom>::N { return M129::V128(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            M129::V0(x) => off(0, <bool as Dom>::idx(x)),
            M129::V1 => 0 + <bool as Dom>::N,
            M129::V2 => 1 + <bool as Dom>::N,
            M129::V3 => 2 + <bool as Dom>::N,
            M129::V4 => 3 + <bool as Dom>::N,
            M129::V5 => 4 + <bool as Dom>::N,
            M129::V6 => 5 + <bool as Dom>::N,
            M129::V7 => 6 + <bool as Dom>::N,
            M129::V8 => 7 + <bool as Dom>::N,
            M129::V9 => 8 + <bool as Dom>::N,
            M129::V10 => 9 + <bool as Dom>::N,
            M129::V11 => 10 + <bool as Dom>::N,
            M129::V12 => 11 + <bool as Dom>::N,
            M129::V13 => 12 + <bool as Dom>::N,
            M129::V14 => 13 + <bool as Dom>::N,
            M129::V15 => 14 + <bool as Dom>::N,
            M129::V16 => 15 + <bool as Dom>::N,
            M129::V17 => 16 + <bool as Dom>::N,
            M129::V18 => 17 + <bool as Dom>::N,
            M129::V19 => 18 + <bool as Dom>::N,
            M129::V20 => 19 + <bool as Dom>::N,
            M129::V21 => 20 + <bool as Dom>::N,
            M129::V22 => 21 + <bool as Dom>::N,
            M129::V23 => 22 + <bool as Dom>::N,
            M129::V24 => 23 + <bool as Dom>::N,
            M129::V25 => 24 + <bool as Dom>::N,
            M129::V26 => 25 + <bool as Dom>::N,
            M129::V27 => 26 + <bool as Dom>::N,
            M129::V28 => 27 + <bool as Dom>::N,
            M129::V29 => 28 + <bool as Dom>::N,
            M129::V30 => 29 + <bool as Dom>::N,
            M129::V31 => 30 + <bool as Dom>::N,
            M129::V32 => 31 + <bool as Dom>::N,
            M129::V33 => 32 + <bool as Dom>::N,
            M129::V34 => 33 + <bool as Dom>::N,
            M129::V35 => 34 + <bool as Dom>::N,
            M129::V36 => 35 + <bool as Dom>::N,
            M129::V37 => 36 + <bool as Dom>::N,
            M129::V38 => 37 + <bool as Dom>::N,
            M129::V39 => 38 + <bool as Dom>::N,
            M129::V40 => 39 + <bool as Dom>::N,
            M129::V41 => 40 + <bool as Dom>::N,
            M129::V42 => 41 + <bool as Dom>::N,
            M129::V43 => 42 + <bool as Dom>::N,
            M129::V44 => 43 + <bool as Dom>::N,
            M129::V45 => 44 + <bool as Dom>::N,
            M129::V46 => 45 + <bool as Dom>::N,
            M129::V47 => 46 + <bool as Dom>::N,
            M129::V48 => 47 + <bool as Dom>::N,
            M129::V49 => 48 + <bool as Dom>::N,
            M129::V50 => 49 + <bool as Dom>::N,
            M129::V51 => 50 + <bool as Dom>::N,
            M129::V52 => 51 + <bool as Dom>::N,
            M129::V53 => 52 + <bool as Dom>::N,
            M129::V54 => 53 + <bool as Dom>::N,
            M129::V55 => 54 + <bool as Dom>::N,
            M129::V56 => 55 + <bool as Dom>::N,
            M129::V57 => 56 + <bool as Dom>::N,
            M129::V58 => 57 + <bool as Dom>::N,
            M129::V59 => 58 + <bool as Dom>::N,
            M129::V60 => 59 + <bool as Dom>::N,
            M129::V61 => 60 + <bool as Dom>::N,
            M129::V62 => 61 + <bool as Dom>::N,
            M129::V63 => 62 + <bool as Dom>::N,
            M129::V64 => 63 + <bool as Dom>::N,
            M129::V65 => 64 + <bool as Dom>::N,
            M129::V66 => 65 + <bool as Dom>::N,
            M129::V67 => 66 + <bool as Dom>::N,
            M129::V68 => 67 + <bool as Dom>::N,
            M129::V69 => 68 + <bool as Dom>::N,
            M129::V70 => 69 + <bool as Dom>::N,
            M129::V71 => 70 + <bool as Dom>::N,
            M129::V72 => 71 + <bool as Dom>::N,
            M129::V73 => 72 + <bool as Dom>::N,
            M129::V74 => 73 + <bool as Dom>::N,
            M129::V75 => 74 + <bool as Dom>::N,
            M129::V76 => 75 + <bool as Dom>::N,
            M129::V77 => 76 + <bool as Dom>::N,
            M129::V78 => 77 + <bool as Dom>::N,
            M129::V79 => 78 + <bool as Dom>::N,
            M129::V80 => 79 + <bool as Dom>::N,
            M129::V81 => 80 + <bool as Dom>::N,
            M129::V82 => 81 + <bool as Dom>::N,
            M129::V83 => 82 + <bool as Dom>::N,
            M129::V84 => 83 + <bool as Dom>::N,
            M129::V85 => 84 + <bool as Dom>::N,
            M129::V86 => 85 + <bool as Dom>::N,
            M129::V87 => 86 + <bool as Dom>::N,
            M129::V88 => 87 + <bool as Dom>::N,
            M129::V89 => 88 + <bool as Dom>::N,
            M129::V90 => 89 + <bool as Dom>::N,
            M129::V91 => 90 + <bool as Dom>::N,
            M129::V92 => 91 + <bool as Dom>::N,
            M129::V93 => 92 + <bool as Dom>::N,
            M129::V94 => 93 + <bool as Dom>::N,
            M129::V95 => 94 + <bool as Dom>::N,
            M129::V96 => 95 + <bool as Dom>::N,
            M129::V97 => 96 + <bool as Dom>::N,
            M129::V98 => 97 + <bool as Dom>::N,
            M129::V99 => 98 + <bool as Dom>::N,
            M129::V100 => 99 + <bool as Dom>::N,
            M129::V101 => 100 + <bool as Dom>::N,
            M129::V102 => 101 + <bool as Dom>::N,
            M129::V103 => 102 + <bool as Dom>::N,
            M129::V104 => 103 + <bool as Dom>::N,
            M129::V105 => 104 + <bool as Dom>::N,
            M129::V106 => 105 + <bool as Dom>::N,
            M129::V107 => 106 + <bool as Dom>::N,
            M129::V108 => 107 + <bool as Dom>::N,
            M129::V109 => 108 + <bool as Dom>::N,
            M129::V110 => 109 + <bool as Dom>::N,
            M129::V111 => 110 + <bool as Dom>::N,
            M129::V112 => 111 + <bool as Dom>::N,
            M129::V113 => 112 + <bool as Dom>::N,
            M129::V114 => 113 + <bool as Dom>::N,
            M129::V115 => 114 + <bool as Dom>::N,
            M129::V116 => 115 + <bool as Dom>::N,
            M129::V117 => 116 + <bool as Dom>::N,
            M129::V118 => 117 + <bool as Dom>::N,
            M129::V119 => 118 + <bool as Dom>::N,
            M129::V120 => 119 + <bool as Dom>::N,
            M129::V121 => 120 + <bool as Dom>::N,
            M129::V122 => 121 + <bool as Dom>::N,
            M129::V123 => 122 + <bool as Dom>::N,
            M129::V124 => 123 + <bool as Dom>::N,
            M129::V125 => 124 + <bool as Dom>::N,
            M129::V126 => 125 + <bool as Dom>::N,
            M129::V127 => 126 + <bool as Dom>::N,
            M129::V128(x) => off(127 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub fn jobs(c: &mut fmcore::report::Ctx) {
    c.job("S1Z", |w| fmcheck_slots::unit::<m_0::S1Z>(w, "S1Z"));
    c.job("S2UE", |w| fmcheck_slots::unit::<m_1::S2UE>(w, "S2UE"));
    c.job("S2BB", |w| fmcheck_slots::unit::<m_2::S2BB>(w, "S2BB"));
    c.job("S2BT", |w| fmcheck_slots::unit::<m_3::S2BT>(w, "S2BT"));
    c.job("S2SZ", |w| fmcheck_slots::unit::<m_4::S2SZ>(w, "S2SZ"));
    c.job("S2OO", |w| fmcheck_slots::unit::<m_5::S2OO>(w, "S2OO"));
    c.job("S2EU", |w| fmcheck_slots::unit::<m_6::S2EU>(w, "S2EU"));
    c.job("S2ED", |w| fmcheck_slots::unit::<m_7::S2ED>(w, "S2ED"));
    c.job("S2KK", |w| fmcheck_slots::unit::<m_8::S2KK>(w, "S2KK"));
    c.job("S2ZS", |w| fmcheck_slots::unit::<m_9::S2ZS>(w, "S2ZS"));
    c.job("S2ZW", |w| fmcheck_slots::unit::<m_10::S2ZW>(w, "S2ZW"));
    c.job("S2CC", |w| fmcheck_slots::unit::<m_11::S2CC>(w, "S2CC"));
    c.job("S2DE", |w| fmcheck_slots::unit::<m_12::S2DE>(w, "S2DE"));
    c.job("S2TB", |w| fmcheck_slots::unit::<m_13::S2TB>(w, "S2TB"));
    c.job("S2TT", |w| fmcheck_slots::unit::<m_14::S2TT>(w, "S2TT"));
    c.job("S2WZ", |w| fmcheck_slots::unit::<m_15::S2WZ>(w, "S2WZ"));
    c.job("S3UUK", |w| fmcheck_slots::unit::<m_16::S3UUK>(w, "S3UUK"));
    c.job("S3USU", |w| fmcheck_slots::unit::<m_17::S3USU>(w, "S3USU"));
    c.job("S3UOS", |w| fmcheck_slots::unit::<m_18::S3UOS>(w, "S3UOS"));
    c.job("S3UKK", |w| fmcheck_slots::unit::<m_19::S3UKK>(w, "S3UKK"));
    c.job("S3BUU", |w| fmcheck_slots::unit::<m_20::S3BUU>(w, "S3BUU"));
    c.job("S3BBS", |w| fmcheck_slots::unit::<m_21::S3BBS>(w, "S3BBS"));
    c.job("S3BSK", |w| fmcheck_slots::unit::<m_22::S3BSK>(w, "S3BSK"));
    c.job("S3BKU", |w| fmcheck_slots::unit::<m_23::S3BKU>(w, "S3BKU"));
    c.job("S3BDS", |w| fmcheck_slots::unit::<m_24::S3BDS>(w, "S3BDS"));
    c.job("S3SUK", |w| fmcheck_slots::unit::<m_25::S3SUK>(w, "S3SUK"));
    c.job("S3SSU", |w| fmcheck_slots::unit::<m_26::S3SSU>(w, "S3SSU"));
    c.job("S3SOS", |w| fmcheck_slots::unit::<m_27::S3SOS>(w, "S3SOS"));
    c.job("S3SKK", |w| fmcheck_slots::unit::<m_28::S3SKK>(w, "S3SKK"));
    c.job("S3OUU", |w| fmcheck_slots::unit::<m_29::S3OUU>(w, "S3OUU"));
    c.job("S3OBS", |w| fmcheck_slots::unit::<m_30::S3OBS>(w, "S3OBS"));
    c.job("S3OSK", |w| fmcheck_slots::unit::<m_31::S3OSK>(w, "S3OSK"));
    c.job("S3OKU", |w| fmcheck_slots::unit::<m_32::S3OKU>(w, "S3OKU"));
    c.job("S3ODS", |w| fmcheck_slots::unit::<m_33::S3ODS>(w, "S3ODS"));
    c.job("S3KUK", |w| fmcheck_slots::unit::<m_34::S3KUK>(w, "S3KUK"));
    c.job("S3KSU", |w| fmcheck_slots::unit::<m_35::S3KSU>(w, "S3KSU"));
    c.job("S3KOS", |w| fmcheck_slots::unit::<m_36::S3KOS>(w, "S3KOS"));
    c.job("S3KKK", |w| fmcheck_slots::unit::<m_37::S3KKK>(w, "S3KKK"));
    c.job("S3DUU", |w| fmcheck_slots::unit::<m_38::S3DUU>(w, "S3DUU"));
    c.job("S3DBS", |w| fmcheck_slots::unit::<m_39::S3DBS>(w, "S3DBS"));
    c.job("S3DSK", |w| fmcheck_slots::unit::<m_40::S3DSK>(w, "S3DSK"));
    c.job("S3DKU", |w| fmcheck_slots::unit::<m_41::S3DKU>(w, "S3DKU"));
    c.job("S3DDS", |w| fmcheck_slots::unit::<m_42::S3DDS>(w, "S3DDS"));
    c.job("S4UUBS", |w| fmcheck_slots::unit::<m_43::S4UUBS>(w, "S4UUBS"));
    c.job("S4UBBB", |w| fmcheck_slots::unit::<m_44::S4UBBB>(w, "S4UBBB"));
    c.job("S4USBU", |w| fmcheck_slots::unit::<m_45::S4USBU>(w, "S4USBU"));
    c.job("S4BUUS", |w| fmcheck_slots::unit::<m_46::S4BUUS>(w, "S4BUUS"));
    c.job("S4BBUB", |w| fmcheck_slots::unit::<m_47::S4BBUB>(w, "S4BBUB"));
    c.job("S4BSUU", |w| fmcheck_slots::unit::<m_48::S4BSUU>(w, "S4BSUU"));
    c.job("S4BSSS", |w| fmcheck_slots::unit::<m_49::S4BSSS>(w, "S4BSSS"));
    c.job("S4SUSB", |w| fmcheck_slots::unit::<m_50::S4SUSB>(w, "S4SUSB"));
    c.job("S4SBSU", |w| fmcheck_slots::unit::<m_51::S4SBSU>(w, "S4SBSU"));
    c.job("S4SSBS", |w| fmcheck_slots::unit::<m_52::S4SSBS>(w, "S4SSBS"));
    c.job("S5UUOUO", |w| fmcheck_slots::unit::<m_53::S5UUOUO>(w, "S5UUOUO"));
    c.job("S5UOOUO", |w| fmcheck_slots::unit::<m_54::S5UOOUO>(w, "S5UOOUO"));
    c.job("S5OUOUO", |w| fmcheck_slots::unit::<m_55::S5OUOUO>(w, "S5OUOUO"));
    c.job("S5OOOUO", |w| fmcheck_slots::unit::<m_56::S5OOOUO>(w, "S5OOOUO"));
    c.job("P6_5", |w| fmcheck_slots::unit::<m_57::P6_5>(w, "P6_5"));
    c.job("P8_7", |w| fmcheck_slots::unit::<m_58::P8_7>(w, "P8_7"));
    c.job("P12_7", |w| fmcheck_slots::unit::<m_59::P12_7>(w, "P12_7"));
    c.job("B1", |w| fmcheck_slots::unit::<m_60::B1>(w, "B1"));
    c.job("B4", |w| fmcheck_slots::unit::<m_61::B4>(w, "B4"));
    c.job("B8", |w| fmcheck_slots::unit::<m_62::B8>(w, "B8"));
    c.job("B12", |w| fmcheck_slots::unit::<m_63::B12>(w, "B12"));
    c.job("B16", |w| fmcheck_slots::unit::<m_64::B16>(w, "B16"));
    c.job("B20", |w| fmcheck_slots::unit::<m_65::B20>(w, "B20"));
    c.job("B24", |w| fmcheck_slots::unit::<m_66::B24>(w, "B24"));
    c.job("B28", |w| fmcheck_slots::unit::<m_67::B28>(w, "B28"));
    c.job("B32", |w| fmcheck_slots::unit::<m_68::B32>(w, "B32"));
    c.job("B36", |w| fmcheck_slots::unit::<m_69::B36>(w, "B36"));
    c.job("B40", |w| fmcheck_slots::unit::<m_70::B40>(w, "B40"));
    c.job("B44", |w| fmcheck_slots::unit::<m_71::B44>(w, "B44"));
    c.job("B48", |w| fmcheck_slots::unit::<m_72::B48>(w, "B48"));
    c.job("B52", |w| fmcheck_slots::unit::<m_73::B52>(w, "B52"));
    c.job("B56", |w| fmcheck_slots::unit::<m_74::B56>(w, "B56"));
    c.job("B60", |w| fmcheck_slots::unit::<m_75::B60>(w, "B60"));
    c.job("B64", |w| fmcheck_slots::unit::<m_76::B64>(w, "B64"));
    c.job("B95", |w| fmcheck_slots::unit::<m_77::B95>(w, "B95"));
    c.job("B127", |w| fmcheck_slots::unit::<m_78::B127>(w, "B127"));
    c.job("N255", |w| fmcheck_slots::unit::<m_79::N255>(w, "N255"));
    c.job("M129", |w| fmcheck_slots::unit::<m_80::M129>(w, "M129"));
}
