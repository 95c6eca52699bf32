//! Generated by gen2.py; do not edit.
#![allow(unused_imports, non_camel_case_types, non_upper_case_globals, non_snake_case, dead_code, uncommon_codepoints, clippy::all)]
#![recursion_limit = "1024"]
use fmcheck_dom::{off, Dom};
use fixed_map::Key;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U2 { V0, V1 }
impl Dom for U2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U2] = &[U2::V0, U2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U2::V0 => 0,
            U2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K2 { V0, V1 }
impl Dom for K2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K2] = &[K2::V0, K2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K2::V0 => 0,
            K2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U0 {  }
impl Dom for U0 {
    const N: usize = 0;
    const STATIC: bool = true;
    fn at(_: usize) -> Self { panic!("no such key") }
    fn idx(self) -> usize { match self {} }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..0 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum NestA { X(bool), Y }
impl Dom for NestA {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return NestA::X(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return NestA::Y; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            NestA::X(x) => off(0, <bool as Dom>::idx(x)),
            NestA::Y => 0 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
pub mod m_0 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S1E { V0(U2) }
impl Dom for S1E {
    const N: usize = 0 + <U2 as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return S1E::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S1E::V0(x) => off(0, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_1 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2US { V0, V1(()) }
impl Dom for S2US {
    const N: usize = 1 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S2US::V0; } i -= 1;
        if i < <() as Dom>::N { return S2US::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2US::V0 => 0,
            S2US::V1(x) => off(1, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_2 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2UW { V0, V1(Option<u32>) }
impl Dom for S2UW {
    const N: usize = 1 + <Option<u32> as Dom>::N;
    const STATIC: bool = true && <Option<u32> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S2UW::V0; } i -= 1;
        if i < <Option<u32> as Dom>::N { return S2UW::V1(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2UW::V0 => 0,
            S2UW::V1(x) => off(1, <Option<u32> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<u32> as Dom>::ranks(out, next);
    }
}
}
pub mod m_3 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2BC { V0(bool), V1(NestA) }
impl Dom for S2BC {
    const N: usize = 0 + <bool as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S2BC::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <NestA as Dom>::N { return S2BC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2BC::V0(x) => off(0, <bool as Dom>::idx(x)),
            S2BC::V1(x) => off(0 + <bool as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
}
pub mod m_4 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2SE { V0(()), V1(U2) }
impl Dom for S2SE {
    const N: usize = 0 + <() as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S2SE::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <U2 as Dom>::N { return S2SE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2SE::V0(x) => off(0, <() as Dom>::idx(x)),
            S2SE::V1(x) => off(0 + <() as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_5 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2OB { V0(Option<bool>), V1(bool) }
impl Dom for S2OB {
    const N: usize = 0 + <Option<bool> as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S2OB::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <bool as Dom>::N { return S2OB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2OB::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S2OB::V1(x) => off(0 + <Option<bool> as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_6 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2OT { V0(Option<bool>), V1(&'static str) }
impl Dom for S2OT {
    const N: usize = 0 + <Option<bool> as Dom>::N + <&'static str as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S2OT::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <&'static str as Dom>::N { return S2OT::V1(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2OT::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S2OT::V1(x) => off(0 + <Option<bool> as Dom>::N, <&'static str as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <&'static str as Dom>::ranks(out, next);
    }
}
}
pub mod m_7 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2EZ { V0(U2), V1(U0) }
impl Dom for S2EZ {
    const N: usize = 0 + <U2 as Dom>::N + <U0 as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <U0 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return S2EZ::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <U0 as Dom>::N { return S2EZ::V1(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2EZ::V0(x) => off(0, <U2 as Dom>::idx(x)),
            S2EZ::V1(x) => off(0 + <U2 as Dom>::N, <U0 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <U0 as Dom>::ranks(out, next);
    }
}
}
pub mod m_8 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2KO { V0(K2), V1(Option<bool>) }
impl Dom for S2KO {
    const N: usize = 0 + <K2 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S2KO::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S2KO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2KO::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S2KO::V1(x) => off(0 + <K2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_9 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2ZU { V0(U0), V1 }
impl Dom for S2ZU {
    const N: usize = 1 + <U0 as Dom>::N;
    const STATIC: bool = true && <U0 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U0 as Dom>::N { return S2ZU::V0(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        if i == 0 { return S2ZU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2ZU::V0(x) => off(0, <U0 as Dom>::idx(x)),
            S2ZU::V1 => 0 + <U0 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U0 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_10 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2ZD { V0(U0), V1(u8) }
impl Dom for S2ZD {
    const N: usize = 0 + <U0 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <U0 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U0 as Dom>::N { return S2ZD::V0(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        if i < <u8 as Dom>::N { return S2ZD::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2ZD::V0(x) => off(0, <U0 as Dom>::idx(x)),
            S2ZD::V1(x) => off(0 + <U0 as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U0 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_11 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2CK { V0(NestA), V1(K2) }
impl Dom for S2CK {
    const N: usize = 0 + <NestA as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return S2CK::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <K2 as Dom>::N { return S2CK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2CK::V0(x) => off(0, <NestA as Dom>::idx(x)),
            S2CK::V1(x) => off(0 + <NestA as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_12 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2DS { V0(u8), V1(()) }
impl Dom for S2DS {
    const N: usize = 0 + <u8 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S2DS::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <() as Dom>::N { return S2DS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2DS::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S2DS::V1(x) => off(0 + <u8 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_13 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2DW { V0(u8), V1(Option<u32>) }
impl Dom for S2DW {
    const N: usize = 0 + <u8 as Dom>::N + <Option<u32> as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <Option<u32> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S2DW::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <Option<u32> as Dom>::N { return S2DW::V1(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2DW::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S2DW::V1(x) => off(0 + <u8 as Dom>::N, <Option<u32> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <Option<u32> as Dom>::ranks(out, next);
    }
}
}
pub mod m_14 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2TC { V0(&'static str), V1(NestA) }
impl Dom for S2TC {
    const N: usize = 0 + <&'static str as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <&'static str as Dom>::N { return S2TC::V0(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i < <NestA as Dom>::N { return S2TC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2TC::V0(x) => off(0, <&'static str as Dom>::idx(x)),
            S2TC::V1(x) => off(0 + <&'static str as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <&'static str as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
}
pub mod m_15 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2WE { V0(Option<u32>), V1(U2) }
impl Dom for S2WE {
    const N: usize = 0 + <Option<u32> as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <Option<u32> as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<u32> as Dom>::N { return S2WE::V0(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        if i < <U2 as Dom>::N { return S2WE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2WE::V0(x) => off(0, <Option<u32> as Dom>::idx(x)),
            S2WE::V1(x) => off(0 + <Option<u32> as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<u32> as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_16 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UUS { V0, V1, V2(()) }
impl Dom for S3UUS {
    const N: usize = 2 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UUS::V0; } i -= 1;
        if i == 0 { return S3UUS::V1; } i -= 1;
        if i < <() as Dom>::N { return S3UUS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UUS::V0 => 0,
            S3UUS::V1 => 1,
            S3UUS::V2(x) => off(2, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_17 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UBK { V0, V1(bool), V2(K2) }
impl Dom for S3UBK {
    const N: usize = 1 + <bool as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UBK::V0; } i -= 1;
        if i < <bool as Dom>::N { return S3UBK::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <K2 as Dom>::N { return S3UBK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UBK::V0 => 0,
            S3UBK::V1(x) => off(1, <bool as Dom>::idx(x)),
            S3UBK::V2(x) => off(1 + <bool as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_18 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UOU { V0, V1(Option<bool>), V2 }
impl Dom for S3UOU {
    const N: usize = 2 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UOU::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S3UOU::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S3UOU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UOU::V0 => 0,
            S3UOU::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
            S3UOU::V2 => 1 + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_19 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UKS { V0, V1(K2), V2(()) }
impl Dom for S3UKS {
    const N: usize = 1 + <K2 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UKS::V0; } i -= 1;
        if i < <K2 as Dom>::N { return S3UKS::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <() as Dom>::N { return S3UKS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UKS::V0 => 0,
            S3UKS::V1(x) => off(1, <K2 as Dom>::idx(x)),
            S3UKS::V2(x) => off(1 + <K2 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <K2 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_20 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UDK { V0, V1(u8), V2(K2) }
impl Dom for S3UDK {
    const N: usize = 1 + <u8 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UDK::V0; } i -= 1;
        if i < <u8 as Dom>::N { return S3UDK::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <K2 as Dom>::N { return S3UDK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UDK::V0 => 0,
            S3UDK::V1(x) => off(1, <u8 as Dom>::idx(x)),
            S3UDK::V2(x) => off(1 + <u8 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_21 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BBU { V0(bool), V1(bool), V2 }
impl Dom for S3BBU {
    const N: usize = 1 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BBU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S3BBU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S3BBU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BBU::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BBU::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S3BBU::V2 => 0 + <bool as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_22 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BSS { V0(bool), V1(()), V2(()) }
impl Dom for S3BSS {
    const N: usize = 0 + <bool as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BSS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S3BSS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S3BSS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BSS::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BSS::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S3BSS::V2(x) => off(0 + <bool as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_23 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BOK { V0(bool), V1(Option<bool>), V2(K2) }
impl Dom for S3BOK {
    const N: usize = 0 + <bool as Dom>::N + <Option<bool> as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BOK::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3BOK::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <K2 as Dom>::N { return S3BOK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BOK::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BOK::V1(x) => off(0 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3BOK::V2(x) => off(0 + <bool as Dom>::N + <Option<bool> as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_24 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BDU { V0(bool), V1(u8), V2 }
impl Dom for S3BDU {
    const N: usize = 1 + <bool as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BDU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <u8 as Dom>::N { return S3BDU::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return S3BDU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BDU::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BDU::V1(x) => off(0 + <bool as Dom>::N, <u8 as Dom>::idx(x)),
            S3BDU::V2 => 0 + <bool as Dom>::N + <u8 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_25 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SUS { V0(()), V1, V2(()) }
impl Dom for S3SUS {
    const N: usize = 1 + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SUS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S3SUS::V1; } i -= 1;
        if i < <() as Dom>::N { return S3SUS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SUS::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SUS::V1 => 0 + <() as Dom>::N,
            S3SUS::V2(x) => off(1 + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_26 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SBK { V0(()), V1(bool), V2(K2) }
impl Dom for S3SBK {
    const N: usize = 0 + <() as Dom>::N + <bool as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SBK::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S3SBK::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <K2 as Dom>::N { return S3SBK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SBK::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SBK::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S3SBK::V2(x) => off(0 + <() as Dom>::N + <bool as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_27 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SOU { V0(()), V1(Option<bool>), V2 }
impl Dom for S3SOU {
    const N: usize = 1 + <() as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SOU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3SOU::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S3SOU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SOU::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SOU::V1(x) => off(0 + <() as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3SOU::V2 => 0 + <() as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_28 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SKS { V0(()), V1(K2), V2(()) }
impl Dom for S3SKS {
    const N: usize = 0 + <() as Dom>::N + <K2 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <K2 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SKS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <K2 as Dom>::N { return S3SKS::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <() as Dom>::N { return S3SKS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SKS::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SKS::V1(x) => off(0 + <() as Dom>::N, <K2 as Dom>::idx(x)),
            S3SKS::V2(x) => off(0 + <() as Dom>::N + <K2 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_29 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SDK { V0(()), V1(u8), V2(K2) }
impl Dom for S3SDK {
    const N: usize = 0 + <() as Dom>::N + <u8 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <u8 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SDK::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <u8 as Dom>::N { return S3SDK::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <K2 as Dom>::N { return S3SDK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SDK::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SDK::V1(x) => off(0 + <() as Dom>::N, <u8 as Dom>::idx(x)),
            S3SDK::V2(x) => off(0 + <() as Dom>::N + <u8 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_30 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OBU { V0(Option<bool>), V1(bool), V2 }
impl Dom for S3OBU {
    const N: usize = 1 + <Option<bool> as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OBU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <bool as Dom>::N { return S3OBU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S3OBU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OBU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OBU::V1(x) => off(0 + <Option<bool> as Dom>::N, <bool as Dom>::idx(x)),
            S3OBU::V2 => 0 + <Option<bool> as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_31 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OSS { V0(Option<bool>), V1(()), V2(()) }
impl Dom for S3OSS {
    const N: usize = 0 + <Option<bool> as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OSS::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <() as Dom>::N { return S3OSS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S3OSS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OSS::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OSS::V1(x) => off(0 + <Option<bool> as Dom>::N, <() as Dom>::idx(x)),
            S3OSS::V2(x) => off(0 + <Option<bool> as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_32 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OOK { V0(Option<bool>), V1(Option<bool>), V2(K2) }
impl Dom for S3OOK {
    const N: usize = 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OOK::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3OOK::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <K2 as Dom>::N { return S3OOK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OOK::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OOK::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3OOK::V2(x) => off(0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_33 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3ODU { V0(Option<bool>), V1(u8), V2 }
impl Dom for S3ODU {
    const N: usize = 1 + <Option<bool> as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3ODU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <u8 as Dom>::N { return S3ODU::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return S3ODU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3ODU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3ODU::V1(x) => off(0 + <Option<bool> as Dom>::N, <u8 as Dom>::idx(x)),
            S3ODU::V2 => 0 + <Option<bool> as Dom>::N + <u8 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_34 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KUS { V0(K2), V1, V2(()) }
impl Dom for S3KUS {
    const N: usize = 1 + <K2 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KUS::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i == 0 { return S3KUS::V1; } i -= 1;
        if i < <() as Dom>::N { return S3KUS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KUS::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KUS::V1 => 0 + <K2 as Dom>::N,
            S3KUS::V2(x) => off(1 + <K2 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_35 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KBK { V0(K2), V1(bool), V2(K2) }
impl Dom for S3KBK {
    const N: usize = 0 + <K2 as Dom>::N + <bool as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <bool as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KBK::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <bool as Dom>::N { return S3KBK::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <K2 as Dom>::N { return S3KBK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KBK::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KBK::V1(x) => off(0 + <K2 as Dom>::N, <bool as Dom>::idx(x)),
            S3KBK::V2(x) => off(0 + <K2 as Dom>::N + <bool as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_36 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KOU { V0(K2), V1(Option<bool>), V2 }
impl Dom for S3KOU {
    const N: usize = 1 + <K2 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KOU::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3KOU::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S3KOU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KOU::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KOU::V1(x) => off(0 + <K2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3KOU::V2 => 0 + <K2 as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_37 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KKS { V0(K2), V1(K2), V2(()) }
impl Dom for S3KKS {
    const N: usize = 0 + <K2 as Dom>::N + <K2 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <K2 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KKS::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <K2 as Dom>::N { return S3KKS::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <() as Dom>::N { return S3KKS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KKS::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KKS::V1(x) => off(0 + <K2 as Dom>::N, <K2 as Dom>::idx(x)),
            S3KKS::V2(x) => off(0 + <K2 as Dom>::N + <K2 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_38 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KDK { V0(K2), V1(u8), V2(K2) }
impl Dom for S3KDK {
    const N: usize = 0 + <K2 as Dom>::N + <u8 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <u8 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KDK::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <u8 as Dom>::N { return S3KDK::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <K2 as Dom>::N { return S3KDK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KDK::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KDK::V1(x) => off(0 + <K2 as Dom>::N, <u8 as Dom>::idx(x)),
            S3KDK::V2(x) => off(0 + <K2 as Dom>::N + <u8 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_39 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DBU { V0(u8), V1(bool), V2 }
impl Dom for S3DBU {
    const N: usize = 1 + <u8 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DBU::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <bool as Dom>::N { return S3DBU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S3DBU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DBU::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DBU::V1(x) => off(0 + <u8 as Dom>::N, <bool as Dom>::idx(x)),
            S3DBU::V2 => 0 + <u8 as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_40 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DSS { V0(u8), V1(()), V2(()) }
impl Dom for S3DSS {
    const N: usize = 0 + <u8 as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DSS::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <() as Dom>::N { return S3DSS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S3DSS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DSS::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DSS::V1(x) => off(0 + <u8 as Dom>::N, <() as Dom>::idx(x)),
            S3DSS::V2(x) => off(0 + <u8 as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_41 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DOK { V0(u8), V1(Option<bool>), V2(K2) }
impl Dom for S3DOK {
    const N: usize = 0 + <u8 as Dom>::N + <Option<bool> as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DOK::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3DOK::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <K2 as Dom>::N { return S3DOK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DOK::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DOK::V1(x) => off(0 + <u8 as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3DOK::V2(x) => off(0 + <u8 as Dom>::N + <Option<bool> as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_42 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DDU { V0(u8), V1(u8), V2 }
impl Dom for S3DDU {
    const N: usize = 1 + <u8 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DDU::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <u8 as Dom>::N { return S3DDU::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return S3DDU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DDU::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DDU::V1(x) => off(0 + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
            S3DDU::V2 => 0 + <u8 as Dom>::N + <u8 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_43 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UUBU { V0, V1, V2(bool), V3 }
impl Dom for S4UUBU {
    const N: usize = 3 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UUBU::V0; } i -= 1;
        if i == 0 { return S4UUBU::V1; } i -= 1;
        if i < <bool as Dom>::N { return S4UUBU::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4UUBU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UUBU::V0 => 0,
            S4UUBU::V1 => 1,
            S4UUBU::V2(x) => off(2, <bool as Dom>::idx(x)),
            S4UUBU::V3 => 2 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_44 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UBUS { V0, V1(bool), V2, V3(()) }
impl Dom for S4UBUS {
    const N: usize = 2 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UBUS::V0; } i -= 1;
        if i < <bool as Dom>::N { return S4UBUS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4UBUS::V2; } i -= 1;
        if i < <() as Dom>::N { return S4UBUS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UBUS::V0 => 0,
            S4UBUS::V1(x) => off(1, <bool as Dom>::idx(x)),
            S4UBUS::V2 => 1 + <bool as Dom>::N,
            S4UBUS::V3(x) => off(2 + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_45 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4USUB { V0, V1(()), V2, V3(bool) }
impl Dom for S4USUB {
    const N: usize = 2 + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4USUB::V0; } i -= 1;
        if i < <() as Dom>::N { return S4USUB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4USUB::V2; } i -= 1;
        if i < <bool as Dom>::N { return S4USUB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4USUB::V0 => 0,
            S4USUB::V1(x) => off(1, <() as Dom>::idx(x)),
            S4USUB::V2 => 1 + <() as Dom>::N,
            S4USUB::V3(x) => off(2 + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_46 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BUUU { V0(bool), V1, V2, V3 }
impl Dom for S4BUUU {
    const N: usize = 3 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BUUU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4BUUU::V1; } i -= 1;
        if i == 0 { return S4BUUU::V2; } i -= 1;
        if i == 0 { return S4BUUU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BUUU::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BUUU::V1 => 0 + <bool as Dom>::N,
            S4BUUU::V2 => 1 + <bool as Dom>::N,
            S4BUUU::V3 => 2 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_47 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BUSS { V0(bool), V1, V2(()), V3(()) }
impl Dom for S4BUSS {
    const N: usize = 1 + <bool as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BUSS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4BUSS::V1; } i -= 1;
        if i < <() as Dom>::N { return S4BUSS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4BUSS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BUSS::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BUSS::V1 => 0 + <bool as Dom>::N,
            S4BUSS::V2(x) => off(1 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4BUSS::V3(x) => off(1 + <bool as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_48 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BBSB { V0(bool), V1(bool), V2(()), V3(bool) }
impl Dom for S4BBSB {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BBSB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4BBSB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4BBSB::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4BBSB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BBSB::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BBSB::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4BBSB::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4BBSB::V3(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_49 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BSSU { V0(bool), V1(()), V2(()), V3 }
impl Dom for S4BSSU {
    const N: usize = 1 + <bool as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BSSU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4BSSU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4BSSU::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4BSSU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BSSU::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BSSU::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4BSSU::V2(x) => off(0 + <bool as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
            S4BSSU::V3 => 0 + <bool as Dom>::N + <() as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_50 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SUBS { V0(()), V1, V2(bool), V3(()) }
impl Dom for S4SUBS {
    const N: usize = 1 + <() as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SUBS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4SUBS::V1; } i -= 1;
        if i < <bool as Dom>::N { return S4SUBS::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4SUBS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SUBS::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SUBS::V1 => 0 + <() as Dom>::N,
            S4SUBS::V2(x) => off(1 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4SUBS::V3(x) => off(1 + <() as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_51 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SBBB { V0(()), V1(bool), V2(bool), V3(bool) }
impl Dom for S4SBBB {
    const N: usize = 0 + <() as Dom>::N + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SBBB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4SBBB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4SBBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4SBBB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SBBB::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SBBB::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4SBBB::V2(x) => off(0 + <() as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4SBBB::V3(x) => off(0 + <() as Dom>::N + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_52 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SSBU { V0(()), V1(()), V2(bool), V3 }
impl Dom for S4SSBU {
    const N: usize = 1 + <() as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SSBU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4SSBU::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4SSBU::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4SSBU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SSBU::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SSBU::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            S4SSBU::V2(x) => off(0 + <() as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4SSBU::V3 => 0 + <() as Dom>::N + <() as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_53 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5UUUOO { V0, V1, V2, V3(Option<bool>), V4(Option<bool>) }
impl Dom for S5UUUOO {
    const N: usize = 3 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S5UUUOO::V0; } i -= 1;
        if i == 0 { return S5UUUOO::V1; } i -= 1;
        if i == 0 { return S5UUUOO::V2; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UUUOO::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5UUUOO::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5UUUOO::V0 => 0,
            S5UUUOO::V1 => 1,
            S5UUUOO::V2 => 2,
            S5UUUOO::V3(x) => off(3, <Option<bool> as Dom>::idx(x)),
            S5UUUOO::V4(x) => off(3 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_54 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5UOUOO { V0, V1(Option<bool>), V2, V3(Option<bool>), V4(Option<bool>) }
impl Dom for S5UOUOO {
    const N: usize = 2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S5UOUOO::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UOUOO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5UOUOO::V2; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UOUOO::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5UOUOO::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5UOUOO::V0 => 0,
            S5UOUOO::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
            S5UOUOO::V2 => 1 + <Option<bool> as Dom>::N,
            S5UOUOO::V3(x) => off(2 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5UOUOO::V4(x) => off(2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_55 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5OUUOO { V0(Option<bool>), V1, V2, V3(Option<bool>), V4(Option<bool>) }
impl Dom for S5OUUOO {
    const N: usize = 2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S5OUUOO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OUUOO::V1; } i -= 1;
        if i == 0 { return S5OUUOO::V2; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5OUUOO::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OUUOO::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5OUUOO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S5OUUOO::V1 => 0 + <Option<bool> as Dom>::N,
            S5OUUOO::V2 => 1 + <Option<bool> as Dom>::N,
            S5OUUOO::V3(x) => off(2 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OUUOO::V4(x) => off(2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_56 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5OOUOO { V0(Option<bool>), V1(Option<bool>), V2, V3(Option<bool>), V4(Option<bool>) }
impl Dom for S5OOUOO {
    const N: usize = 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S5OOUOO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OOUOO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OOUOO::V2; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5OOUOO::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OOUOO::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5OOUOO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S5OOUOO::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OOUOO::V2 => 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
            S5OOUOO::V3(x) => off(1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OOUOO::V4(x) => off(1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_57 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P6_3 { V0, V1, V2, V3(bool), V4, V5 }
impl Dom for P6_3 {
    const N: usize = 5 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P6_3::V0; } i -= 1;
        if i == 0 { return P6_3::V1; } i -= 1;
        if i == 0 { return P6_3::V2; } i -= 1;
        if i < <bool as Dom>::N { return P6_3::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P6_3::V4; } i -= 1;
        if i == 0 { return P6_3::V5; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P6_3::V0 => 0,
            P6_3::V1 => 1,
            P6_3::V2 => 2,
            P6_3::V3(x) => off(3, <bool as Dom>::idx(x)),
            P6_3::V4 => 3 + <bool as Dom>::N,
            P6_3::V5 => 4 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_58 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P8_5 { V0, V1, V2, V3, V4, V5(bool), V6, V7 }
impl Dom for P8_5 {
    const N: usize = 7 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P8_5::V0; } i -= 1;
        if i == 0 { return P8_5::V1; } i -= 1;
        if i == 0 { return P8_5::V2; } i -= 1;
        if i == 0 { return P8_5::V3; } i -= 1;
        if i == 0 { return P8_5::V4; } i -= 1;
        if i < <bool as Dom>::N { return P8_5::V5(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P8_5::V6; } i -= 1;
        if i == 0 { return P8_5::V7; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P8_5::V0 => 0,
            P8_5::V1 => 1,
            P8_5::V2 => 2,
            P8_5::V3 => 3,
            P8_5::V4 => 4,
            P8_5::V5(x) => off(5, <bool as Dom>::idx(x)),
            P8_5::V6 => 5 + <bool as Dom>::N,
            P8_5::V7 => 6 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_59 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P12_5 { V0, V1, V2, V3, V4, V5(bool), V6, V7, V8, V9, V10, V11 }
impl Dom for P12_5 {
    const N: usize = 11 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P12_5::V0; } i -= 1;
        if i == 0 { return P12_5::V1; } i -= 1;
        if i == 0 { return P12_5::V2; } i -= 1;
        if i == 0 { return P12_5::V3; } i -= 1;
        if i == 0 { return P12_5::V4; } i -= 1;
        if i < <bool as Dom>::N { return P12_5::V5(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P12_5::V6; } i -= 1;
        if i == 0 { return P12_5::V7; } i -= 1;
        if i == 0 { return P12_5::V8; } i -= 1;
        if i == 0 { return P12_5::V9; } i -= 1;
        if i == 0 { return P12_5::V10; } i -= 1;
        if i == 0 { return P12_5::V11; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P12_5::V0 => 0,
            P12_5::V1 => 1,
            P12_5::V2 => 2,
            P12_5::V3 => 3,
            P12_5::V4 => 4,
            P12_5::V5(x) => off(5, <bool as Dom>::idx(x)),
            P12_5::V6 => 5 + <bool as Dom>::N,
            P12_5::V7 => 6 + <bool as Dom>::N,
            P12_5::V8 => 7 + <bool as Dom>::N,
            P12_5::V9 => 8 + <bool as Dom>::N,
            P12_5::V10 => 9 + <bool as Dom>::N,
            P12_5::V11 => 10 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_60 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B0 {  }
impl Dom for B0 {
    const N: usize = 0;
    const STATIC: bool = true;
    fn at(_: usize) -> Self { panic!("no such key") }
    fn idx(self) -> usize { match self {} }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..0 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_61 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B3 { V0, V1, V2 }
impl Dom for B3 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B3] = &[B3::V0, B3::V1, B3::V2];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B3::V0 => 0,
            B3::V1 => 1,
            B3::V2 => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_62 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B7 { V0, V1, V2, V3, V4, V5, V6 }
impl Dom for B7 {
    const N: usize = 7;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B7] = &[B7::V0, B7::V1, B7::V2, B7::V3, B7::V4, B7::V5, B7::V6];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B7::V0 => 0,
            B7::V1 => 1,
            B7::V2 => 2,
            B7::V3 => 3,
            B7::V4 => 4,
            B7::V5 => 5,
            B7::V6 => 6,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..7 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_63 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B11 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10 }
impl Dom for B11 {
    const N: usize = 11;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B11] = &[B11::V0, B11::V1, B11::V2, B11::V3, B11::V4, B11::V5, B11::V6, B11::V7, B11::V8, B11::V9, B11::V10];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B11::V0 => 0,
            B11::V1 => 1,
            B11::V2 => 2,
            B11::V3 => 3,
            B11::V4 => 4,
            B11::V5 => 5,
            B11::V6 => 6,
            B11::V7 => 7,
            B11::V8 => 8,
            B11::V9 => 9,
            B11::V10 => 10,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..11 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_64 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B15 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14 }
impl Dom for B15 {
    const N: usize = 15;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B15] = &[B15::V0, B15::V1, B15::V2, B15::V3, B15::V4, B15::V5, B15::V6, B15::V7, B15::V8, B15::V9, B15::V10, B15::V11, B15::V12, B15::V13, B15::V14];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B15::V0 => 0,
            B15::V1 => 1,
            B15::V2 => 2,
            B15::V3 => 3,
            B15::V4 => 4,
            B15::V5 => 5,
            B15::V6 => 6,
            B15::V7 => 7,
            B15::V8 => 8,
            B15::V9 => 9,
            B15::V10 => 10,
            B15::V11 => 11,
            B15::V12 => 12,
            B15::V13 => 13,
            B15::V14 => 14,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..15 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_65 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B19 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18 }
impl Dom for B19 {
    const N: usize = 19;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B19] = &[B19::V0, B19::V1, B19::V2, B19::V3, B19::V4, B19::V5, B19::V6, B19::V7, B19::V8, B19::V9, B19::V10, B19::V11, B19::V12, B19::V13, B19::V14, B19::V15, B19::V16, B19::V17, B19::V18];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B19::V0 => 0,
            B19::V1 => 1,
            B19::V2 => 2,
            B19::V3 => 3,
            B19::V4 => 4,
            B19::V5 => 5,
            B19::V6 => 6,
            B19::V7 => 7,
            B19::V8 => 8,
            B19::V9 => 9,
            B19::V10 => 10,
            B19::V11 => 11,
            B19::V12 => 12,
            B19::V13 => 13,
            B19::V14 => 14,
            B19::V15 => 15,
            B19::V16 => 16,
            B19::V17 => 17,
            B19::V18 => 18,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..19 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_66 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B23 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22 }
impl Dom for B23 {
    const N: usize = 23;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B23] = &[B23::V0, B23::V1, B23::V2, B23::V3, B23::V4, B23::V5, B23::V6, B23::V7, B23::V8, B23::V9, B23::V10, B23::V11, B23::V12, B23::V13, B23::V14, B23::V15, B23::V16, B23::V17, B23::V18, B23::V19, B23::V20, B23::V21, B23::V22];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B23::V0 => 0,
            B23::V1 => 1,
            B23::V2 => 2,
            B23::V3 => 3,
            B23::V4 => 4,
            B23::V5 => 5,
            B23::V6 => 6,
            B23::V7 => 7,
            B23::V8 => 8,
            B23::V9 => 9,
            B23::V10 => 10,
            B23::V11 => 11,
            B23::V12 => 12,
            B23::V13 => 13,
            B23::V14 => 14,
            B23::V15 => 15,
            B23::V16 => 16,
            B23::V17 => 17,
            B23::V18 => 18,
            B23::V19 => 19,
            B23::V20 => 20,
            B23::V21 => 21,
            B23::V22 => 22,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..23 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_67 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B27 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26 }
impl Dom for B27 {
    const N: usize = 27;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B27] = &[B27::V0, B27::V1, B27::V2, B27::V3, B27::V4, B27::V5, B27::V6, B27::V7, B27::V8, B27::V9, B27::V10, B27::V11, B27::V12, B27::V13, B27::V14, B27::V15, B27::V16, B27::V17, B27::V18, B27::V19, B27::V20, B27::V21, B27::V22, B27::V23, B27::V24, B27::V25, B27::V26];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B27::V0 => 0,
            B27::V1 => 1,
            B27::V2 => 2,
            B27::V3 => 3,
            B27::V4 => 4,
            B27::V5 => 5,
            B27::V6 => 6,
            B27::V7 => 7,
            B27::V8 => 8,
            B27::V9 => 9,
            B27::V10 => 10,
            B27::V11 => 11,
            B27::V12 => 12,
            B27::V13 => 13,
            B27::V14 => 14,
            B27::V15 => 15,
            B27::V16 => 16,
            B27::V17 => 17,
            B27::V18 => 18,
            B27::V19 => 19,
            B27::V20 => 20,
            B27::V21 => 21,
            B27::V22 => 22,
            B27::V23 => 23,
            B27::V24 => 24,
            B27::V25 => 25,
            B27::V26 => 26,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..27 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_68 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B31 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30 }
impl Dom for B31 {
    const N: usize = 31;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B31] = &[B31::V0, B31::V1, B31::V2, B31::V3, B31::V4, B31::V5, B31::V6, B31::V7, B31::V8, B31::V9, B31::V10, B31::V11, B31::V12, B31::V13, B31::V14, B31::V15, B31::V16, B31::V17, B31::V18, B31::V19, B31::V20, B31::V21, B31::V22, B31::V23, B31::V24, B31::V25, B31::V26, B31::V27, B31::V28, B31::V29, B31::V30];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B31::V0 => 0,
            B31::V1 => 1,
            B31::V2 => 2,
            B31::V3 => 3,
            B31::V4 => 4,
            B31::V5 => 5,
            B31::V6 => 6,
            B31::V7 => 7,
            B31::V8 => 8,
            B31::V9 => 9,
            B31::V10 => 10,
            B31::V11 => 11,
            B31::V12 => 12,
            B31::V13 => 13,
            B31::V14 => 14,
            B31::V15 => 15,
            B31::V16 => 16,
            B31::V17 => 17,
            B31::V18 => 18,
            B31::V19 => 19,
            B31::V20 => 20,
            B31::V21 => 21,
            B31::V22 => 22,
            B31::V23 => 23,
            B31::V24 => 24,
            B31::V25 => 25,
            B31::V26 => 26,
            B31::V27 => 27,
            B31::V28 => 28,
            B31::V29 => 29,
            B31::V30 => 30,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..31 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_69 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B35 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34 }
impl Dom for B35 {
    const N: usize = 35;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B35] = &[B35::V0, B35::V1, B35::V2, B35::V3, B35::V4, B35::V5, B35::V6, B35::V7, B35::V8, B35::V9, B35::V10, B35::V11, B35::V12, B35::V13, B35::V14, B35::V15, B35::V16, B35::V17, B35::V18, B35::V19, B35::V20, B35::V21, B35::V22, B35::V23, B35::V24, B35::V25, B35::V26, B35::V27, B35::V28, B35::V29, B35::V30, B35::V31, B35::V32, B35::V33, B35::V34];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B35::V0 => 0,
            B35::V1 => 1,
            B35::V2 => 2,
            B35::V3 => 3,
            B35::V4 => 4,
            B35::V5 => 5,
            B35::V6 => 6,
            B35::V7 => 7,
            B35::V8 => 8,
            B35::V9 => 9,
            B35::V10 => 10,
            B35::V11 => 11,
            B35::V12 => 12,
            B35::V13 => 13,
            B35::V14 => 14,
            B35::V15 => 15,
            B35::V16 => 16,
            B35::V17 => 17,
            B35::V18 => 18,
            B35::V19 => 19,
            B35::V20 => 20,
            B35::V21 => 21,
            B35::V22 => 22,
            B35::V23 => 23,
            B35::V24 => 24,
            B35::V25 => 25,
            B35::V26 => 26,
            B35::V27 => 27,
            B35::V28 => 28,
            B35::V29 => 29,
            B35::V30 => 30,
            B35::V31 => 31,
            B35::V32 => 32,
            B35::V33 => 33,
            B35::V34 => 34,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..35 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_70 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B39 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38 }
impl Dom for B39 {
    const N: usize = 39;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B39] = &[B39::V0, B39::V1, B39::V2, B39::V3, B39::V4, B39::V5, B39::V6, B39::V7, B39::V8, B39::V9, B39::V10, B39::V11, B39::V12, B39::V13, B39::V14, B39::V15, B39::V16, B39::V17, B39::V18, B39::V19, B39::V20, B39::V21, B39::V22, B39::V23, B39::V24, B39::V25, B39::V26, B39::V27, B39::V28, B39::V29, B39::V30, B39::V31, B39::V32, B39::V33, B39::V34, B39::V35, B39::V36, B39::V37, B39::V38];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B39::V0 => 0,
            B39::V1 => 1,
            B39::V2 => 2,
            B39::V3 => 3,
            B39::V4 => 4,
            B39::V5 => 5,
            B39::V6 => 6,
            B39::V7 => 7,
            B39::V8 => 8,
            B39::V9 => 9,
            B39::V10 => 10,
            B39::V11 => 11,
            B39::V12 => 12,
            B39::V13 => 13,
            B39::V14 => 14,
            B39::V15 => 15,
            B39::V16 => 16,
            B39::V17 => 17,
            B39::V18 => 18,
            B39::V19 => 19,
            B39::V20 => 20,
            B39::V21 => 21,
            B39::V22 => 22,
            B39::V23 => 23,
            B39::V24 => 24,
            B39::V25 => 25,
            B39::V26 => 26,
            B39::V27 => 27,
            B39::V28 => 28,
            B39::V29 => 29,
            B39::V30 => 30,
            B39::V31 => 31,
            B39::V32 => 32,
            B39::V33 => 33,
            B39::V34 => 34,
            B39::V35 => 35,
            B39::V36 => 36,
            B39::V37 => 37,
            B39::V38 => 38,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..39 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_71 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B43 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42 }
impl Dom for B43 {
    const N: usize = 43;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B43] = &[B43::V0, B43::V1, B43::V2, B43::V3, B43::V4, B43::V5, B43::V6, B43::V7, B43::V8, B43::V9, B43::V10, B43::V11, B43::V12, B43::V13, B43::V14, B43::V15, B43::V16, B43::V17, B43::V18, B43::V19, B43::V20, B43::V21, B43::V22, B43::V23, B43::V24, B43::V25, B43::V26, B43::V27, B43::V28, B43::V29, B43::V30, B43::V31, B43::V32, B43::V33, B43::V34, B43::V35, B43::V36, B43::V37, B43::V38, B43::V39, B43::V40, B43::V41, B43::V42];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B43::V0 => 0,
            B43::V1 => 1,
            B43::V2 => 2,
            B43::V3 => 3,
            B43::V4 => 4,
            B43::V5 => 5,
            B43::V6 => 6,
            B43::V7 => 7,
            B43::V8 => 8,
            B43::V9 => 9,
            B43::V10 => 10,
            B43::V11 => 11,
            B43::V12 => 12,
            B43::V13 => 13,
            B43::V14 => 14,
            B43::V15 => 15,
            B43::V16 => 16,
            B43::V17 => 17,
            B43::V18 => 18,
            B43::V19 => 19,
            B43::V20 => 20,
            B43::V21 => 21,
            B43::V22 => 22,
            B43::V23 => 23,
            B43::V24 => 24,
            B43::V25 => 25,
            B43::V26 => 26,
            B43::V27 => 27,
            B43::V28 => 28,
            B43::V29 => 29,
            B43::V30 => 30,
            B43::V31 => 31,
            B43::V32 => 32,
            B43::V33 => 33,
            B43::V34 => 34,
            B43::V35 => 35,
            B43::V36 => 36,
            B43::V37 => 37,
            B43::V38 => 38,
            B43::V39 => 39,
            B43::V40 => 40,
            B43::V41 => 41,
            B43::V42 => 42,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..43 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_72 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B47 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46 }
impl Dom for B47 {
    const N: usize = 47;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B47] = &[B47::V0, B47::V1, B47::V2, B47::V3, B47::V4, B47::V5, B47::V6, B47::V7, B47::V8, B47::V9, B47::V10, B47::V11, B47::V12, B47::V13, B47::V14, B47::V15, B47::V16, B47::V17, B47::V18, B47::V19, B47::V20, B47::V21, B47::V22, B47::V23, B47::V24, B47::V25, B47::V26, B47::V27, B47::V28, B47::V29, B47::V30, B47::V31, B47::V32, B47::V33, B47::V34, B47::V35, B47::V36, B47::V37, B47::V38, B47::V39, B47::V40, B47::V41, B47::V42, B47::V43, B47::V44, B47::V45, B47::V46];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B47::V0 => 0,
            B47::V1 => 1,
            B47::V2 => 2,
            B47::V3 => 3,
            B47::V4 => 4,
            B47::V5 => 5,
            B47::V6 => 6,
            B47::V7 => 7,
            B47::V8 => 8,
            B47::V9 => 9,
            B47::V10 => 10,
            B47::V11 => 11,
            B47::V12 => 12,
            B47::V13 => 13,
            B47::V14 => 14,
            B47::V15 => 15,
            B47::V16 => 16,
            B47::V17 => 17,
            B47::V18 => 18,
            B47::V19 => 19,
            B47::V20 => 20,
            B47::V21 => 21,
            B47::V22 => 22,
            B47::V23 => 23,
            B47::V24 => 24,
            B47::V25 => 25,
            B47::V26 => 26,
            B47::V27 => 27,
            B47::V28 => 28,
            B47::V29 => 29,
            B47::V30 => 30,
            B47::V31 => 31,
            B47::V32 => 32,
            B47::V33 => 33,
            B47::V34 => 34,
            B47::V35 => 35,
            B47::V36 => 36,
            B47::V37 => 37,
            B47::V38 => 38,
            B47::V39 => 39,
            B47::V40 => 40,
            B47::V41 => 41,
            B47::V42 => 42,
            B47::V43 => 43,
            B47::V44 => 44,
            B47::V45 => 45,
            B47::V46 => 46,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..47 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_73 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B51 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50 }
impl Dom for B51 {
    const N: usize = 51;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B51] = &[B51::V0, B51::V1, B51::V2, B51::V3, B51::V4, B51::V5, B51::V6, B51::V7, B51::V8, B51::V9, B51::V10, B51::V11, B51::V12, B51::V13, B51::V14, B51::V15, B51::V16, B51::V17, B51::V18, B51::V19, B51::V20, B51::V21, B51::V22, B51::V23, B51::V24, B51::V25, B51::V26, B51::V27, B51::V28, B51::V29, B51::V30, B51::V31, B51::V32, B51::V33, B51::V34, B51::V35, B51::V36, B51::V37, B51::V38, B51::V39, B51::V40, B51::V41, B51::V42, B51::V43, B51::V44, B51::V45, B51::V46, B51::V47, B51::V48, B51::V49, B51::V50];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B51::V0 => 0,
            B51::V1 => 1,
            B51::V2 => 2,
            B51::V3 => 3,
            B51::V4 => 4,
            B51::V5 => 5,
            B51::V6 => 6,
            B51::V7 => 7,
            B51::V8 => 8,
            B51::V9 => 9,
            B51::V10 => 10,
            B51::V11 => 11,
            B51::V12 => 12,
            B51::V13 => 13,
            B51::V14 => 14,
            B51::V15 => 15,
            B51::V16 => 16,
            B51::V17 => 17,
            B51::V18 => 18,
            B51::V19 => 19,
            B51::V20 => 20,
            B51::V21 => 21,
            B51::V22 => 22,
            B51::V23 => 23,
            B51::V24 => 24,
            B51::V25 => 25,
            B51::V26 => 26,
            B51::V27 => 27,
            B51::V28 => 28,
            B51::V29 => 29,
            B51::V30 => 30,
            B51::V31 => 31,
            B51::V32 => 32,
            B51::V33 => 33,
            B51::V34 => 34,
            B51::V35 => 35,
            B51::V36 => 36,
            B51::V37 => 37,
            B51::V38 => 38,
            B51::V39 => 39,
            B51::V40 => 40,
            B51::V41 => 41,
            B51::V42 => 42,
            B51::V43 => 43,
            B51::V44 => 44,
            B51::V45 => 45,
            B51::V46 => 46,
            B51::V47 => 47,
            B51::V48 => 48,
            B51::V49 => 49,
            B51::V50 => 50,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..51 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_74 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B55 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54 }
impl Dom for B55 {
    const N: usize = 55;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B55] = &[B55::V0, B55::V1, B55::V2, B55::V3, B55::V4, B55::V5, B55::V6, B55::V7, B55::V8, B55::V9, B55::V10, B55::V11, B55::V12, B55::V13, B55::V14, B55::V15, B55::V16, B55::V17, B55::V18, B55::V19, B55::V20, B55::V21, B55::V22, B55::V23, B55::V24, B55::V25, B55::V26, B55::V27, B55::V28, B55::V29, B55::V30, B55::V31, B55::V32, B55::V33, B55::V34, B55::V35, B55::V36, B55::V37, B55::V38, B55::V39, B55::V40, B55::V41, B55::V42, B55::V43, B55::V44, B55::V45, B55::V46, B55::V47, B55::V48, B55::V49, B55::V50, B55::V51, B55::V52, B55::V53, B55::V54];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B55::V0 => 0,
            B55::V1 => 1,
            B55::V2 => 2,
            B55::V3 => 3,
            B55::V4 => 4,
            B55::V5 => 5,
            B55::V6 => 6,
            B55::V7 => 7,
            B55::V8 => 8,
            B55::V9 => 9,
            B55::V10 => 10,
            B55::V11 => 11,
            B55::V12 => 12,
            B55::V13 => 13,
            B55::V14 => 14,
            B55::V15 => 15,
            B55::V16 => 16,
            B55::V17 => 17,
            B55::V18 => 18,
            B55::V19 => 19,
            B55::V20 => 20,
            B55::V21 => 21,
            B55::V22 => 22,
            B55::V23 => 23,
            B55::V24 => 24,
            B55::V25 => 25,
            B55::V26 => 26,
            B55::V27 => 27,
            B55::V28 => 28,
            B55::V29 => 29,
            B55::V30 => 30,
            B55::V31 => 31,
            B55::V32 => 32,
            B55::V33 => 33,
            B55::V34 => 34,
            B55::V35 => 35,
            B55::V36 => 36,
            B55::V37 => 37,
            B55::V38 => 38,
            B55::V39 => 39,
            B55::V40 => 40,
            B55::V41 => 41,
            B55::V42 => 42,
            B55::V43 => 43,
            B55::V44 => 44,
            B55::V45 => 45,
            B55::V46 => 46,
            B55::V47 => 47,
            B55::V48 => 48,
            B55::V49 => 49,
            B55::V50 => 50,
            B55::V51 => 51,
            B55::V52 => 52,
            B55::V53 => 53,
            B55::V54 => 54,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..55 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_75 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B59 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58 }
impl Dom for B59 {
    const N: usize = 59;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B59] = &[B59::V0, B59::V1, B59::V2, B59::V3, B59::V4, B59::V5, B59::V6, B59::V7, B59::V8, B59::V9, B59::V10, B59::V11, B59::V12, B59::V13, B59::V14, B59::V15, B59::V16, B59::V17, B59::V18, B59::V19, B59::V20, B59::V21, B59::V22, B59::V23, B59::V24, B59::V25, B59::V26, B59::V27, B59::V28, B59::V29, B59::V30, B59::V31, B59::V32, B59::V33, B59::V34, B59::V35, B59::V36, B59::V37, B59::V38, B59::V39, B59::V40, B59::V41, B59::V42, B59::V43, B59::V44, B59::V45, B59::V46, B59::V47, B59::V48, B59::V49, B59::V50, B59::V51, B59::V52, B59::V53, B59::V54, B59::V55, B59::V56, B59::V57, B59::V58];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B59::V0 => 0,
            B59::V1 => 1,
            B59::V2 => 2,
            B59::V3 => 3,
            B59::V4 => 4,
            B59::V5 => 5,
            B59::V6 => 6,
            B59::V7 => 7,
            B59::V8 => 8,
            B59::V9 => 9,
            B59::V10 => 10,
            B59::V11 => 11,
            B59::V12 => 12,
            B59::V13 => 13,
            B59::V14 => 14,
            B59::V15 => 15,
            B59::V16 => 16,
            B59::V17 => 17,
            B59::V18 => 18,
            B59::V19 => 19,
            B59::V20 => 20,
            B59::V21 => 21,
            B59::V22 => 22,
            B59::V23 => 23,
            B59::V24 => 24,
            B59::V25 => 25,
            B59::V26 => 26,
            B59::V27 => 27,
            B59::V28 => 28,
            B59::V29 => 29,
            B59::V30 => 30,
            B59::V31 => 31,
            B59::V32 => 32,
            B59::V33 => 33,
            B59::V34 => 34,
            B59::V35 => 35,
            B59::V36 => 36,
            B59::V37 => 37,
            B59::V38 => 38,
            B59::V39 => 39,
            B59::V40 => 40,
            B59::V41 => 41,
            B59::V42 => 42,
            B59::V43 => 43,
            B59::V44 => 44,
            B59::V45 => 45,
            B59::V46 => 46,
            B59::V47 => 47,
            B59::V48 => 48,
            B59::V49 => 49,
            B59::V50 => 50,
            B59::V51 => 51,
            B59::V52 => 52,
            B59::V53 => 53,
            B59::V54 => 54,
            B59::V55 => 55,
            B59::V56 => 56,
            B59::V57 => 57,
            B59::V58 => 58,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..59 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_76 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B63 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62 }
impl Dom for B63 {
    const N: usize = 63;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B63] = &[B63::V0, B63::V1, B63::V2, B63::V3, B63::V4, B63::V5, B63::V6, B63::V7, B63::V8, B63::V9, B63::V10, B63::V11, B63::V12, B63::V13, B63::V14, B63::V15, B63::V16, B63::V17, B63::V18, B63::V19, B63::V20, B63::V21, B63::V22, B63::V23, B63::V24, B63::V25, B63::V26, B63::V27, B63::V28, B63::V29, B63::V30, B63::V31, B63::V32, B63::V33, B63::V34, B63::V35, B63::V36, B63::V37, B63::V38, B63::V39, B63::V40, B63::V41, B63::V42, B63::V43, B63::V44, B63::V45, B63::V46, B63::V47, B63::V48, B63::V49, B63::V50, B63::V51, B63::V52, B63::V53, B63::V54, B63::V55, B63::V56, B63::V57, B63::V58, B63::V59, B63::V60, B63::V61, B63::V62];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B63::V0 => 0,
            B63::V1 => 1,
            B63::V2 => 2,
            B63::V3 => 3,
            B63::V4 => 4,
            B63::V5 => 5,
            B63::V6 => 6,
            B63::V7 => 7,
            B63::V8 => 8,
            B63::V9 => 9,
            B63::V10 => 10,
            B63::V11 => 11,
            B63::V12 => 12,
            B63::V13 => 13,
            B63::V14 => 14,
            B63::V15 => 15,
            B63::V16 => 16,
            B63::V17 => 17,
            B63::V18 => 18,
            B63::V19 => 19,
            B63::V20 => 20,
            B63::V21 => 21,
            B63::V22 => 22,
            B63::V23 => 23,
            B63::V24 => 24,
            B63::V25 => 25,
            B63::V26 => 26,
            B63::V27 => 27,
            B63::V28 => 28,
            B63::V29 => 29,
            B63::V30 => 30,
            B63::V31 => 31,
            B63::V32 => 32,
            B63::V33 => 33,
            B63::V34 => 34,
            B63::V35 => 35,
            B63::V36 => 36,
            B63::V37 => 37,
            B63::V38 => 38,
            B63::V39 => 39,
            B63::V40 => 40,
            B63::V41 => 41,
            B63::V42 => 42,
            B63::V43 => 43,
            B63::V44 => 44,
            B63::V45 => 45,
            B63::V46 => 46,
            B63::V47 => 47,
            B63::V48 => 48,
            B63::V49 => 49,
            B63::V50 => 50,
            B63::V51 => 51,
            B63::V52 => 52,
            B63::V53 => 53,
            B63::V54 => 54,
            B63::V55 => 55,
            B63::V56 => 56,
            B63::V57 => 57,
            B63::V58 => 58,
            B63::V59 => 59,
            B63::V60 => 60,
            B63::V61 => 61,
            B63::V62 => 62,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..63 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_77 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B67 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66 }
impl Dom for B67 {
    const N: usize = 67;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B67] = &[B67::V0, B67::V1, B67::V2, B67::V3, B67::V4, B67::V5, B67::V6, B67::V7, B67::V8, B67::V9, B67::V10, B67::V11, B67::V12, B67::V13, B67::V14, B67::V15, B67::V16, B67::V17, B67::V18, B67::V19, B67::V20, B67::V21, B67::V22, B67::V23, B67::V24, B67::V25, B67::V26, B67::V27, B67::V28, B67::V29, B67::V30, B67::V31, B67::V32, B67::V33, B67::V34, B67::V35, B67::V36, B67::V37, B67::V38, B67::V39, B67::V40, B67::V41, B67::V42, B67::V43, B67::V44, B67::V45, B67::V46, B67::V47, B67::V48, B67::V49, B67::V50, B67::V51, B67::V52, B67::V53, B67::V54, B67::V55, B67::V56, B67::V57, B67::V58, B67::V59, B67::V60, B67::V61, B67::V62, B67::V63, B67::V64, B67::V65, B67::V66];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B67::V0 => 0,
            B67::V1 => 1,
            B67::V2 => 2,
            B67::V3 => 3,
            B67::V4 => 4,
            B67::V5 => 5,
            B67::V6 => 6,
            B67::V7 => 7,
            B67::V8 => 8,
            B67::V9 => 9,
            B67::V10 => 10,
            B67::V11 => 11,
            B67::V12 => 12,
            B67::V13 => 13,
            B67::V14 => 14,
            B67::V15 => 15,
            B67::V16 => 16,
            B67::V17 => 17,
            B67::V18 => 18,
            B67::V19 => 19,
            B67::V20 => 20,
            B67::V21 => 21,
            B67::V22 => 22,
            B67::V23 => 23,
            B67::V24 => 24,
            B67::V25 => 25,
            B67::V26 => 26,
            B67::V27 => 27,
            B67::V28 => 28,
            B67::V29 => 29,
            B67::V30 => 30,
            B67::V31 => 31,
            B67::V32 => 32,
            B67::V33 => 33,
            B67::V34 => 34,
            B67::V35 => 35,
            B67::V36 => 36,
            B67::V37 => 37,
            B67::V38 => 38,
            B67::V39 => 39,
            B67::V40 => 40,
            B67::V41 => 41,
            B67::V42 => 42,
            B67::V43 => 43,
            B67::V44 => 44,
            B67::V45 => 45,
            B67::V46 => 46,
            B67::V47 => 47,
            B67::V48 => 48,
            B67::V49 => 49,
            B67::V50 => 50,
            B67::V51 => 51,
            B67::V52 => 52,
            B67::V53 => 53,
            B67::V54 => 54,
            B67::V55 => 55,
            B67::V56 => 56,
            B67::V57 => 57,
            B67::V58 => 58,
            B67::V59 => 59,
            B67::V60 => 60,
            B67::V61 => 61,
            B67::V62 => 62,
            B67::V63 => 63,
            B67::V64 => 64,
            B67::V65 => 65,
            B67::V66 => 66,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..67 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_78 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B126 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125 }
impl Dom for B126 {
    const N: usize = 126;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B126] = &[B126::V0, B126::V1, B126::V2, B126::V3, B126::V4, B126::V5, B126::V6, B126::V7, B126::V8, B126::V9, B126::V10, B126::V11, B126::V12, B126::V13, B126::V14, B126::V15, B126::V16, B126::V17, B126::V18, B126::V19, B126::V20, B126::V21, B126::V22, B126::V23, B126::V24, B126::V25, B126::V26, B126::V27, B126::V28, B126::V29, B126::V30, B126::V31, B126::V32, B126::V33, B126::V34, B126::V35, B126::V36, B126::V37, B126::V38, B126::V39, B126::V40, B126::V41, B126::V42, B126::V43, B126::V44, B126::V45, B126::V46, B126::V47, B126::V48, B126::V49, B126::V50, B126::V51, B126::V52, B126::V53, B126::V54, B126::V55, B126::V56, B126::V57, B126::V58, B126::V59, B126::V60, B126::V61, B126::V62, B126::V63, B126::V64, B126::V65, B126::V66, B126::V67, B126::V68, B126::V69, B126::V70, B126::V71, B126::V72, B126::V73, B126::V74, B126::V75, B126::V76, B126::V77, B126::V78, B126::V79, B126::V80, B126::V81, B126::V82, B126::V83, B126::V84, B126::V85, B126::V86, B126::V87, B126::V88, B126::V89, B126::V90, B126::V91, B126::V92, B126::V93, B126::V94, B126::V95, B126::V96, B126::V97, B126::V98, B126::V99, B126::V100, B126::V101, B126::V102, B126::V103, B126::V104, B126::V105, B126::V106, B126::V107, B126::V108, B126::V109, B126::V110, B126::V111, B126::V112, B126::V113, B126::V114, B126::V115, B126::V116, B126::V117, B126::V118, B126::V119, B126::V120, B126::V121, B126::V122, B126::V123, B126::V124, B126::V125];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B126::V0 => 0,
            B126::V1 => 1,
            B126::V2 => 2,
            B126::V3 => 3,
            B126::V4 => 4,
            B126::V5 => 5,
            B126::V6 => 6,
            B126::V7 => 7,
            B126::V8 => 8,
            B126::V9 => 9,
            B126::V10 => 10,
            B126::V11 => 11,
            B126::V12 => 12,
            B126::V13 => 13,
            B126::V14 => 14,
            B126::V15 => 15,
            B126::V16 => 16,
            B126::V17 => 17,
            B126::V18 => 18,
            B126::V19 => 19,
            B126::V20 => 20,
            B126::V21 => 21,
            B126::V22 => 22,
            B126::V23 => 23,
            B126::V24 => 24,
            B126::V25 => 25,
            B126::V26 => 26,
            B126::V27 => 27,
            B126::V28 => 28,
            B126::V29 => 29,
            B126::V30 => 30,
            B126::V31 => 31,
            B126::V32 => 32,
            B126::V33 => 33,
            B126::V34 => 34,
            B126::V35 => 35,
            B126::V36 => 36,
            B126::V37 => 37,
            B126::V38 => 38,
            B126::V39 => 39,
            B126::V40 => 40,
            B126::V41 => 41,
            B126::V42 => 42,
            B126::V43 => 43,
            B126::V44 => 44,
            B126::V45 => 45,
            B126::V46 => 46,
            B126::V47 => 47,
            B126::V48 => 48,
            B126::V49 => 49,
            B126::V50 => 50,
            B126::V51 => 51,
            B126::V52 => 52,
            B126::V53 => 53,
            B126::V54 => 54,
            B126::V55 => 55,
            B126::V56 => 56,
            B126::V57 => 57,
            B126::V58 => 58,
            B126::V59 => 59,
            B126::V60 => 60,
            B126::V61 => 61,
            B126::V62 => 62,
            B126::V63 => 63,
            B126::V64 => 64,
            B126::V65 => 65,
            B126::V66 => 66,
            B126::V67 => 67,
            B126::V68 => 68,
            B126::V69 => 69,
            B126::V70 => 70,
            B126::V71 => 71,
            B126::V72 => 72,
            B126::V73 => 73,
            B126::V74 => 74,
            B126::V75 => 75,
            B126::V76 => 76,
            B126::V77 => 77,
            B126::V78 => 78,
            B126::V79 => 79,
            B126::V80 => 80,
            B126::V81 => 81,
            B126::V82 => 82,
            B126::V83 => 83,
            B126::V84 => 84,
            B126::V85 => 85,
            B126::V86 => 86,
            B126::V87 => 87,
            B126::V88 => 88,
            B126::V89 => 89,
            B126::V90 => 90,
            B126::V91 => 91,
            B126::V92 => 92,
            B126::V93 => 93,
            B126::V94 => 94,
            B126::V95 => 95,
            B126::V96 => 96,
            B126::V97 => 97,
            B126::V98 => 98,
            B126::V99 => 99,
            B126::V100 => 100,
            B126::V101 => 101,
            B126::V102 => 102,
            B126::V103 => 103,
            B126::V104 => 104,
            B126::V105 => 105,
            B126::V106 => 106,
            B126::V107 => 107,
            B126::V108 => 108,
            B126::V109 => 109,
            B126::V110 => 110,
            B126::V111 => 111,
            B126::V112 => 112,
            B126::V113 => 113,
            B126::V114 => 114,
            B126::V115 => 115,
            B126::V116 => 116,
            B126::V117 => 117,
            B126::V118 => 118,
            B126::V119 => 119,
            B126::V120 => 120,
            B126::V121 => 121,
            B126::V122 => 122,
            B126::V123 => 123,
            B126::V124 => 124,
            B126::V125 => 125,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..126 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_79 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N192 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191 }
impl Dom for N192 {
    const N: usize = 192;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N192] = &[N192::V0, N192::V1, N192::V2, N192::V3, N192::V4, N192::V5, N192::V6, N192::V7, N192::V8, N192::V9, N192::V10, N192::V11, N192::V12, N192::V13, N192::V14, N192::V15, N192::V16, N192::V17, N192::V18, N192::V19, N192::V20, N192::V21, N192::V22, N192::V23, N192::V24, N192::V25, N192::V26, N192::V27, N192::V28, N192::V29, N192::V30, N192::V31, N192::V32, N192::V33, N192::V34, N192::V35, N192::V36, N192::V37, N192::V38, N192::V39, N192::V40, N192::V41, N192::V42, N192::V43, N192::V44, N192::V45, N192::V46, N192::V47, N192::V48, N192::V49, N192::V50, N192::V51, N192::V52, N192::V53, N192::V54, N192::V55, N192::V56, N192::V57, N192::V58, N192::V59, N192::V60, N192::V61, N192::V62, N192::V63, N192::V64, N192::V65, N192::V66, N192::V67, N192::V68, N192::V69, N192::V70, N192::V71, N192::V72, N192::V73, N192::V74, N192::V75, N192::V76, N192::V77, N192::V78, N192::V79, N192::V80, N192::V81, N192::V82, N192::V83, N192::V84, N192::V85, N192::V86, N192::V87, N192::V88, N192::V89, N192::V90, N192::V91, N192::V92, N192::V93, N192::V94, N192::V95, N192::V96, N192::V97, N192::V98, N192::V99, N192::V100, N192::V101, N192::V102, N192::V103, N192::V104, N192::V105, N192::V106, N192::V107, N192::V108, N192::V109, N192::V110, N192::V111, N192::V112, N192::V113, N192::V114, N192::V115, N192::V116, N192::V117, N192::V118, N192::V119, N192::V120, N192::V121, N192::V122, N192::V123, N192::V124, N192::V125, N192::V126, N192::V127, N192::V128, N192::V129, N192::V130, N192::V131, N192::V132, N192::V133, N192::V134, N192::V135, N192::V136, N192::V137, N192::V138, N192::V139, N192::V140, N192::V141, N192::V142, N192::V143, N192::V144, N192::V145, N192::V146, N192::V147, N192::V148, N192::V149, N192::V150, N192::V151, N192::V152, N192::V153, N192::V154, N192::V155, N192::V156, N192::V157, N192::V158, N192::V159, N192::V160, N192::V161, N192::V162, N192::V163, N192::V164, N192::V165, N192::V166, N192::V167, N192::V168, N192::V169, N192::V170, N192::V171, N192::V172, N192::V173, N192::V174, N192::V175, N192::V176, N192::V177, N192::V178, N192::V179, N192::V180, N192::V181, N192::V182, N192::V183, N192::V184, N192::V185, N192::V186, N192::V187, N192::V188, N192::V189, N192::V190, N192::V191];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N192::V0 => 0,
            N192::V1 => 1,
            N192::V2 => 2,
            N192::V3 => 3,
            N192::V4 => 4,
            N192::V5 => 5,
            N192::V6 => 6,
            N192::V7 => 7,
            N192::V8 => 8,
            N192::V9 => 9,
            N192::V10 => 10,
            N192::V11 => 11,
            N192::V12 => 12,
            N192::V13 => 13,
            N192::V14 => 14,
            N192::V15 => 15,
            N192::V16 => 16,
            N192::V17 => 17,
            N192::V18 => 18,
            N192::V19 => 19,
            N192::V20 => 20,
            N192::V21 => 21,
            N192::V22 => 22,
            N192::V23 => 23,
            N192::V24 => 24,
            N192::V25 => 25,
            N192::V26 => 26,
            N192::V27 => 27,
            N192::V28 => 28,
            N192::V29 => 29,
            N192::V30 => 30,
            N192::V31 => 31,
            N192::V32 => 32,
            N192::V33 => 33,
            N192::V34 => 34,
            N192::V35 => 35,
            N192::V36 => 36,
            N192::V37 => 37,
            N192::V38 => 38,
            N192::V39 => 39,
            N192::V40 => 40,
            N192::V41 => 41,
            N192::V42 => 42,
            N192::V43 => 43,
            N192::V44 => 44,
            N192::V45 => 45,
            N192::V46 => 46,
            N192::V47 => 47,
            N192::V48 => 48,
            N192::V49 => 49,
            N192::V50 => 50,
            N192::V51 => 51,
            N192::V52 => 52,
            N192::V53 => 53,
            N192::V54 => 54,
            N192::V55 => 55,
            N192::V56 => 56,
            N192::V57 => 57,
            N192::V58 => 58,
            N192::V59 => 59,
            N192::V60 => 60,
            N192::V61 => 61,
            N192::V62 => 62,
            N192::V63 => 63,
            N192::V64 => 64,
            N192::V65 => 65,
            N192::V66 => 66,
            N192::V67 => 67,
            N192::V68 => 68,
            N192::V69 => 69,
            N192::V70 => 70,
            N192::V71 => 71,
            N192::V72 => 72,
            N192::V73 => 73,
            N192::V74 => 74,
            N192::V75 => 75,
            N192::V76 => 76,
            N192::V77 => 77,
            N192::V78 => 78,
            N192::V79 => 79,
            N192::V80 => 80,
            N192::V81 => 81,
            N192::V82 => 82,
            N192::V83 => 83,
            N192::V84 => 84,
            N192::V85 => 85,
            N192::V86 => 86,
            N192::V87 => 87,
            N192::V88 => 88,
            N192::V89 => 89,
            N192::V90 => 90,
            N192::V91 => 91,
            N192::V92 => 92,
            N192::V93 => 93,
            N192::V94 => 94,
            N192::V95 => 95,
            N192::V96 => 96,
            N192::V97 => 97,
            N192::V98 => 98,
            N192::V99 => 99,
            N192::V100 => 100,
            N192::V101 => 101,
            N192::V102 => 102,
            N192::V103 => 103,
            N192::V104 => 104,
            N192::V105 => 105,
            N192::V106 => 106,
            N192::V107 => 107,
            N192::V108 => 108,
            N192::V109 => 109,
            N192::V110 => 110,
            N192::V111 => 111,
            N192::V112 => 112,
            N192::V113 => 113,
            N192::V114 => 114,
            N192::V115 => 115,
            N192::V116 => 116,
            N192::V117 => 117,
            N192::V118 => 118,
            N192::V119 => 119,
            N192::V120 => 120,
            N192::V121 => 121,
            N192::V122 => 122,
            N192::V123 => 123,
            N192::V124 => 124,
            N192::V125 => 125,
            N192::V126 => 126,
            N192::V127 => 127,
            N192::V128 => 128,
            N192::V129 => 129,
            N192::V130 => 130,
            N192::V131 => 131,
            N192::V132 => 132,
            N192::V133 => 133,
            N192::V134 => 134,
            N192::V135 => 135,
            N192::V136 => 136,
            N192::V137 => 137,
            N192::V138 => 138,
            N192::V139 => 139,
            N192::V140 => 140,
            N192::V141 => 141,
            N192::V142 => 142,
            N192::V143 => 143,
            N192::V144 => 144,
            N192::V145 => 145,
            N192::V146 => 146,
            N192::V147 => 147,
            N192::V148 => 148,
            N192::V149 => 149,
            N192::V150 => 150,
            N192::V151 => 151,
            N192::V152 => 152,
            N192::V153 => 153,
            N192::V154 => 154,
            N192::V155 => 155,
            N192::V156 => 156,
            N192::V157 => 157,
            N192::V158 => 158,
            N192::V159 => 159,
            N192::V160 => 160,
            N192::V161 => 161,
            N192::V162 => 162,
            N192::V163 => 163,
            N192::V164 => 164,
            N192::V165 => 165,
            N192::V166 => 166,
            N192::V167 => 167,
            N192::V168 => 168,
            N192::V169 => 169,
            N192::V170 => 170,
            N192::V171 => 171,
            N192::V172 => 172,
            N192::V173 => 173,
            N192::V174 => 174,
            N192::V175 => 175,
            N192::V176 => 176,
            N192::V177 => 177,
            N192::V178 => 178,
            N192::V179 => 179,
            N192::V180 => 180,
            N192::V181 => 181,
            N192::V182 => 182,
            N192::V183 => 183,
            N192::V184 => 184,
            N192::V185 => 185,
            N192::V186 => 186,
            N192::V187 => 187,
            N192::V188 => 188,
            N192::V189 => 189,
            N192::V190 => 190,
            N192::V191 => 191,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..192 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_80 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum M17 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16(bool) }
impl Dom for M17 {
    const N: usize = 15 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return M17::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return M17::V1; } i -= 1;
        if i == 0 { return M17::V2; } i -= 1;
        if i == 0 { return M17::V3; } i -= 1;
        if i == 0 { return M17::V4; } i -= 1;
        if i == 0 { return M17::V5; } i -= 1;
        if i == 0 { return M17::V6; } i -= 1;
        if i == 0 { return M17::V7; } i -= 1;
        if i == 0 { return M17::V8; } i -= 1;
        if i == 0 { return M17::V9; } i -= 1;
        if i == 0 { return M17::V10; } i -= 1;
        if i == 0 { return M17::V11; } i -= 1;
        if i == 0 { return M17::V12; } i -= 1;
        if i == 0 { return M17::V13; } i -= 1;
        if i == 0 { return M17::V14; } i -= 1;
        if i == 0 { return M17::V15; } i -= 1;
        if i < <bool as Dom>::N { return M17::V16(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            M17::V0(x) => off(0, <bool as Dom>::idx(x)),
            M17::V1 => 0 + <bool as Dom>::N,
            M17::V2 => 1 + <bool as Dom>::N,
            M17::V3 => 2 + <bool as Dom>::N,
            M17::V4 => 3 + <bool as Dom>::N,
            M17::V5 => 4 + <bool as Dom>::N,
            M17::V6 => 5 + <bool as Dom>::N,
            M17::V7 => 6 + <bool as Dom>::N,
            M17::V8 => 7 + <bool as Dom>::N,
            M17::V9 => 8 + <bool as Dom>::N,
            M17::V10 => 9 + <bool as Dom>::N,
            M17::V11 => 10 + <bool as Dom>::N,
            M17::V12 => 11 + <bool as Dom>::N,
            M17::V13 => 12 + <bool as Dom>::N,
            M17::V14 => 13 + <bool as Dom>::N,
            M17::V15 => 14 + <bool as Dom>::N,
            M17::V16(x) => off(15 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_81 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum M256 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255(bool) }
impl Dom for M256 {
    const N: usize = 254 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return M256::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return M256::V1; } i -= 1;
        if i == 0 { return M256::V2; } i -= 1;
        if i == 0 { return M256::V3; } i -= 1;
        if i == 0 { return M256::V4; } i -= 1;
        if i == 0 { return M256::V5; } i -= 1;
        if i == 0 { return M256::V6; } i -= 1;
        if i == 0 { return M256::V7; } i -= 1;
        if i == 0 { return M256::V8; } i -= 1;
        if i == 0 { return M256::V9; } i -= 1;
        if i == 0 { return M256::V10; } i -= 1;
        if i == 0 { return M256::V11; } i -= 1;
        if i == 0 { return M256::V12; } i -= 1;
        if i == 0 { return M256::V13; } i -= 1;
        if i == 0 { return M256::V14; } i -= 1;
        if i == 0 { return M256::V15; } i -= 1;
        if i == 0 { return M256::V16; } i -= 1;
        if i == 0 { return M256::V17; } i -= 1;
        if i == 0 { return M256::V18; } i -= 1;
        if i == 0 { return M256::V19; } i -= 1;
        if i == 0 { return M256::V20; } i -= 1;
        if i == 0 { return M256::V21; } i -= 1;
        if i == 0 { return M256::V22; } i -= 1;
        if i == 0 { return M256::V23; } i -= 1;
        if i == 0 { return M256::V24; } i -= 1;
        if i == 0 { return M256::V25; } i -= 1;
        if i == 0 { return M256::V26; } i -= 1;
        if i == 0 { return M256::V27; } i -= 1;
        if i == 0 { return M256::V28; } i -= 1;
        if i == 0 { return M256::V29; } i -= 1;
        if i == 0 { return M256::V30; } i -= 1;
        if i == 0 { return M256::V31; } i -= 1;
        if i == 0 { return M256::V32; } i -= 1;
        if i == 0 { return M256::V33; } i -= 1;
        if i == 0 { return M256::V34; } i -= 1;
        if i == 0 { return M256::V35; } i -= 1;
        if i == 0 { return M256::V36; } i -= 1;
        if i == 0 { return M256::V37; } i -= 1;
        if i == 0 { return M256::V38; } i -= 1;
        if i == 0 { return M256::V39; } i -= 1;
        if i == 0 { return M256::V40; } i -= 1;
        if i == 0 { return M256::V41; } i -= 1;
        if i == 0 { return M256::V42; } i -= 1;
        if i == 0 { return M256::V43; } i -= 1;
        if i == 0 { return M256::V44; } i -= 1;
        if i == 0 { return M256::V45; } i -= 1;
        if i == 0 { return M256::V46; } i -= 1;
        if i == 0 { return M256::V47; } i -= 1;
        if i == 0 { return M256::V48; } i -= 1;
        if i == 0 { return M256::V49; } i -= 1;
        if i == 0 { return M256::V50; } i -= 1;
        if i == 0 { return M256::V51; } i -= 1;
        if i == 0 { return M256::V52; } i -= 1;
        if i == 0 { return M256::V53; } i -= 1;
        if i == 0 { return M256::V54; } i -= 1;
        if i == 0 { return M256::V55; } i -= 1;
        if i == 0 { return M256::V56; } i -= 1;
        if i == 0 { return M256::V57; } i -= 1;
        if i == 0 { return M256::V58; } i -= 1;
        if i == 0 { return M256::V59; } i -= 1;
        if i == 0 { return M256::V60; } i -= 1;
        if i == 0 { return M256::V61; } i -= 1;
        if i == 0 { return M256::V62; } i -= 1;
        if i == 0 { return M256::V63; } i -= 1;
        if i == 0 { return M256::V64; } i -= 1;
        if i == 0 { return M256::V65; } i -= 1;
        if i == 0 { return M256::V66; } i -= 1;
        if i == 0 { return M256::V67; } i -= 1;
        if i == 0 { return M256::V68; } i -= 1;
        if i == 0 { return M256::V69; } i -= 1;
        if i == 0 { return M256::V70; } i -= 1;
        if i == 0 { return M256::V71; } i -= 1;
        if i == 0 { return M256::V72; } i -= 1;
        if i == 0 { return M256::V73; } i -= 1;
        if i == 0 { return M256::V74; } i -= 1;
        if i == 0 { return M256::V75; } i -= 1;
        if i == 0 { return M256::V76; } i -= 1;
        if i == 0 { return M256::V77; } i -= 1;
        if i == 0 { return M256::V78; } i -= 1;
        if i == 0 { return M256::V79; } i -= 1;
        if i == 0 { return M256::V80; } i -= 1;
        if i == 0 { return M256::V81; } i -= 1;
        if i == 0 { return M256::V82; } i -= 1;
        if i == 0 { return M256::V83; } i -= 1;
        if i == 0 { return M256::V84; } i -= 1;
        if i == 0 { return M256::V85; } i -= 1;
        if i == 0 { return M256::V86; } i -= 1;
        if i == 0 { return M256::V87; } i -= 1;
        if i == 0 { return M256::V88; } i -= 1;
        if i == 0 { return M256::V89; } i -= 1;
        if i == 0 { return M256::V90; } i -= 1;
        if i == 0 { return M256::V91; } i -= 1;
        if i == 0 { return M256::V92; } i -= 1;
        if i == 0 { return M256::V93; } i -= 1;
        if i == 0 { return M256::V94; } i -= 1;
        if i == 0 { return M256::V95; } i -= 1;
        if i == 0 { return M256::V96; } i -= 1;
        if i == 0 { return M256::V97; } i -= 1;
        if i == 0 { return M256::V98; } i -= 1;
        if i == 0 { return M256::V99; } i -= 1;
        if i == 0 { return M256::V100; } i -= 1;
        if i == 0 { return M256::V101; } i -= 1;
        if i == 0 { return M256::V102; } i -= 1;
        if i == 0 { return M256::V103; } i -= 1;
        if i == 0 { return M256::V104; } i -= 1;
        if i == 0 { return M256::V105; } i -= 1;
        if i == 0 { return M256::V106; } i -= 1;
        if i == 0 { return M256::V107; } i -= 1;
        if i == 0 { return M256::V108; } i -= 1;
        if i == 0 { return M256::V109; } i -= 1;
        if i == 0 { return M256::V110; } i -= 1;
        if i == 0 { return M256::V111; } i -= 1;
        if i == 0 { return M256::V112; } i -= 1;
        if i == 0 { return M256::V113; } i -= 1;
        if i == 0 { return M256::V114; } i -= 1;
        if i == 0 { return M256::V115; } i -= 1;
        if i == 0 { return M256::V116; } i -= 1;
        if i == 0 { return M256::V117; } i -= 1;
        if i == 0 { return M256::V118; } i -= 1;
        if i == 0 { return M256::V119; } i -= 1;
        if i == 0 { return M256::V120; } i -= 1;
        if i == 0 { return M256::V121; } i -= 1;
        if i == 0 { return M256::V122; } i -= 1;
        if i == 0 { return M256::V123; } i -= 1;
        if i == 0 { return M256::V124; } i -= 1;
        if i == 0 { return M256::V125; } i -= 1;
        if i == 0 { return M256::V126; } i -= 1;
        if i == 0 { return M256::V127; } i -= 1;
        if i == 0 { return M256::V128; } i -= 1;
        if i == 0 { return M256::V129; } i -= 1;
        if i == 0 { return M256::V130; } i -= 1;
        if i == 0 { return M256::V131; } i -= 1;
        if i == 0 { return M256::V132; } i -= 1;
        if i == 0 { return M256::V133; } i -= 1;
        if i == 0 { return M256::V134; } i -= 1;
        if i == 0 { return M256::V135; } i -= 1;
        if i == 0 { return M256::V136; } i -= 1;
        if i == 0 { return M256::V137; } i -= 1;
        if i == 0 { return M256::V138; } i -= 1;
        if i == 0 { return M256::V139; } i -= 1;
        if i == 0 { return M256::V140; } i -= 1;
        if i == 0 { return M256::V141; } i -= 1;
        if i == 0 { return M256::V142; } i -= 1;
        if i == 0 { return M256::V143; } i -= 1;
        if i == 0 { return M256::V144; } i -= 1;
        if i == 0 { return M256::V145; } i -= 1;
        if i == 0 { return M256::V146; } i -= 1;
        if i == 0 { return M256::V147; } i -= 1;
        if i == 0 { return M256::V148; } i -= 1;
        if i == 0 { return M256::V149; } i -= 1;
        if i == 0 { return M256::V150; } i -= 1;
        if i == 0 { return M256::V151; } i -= 1;
        if i == 0 { return M256::V152; } i -= 1;
        if i == 0 { return M256::V153; } i -= 1;
        if i == 0 { return M256::V154; } i -= 1;
        if i == 0 { return M256::V155; } i -= 1;
        if i == 0 { return M256::V156; } i -= 1;
        if i == 0 { return M256::V157; } i -= 1;
        if i == 0 { return M256::V158; } i -= 1;
        if i == 0 { return M256::V159; } i -= 1;
        if i == 0 { return M256::V160; } i -= 1;
        if i == 0 { return M256::V161; } i -= 1;
        if i == 0 { return M256::V162; } i -= 1;
        if i == 0 { return M256::V163; } i -= 1;
        if i == 0 { return M256::V164; } i -= 1;
        if i == 0 { return M256::V165; } i -= 1;
        if i == 0 { return M256::V166; } i -= 1;
        if i == 0 { return M256::V167; } i -= 1;
        if i == 0 { return M256::V168; } i -= 1;
        if i == 0 { return M256::V169; } i -= 1;
        if i == 0 { return M256::V170; } i -= 1;
        if i == 0 { return M256::V171; } i -= 1;
        if i == 0 { return M256::V172; } i -= 1;
        if i == 0 { return M256::V173; } i -= 1;
        if i == 0 { return M256::V174; } i -= 1;
        if i == 0 { return M256::V175; } i -= 1;
        if i == 0 { return M256::V176; } i -= 1;
        if i == 0 { return M256::V177; } i -= 1;
        if i == 0 { return M256::V178; } i -= 1;
        if i == 0 { return M256::V179; } i -= 1;
        if i == 0 { return M256::V180; } i -= 1;
        if i == 0 { return M256::V181; } i -= 1;
        if i == 0 { return M256::V182; } i -= 1;
        if i == 0 { return M256::V183; } i -= 1;
        if i == 0 { return M256::V184; } i -= 1;
        if i == 0 { return M256::V185; } i -= 1;
        if i == 0 { return M256::V186; } i -= 1;
        if i == 0 { return M256::V187; } i -= 1;
        if i == 0 { return M256::V188; } i -= 1;
        if i == 0 { return M256::V189; } i -= 1;
        if i == 0 { return M256::V190; } i -= 1;
        if i == 0 { return M256::V191; } i -= 1;
        if i == 0 { return M256::V192; } i -= 1;
        if i == 0 { return M256::V193; } i -= 1;
        if i == 0 { return M256::V194; } i -= 1;
        if i == 0 { return M256::V195; } i -= 1;
        if i == 0 { return M256::V196; } i -= 1;
        if i == 0 { return M256::V197; } i -= 1;
        if i == 0 { return M256::V198; } i -= 1;
        if i == 0 { return M256::V199; } i -= 1;
        if i == 0 { return M256::V200; } i -= 1;
        if i == 0 { return M256::V201; } i -= 1;
        if i == 0 { return M256::V202; } i -= 1;
        if i == 0 { return M256::V203; } i -= 1;
        if i == 0 { return M256::V204; } i -= 1;
        if i == 0 { return M256::V205; } i -= 1;
        if i == 0 { return M256::V206; } i -= 1;
        if i == 0 { return M256::V207; } i -= 1;
        if i == 0 { return M256::V208; } i -= 1;
        if i == 0 { return M256::V209; } i -= 1;
        if i == 0 { return M256::V210; } i -= 1;
        if i == 0 { return M256::V211; } i -= 1;
        if i == 0 { return M256::V212; } i -= 1;
        if i == 0 { return M256::V213; } i -= 1;
        if i == 0 { return M256::V214; } i -= 1;
        if i == 0 { return M256::V215; } i -= 1;
        if i == 0 { return M256::V216; } i -= 1;
        if i == 0 { return M256::V217; } i -= 1;
        if i == 0 { return M256::V218; } i -= 1;
        if i == 0 { return M256::V219; } i -= 1;
        if i == 0 { return M256::V220; } i -= 1;
        if i == 0 { return M256::V221; } i -= 1;
        if i == 0 { return M256::V222; } i -= 1;
        if i == 0 { return M256::V223; } i -= 1;
        if i == 0 { return M256::V224; } i -= 1;
        if i == 0 { return M256::V225; } i -= 1;
        if i == 0 { return M256::V226; } i -= 1;
        if i == 0 { return M256::V227; } i -= 1;
        if i == 0 { return M256::V228; } i -= 1;
        if i == 0 { return M256::V229; } i -= 1;
        if i == 0 { return M256::V230; } i -= 1;
        if i == 0 { return M256::V231; } i -= 1;
        if i == 0 { return M256::V232; } i -= 1;
        if i == 0 { return M256::V233; } i -= 1;
        if i == 0 { return M256::V234; } i -= 1;
        if i == 0 { return M256::V235; } i -= 1;
        if i == 0 { return M256::V236; } i -= 1;
        if i == 0 { return M256::V237; } i -= 1;
        if i == 0 { return M256::V238; } i -= 1;
        if i == 0 { return M256::V239; } i -= 1;
        if i == 0 { return M256::V240; } i -= 1;
        if i == 0 { return M256::V241; } i -= 1;
        if i == 0 { return M256::V242; } i -= 1;
        if i == 0 { return M256::V243; } i -= 1;
        if i == 0 { return M256::V244; } i -= 1;
        if i == 0 { return M256::V245; } i -= 1;
        if i == 0 { return M256::V246; } i -= 1;
        if i == 0 { return M256::V247; } i -= 1;
        if i == 0 { return M256::V248; } i -= 1;
        if i == 0 { return M256::V249; } i -= 1;
        if i == 0 { return M256::V250; } i -= 1;
        if i == 0 { return M256::V251; } i -= 1;
        if i == 0 { return M256::V252; } i -= 1;
        if i == 0 { return M256::V253; } i -= 1;
        if i == 0 { return M256::V254; } i -= 1;
        if i < <bool as Dom>::N { return M256::V255(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            M256::V0(x) => off(0, <bool as Dom>::idx(x)),
            M256::V1 => 0 + <bool as Dom>::N,
            M256::V2 => 1 + <bool as Dom>::N,
            M256::V3 => 2 + <bool as Dom>::N,
            M256::V4 => 3 + <bool as Dom>::N,
            M256::V5 => 4 + <bool as Dom>::N,
            M256::V6 => 5 + <bool as Dom>::N,
            M256::V7 => 6 + <bool as Dom>::N,
            M256::V8 => 7 + <bool as Dom>::N,
            M256::V9 => 8 + <bool as Dom>::N,
            M256::V10 => 9 + <bool as Dom>::N,
            M256::V11 => 10 + <bool as Dom>::N,
            M256::V12 => 11 + <bool as Dom>::N,
            M256::V13 => 12 + <bool as Dom>::N,
            M256::V14 => 13 + <bool as Dom>::N,
            M256::V15 => 14 + <bool as Dom>::N,
            M256::V16 => 15 + <bool as Dom>::N,
            M256::V17 => 16 + <bool as Dom>::N,
            M256::V18 => 17 + <bool as Dom>::N,
            M256::V19 => 18 + <bool as Dom>::N,
            M256::V20 => 19 + <bool as Dom>::N,
            M256::V21 => 20 + <bool as Dom>::N,
            M256::V22 => 21 + <bool as Dom>::N,
            M256::V23 => 22 + <bool as Dom>::N,
            M256::V24 => 23 + <bool as Dom>::N,
            M256::V25 => 24 + <bool as Dom>::N,
            M256::V26 => 25 + <bool as Dom>::N,
            M256::V27 => 26 + <bool as Dom>::N,
            M256::V28 => 27 + <bool as Dom>::N,
            M256::V29 => 28 + <bool as Dom>::N,
            M256::V30 => 29 + <bool as Dom>::N,
            M256::V31 => 30 + <bool as Dom>::N,
            M256::V32 => 31 + <bool as Dom>::N,
            M256::V33 => 32 + <bool as Dom>::N,
            M256::V34 => 33 + <bool as Dom>::N,
            M256::V35 => 34 + <bool as Dom>::N,
            M256::V36 => 35 + <bool as Dom>::N,
            M256::V37 => 36 + <bool as Dom>::N,
            M256::V38 => 37 + <bool as Dom>::N,
            M256::V39 => 38 + <bool as Dom>::N,
            M256::V40 => 39 + <bool as Dom>::N,
            M256::V41 => 40 + <bool as Dom>::N,
            M256::V42 => 41 + <bool as Dom>::N,
            M256::V43 => 42 + <bool as Dom>::N,
            M256::V44 => 43 + <bool as Dom>::N,
            M256::V45 => 44 + <bool as Dom>::N,
            M256::V46 => 45 + <bool as Dom>::N,
            M256::V47 => 46 + <bool as Dom>::N,
            M256::V48 => 47 + <bool as Dom>::N,
            M256::V49 => 48 + <bool as Dom>::N,
            M256::V50 => 49 + <bool as Dom>::N,
            M256::V51 => 50 + <bool as Dom>::N,
            M256::V52 => 51 + <bool as Dom>::N,
            M256::V53 => 52 + <bool as Dom>::N,
            M256::V54 => 53 + <bool as Dom>::N,
            M256::V55 => 54 + <bool as Dom>::N,
            M256::V56 => 55 + <bool as Dom>::N,
            M256::V57 => 56 + <bool as Dom>::N,
            M256::V58 => 57 + <bool as Dom>::N,
            M256::V59 => 58 + <bool as Dom>::N,
            M256::V60 => 59 + <bool as Dom>::N,
            M256::V61 => 60 + <bool as Dom>::N,
            M256::V62 => 61 + <bool as Dom>::N,
            M256::V63 => 62 + <bool as Dom>::N,
            M256::V64 => 63 + <bool as Dom>::N,
            M256::V65 => 64 + <bool as Dom>::N,
            M256::V66 => 65 + <bool as Dom>::N,
            M256::V67 => 66 + <bool as Dom>::N,
            M256::V68 => 67 + <bool as Dom>::N,
            M256::V69 => 68 + <bool as Dom>::N,
            M256::V70 => 69 + <bool as Dom>::N,
            M256::V71 => 70 + <bool as Dom>::N,
            M256::V72 => 71 + <bool as Dom>::N,
            M256::V73 => 72 + <bool as Dom>::N,
            M256::V74 => 73 + <bool as Dom>::N,
            M256::V75 => 74 + <bool as Dom>::N,
            M256::V76 => 75 + <bool as Dom>::N,
            M256::V77 => 76 + <bool as Dom>::N,
            M256::V78 => 77 + <bool as Dom>::N,
            M256::V79 => 78 + <bool as Dom>::N,
            M256::V80 => 79 + <bool as Dom>::N,
            M256::V81 => 80 + <bool as Dom>::N,
            M256::V82 => 81 + <bool as Dom>::N,
            M256::V83 => 82 + <bool as Dom>::N,
            M256::V84 => 83 + <bool as Dom>::N,
            M256::V85 => 84 + <bool as Dom>::N,
            M256::V86 => 85 + <bool as Dom>::N,
            M256::V87 => 86 + <bool as Dom>::N,
            M256::V88 => 87 + <bool as Dom>::N,
            M256::V89 => 88 + <bool as Dom>::N,
            M256::V90 => 89 + <bool as Dom>::N,
            M256::V91 => 90 + <bool as Dom>::N,
            M256::V92 => 91 + <bool as Dom>::N,
            M256::V93 => 92 + <bool as Dom>::N,
            M256::V94 => 93 + <bool as Dom>::N,
            M256::V95 => 94 + <bool as Dom>::N,
            M256::V96 => 95 + <bool as Dom>::N,
            M256::V97 => 96 + <bool as Dom>::N,
            M256::V98 => 97 + <bool as Dom>::N,
            M256::V99 => 98 + <bool as Dom>::N,
            M256::V100 => 99 + <bool as Dom>::N,
            M256::V101 => 100 + <bool as Dom>::N,
            M256::V102 => 101 + <bool as Dom>::N,
            M256::V103 => 102 + <bool as Dom>::N,
            M256::V104 => 103 + <bool as Dom>::N,
            M256::V105 => 104 + <bool as Dom>::N,
            M256::V106 => 105 + <bool as Dom>::N,
            M256::V107 => 106 + <bool as Dom>::N,
            M256::V108 => 107 + <bool as Dom>::N,
            M256::V109 => 108 + <bool as Dom>::N,
            M256::V110 => 109 + <bool as Dom>::N,
            M256::V111 => 110 + <bool as Dom>::N,
            M256::V112 => 111 + <bool as Dom>::N,
            M256::V113 => 112 + <bool as Dom>::N,
            M256::V114 => 113 + <bool as Dom>::N,
            M256::V115 => 114 + <bool as Dom>::N,
            M256::V116 => 115 + <bool as Dom>::N,
            M256::V117 => 116 + <bool as Dom>::N,
            M256::V118 => 117 + <bool as Dom>::N,
            M256::V119 => 118 + <bool as Dom>::N,
            M256::V120 => 119 + <bool as Dom>::N,
            M256::V121 => 120 + <bool as Dom>::N,
            M256::V122 => 121 + <bool as Dom>::N,
            M256::V123 => 122 + <bool as Dom>::N,
            M256::V124 => 123 + <bool as Dom>::N,
            M256::V125 => 124 + <bool as Dom>::N,
            M256::V126 => 125 + <bool as Dom>::N,
            M256::V127 => 126 + <bool as Dom>::N,
            M256::V128 => 127 + <bool as Dom>::N,
            M256::V129 => 128 + <bool as Dom>::N,
            M256::V130 => 129 + <bool as Dom>::N,
            M256::V131 => 130 + <bool as Dom>::N,
            M256::V132 => 131 + <bool as Dom>::N,
            M256::V133 => 132 + <bool as Dom>::N,
            M256::V134 => 133 + <bool as Dom>::N,
            M256::V135 => 134 + <bool as Dom>::N,
            M256::V136 => 135 + <bool as Dom>::N,
            M256::V137 => 136 + <bool as Dom>::N,
            M256::V138 => 137 + <bool as Dom>::N,
            M256::V139 => 138 + <bool as Dom>::N,
            M256::V140 => 139 + <bool as Dom>::N,
            M256::V141 => 140 + <bool as Dom>::N,
            M256::V142 => 141 + <bool as Dom>::N,
            M256::V143 => 142 + <bool as Dom>::N,
            M256::V144 => 143 + <bool as Dom>::N,
            M256::V145 => 144 + <bool as Dom>::N,
            M256::V146 => 145 + <bool as Dom>::N,
            M256::V147 => 146 + <bool as Dom>::N,
            M256::V148 => 147 + <bool as Dom>::N,
            M256::V149 => 148 + <bool as Dom>::N,
            M256::V150 => 149 + <bool as Dom>::N,
            M256::V151 => 150 + <bool as Dom>::N,
            M256::V152 => 151 + <bool as Dom>::N,
            M256::V153 => 152 + <bool as Dom>::N,
            M256::V154 => 153 + <bool as Dom>::N,
            M256::V155 => 154 + <bool as Dom>::N,
            M256::V156 => 155 + <bool as Dom>::N,
            M256::V157 => 156 + <bool as Dom>::N,
            M256::V158 => 157 + <bool as Dom>::N,
            M256::V159 => 158 + <bool as Dom>::N,
            M256::V160 => 159 + <bool as Dom>::N,
            M256::V161 => 160 + <bool as Dom>::N,
            M256::V162 => 161 + <bool as Dom>::N,
            M256::V163 => 162 + <bool as Dom>::N,
            M256::V164 => 163 + <bool as Dom>::N,
            M256::V165 => 164 + <bool as Dom>::N,
            M256::V166 => 165 + <bool as Dom>::N,
            M256::V167 => 166 + <bool as Dom>::N,
            M256::V168 => 167 + <bool as Dom>::N,
            M256::V169 => 168 + <bool as Dom>::N,
            M256::V170 => 169 + <bool as Dom>::N,
            M256::V171 => 170 + <bool as Dom>::N,
            M256::V172 => 171 + <bool as Dom>::N,
            M256::V173 => 172 + <bool as Dom>::N,
            M256::V174 => 173 + <bool as Dom>::N,
            M256::V175 => 174 + <bool as Dom>::N,
            M256::V176 => 175 + <bool as Dom>::N,
            M256::V177 => 176 + <bool as Dom>::N,
            M256::V178 => 177 + <bool as Dom>::N,
            M256::V179 => 178 + <bool as Dom>::N,
            M256::V180 => 179 + <bool as Dom>::N,
            M256::V181 => 180 + <bool as Dom>::N,
            M256::V182 => 181 + <bool as Dom>::N,
            M256::V183 => 182 + <bool as Dom>::N,
            M256::V184 => 183 + <bool as Dom>::N,
            M256::V185 => 184 + <bool as Dom>::N,
            M256::V186 => 185 + <bool as Dom>::N,
            M256::V187 => 186 + <bool as Dom>::N,
            M256::V188 => 187 + <bool as Dom>::N,
            M256::V189 => 188 + <bool as Dom>::N,
            M256::V190 => 189 + <bool as Dom>::N,
            M256::V191 => 190 + <bool as Dom>::N,
            M256::V192 => 191 + <bool as Dom>::N,
            M256::V193 => 192 + <bool as Dom>::N,
            M256::V194 => 193 + <bool as Dom>::N,
            M256::V195 => 194 + <bool as Dom>::N,
            M256::V196 => 195 + <bool as Dom>::N,
            M256::V197 => 196 + <bool as Dom>::N,
            M256::V198 => 197 + <bool as Dom>::N,
            M256::V199 => 198 + <bool as Dom>::N,
            M256::V200 => 199 + <bool as Dom>::N,
            M256::V201 => 200 + <bool as Dom>::N,
            M256::V202 => 201 + <bool as Dom>::N,
            M256::V203 => 202 + <bool as Dom>::N,
            M256::V204 => 203 + <bool as Dom>::N,
            M256::V205 => 204 + <bool as Dom>::N,
            M256::V206 => 205 + <bool as Dom>::N,
            M256::V207 => 206 + <bool as Dom>::N,
            M256::V208 => 207 + <bool as Dom>::N,
            M256::V209 => 208 + <bool as Dom>::N,
            M256::V210 => 209 + <bool as Dom>::N,
            M256::V211 => 210 + <bool as Dom>::N,
            M256::V212 => 211 + <bool as Dom>::N,
            M256::V213 => 212 + <bool as Dom>::N,
            M256::V214 => 213 + <bool as Dom>::N,
            M256::V215 => 214 + <bool as Dom>::N,
            M256::V216 => 215 + <bool as Dom>::N,
            M256::V217 => 216 + <bool as Dom>::N,
            M256::V218 => 217 + <bool as Dom>::N,
            M256::V219 => 218 + <bool as Dom>::N,
            M256::V220 => 219 + <bool as Dom>::N,
            M256::V221 => 220 + <bool as Dom>::N,
            M256::V222 => 221 + <bool as Dom>::N,
            M256::V223 => 222 + <bool as Dom>::N,
            M256::V224 => 223 + <bool as Dom>::N,
            M256::V225 => 224 + <bool as Dom>::N,
            M256::V226 => 225 + <bool as Dom>::N,
            M256::V227 => 226 + <bool as Dom>::N,
            M256::V228 => 227 + <bool as Dom>::N,
            M256::V229 => 228 + <bool as Dom>::N,
            M256::V230 => 229 + <bool as Dom>::N,
            M256::V231 => 230 + <bool as Dom>::N,
            M256::V232 => 231 + <bool as Dom>::N,
            M256::V233 => 232 + <bool as Dom>::N,
            M256::V234 => 233 + <bool as Dom>::N,
            M256::V235 => 234 + <bool as Dom>::N,
            M256::V236 => 235 + <bool as Dom>::N,
            M256::V237 => 236 + <bool as Dom>::N,
            M256::V238 => 237 + <bool as Dom>::N,
            M256::V239 => 238 + <bool as Dom>::N,
            M256::V240 => 239 + <bool as Dom>::N,
            M256::V241 => 240 + <bool as Dom>::N,
            M256::V242 => 241 + <bool as Dom>::N,
            M256::V243 => 242 + <bool as Dom>::N,
            M256::V244 => 243 + <bool as Dom>::N,
            M256::V245 => 244 + <bool as Dom>::N,
            M256::V246 => 245 + <bool as Dom>::N,
            M256::V247 => 246 + <bool as Dom>::N,
            M256::V248 => 247 + <bool as Dom>::N,
            M256::V249 => 248 + <bool as Dom>::N,
            M256::V250 => 249 + <bool as Dom>::N,
            M256::V251 => 250 + <bool as Dom>::N,
            M256::V252 => 251 + <bool as Dom>::N,
            M256::V253 => 252 + <bool as Dom>::N,
            M256::V254 => 253 + <bool as Dom>::N,
            M256::V255(x) => off(254 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub fn jobs(c: &mut fmcore::report::Ctx) {
    c.job("S1E", |w| fmcheck_slots::unit::<m_0::S1E>(w, "S1E"));
    c.job("S2US", |w| fmcheck_slots::unit::<m_1::S2US>(w, "S2US"));
    c.job("S2UW", |w| fmcheck_slots::unit::<m_2::S2UW>(w, "S2UW"));
    c.job("S2BC", |w| fmcheck_slots::unit::<m_3::S2BC>(w, "S2BC"));
    c.job("S2SE", |w| fmcheck_slots::unit::<m_4::S2SE>(w, "S2SE"));
    c.job("S2OB", |w| fmcheck_slots::unit::<m_5::S2OB>(w, "S2OB"));
    c.job("S2OT", |w| fmcheck_slots::unit::<m_6::S2OT>(w, "S2OT"));
    c.job("S2EZ", |w| fmcheck_slots::unit::<m_7::S2EZ>(w, "S2EZ"));
    c.job("S2KO", |w| fmcheck_slots::unit::<m_8::S2KO>(w, "S2KO"));
    c.job("S2ZU", |w| fmcheck_slots::unit::<m_9::S2ZU>(w, "S2ZU"));
    c.job("S2ZD", |w| fmcheck_slots::unit::<m_10::S2ZD>(w, "S2ZD"));
    c.job("S2CK", |w| fmcheck_slots::unit::<m_11::S2CK>(w, "S2CK"));
    c.job("S2DS", |w| fmcheck_slots::unit::<m_12::S2DS>(w, "S2DS"));
    c.job("S2DW", |w| fmcheck_slots::unit::<m_13::S2DW>(w, "S2DW"));
    c.job("S2TC", |w| fmcheck_slots::unit::<m_14::S2TC>(w, "S2TC"));
    c.job("S2WE", |w| fmcheck_slots::unit::<m_15::S2WE>(w, "S2WE"));
    c.job("S3UUS", |w| fmcheck_slots::unit::<m_16::S3UUS>(w, "S3UUS"));
    c.job("S3UBK", |w| fmcheck_slots::unit::<m_17::S3UBK>(w, "S3UBK"));
    c.job("S3UOU", |w| fmcheck_slots::unit::<m_18::S3UOU>(w, "S3UOU"));
    c.job("S3UKS", |w| fmcheck_slots::unit::<m_19::S3UKS>(w, "S3UKS"));
    c.job("S3UDK", |w| fmcheck_slots::unit::<m_20::S3UDK>(w, "S3UDK"));
    c.job("S3BBU", |w| fmcheck_slots::unit::<m_21::S3BBU>(w, "S3BBU"));
    c.job("S3BSS", |w| fmcheck_slots::unit::<m_22::S3BSS>(w, "S3BSS"));
    c.job("S3BOK", |w| fmcheck_slots::unit::<m_23::S3BOK>(w, "S3BOK"));
    c.job("S3BDU", |w| fmcheck_slots::unit::<m_24::S3BDU>(w, "S3BDU"));
    c.job("S3SUS", |w| fmcheck_slots::unit::<m_25::S3SUS>(w, "S3SUS"));
    c.job("S3SBK", |w| fmcheck_slots::unit::<m_26::S3SBK>(w, "S3SBK"));
    c.job("S3SOU", |w| fmcheck_slots::unit::<m_27::S3SOU>(w, "S3SOU"));
    c.job("S3SKS", |w| fmcheck_slots::unit::<m_28::S3SKS>(w, "S3SKS"));
    c.job("S3SDK", |w| fmcheck_slots::unit::<m_29::S3SDK>(w, "S3SDK"));
    c.job("S3OBU", |w| fmcheck_slots::unit::<m_30::S3OBU>(w, "S3OBU"));
    c.job("S3OSS", |w| fmcheck_slots::unit::<m_31::S3OSS>(w, "S3OSS"));
    c.job("S3OOK", |w| fmcheck_slots::unit::<m_32::S3OOK>(w, "S3OOK"));
    c.job("S3ODU", |w| fmcheck_slots::unit::<m_33::S3ODU>(w, "S3ODU"));
    c.job("S3KUS", |w| fmcheck_slots::unit::<m_34::S3KUS>(w, "S3KUS"));
    c.job("S3KBK", |w| fmcheck_slots::unit::<m_35::S3KBK>(w, "S3KBK"));
    c.job("S3KOU", |w| fmcheck_slots::unit::<m_36::S3KOU>(w, "S3KOU"));
    c.job("S3KKS", |w| fmcheck_slots::unit::<m_37::S3KKS>(w, "S3KKS"));
    c.job("S3KDK", |w| fmcheck_slots::unit::<m_38::S3KDK>(w, "S3KDK"));
    c.job("S3DBU", |w| fmcheck_slots::unit::<m_39::S3DBU>(w, "S3DBU"));
    c.job("S3DSS", |w| fmcheck_slots::unit::<m_40::S3DSS>(w, "S3DSS"));
    c.job("S3DOK", |w| fmcheck_slots::unit::<m_41::S3DOK>(w, "S3DOK"));
    c.job("S3DDU", |w| fmcheck_slots::unit::<m_42::S3DDU>(w, "S3DDU"));
    c.job("S4UUBU", |w| fmcheck_slots::unit::<m_43::S4UUBU>(w, "S4UUBU"));
    c.job("S4UBUS", |w| fmcheck_slots::unit::<m_44::S4UBUS>(w, "S4UBUS"));
    c.job("S4USUB", |w| fmcheck_slots::unit::<m_45::S4USUB>(w, "S4USUB"));
    c.job("S4BUUU", |w| fmcheck_slots::unit::<m_46::S4BUUU>(w, "S4BUUU"));
    c.job("S4BUSS", |w| fmcheck_slots::unit::<m_47::S4BUSS>(w, "S4BUSS"));
    c.job("S4BBSB", |w| fmcheck_slots::unit::<m_48::S4BBSB>(w, "S4BBSB"));
    c.job("S4BSSU", |w| fmcheck_slots::unit::<m_49::S4BSSU>(w, "S4BSSU"));
    c.job("S4SUBS", |w| fmcheck_slots::unit::<m_50::S4SUBS>(w, "S4SUBS"));
    c.job("S4SBBB", |w| fmcheck_slots::unit::<m_51::S4SBBB>(w, "S4SBBB"));
    c.job("S4SSBU", |w| fmcheck_slots::unit::<m_52::S4SSBU>(w, "S4SSBU"));
    c.job("S5UUUOO", |w| fmcheck_slots::unit::<m_53::S5UUUOO>(w, "S5UUUOO"));
    c.job("S5UOUOO", |w| fmcheck_slots::unit::<m_54::S5UOUOO>(w, "S5UOUOO"));
    c.job("S5OUUOO", |w| fmcheck_slots::unit::<m_55::S5OUUOO>(w, "S5OUUOO"));
    c.job("S5OOUOO", |w| fmcheck_slots::unit::<m_56::S5OOUOO>(w, "S5OOUOO"));
    c.job("P6_3", |w| fmcheck_slots::unit::<m_57::P6_3>(w, "P6_3"));
    c.job("P8_5", |w| fmcheck_slots::unit::<m_58::P8_5>(w, "P8_5"));
    c.job("P12_5", |w| fmcheck_slots::unit::<m_59::P12_5>(w, "P12_5"));
    c.job("B0", |w| fmcheck_slots::unit::<m_60::B0>(w, "B0"));
    c.job("B3", |w| fmcheck_slots::unit::<m_61::B3>(w, "B3"));
    c.job("B7", |w| fmcheck_slots::unit::<m_62::B7>(w, "B7"));
    c.job("B11", |w| fmcheck_slots::unit::<m_63::B11>(w, "B11"));
    c.job("B15", |w| fmcheck_slots::unit::<m_64::B15>(w, "B15"));
    c.job("B19", |w| fmcheck_slots::unit::<m_65::B19>(w, "B19"));
    c.job("B23", |w| fmcheck_slots::unit::<m_66::B23>(w, "B23"));
    c.job("B27", |w| fmcheck_slots::unit::<m_67::B27>(w, "B27"));
    c.job("B31", |w| fmcheck_slots::unit::<m_68::B31>(w, "B31"));
    c.job("B35", |w| fmcheck_slots::unit::<m_69::B35>(w, "B35"));
    c.job("B39", |w| fmcheck_slots::unit::<m_70::B39>(w, "B39"));
    c.job("B43", |w| fmcheck_slots::unit::<m_71::B43>(w, "B43"));
    c.job("B47", |w| fmcheck_slots::unit::<m_72::B47>(w, "B47"));
    c.job("B51", |w| fmcheck_slots::unit::<m_73::B51>(w, "B51"));
    c.job("B55", |w| fmcheck_slots::unit::<m_74::B55>(w, "B55"));
    c.job("B59", |w| fmcheck_slots::unit::<m_75::B59>(w, "B59"));
    c.job("B63", |w| fmcheck_slots::unit::<m_76::B63>(w, "B63"));
    c.job("B67", |w| fmcheck_slots::unit::<m_77::B67>(w, "B67"));
    c.job("B126", |w| fmcheck_slots::unit::<m_78::B126>(w, "B126"));
    c.job("N192", |w| fmcheck_slots::unit::<m_79::N192>(w, "N192"));
    c.job("M17", |w| fmcheck_slots::unit::<m_80::M17>(w, "M17"));
    c.job("M256", |w| fmcheck_slots::unit::<m_81::M256>(w, "M256"));
}
