//! Generated by gen2.py; do not edit.
#![allow(unused_imports, non_camel_case_types, non_upper_case_globals, non_snake_case, dead_code, uncommon_codepoints, clippy::all)]
#![recursion_limit = "1024"]
use fmcheck_dom::{off, Dom};
use fixed_map::Key;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U2 { V0, V1 }
impl Dom for U2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U2] = &[U2::V0, U2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U2::V0 => 0,
            U2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K2 { V0, V1 }
impl Dom for K2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K2] = &[K2::V0, K2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K2::V0 => 0,
            K2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U0 {  }
impl Dom for U0 {
    const N: usize = 0;
    const STATIC: bool = true;
    fn at(_: usize) -> Self { panic!("no such key") }
    fn idx(self) -> usize { match self {} }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..0 { out.push(*next); *next += 1; }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum NestA { X(bool), Y }
impl Dom for NestA {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return NestA::X(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return NestA::Y; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            NestA::X(x) => off(0, <bool as Dom>::idx(x)),
            NestA::Y => 0 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
pub mod m_0 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S1D { V0(u8) }
impl Dom for S1D {
    const N: usize = 0 + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S1D::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S1D::V0(x) => off(0, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_1 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2UZ { V0, V1(U0) }
impl Dom for S2UZ {
    const N: usize = 1 + <U0 as Dom>::N;
    const STATIC: bool = true && <U0 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S2UZ::V0; } i -= 1;
        if i < <U0 as Dom>::N { return S2UZ::V1(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2UZ::V0 => 0,
            S2UZ::V1(x) => off(1, <U0 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <U0 as Dom>::ranks(out, next);
    }
}
}
pub mod m_2 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2BO { V0(bool), V1(Option<bool>) }
impl Dom for S2BO {
    const N: usize = 0 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S2BO::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S2BO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2BO::V0(x) => off(0, <bool as Dom>::idx(x)),
            S2BO::V1(x) => off(0 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_3 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2SU { V0(()), V1 }
impl Dom for S2SU {
    const N: usize = 1 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S2SU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S2SU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2SU::V0(x) => off(0, <() as Dom>::idx(x)),
            S2SU::V1 => 0 + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_4 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2SD { V0(()), V1(u8) }
impl Dom for S2SD {
    const N: usize = 0 + <() as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S2SD::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <u8 as Dom>::N { return S2SD::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2SD::V0(x) => off(0, <() as Dom>::idx(x)),
            S2SD::V1(x) => off(0 + <() as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_5 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2OK { V0(Option<bool>), V1(K2) }
impl Dom for S2OK {
    const N: usize = 0 + <Option<bool> as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S2OK::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <K2 as Dom>::N { return S2OK::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2OK::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S2OK::V1(x) => off(0 + <Option<bool> as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_6 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2ES { V0(U2), V1(()) }
impl Dom for S2ES {
    const N: usize = 0 + <U2 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return S2ES::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <() as Dom>::N { return S2ES::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2ES::V0(x) => off(0, <U2 as Dom>::idx(x)),
            S2ES::V1(x) => off(0 + <U2 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_7 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2EW { V0(U2), V1(Option<u32>) }
impl Dom for S2EW {
    const N: usize = 0 + <U2 as Dom>::N + <Option<u32> as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <Option<u32> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return S2EW::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <Option<u32> as Dom>::N { return S2EW::V1(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2EW::V0(x) => off(0, <U2 as Dom>::idx(x)),
            S2EW::V1(x) => off(0 + <U2 as Dom>::N, <Option<u32> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <Option<u32> as Dom>::ranks(out, next);
    }
}
}
pub mod m_8 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2KC { V0(K2), V1(NestA) }
impl Dom for S2KC {
    const N: usize = 0 + <K2 as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S2KC::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <NestA as Dom>::N { return S2KC::V1(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2KC::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S2KC::V1(x) => off(0 + <K2 as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
}
pub mod m_9 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2ZE { V0(U0), V1(U2) }
impl Dom for S2ZE {
    const N: usize = 0 + <U0 as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <U0 as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U0 as Dom>::N { return S2ZE::V0(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        if i < <U2 as Dom>::N { return S2ZE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2ZE::V0(x) => off(0, <U0 as Dom>::idx(x)),
            S2ZE::V1(x) => off(0 + <U0 as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U0 as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_10 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2CB { V0(NestA), V1(bool) }
impl Dom for S2CB {
    const N: usize = 0 + <NestA as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return S2CB::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <bool as Dom>::N { return S2CB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2CB::V0(x) => off(0, <NestA as Dom>::idx(x)),
            S2CB::V1(x) => off(0 + <NestA as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_11 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2CT { V0(NestA), V1(&'static str) }
impl Dom for S2CT {
    const N: usize = 0 + <NestA as Dom>::N + <&'static str as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return S2CT::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <&'static str as Dom>::N { return S2CT::V1(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2CT::V0(x) => off(0, <NestA as Dom>::idx(x)),
            S2CT::V1(x) => off(0 + <NestA as Dom>::N, <&'static str as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        <&'static str as Dom>::ranks(out, next);
    }
}
}
pub mod m_12 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2DZ { V0(u8), V1(U0) }
impl Dom for S2DZ {
    const N: usize = 0 + <u8 as Dom>::N + <U0 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <U0 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S2DZ::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <U0 as Dom>::N { return S2DZ::V1(<U0 as Dom>::at(i)); } i -= <U0 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2DZ::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S2DZ::V1(x) => off(0 + <u8 as Dom>::N, <U0 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <U0 as Dom>::ranks(out, next);
    }
}
}
pub mod m_13 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2TO { V0(&'static str), V1(Option<bool>) }
impl Dom for S2TO {
    const N: usize = 0 + <&'static str as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <&'static str as Dom>::N { return S2TO::V0(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S2TO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2TO::V0(x) => off(0, <&'static str as Dom>::idx(x)),
            S2TO::V1(x) => off(0 + <&'static str as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <&'static str as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_14 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2WU { V0(Option<u32>), V1 }
impl Dom for S2WU {
    const N: usize = 1 + <Option<u32> as Dom>::N;
    const STATIC: bool = true && <Option<u32> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<u32> as Dom>::N { return S2WU::V0(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        if i == 0 { return S2WU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2WU::V0(x) => off(0, <Option<u32> as Dom>::idx(x)),
            S2WU::V1 => 0 + <Option<u32> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<u32> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_15 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S2WD { V0(Option<u32>), V1(u8) }
impl Dom for S2WD {
    const N: usize = 0 + <Option<u32> as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <Option<u32> as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<u32> as Dom>::N { return S2WD::V0(<Option<u32> as Dom>::at(i)); } i -= <Option<u32> as Dom>::N;
        if i < <u8 as Dom>::N { return S2WD::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S2WD::V0(x) => off(0, <Option<u32> as Dom>::idx(x)),
            S2WD::V1(x) => off(0 + <Option<u32> as Dom>::N, <u8 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<u32> as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
    }
}
}
pub mod m_16 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UBU { V0, V1(bool), V2 }
impl Dom for S3UBU {
    const N: usize = 2 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UBU::V0; } i -= 1;
        if i < <bool as Dom>::N { return S3UBU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S3UBU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UBU::V0 => 0,
            S3UBU::V1(x) => off(1, <bool as Dom>::idx(x)),
            S3UBU::V2 => 1 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_17 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3USS { V0, V1(()), V2(()) }
impl Dom for S3USS {
    const N: usize = 1 + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3USS::V0; } i -= 1;
        if i < <() as Dom>::N { return S3USS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S3USS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3USS::V0 => 0,
            S3USS::V1(x) => off(1, <() as Dom>::idx(x)),
            S3USS::V2(x) => off(1 + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_18 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UOK { V0, V1(Option<bool>), V2(K2) }
impl Dom for S3UOK {
    const N: usize = 1 + <Option<bool> as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UOK::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S3UOK::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <K2 as Dom>::N { return S3UOK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UOK::V0 => 0,
            S3UOK::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
            S3UOK::V2(x) => off(1 + <Option<bool> as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_19 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3UDU { V0, V1(u8), V2 }
impl Dom for S3UDU {
    const N: usize = 2 + <u8 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S3UDU::V0; } i -= 1;
        if i < <u8 as Dom>::N { return S3UDU::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return S3UDU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3UDU::V0 => 0,
            S3UDU::V1(x) => off(1, <u8 as Dom>::idx(x)),
            S3UDU::V2 => 1 + <u8 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_20 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BUS { V0(bool), V1, V2(()) }
impl Dom for S3BUS {
    const N: usize = 1 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BUS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S3BUS::V1; } i -= 1;
        if i < <() as Dom>::N { return S3BUS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BUS::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BUS::V1 => 0 + <bool as Dom>::N,
            S3BUS::V2(x) => off(1 + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_21 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BBK { V0(bool), V1(bool), V2(K2) }
impl Dom for S3BBK {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BBK::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S3BBK::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <K2 as Dom>::N { return S3BBK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BBK::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BBK::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S3BBK::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_22 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BOU { V0(bool), V1(Option<bool>), V2 }
impl Dom for S3BOU {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BOU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3BOU::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S3BOU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BOU::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BOU::V1(x) => off(0 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3BOU::V2 => 0 + <bool as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_23 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BKS { V0(bool), V1(K2), V2(()) }
impl Dom for S3BKS {
    const N: usize = 0 + <bool as Dom>::N + <K2 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <K2 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BKS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <K2 as Dom>::N { return S3BKS::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <() as Dom>::N { return S3BKS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BKS::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BKS::V1(x) => off(0 + <bool as Dom>::N, <K2 as Dom>::idx(x)),
            S3BKS::V2(x) => off(0 + <bool as Dom>::N + <K2 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_24 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3BDK { V0(bool), V1(u8), V2(K2) }
impl Dom for S3BDK {
    const N: usize = 0 + <bool as Dom>::N + <u8 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <u8 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S3BDK::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <u8 as Dom>::N { return S3BDK::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <K2 as Dom>::N { return S3BDK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3BDK::V0(x) => off(0, <bool as Dom>::idx(x)),
            S3BDK::V1(x) => off(0 + <bool as Dom>::N, <u8 as Dom>::idx(x)),
            S3BDK::V2(x) => off(0 + <bool as Dom>::N + <u8 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_25 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SBU { V0(()), V1(bool), V2 }
impl Dom for S3SBU {
    const N: usize = 1 + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SBU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S3SBU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S3SBU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SBU::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SBU::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S3SBU::V2 => 0 + <() as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_26 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SSS { V0(()), V1(()), V2(()) }
impl Dom for S3SSS {
    const N: usize = 0 + <() as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SSS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S3SSS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S3SSS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SSS::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SSS::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            S3SSS::V2(x) => off(0 + <() as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_27 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SOK { V0(()), V1(Option<bool>), V2(K2) }
impl Dom for S3SOK {
    const N: usize = 0 + <() as Dom>::N + <Option<bool> as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SOK::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3SOK::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <K2 as Dom>::N { return S3SOK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SOK::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SOK::V1(x) => off(0 + <() as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3SOK::V2(x) => off(0 + <() as Dom>::N + <Option<bool> as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_28 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3SDU { V0(()), V1(u8), V2 }
impl Dom for S3SDU {
    const N: usize = 1 + <() as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S3SDU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <u8 as Dom>::N { return S3SDU::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return S3SDU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3SDU::V0(x) => off(0, <() as Dom>::idx(x)),
            S3SDU::V1(x) => off(0 + <() as Dom>::N, <u8 as Dom>::idx(x)),
            S3SDU::V2 => 0 + <() as Dom>::N + <u8 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_29 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OUS { V0(Option<bool>), V1, V2(()) }
impl Dom for S3OUS {
    const N: usize = 1 + <Option<bool> as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OUS::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S3OUS::V1; } i -= 1;
        if i < <() as Dom>::N { return S3OUS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OUS::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OUS::V1 => 0 + <Option<bool> as Dom>::N,
            S3OUS::V2(x) => off(1 + <Option<bool> as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_30 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OBK { V0(Option<bool>), V1(bool), V2(K2) }
impl Dom for S3OBK {
    const N: usize = 0 + <Option<bool> as Dom>::N + <bool as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <bool as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OBK::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <bool as Dom>::N { return S3OBK::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <K2 as Dom>::N { return S3OBK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OBK::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OBK::V1(x) => off(0 + <Option<bool> as Dom>::N, <bool as Dom>::idx(x)),
            S3OBK::V2(x) => off(0 + <Option<bool> as Dom>::N + <bool as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_31 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OOU { V0(Option<bool>), V1(Option<bool>), V2 }
impl Dom for S3OOU {
    const N: usize = 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OOU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3OOU::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S3OOU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OOU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OOU::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3OOU::V2 => 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_32 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3OKS { V0(Option<bool>), V1(K2), V2(()) }
impl Dom for S3OKS {
    const N: usize = 0 + <Option<bool> as Dom>::N + <K2 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <K2 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3OKS::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <K2 as Dom>::N { return S3OKS::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <() as Dom>::N { return S3OKS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3OKS::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3OKS::V1(x) => off(0 + <Option<bool> as Dom>::N, <K2 as Dom>::idx(x)),
            S3OKS::V2(x) => off(0 + <Option<bool> as Dom>::N + <K2 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_33 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3ODK { V0(Option<bool>), V1(u8), V2(K2) }
impl Dom for S3ODK {
    const N: usize = 0 + <Option<bool> as Dom>::N + <u8 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <u8 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S3ODK::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <u8 as Dom>::N { return S3ODK::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <K2 as Dom>::N { return S3ODK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3ODK::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S3ODK::V1(x) => off(0 + <Option<bool> as Dom>::N, <u8 as Dom>::idx(x)),
            S3ODK::V2(x) => off(0 + <Option<bool> as Dom>::N + <u8 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_34 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KBU { V0(K2), V1(bool), V2 }
impl Dom for S3KBU {
    const N: usize = 1 + <K2 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KBU::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <bool as Dom>::N { return S3KBU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S3KBU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KBU::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KBU::V1(x) => off(0 + <K2 as Dom>::N, <bool as Dom>::idx(x)),
            S3KBU::V2 => 0 + <K2 as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_35 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KSS { V0(K2), V1(()), V2(()) }
impl Dom for S3KSS {
    const N: usize = 0 + <K2 as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KSS::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <() as Dom>::N { return S3KSS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S3KSS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KSS::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KSS::V1(x) => off(0 + <K2 as Dom>::N, <() as Dom>::idx(x)),
            S3KSS::V2(x) => off(0 + <K2 as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_36 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KOK { V0(K2), V1(Option<bool>), V2(K2) }
impl Dom for S3KOK {
    const N: usize = 0 + <K2 as Dom>::N + <Option<bool> as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KOK::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3KOK::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <K2 as Dom>::N { return S3KOK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KOK::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KOK::V1(x) => off(0 + <K2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3KOK::V2(x) => off(0 + <K2 as Dom>::N + <Option<bool> as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_37 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3KDU { V0(K2), V1(u8), V2 }
impl Dom for S3KDU {
    const N: usize = 1 + <K2 as Dom>::N + <u8 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC && <u8 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return S3KDU::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <u8 as Dom>::N { return S3KDU::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return S3KDU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3KDU::V0(x) => off(0, <K2 as Dom>::idx(x)),
            S3KDU::V1(x) => off(0 + <K2 as Dom>::N, <u8 as Dom>::idx(x)),
            S3KDU::V2 => 0 + <K2 as Dom>::N + <u8 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_38 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DUS { V0(u8), V1, V2(()) }
impl Dom for S3DUS {
    const N: usize = 1 + <u8 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DUS::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return S3DUS::V1; } i -= 1;
        if i < <() as Dom>::N { return S3DUS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DUS::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DUS::V1 => 0 + <u8 as Dom>::N,
            S3DUS::V2(x) => off(1 + <u8 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_39 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DBK { V0(u8), V1(bool), V2(K2) }
impl Dom for S3DBK {
    const N: usize = 0 + <u8 as Dom>::N + <bool as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <bool as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DBK::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <bool as Dom>::N { return S3DBK::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <K2 as Dom>::N { return S3DBK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DBK::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DBK::V1(x) => off(0 + <u8 as Dom>::N, <bool as Dom>::idx(x)),
            S3DBK::V2(x) => off(0 + <u8 as Dom>::N + <bool as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_40 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DOU { V0(u8), V1(Option<bool>), V2 }
impl Dom for S3DOU {
    const N: usize = 1 + <u8 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DOU::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S3DOU::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S3DOU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DOU::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DOU::V1(x) => off(0 + <u8 as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S3DOU::V2 => 0 + <u8 as Dom>::N + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_41 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DKS { V0(u8), V1(K2), V2(()) }
impl Dom for S3DKS {
    const N: usize = 0 + <u8 as Dom>::N + <K2 as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <K2 as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DKS::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <K2 as Dom>::N { return S3DKS::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i < <() as Dom>::N { return S3DKS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DKS::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DKS::V1(x) => off(0 + <u8 as Dom>::N, <K2 as Dom>::idx(x)),
            S3DKS::V2(x) => off(0 + <u8 as Dom>::N + <K2 as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_42 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S3DDK { V0(u8), V1(u8), V2(K2) }
impl Dom for S3DDK {
    const N: usize = 0 + <u8 as Dom>::N + <u8 as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <u8 as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return S3DDK::V0(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <u8 as Dom>::N { return S3DDK::V1(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i < <K2 as Dom>::N { return S3DDK::V2(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S3DDK::V0(x) => off(0, <u8 as Dom>::idx(x)),
            S3DDK::V1(x) => off(0 + <u8 as Dom>::N, <u8 as Dom>::idx(x)),
            S3DDK::V2(x) => off(0 + <u8 as Dom>::N + <u8 as Dom>::N, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        <u8 as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
    }
}
}
pub mod m_43 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UUSB { V0, V1, V2(()), V3(bool) }
impl Dom for S4UUSB {
    const N: usize = 2 + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UUSB::V0; } i -= 1;
        if i == 0 { return S4UUSB::V1; } i -= 1;
        if i < <() as Dom>::N { return S4UUSB::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4UUSB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UUSB::V0 => 0,
            S4UUSB::V1 => 1,
            S4UUSB::V2(x) => off(2, <() as Dom>::idx(x)),
            S4UUSB::V3(x) => off(2 + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_44 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4UBSU { V0, V1(bool), V2(()), V3 }
impl Dom for S4UBSU {
    const N: usize = 2 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4UBSU::V0; } i -= 1;
        if i < <bool as Dom>::N { return S4UBSU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4UBSU::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4UBSU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4UBSU::V0 => 0,
            S4UBSU::V1(x) => off(1, <bool as Dom>::idx(x)),
            S4UBSU::V2(x) => off(1 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4UBSU::V3 => 1 + <bool as Dom>::N + <() as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_45 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4USBS { V0, V1(()), V2(bool), V3(()) }
impl Dom for S4USBS {
    const N: usize = 1 + <() as Dom>::N + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S4USBS::V0; } i -= 1;
        if i < <() as Dom>::N { return S4USBS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4USBS::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4USBS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4USBS::V0 => 0,
            S4USBS::V1(x) => off(1, <() as Dom>::idx(x)),
            S4USBS::V2(x) => off(1 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4USBS::V3(x) => off(1 + <() as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_46 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BUBB { V0(bool), V1, V2(bool), V3(bool) }
impl Dom for S4BUBB {
    const N: usize = 1 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BUBB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4BUBB::V1; } i -= 1;
        if i < <bool as Dom>::N { return S4BUBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4BUBB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BUBB::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BUBB::V1 => 0 + <bool as Dom>::N,
            S4BUBB::V2(x) => off(1 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4BUBB::V3(x) => off(1 + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_47 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BBBU { V0(bool), V1(bool), V2(bool), V3 }
impl Dom for S4BBBU {
    const N: usize = 1 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BBBU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4BBBU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return S4BBBU::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4BBBU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BBBU::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BBBU::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4BBBU::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
            S4BBBU::V3 => 0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_48 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4BSUS { V0(bool), V1(()), V2, V3(()) }
impl Dom for S4BSUS {
    const N: usize = 1 + <bool as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return S4BSUS::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4BSUS::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4BSUS::V2; } i -= 1;
        if i < <() as Dom>::N { return S4BSUS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4BSUS::V0(x) => off(0, <bool as Dom>::idx(x)),
            S4BSUS::V1(x) => off(0 + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4BSUS::V2 => 0 + <bool as Dom>::N + <() as Dom>::N,
            S4BSUS::V3(x) => off(1 + <bool as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_49 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SUUB { V0(()), V1, V2, V3(bool) }
impl Dom for S4SUUB {
    const N: usize = 2 + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SUUB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return S4SUUB::V1; } i -= 1;
        if i == 0 { return S4SUUB::V2; } i -= 1;
        if i < <bool as Dom>::N { return S4SUUB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SUUB::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SUUB::V1 => 0 + <() as Dom>::N,
            S4SUUB::V2 => 1 + <() as Dom>::N,
            S4SUUB::V3(x) => off(2 + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_50 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SBUU { V0(()), V1(bool), V2, V3 }
impl Dom for S4SBUU {
    const N: usize = 2 + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SBUU::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4SBUU::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return S4SBUU::V2; } i -= 1;
        if i == 0 { return S4SBUU::V3; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SBUU::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SBUU::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4SBUU::V2 => 0 + <() as Dom>::N + <bool as Dom>::N,
            S4SBUU::V3 => 1 + <() as Dom>::N + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_51 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SBSS { V0(()), V1(bool), V2(()), V3(()) }
impl Dom for S4SBSS {
    const N: usize = 0 + <() as Dom>::N + <bool as Dom>::N + <() as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SBSS::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4SBSS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return S4SBSS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4SBSS::V3(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SBSS::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SBSS::V1(x) => off(0 + <() as Dom>::N, <bool as Dom>::idx(x)),
            S4SBSS::V2(x) => off(0 + <() as Dom>::N + <bool as Dom>::N, <() as Dom>::idx(x)),
            S4SBSS::V3(x) => off(0 + <() as Dom>::N + <bool as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
}
pub mod m_52 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S4SSSB { V0(()), V1(()), V2(()), V3(bool) }
impl Dom for S4SSSB {
    const N: usize = 0 + <() as Dom>::N + <() as Dom>::N + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <() as Dom>::STATIC && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return S4SSSB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4SSSB::V1(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <() as Dom>::N { return S4SSSB::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i < <bool as Dom>::N { return S4SSSB::V3(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S4SSSB::V0(x) => off(0, <() as Dom>::idx(x)),
            S4SSSB::V1(x) => off(0 + <() as Dom>::N, <() as Dom>::idx(x)),
            S4SSSB::V2(x) => off(0 + <() as Dom>::N + <() as Dom>::N, <() as Dom>::idx(x)),
            S4SSSB::V3(x) => off(0 + <() as Dom>::N + <() as Dom>::N + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
}
pub mod m_53 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5UUOOO { V0, V1, V2(Option<bool>), V3(Option<bool>), V4(Option<bool>) }
impl Dom for S5UUOOO {
    const N: usize = 2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S5UUOOO::V0; } i -= 1;
        if i == 0 { return S5UUOOO::V1; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UUOOO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5UUOOO::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5UUOOO::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5UUOOO::V0 => 0,
            S5UUOOO::V1 => 1,
            S5UUOOO::V2(x) => off(2, <Option<bool> as Dom>::idx(x)),
            S5UUOOO::V3(x) => off(2 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5UUOOO::V4(x) => off(2 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_54 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5UOOOO { V0, V1(Option<bool>), V2(Option<bool>), V3(Option<bool>), V4(Option<bool>) }
impl Dom for S5UOOOO {
    const N: usize = 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return S5UOOOO::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5UOOOO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5UOOOO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5UOOOO::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5UOOOO::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5UOOOO::V0 => 0,
            S5UOOOO::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
            S5UOOOO::V2(x) => off(1 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5UOOOO::V3(x) => off(1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5UOOOO::V4(x) => off(1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_55 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5OUOOO { V0(Option<bool>), V1, V2(Option<bool>), V3(Option<bool>), V4(Option<bool>) }
impl Dom for S5OUOOO {
    const N: usize = 1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S5OUOOO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return S5OUOOO::V1; } i -= 1;
        if i < <Option<bool> as Dom>::N { return S5OUOOO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OUOOO::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OUOOO::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5OUOOO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S5OUOOO::V1 => 0 + <Option<bool> as Dom>::N,
            S5OUOOO::V2(x) => off(1 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OUOOO::V3(x) => off(1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OUOOO::V4(x) => off(1 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_56 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum S5OOOOO { V0(Option<bool>), V1(Option<bool>), V2(Option<bool>), V3(Option<bool>), V4(Option<bool>) }
impl Dom for S5OOOOO {
    const N: usize = 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return S5OOOOO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OOOOO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OOOOO::V2(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OOOOO::V3(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return S5OOOOO::V4(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            S5OOOOO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            S5OOOOO::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OOOOO::V2(x) => off(0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OOOOO::V3(x) => off(0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
            S5OOOOO::V4(x) => off(0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_57 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P8_1 { V0, V1(bool), V2, V3, V4, V5, V6, V7 }
impl Dom for P8_1 {
    const N: usize = 7 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P8_1::V0; } i -= 1;
        if i < <bool as Dom>::N { return P8_1::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P8_1::V2; } i -= 1;
        if i == 0 { return P8_1::V3; } i -= 1;
        if i == 0 { return P8_1::V4; } i -= 1;
        if i == 0 { return P8_1::V5; } i -= 1;
        if i == 0 { return P8_1::V6; } i -= 1;
        if i == 0 { return P8_1::V7; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P8_1::V0 => 0,
            P8_1::V1(x) => off(1, <bool as Dom>::idx(x)),
            P8_1::V2 => 1 + <bool as Dom>::N,
            P8_1::V3 => 2 + <bool as Dom>::N,
            P8_1::V4 => 3 + <bool as Dom>::N,
            P8_1::V5 => 4 + <bool as Dom>::N,
            P8_1::V6 => 5 + <bool as Dom>::N,
            P8_1::V7 => 6 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_58 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P12_1 { V0, V1(bool), V2, V3, V4, V5, V6, V7, V8, V9, V10, V11 }
impl Dom for P12_1 {
    const N: usize = 11 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P12_1::V0; } i -= 1;
        if i < <bool as Dom>::N { return P12_1::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P12_1::V2; } i -= 1;
        if i == 0 { return P12_1::V3; } i -= 1;
        if i == 0 { return P12_1::V4; } i -= 1;
        if i == 0 { return P12_1::V5; } i -= 1;
        if i == 0 { return P12_1::V6; } i -= 1;
        if i == 0 { return P12_1::V7; } i -= 1;
        if i == 0 { return P12_1::V8; } i -= 1;
        if i == 0 { return P12_1::V9; } i -= 1;
        if i == 0 { return P12_1::V10; } i -= 1;
        if i == 0 { return P12_1::V11; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P12_1::V0 => 0,
            P12_1::V1(x) => off(1, <bool as Dom>::idx(x)),
            P12_1::V2 => 1 + <bool as Dom>::N,
            P12_1::V3 => 2 + <bool as Dom>::N,
            P12_1::V4 => 3 + <bool as Dom>::N,
            P12_1::V5 => 4 + <bool as Dom>::N,
            P12_1::V6 => 5 + <bool as Dom>::N,
            P12_1::V7 => 6 + <bool as Dom>::N,
            P12_1::V8 => 7 + <bool as Dom>::N,
            P12_1::V9 => 8 + <bool as Dom>::N,
            P12_1::V10 => 9 + <bool as Dom>::N,
            P12_1::V11 => 10 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_59 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum P12_9 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9(bool), V10, V11 }
impl Dom for P12_9 {
    const N: usize = 11 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return P12_9::V0; } i -= 1;
        if i == 0 { return P12_9::V1; } i -= 1;
        if i == 0 { return P12_9::V2; } i -= 1;
        if i == 0 { return P12_9::V3; } i -= 1;
        if i == 0 { return P12_9::V4; } i -= 1;
        if i == 0 { return P12_9::V5; } i -= 1;
        if i == 0 { return P12_9::V6; } i -= 1;
        if i == 0 { return P12_9::V7; } i -= 1;
        if i == 0 { return P12_9::V8; } i -= 1;
        if i < <bool as Dom>::N { return P12_9::V9(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return P12_9::V10; } i -= 1;
        if i == 0 { return P12_9::V11; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            P12_9::V0 => 0,
            P12_9::V1 => 1,
            P12_9::V2 => 2,
            P12_9::V3 => 3,
            P12_9::V4 => 4,
            P12_9::V5 => 5,
            P12_9::V6 => 6,
            P12_9::V7 => 7,
            P12_9::V8 => 8,
            P12_9::V9(x) => off(9, <bool as Dom>::idx(x)),
            P12_9::V10 => 9 + <bool as Dom>::N,
            P12_9::V11 => 10 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
    }
}
}
pub mod m_60 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B2 { V0, V1 }
impl Dom for B2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B2] = &[B2::V0, B2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B2::V0 => 0,
            B2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_61 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B6 { V0, V1, V2, V3, V4, V5 }
impl Dom for B6 {
    const N: usize = 6;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B6] = &[B6::V0, B6::V1, B6::V2, B6::V3, B6::V4, B6::V5];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B6::V0 => 0,
            B6::V1 => 1,
            B6::V2 => 2,
            B6::V3 => 3,
            B6::V4 => 4,
            B6::V5 => 5,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..6 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_62 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B10 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9 }
impl Dom for B10 {
    const N: usize = 10;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B10] = &[B10::V0, B10::V1, B10::V2, B10::V3, B10::V4, B10::V5, B10::V6, B10::V7, B10::V8, B10::V9];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B10::V0 => 0,
            B10::V1 => 1,
            B10::V2 => 2,
            B10::V3 => 3,
            B10::V4 => 4,
            B10::V5 => 5,
            B10::V6 => 6,
            B10::V7 => 7,
            B10::V8 => 8,
            B10::V9 => 9,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..10 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_63 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B14 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13 }
impl Dom for B14 {
    const N: usize = 14;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B14] = &[B14::V0, B14::V1, B14::V2, B14::V3, B14::V4, B14::V5, B14::V6, B14::V7, B14::V8, B14::V9, B14::V10, B14::V11, B14::V12, B14::V13];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B14::V0 => 0,
            B14::V1 => 1,
            B14::V2 => 2,
            B14::V3 => 3,
            B14::V4 => 4,
            B14::V5 => 5,
            B14::V6 => 6,
            B14::V7 => 7,
            B14::V8 => 8,
            B14::V9 => 9,
            B14::V10 => 10,
            B14::V11 => 11,
            B14::V12 => 12,
            B14::V13 => 13,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..14 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_64 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B18 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17 }
impl Dom for B18 {
    const N: usize = 18;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B18] = &[B18::V0, B18::V1, B18::V2, B18::V3, B18::V4, B18::V5, B18::V6, B18::V7, B18::V8, B18::V9, B18::V10, B18::V11, B18::V12, B18::V13, B18::V14, B18::V15, B18::V16, B18::V17];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B18::V0 => 0,
            B18::V1 => 1,
            B18::V2 => 2,
            B18::V3 => 3,
            B18::V4 => 4,
            B18::V5 => 5,
            B18::V6 => 6,
            B18::V7 => 7,
            B18::V8 => 8,
            B18::V9 => 9,
            B18::V10 => 10,
            B18::V11 => 11,
            B18::V12 => 12,
            B18::V13 => 13,
            B18::V14 => 14,
            B18::V15 => 15,
            B18::V16 => 16,
            B18::V17 => 17,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..18 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_65 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B22 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21 }
impl Dom for B22 {
    const N: usize = 22;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B22] = &[B22::V0, B22::V1, B22::V2, B22::V3, B22::V4, B22::V5, B22::V6, B22::V7, B22::V8, B22::V9, B22::V10, B22::V11, B22::V12, B22::V13, B22::V14, B22::V15, B22::V16, B22::V17, B22::V18, B22::V19, B22::V20, B22::V21];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B22::V0 => 0,
            B22::V1 => 1,
            B22::V2 => 2,
            B22::V3 => 3,
            B22::V4 => 4,
            B22::V5 => 5,
            B22::V6 => 6,
            B22::V7 => 7,
            B22::V8 => 8,
            B22::V9 => 9,
            B22::V10 => 10,
            B22::V11 => 11,
            B22::V12 => 12,
            B22::V13 => 13,
            B22::V14 => 14,
            B22::V15 => 15,
            B22::V16 => 16,
            B22::V17 => 17,
            B22::V18 => 18,
            B22::V19 => 19,
            B22::V20 => 20,
            B22::V21 => 21,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..22 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_66 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B26 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25 }
impl Dom for B26 {
    const N: usize = 26;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B26] = &[B26::V0, B26::V1, B26::V2, B26::V3, B26::V4, B26::V5, B26::V6, B26::V7, B26::V8, B26::V9, B26::V10, B26::V11, B26::V12, B26::V13, B26::V14, B26::V15, B26::V16, B26::V17, B26::V18, B26::V19, B26::V20, B26::V21, B26::V22, B26::V23, B26::V24, B26::V25];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B26::V0 => 0,
            B26::V1 => 1,
            B26::V2 => 2,
            B26::V3 => 3,
            B26::V4 => 4,
            B26::V5 => 5,
            B26::V6 => 6,
            B26::V7 => 7,
            B26::V8 => 8,
            B26::V9 => 9,
            B26::V10 => 10,
            B26::V11 => 11,
            B26::V12 => 12,
            B26::V13 => 13,
            B26::V14 => 14,
            B26::V15 => 15,
            B26::V16 => 16,
            B26::V17 => 17,
            B26::V18 => 18,
            B26::V19 => 19,
            B26::V20 => 20,
            B26::V21 => 21,
            B26::V22 => 22,
            B26::V23 => 23,
            B26::V24 => 24,
            B26::V25 => 25,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..26 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_67 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B30 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29 }
impl Dom for B30 {
    const N: usize = 30;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B30] = &[B30::V0, B30::V1, B30::V2, B30::V3, B30::V4, B30::V5, B30::V6, B30::V7, B30::V8, B30::V9, B30::V10, B30::V11, B30::V12, B30::V13, B30::V14, B30::V15, B30::V16, B30::V17, B30::V18, B30::V19, B30::V20, B30::V21, B30::V22, B30::V23, B30::V24, B30::V25, B30::V26, B30::V27, B30::V28, B30::V29];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B30::V0 => 0,
            B30::V1 => 1,
            B30::V2 => 2,
            B30::V3 => 3,
            B30::V4 => 4,
            B30::V5 => 5,
            B30::V6 => 6,
            B30::V7 => 7,
            B30::V8 => 8,
            B30::V9 => 9,
            B30::V10 => 10,
            B30::V11 => 11,
            B30::V12 => 12,
            B30::V13 => 13,
            B30::V14 => 14,
            B30::V15 => 15,
            B30::V16 => 16,
            B30::V17 => 17,
            B30::V18 => 18,
            B30::V19 => 19,
            B30::V20 => 20,
            B30::V21 => 21,
            B30::V22 => 22,
            B30::V23 => 23,
            B30::V24 => 24,
            B30::V25 => 25,
            B30::V26 => 26,
            B30::V27 => 27,
            B30::V28 => 28,
            B30::V29 => 29,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..30 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_68 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B34 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33 }
impl Dom for B34 {
    const N: usize = 34;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B34] = &[B34::V0, B34::V1, B34::V2, B34::V3, B34::V4, B34::V5, B34::V6, B34::V7, B34::V8, B34::V9, B34::V10, B34::V11, B34::V12, B34::V13, B34::V14, B34::V15, B34::V16, B34::V17, B34::V18, B34::V19, B34::V20, B34::V21, B34::V22, B34::V23, B34::V24, B34::V25, B34::V26, B34::V27, B34::V28, B34::V29, B34::V30, B34::V31, B34::V32, B34::V33];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B34::V0 => 0,
            B34::V1 => 1,
            B34::V2 => 2,
            B34::V3 => 3,
            B34::V4 => 4,
            B34::V5 => 5,
            B34::V6 => 6,
            B34::V7 => 7,
            B34::V8 => 8,
            B34::V9 => 9,
            B34::V10 => 10,
            B34::V11 => 11,
            B34::V12 => 12,
            B34::V13 => 13,
            B34::V14 => 14,
            B34::V15 => 15,
            B34::V16 => 16,
            B34::V17 => 17,
            B34::V18 => 18,
            B34::V19 => 19,
            B34::V20 => 20,
            B34::V21 => 21,
            B34::V22 => 22,
            B34::V23 => 23,
            B34::V24 => 24,
            B34::V25 => 25,
            B34::V26 => 26,
            B34::V27 => 27,
            B34::V28 => 28,
            B34::V29 => 29,
            B34::V30 => 30,
            B34::V31 => 31,
            B34::V32 => 32,
            B34::V33 => 33,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..34 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_69 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B38 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37 }
impl Dom for B38 {
    const N: usize = 38;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B38] = &[B38::V0, B38::V1, B38::V2, B38::V3, B38::V4, B38::V5, B38::V6, B38::V7, B38::V8, B38::V9, B38::V10, B38::V11, B38::V12, B38::V13, B38::V14, B38::V15, B38::V16, B38::V17, B38::V18, B38::V19, B38::V20, B38::V21, B38::V22, B38::V23, B38::V24, B38::V25, B38::V26, B38::V27, B38::V28, B38::V29, B38::V30, B38::V31, B38::V32, B38::V33, B38::V34, B38::V35, B38::V36, B38::V37];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B38::V0 => 0,
            B38::V1 => 1,
            B38::V2 => 2,
            B38::V3 => 3,
            B38::V4 => 4,
            B38::V5 => 5,
            B38::V6 => 6,
            B38::V7 => 7,
            B38::V8 => 8,
            B38::V9 => 9,
            B38::V10 => 10,
            B38::V11 => 11,
            B38::V12 => 12,
            B38::V13 => 13,
            B38::V14 => 14,
            B38::V15 => 15,
            B38::V16 => 16,
            B38::V17 => 17,
            B38::V18 => 18,
            B38::V19 => 19,
            B38::V20 => 20,
            B38::V21 => 21,
            B38::V22 => 22,
            B38::V23 => 23,
            B38::V24 => 24,
            B38::V25 => 25,
            B38::V26 => 26,
            B38::V27 => 27,
            B38::V28 => 28,
            B38::V29 => 29,
            B38::V30 => 30,
            B38::V31 => 31,
            B38::V32 => 32,
            B38::V33 => 33,
            B38::V34 => 34,
            B38::V35 => 35,
            B38::V36 => 36,
            B38::V37 => 37,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..38 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_70 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B42 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41 }
impl Dom for B42 {
    const N: usize = 42;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B42] = &[B42::V0, B42::V1, B42::V2, B42::V3, B42::V4, B42::V5, B42::V6, B42::V7, B42::V8, B42::V9, B42::V10, B42::V11, B42::V12, B42::V13, B42::V14, B42::V15, B42::V16, B42::V17, B42::V18, B42::V19, B42::V20, B42::V21, B42::V22, B42::V23, B42::V24, B42::V25, B42::V26, B42::V27, B42::V28, B42::V29, B42::V30, B42::V31, B42::V32, B42::V33, B42::V34, B42::V35, B42::V36, B42::V37, B42::V38, B42::V39, B42::V40, B42::V41];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B42::V0 => 0,
            B42::V1 => 1,
            B42::V2 => 2,
            B42::V3 => 3,
            B42::V4 => 4,
            B42::V5 => 5,
            B42::V6 => 6,
            B42::V7 => 7,
            B42::V8 => 8,
            B42::V9 => 9,
            B42::V10 => 10,
            B42::V11 => 11,
            B42::V12 => 12,
            B42::V13 => 13,
            B42::V14 => 14,
            B42::V15 => 15,
            B42::V16 => 16,
            B42::V17 => 17,
            B42::V18 => 18,
            B42::V19 => 19,
            B42::V20 => 20,
            B42::V21 => 21,
            B42::V22 => 22,
            B42::V23 => 23,
            B42::V24 => 24,
            B42::V25 => 25,
            B42::V26 => 26,
            B42::V27 => 27,
            B42::V28 => 28,
            B42::V29 => 29,
            B42::V30 => 30,
            B42::V31 => 31,
            B42::V32 => 32,
            B42::V33 => 33,
            B42::V34 => 34,
            B42::V35 => 35,
            B42::V36 => 36,
            B42::V37 => 37,
            B42::V38 => 38,
            B42::V39 => 39,
            B42::V40 => 40,
            B42::V41 => 41,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..42 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_71 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B46 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45 }
impl Dom for B46 {
    const N: usize = 46;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B46] = &[B46::V0, B46::V1, B46::V2, B46::V3, B46::V4, B46::V5, B46::V6, B46::V7, B46::V8, B46::V9, B46::V10, B46::V11, B46::V12, B46::V13, B46::V14, B46::V15, B46::V16, B46::V17, B46::V18, B46::V19, B46::V20, B46::V21, B46::V22, B46::V23, B46::V24, B46::V25, B46::V26, B46::V27, B46::V28, B46::V29, B46::V30, B46::V31, B46::V32, B46::V33, B46::V34, B46::V35, B46::V36, B46::V37, B46::V38, B46::V39, B46::V40, B46::V41, B46::V42, B46::V43, B46::V44, B46::V45];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B46::V0 => 0,
            B46::V1 => 1,
            B46::V2 => 2,
            B46::V3 => 3,
            B46::V4 => 4,
            B46::V5 => 5,
            B46::V6 => 6,
            B46::V7 => 7,
            B46::V8 => 8,
            B46::V9 => 9,
            B46::V10 => 10,
            B46::V11 => 11,
            B46::V12 => 12,
            B46::V13 => 13,
            B46::V14 => 14,
            B46::V15 => 15,
            B46::V16 => 16,
            B46::V17 => 17,
            B46::V18 => 18,
            B46::V19 => 19,
            B46::V20 => 20,
            B46::V21 => 21,
            B46::V22 => 22,
            B46::V23 => 23,
            B46::V24 => 24,
            B46::V25 => 25,
            B46::V26 => 26,
            B46::V27 => 27,
            B46::V28 => 28,
            B46::V29 => 29,
            B46::V30 => 30,
            B46::V31 => 31,
            B46::V32 => 32,
            B46::V33 => 33,
            B46::V34 => 34,
            B46::V35 => 35,
            B46::V36 => 36,
            B46::V37 => 37,
            B46::V38 => 38,
            B46::V39 => 39,
            B46::V40 => 40,
            B46::V41 => 41,
            B46::V42 => 42,
            B46::V43 => 43,
            B46::V44 => 44,
            B46::V45 => 45,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..46 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_72 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B50 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49 }
impl Dom for B50 {
    const N: usize = 50;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B50] = &[B50::V0, B50::V1, B50::V2, B50::V3, B50::V4, B50::V5, B50::V6, B50::V7, B50::V8, B50::V9, B50::V10, B50::V11, B50::V12, B50::V13, B50::V14, B50::V15, B50::V16, B50::V17, B50::V18, B50::V19, B50::V20, B50::V21, B50::V22, B50::V23, B50::V24, B50::V25, B50::V26, B50::V27, B50::V28, B50::V29, B50::V30, B50::V31, B50::V32, B50::V33, B50::V34, B50::V35, B50::V36, B50::V37, B50::V38, B50::V39, B50::V40, B50::V41, B50::V42, B50::V43, B50::V44, B50::V45, B50::V46, B50::V47, B50::V48, B50::V49];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B50::V0 => 0,
            B50::V1 => 1,
            B50::V2 => 2,
            B50::V3 => 3,
            B50::V4 => 4,
            B50::V5 => 5,
            B50::V6 => 6,
            B50::V7 => 7,
            B50::V8 => 8,
            B50::V9 => 9,
            B50::V10 => 10,
            B50::V11 => 11,
            B50::V12 => 12,
            B50::V13 => 13,
            B50::V14 => 14,
            B50::V15 => 15,
            B50::V16 => 16,
            B50::V17 => 17,
            B50::V18 => 18,
            B50::V19 => 19,
            B50::V20 => 20,
            B50::V21 => 21,
            B50::V22 => 22,
            B50::V23 => 23,
            B50::V24 => 24,
            B50::V25 => 25,
            B50::V26 => 26,
            B50::V27 => 27,
            B50::V28 => 28,
            B50::V29 => 29,
            B50::V30 => 30,
            B50::V31 => 31,
            B50::V32 => 32,
            B50::V33 => 33,
            B50::V34 => 34,
            B50::V35 => 35,
            B50::V36 => 36,
            B50::V37 => 37,
            B50::V38 => 38,
            B50::V39 => 39,
            B50::V40 => 40,
            B50::V41 => 41,
            B50::V42 => 42,
            B50::V43 => 43,
            B50::V44 => 44,
            B50::V45 => 45,
            B50::V46 => 46,
            B50::V47 => 47,
            B50::V48 => 48,
            B50::V49 => 49,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..50 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_73 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B54 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53 }
impl Dom for B54 {
    const N: usize = 54;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B54] = &[B54::V0, B54::V1, B54::V2, B54::V3, B54::V4, B54::V5, B54::V6, B54::V7, B54::V8, B54::V9, B54::V10, B54::V11, B54::V12, B54::V13, B54::V14, B54::V15, B54::V16, B54::V17, B54::V18, B54::V19, B54::V20, B54::V21, B54::V22, B54::V23, B54::V24, B54::V25, B54::V26, B54::V27, B54::V28, B54::V29, B54::V30, B54::V31, B54::V32, B54::V33, B54::V34, B54::V35, B54::V36, B54::V37, B54::V38, B54::V39, B54::V40, B54::V41, B54::V42, B54::V43, B54::V44, B54::V45, B54::V46, B54::V47, B54::V48, B54::V49, B54::V50, B54::V51, B54::V52, B54::V53];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B54::V0 => 0,
            B54::V1 => 1,
            B54::V2 => 2,
            B54::V3 => 3,
            B54::V4 => 4,
            B54::V5 => 5,
            B54::V6 => 6,
            B54::V7 => 7,
            B54::V8 => 8,
            B54::V9 => 9,
            B54::V10 => 10,
            B54::V11 => 11,
            B54::V12 => 12,
            B54::V13 => 13,
            B54::V14 => 14,
            B54::V15 => 15,
            B54::V16 => 16,
            B54::V17 => 17,
            B54::V18 => 18,
            B54::V19 => 19,
            B54::V20 => 20,
            B54::V21 => 21,
            B54::V22 => 22,
            B54::V23 => 23,
            B54::V24 => 24,
            B54::V25 => 25,
            B54::V26 => 26,
            B54::V27 => 27,
            B54::V28 => 28,
            B54::V29 => 29,
            B54::V30 => 30,
            B54::V31 => 31,
            B54::V32 => 32,
            B54::V33 => 33,
            B54::V34 => 34,
            B54::V35 => 35,
            B54::V36 => 36,
            B54::V37 => 37,
            B54::V38 => 38,
            B54::V39 => 39,
            B54::V40 => 40,
            B54::V41 => 41,
            B54::V42 => 42,
            B54::V43 => 43,
            B54::V44 => 44,
            B54::V45 => 45,
            B54::V46 => 46,
            B54::V47 => 47,
            B54::V48 => 48,
            B54::V49 => 49,
            B54::V50 => 50,
            B54::V51 => 51,
            B54::V52 => 52,
            B54::V53 => 53,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..54 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_74 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B58 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57 }
impl Dom for B58 {
    const N: usize = 58;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B58] = &[B58::V0, B58::V1, B58::V2, B58::V3, B58::V4, B58::V5, B58::V6, B58::V7, B58::V8, B58::V9, B58::V10, B58::V11, B58::V12, B58::V13, B58::V14, B58::V15, B58::V16, B58::V17, B58::V18, B58::V19, B58::V20, B58::V21, B58::V22, B58::V23, B58::V24, B58::V25, B58::V26, B58::V27, B58::V28, B58::V29, B58::V30, B58::V31, B58::V32, B58::V33, B58::V34, B58::V35, B58::V36, B58::V37, B58::V38, B58::V39, B58::V40, B58::V41, B58::V42, B58::V43, B58::V44, B58::V45, B58::V46, B58::V47, B58::V48, B58::V49, B58::V50, B58::V51, B58::V52, B58::V53, B58::V54, B58::V55, B58::V56, B58::V57];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B58::V0 => 0,
            B58::V1 => 1,
            B58::V2 => 2,
            B58::V3 => 3,
            B58::V4 => 4,
            B58::V5 => 5,
            B58::V6 => 6,
            B58::V7 => 7,
            B58::V8 => 8,
            B58::V9 => 9,
            B58::V10 => 10,
            B58::V11 => 11,
            B58::V12 => 12,
            B58::V13 => 13,
            B58::V14 => 14,
            B58::V15 => 15,
            B58::V16 => 16,
            B58::V17 => 17,
            B58::V18 => 18,
            B58::V19 => 19,
            B58::V20 => 20,
            B58::V21 => 21,
            B58::V22 => 22,
            B58::V23 => 23,
            B58::V24 => 24,
            B58::V25 => 25,
            B58::V26 => 26,
            B58::V27 => 27,
            B58::V28 => 28,
            B58::V29 => 29,
            B58::V30 => 30,
            B58::V31 => 31,
            B58::V32 => 32,
            B58::V33 => 33,
            B58::V34 => 34,
            B58::V35 => 35,
            B58::V36 => 36,
            B58::V37 => 37,
            B58::V38 => 38,
            B58::V39 => 39,
            B58::V40 => 40,
            B58::V41 => 41,
            B58::V42 => 42,
            B58::V43 => 43,
            B58::V44 => 44,
            B58::V45 => 45,
            B58::V46 => 46,
            B58::V47 => 47,
            B58::V48 => 48,
            B58::V49 => 49,
            B58::V50 => 50,
            B58::V51 => 51,
            B58::V52 => 52,
            B58::V53 => 53,
            B58::V54 => 54,
            B58::V55 => 55,
            B58::V56 => 56,
            B58::V57 => 57,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..58 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_75 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B62 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61 }
impl Dom for B62 {
    const N: usize = 62;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B62] = &[B62::V0, B62::V1, B62::V2, B62::V3, B62::V4, B62::V5, B62::V6, B62::V7, B62::V8, B62::V9, B62::V10, B62::V11, B62::V12, B62::V13, B62::V14, B62::V15, B62::V16, B62::V17, B62::V18, B62::V19, B62::V20, B62::V21, B62::V22, B62::V23, B62::V24, B62::V25, B62::V26, B62::V27, B62::V28, B62::V29, B62::V30, B62::V31, B62::V32, B62::V33, B62::V34, B62::V35, B62::V36, B62::V37, B62::V38, B62::V39, B62::V40, B62::V41, B62::V42, B62::V43, B62::V44, B62::V45, B62::V46, B62::V47, B62::V48, B62::V49, B62::V50, B62::V51, B62::V52, B62::V53, B62::V54, B62::V55, B62::V56, B62::V57, B62::V58, B62::V59, B62::V60, B62::V61];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B62::V0 => 0,
            B62::V1 => 1,
            B62::V2 => 2,
            B62::V3 => 3,
            B62::V4 => 4,
            B62::V5 => 5,
            B62::V6 => 6,
            B62::V7 => 7,
            B62::V8 => 8,
            B62::V9 => 9,
            B62::V10 => 10,
            B62::V11 => 11,
            B62::V12 => 12,
            B62::V13 => 13,
            B62::V14 => 14,
            B62::V15 => 15,
            B62::V16 => 16,
            B62::V17 => 17,
            B62::V18 => 18,
            B62::V19 => 19,
            B62::V20 => 20,
            B62::V21 => 21,
            B62::V22 => 22,
            B62::V23 => 23,
            B62::V24 => 24,
            B62::V25 => 25,
            B62::V26 => 26,
            B62::V27 => 27,
            B62::V28 => 28,
            B62::V29 => 29,
            B62::V30 => 30,
            B62::V31 => 31,
            B62::V32 => 32,
            B62::V33 => 33,
            B62::V34 => 34,
            B62::V35 => 35,
            B62::V36 => 36,
            B62::V37 => 37,
            B62::V38 => 38,
            B62::V39 => 39,
            B62::V40 => 40,
            B62::V41 => 41,
            B62::V42 => 42,
            B62::V43 => 43,
            B62::V44 => 44,
            B62::V45 => 45,
            B62::V46 => 46,
            B62::V47 => 47,
            B62::V48 => 48,
            B62::V49 => 49,
            B62::V50 => 50,
            B62::V51 => 51,
            B62::V52 => 52,
            B62::V53 => 53,
            B62::V54 => 54,
            B62::V55 => 55,
            B62::V56 => 56,
            B62::V57 => 57,
            B62::V58 => 58,
            B62::V59 => 59,
            B62::V60 => 60,
            B62::V61 => 61,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..62 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_76 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B66 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65 }
impl Dom for B66 {
    const N: usize = 66;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B66] = &[B66::V0, B66::V1, B66::V2, B66::V3, B66::V4, B66::V5, B66::V6, B66::V7, B66::V8, B66::V9, B66::V10, B66::V11, B66::V12, B66::V13, B66::V14, B66::V15, B66::V16, B66::V17, B66::V18, B66::V19, B66::V20, B66::V21, B66::V22, B66::V23, B66::V24, B66::V25, B66::V26, B66::V27, B66::V28, B66::V29, B66::V30, B66::V31, B66::V32, B66::V33, B66::V34, B66::V35, B66::V36, B66::V37, B66::V38, B66::V39, B66::V40, B66::V41, B66::V42, B66::V43, B66::V44, B66::V45, B66::V46, B66::V47, B66::V48, B66::V49, B66::V50, B66::V51, B66::V52, B66::V53, B66::V54, B66::V55, B66::V56, B66::V57, B66::V58, B66::V59, B66::V60, B66::V61, B66::V62, B66::V63, B66::V64, B66::V65];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B66::V0 => 0,
            B66::V1 => 1,
            B66::V2 => 2,
            B66::V3 => 3,
            B66::V4 => 4,
            B66::V5 => 5,
            B66::V6 => 6,
            B66::V7 => 7,
            B66::V8 => 8,
            B66::V9 => 9,
            B66::V10 => 10,
            B66::V11 => 11,
            B66::V12 => 12,
            B66::V13 => 13,
            B66::V14 => 14,
            B66::V15 => 15,
            B66::V16 => 16,
            B66::V17 => 17,
            B66::V18 => 18,
            B66::V19 => 19,
            B66::V20 => 20,
            B66::V21 => 21,
            B66::V22 => 22,
            B66::V23 => 23,
            B66::V24 => 24,
            B66::V25 => 25,
            B66::V26 => 26,
            B66::V27 => 27,
            B66::V28 => 28,
            B66::V29 => 29,
            B66::V30 => 30,
            B66::V31 => 31,
            B66::V32 => 32,
            B66::V33 => 33,
            B66::V34 => 34,
            B66::V35 => 35,
            B66::V36 => 36,
            B66::V37 => 37,
            B66::V38 => 38,
            B66::V39 => 39,
            B66::V40 => 40,
            B66::V41 => 41,
            B66::V42 => 42,
            B66::V43 => 43,
            B66::V44 => 44,
            B66::V45 => 45,
            B66::V46 => 46,
            B66::V47 => 47,
            B66::V48 => 48,
            B66::V49 => 49,
            B66::V50 => 50,
            B66::V51 => 51,
            B66::V52 => 52,
            B66::V53 => 53,
            B66::V54 => 54,
            B66::V55 => 55,
            B66::V56 => 56,
            B66::V57 => 57,
            B66::V58 => 58,
            B66::V59 => 59,
            B66::V60 => 60,
            B66::V61 => 61,
            B66::V62 => 62,
            B66::V63 => 63,
            B66::V64 => 64,
            B66::V65 => 65,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..66 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_77 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum B97 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96 }
impl Dom for B97 {
    const N: usize = 97;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[B97] = &[B97::V0, B97::V1, B97::V2, B97::V3, B97::V4, B97::V5, B97::V6, B97::V7, B97::V8, B97::V9, B97::V10, B97::V11, B97::V12, B97::V13, B97::V14, B97::V15, B97::V16, B97::V17, B97::V18, B97::V19, B97::V20, B97::V21, B97::V22, B97::V23, B97::V24, B97::V25, B97::V26, B97::V27, B97::V28, B97::V29, B97::V30, B97::V31, B97::V32, B97::V33, B97::V34, B97::V35, B97::V36, B97::V37, B97::V38, B97::V39, B97::V40, B97::V41, B97::V42, B97::V43, B97::V44, B97::V45, B97::V46, B97::V47, B97::V48, B97::V49, B97::V50, B97::V51, B97::V52, B97::V53, B97::V54, B97::V55, B97::V56, B97::V57, B97::V58, B97::V59, B97::V60, B97::V61, B97::V62, B97::V63, B97::V64, B97::V65, B97::V66, B97::V67, B97::V68, B97::V69, B97::V70, B97::V71, B97::V72, B97::V73, B97::V74, B97::V75, B97::V76, B97::V77, B97::V78, B97::V79, B97::V80, B97::V81, B97::V82, B97::V83, B97::V84, B97::V85, B97::V86, B97::V87, B97::V88, B97::V89, B97::V90, B97::V91, B97::V92, B97::V93, B97::V94, B97::V95, B97::V96];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            B97::V0 => 0,
            B97::V1 => 1,
            B97::V2 => 2,
            B97::V3 => 3,
            B97::V4 => 4,
            B97::V5 => 5,
            B97::V6 => 6,
            B97::V7 => 7,
            B97::V8 => 8,
            B97::V9 => 9,
            B97::V10 => 10,
            B97::V11 => 11,
            B97::V12 => 12,
            B97::V13 => 13,
            B97::V14 => 14,
            B97::V15 => 15,
            B97::V16 => 16,
            B97::V17 => 17,
            B97::V18 => 18,
            B97::V19 => 19,
            B97::V20 => 20,
            B97::V21 => 21,
            B97::V22 => 22,
            B97::V23 => 23,
            B97::V24 => 24,
            B97::V25 => 25,
            B97::V26 => 26,
            B97::V27 => 27,
            B97::V28 => 28,
            B97::V29 => 29,
            B97::V30 => 30,
            B97::V31 => 31,
            B97::V32 => 32,
            B97::V33 => 33,
            B97::V34 => 34,
            B97::V35 => 35,
            B97::V36 => 36,
            B97::V37 => 37,
            B97::V38 => 38,
            B97::V39 => 39,
            B97::V40 => 40,
            B97::V41 => 41,
            B97::V42 => 42,
            B97::V43 => 43,
            B97::V44 => 44,
            B97::V45 => 45,
            B97::V46 => 46,
            B97::V47 => 47,
            B97::V48 => 48,
            B97::V49 => 49,
            B97::V50 => 50,
            B97::V51 => 51,
            B97::V52 => 52,
            B97::V53 => 53,
            B97::V54 => 54,
            B97::V55 => 55,
            B97::V56 => 56,
            B97::V57 => 57,
            B97::V58 => 58,
            B97::V59 => 59,
            B97::V60 => 60,
            B97::V61 => 61,
            B97::V62 => 62,
            B97::V63 => 63,
            B97::V64 => 64,
            B97::V65 => 65,
            B97::V66 => 66,
            B97::V67 => 67,
            B97::V68 => 68,
            B97::V69 => 69,
            B97::V70 => 70,
            B97::V71 => 71,
            B97::V72 => 72,
            B97::V73 => 73,
            B97::V74 => 74,
            B97::V75 => 75,
            B97::V76 => 76,
            B97::V77 => 77,
            B97::V78 => 78,
            B97::V79 => 79,
            B97::V80 => 80,
            B97::V81 => 81,
            B97::V82 => 82,
            B97::V83 => 83,
            B97::V84 => 84,
            B97::V85 => 85,
            B97::V86 => 86,
            B97::V87 => 87,
            B97::V88 => 88,
            B97::V89 => 89,
            B97::V90 => 90,
            B97::V91 => 91,
            B97::V92 => 92,
            B97::V93 => 93,
            B97::V94 => 94,
            B97::V95 => 95,
            B97::V96 => 96,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..97 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_78 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N130 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129 }
impl Dom for N130 {
    const N: usize = 130;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N130] = &[N130::V0, N130::V1, N130::V2, N130::V3, N130::V4, N130::V5, N130::V6, N130::V7, N130::V8, N130::V9, N130::V10, N130::V11, N130::V12, N130::V13, N130::V14, N130::V15, N130::V16, N130::V17, N130::V18, N130::V19, N130::V20, N130::V21, N130::V22, N130::V23, N130::V24, N130::V25, N130::V26, N130::V27, N130::V28, N130::V29, N130::V30, N130::V31, N130::V32, N130::V33, N130::V34, N130::V35, N130::V36, N130::V37, N130::V38, N130::V39, N130::V40, N130::V41, N130::V42, N130::V43, N130::V44, N130::V45, N130::V46, N130::V47, N130::V48, N130::V49, N130::V50, N130::V51, N130::V52, N130::V53, N130::V54, N130::V55, N130::V56, N130::V57, N130::V58, N130::V59, N130::V60, N130::V61, N130::V62, N130::V63, N130::V64, N130::V65, N130::V66, N130::V67, N130::V68, N130::V69, N130::V70, N130::V71, N130::V72, N130::V73, N130::V74, N130::V75, N130::V76, N130::V77, N130::V78, N130::V79, N130::V80, N130::V81, N130::V82, N130::V83, N130::V84, N130::V85, N130::V86, N130::V87, N130::V88, N130::V89, N130::V90, N130::V91, N130::V92, N130::V93, N130::V94, N130::V95, N130::V96, N130::V97, N130::V98, N130::V99, N130::V100, N130::V101, N130::V102, N130::V103, N130::V104, N130::V105, N130::V106, N130::V107, N130::V108, N130::V109, N130::V110, N130::V111, N130::V112, N130::V113, N130::V114, N130::V115, N130::V116, N130::V117, N130::V118, N130::V119, N130::V120, N130::V121, N130::V122, N130::V123, N130::V124, N130::V125, N130::V126, N130::V127, N130::V128, N130::V129];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N130::V0 => 0,
            N130::V1 => 1,
            N130::V2 => 2,
            N130::V3 => 3,
            N130::V4 => 4,
            N130::V5 => 5,
            N130::V6 => 6,
            N130::V7 => 7,
            N130::V8 => 8,
            N130::V9 => 9,
            N130::V10 => 10,
            N130::V11 => 11,
            N130::V12 => 12,
            N130::V13 => 13,
            N130::V14 => 14,
            N130::V15 => 15,
            N130::V16 => 16,
            N130::V17 => 17,
            N130::V18 => 18,
            N130::V19 => 19,
            N130::V20 => 20,
            N130::V21 => 21,
            N130::V22 => 22,
            N130::V23 => 23,
            N130::V24 => 24,
            N130::V25 => 25,
            N130::V26 => 26,
            N130::V27 => 27,
            N130::V28 => 28,
            N130::V29 => 29,
            N130::V30 => 30,
            N130::V31 => 31,
            N130::V32 => 32,
            N130::V33 => 33,
            N130::V34 => 34,
            N130::V35 => 35,
            N130::V36 => 36,
            N130::V37 => 37,
            N130::V38 => 38,
            N130::V39 => 39,
            N130::V40 => 40,
            N130::V41 => 41,
            N130::V42 => 42,
            N130::V43 => 43,
            N130::V44 => 44,
            N130::V45 => 45,
            N130::V46 => 46,
            N130::V47 => 47,
            N130::V48 => 48,
            N130::V49 => 49,
            N130::V50 => 50,
            N130::V51 => 51,
            N130::V52 => 52,
            N130::V53 => 53,
            N130::V54 => 54,
            N130::V55 => 55,
            N130::V56 => 56,
            N130::V57 => 57,
            N130::V58 => 58,
            N130::V59 => 59,
            N130::V60 => 60,
            N130::V61 => 61,
            N130::V62 => 62,
            N130::V63 => 63,
            N130::V64 => 64,
            N130::V65 => 65,
            N130::V66 => 66,
            N130::V67 => 67,
            N130::V68 => 68,
            N130::V69 => 69,
            N130::V70 => 70,
            N130::V71 => 71,
            N130::V72 => 72,
            N130::V73 => 73,
            N130::V74 => 74,
            N130::V75 => 75,
            N130::V76 => 76,
            N130::V77 => 77,
            N130::V78 => 78,
            N130::V79 => 79,
            N130::V80 => 80,
            N130::V81 => 81,
            N130::V82 => 82,
            N130::V83 => 83,
            N130::V84 => 84,
            N130::V85 => 85,
            N130::V86 => 86,
            N130::V87 => 87,
            N130::V88 => 88,
            N130::V89 => 89,
            N130::V90 => 90,
            N130::V91 => 91,
            N130::V92 => 92,
            N130::V93 => 93,
            N130::V94 => 94,
            N130::V95 => 95,
            N130::V96 => 96,
            N130::V97 => 97,
            N130::V98 => 98,
            N130::V99 => 99,
            N130::V100 => 100,
            N130::V101 => 101,
            N130::V102 => 102,
            N130::V103 => 103,
            N130::V104 => 104,
            N130::V105 => 105,
            N130::V106 => 106,
            N130::V107 => 107,
            N130::V108 => 108,
            N130::V109 => 109,
            N130::V110 => 110,
            N130::V111 => 111,
            N130::V112 => 112,
            N130::V113 => 113,
            N130::V114 => 114,
            N130::V115 => 115,
            N130::V116 => 116,
            N130::V117 => 117,
            N130::V118 => 118,
            N130::V119 => 119,
            N130::V120 => 120,
            N130::V121 => 121,
            N130::V122 => 122,
            N130::V123 => 123,
            N130::V124 => 124,
            N130::V125 => 125,
            N130::V126 => 126,
            N130::V127 => 127,
            N130::V128 => 128,
            N130::V129 => 129,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..130 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_79 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum N300 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257, V258, V259, V260, V261, V262, V263, V264, V265, V266, V267, V268, V269, V270, V271, V272, V273, V274, V275, V276, V277, V278, V279, V280, V281, V282, V283, V284, V285, V286, V287, V288, V289, V290, V291, V292, V293, V294, V295, V296, V297, V298, V299 }
impl Dom for N300 {
    const N: usize = 300;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[N300] = &[N300::V0, N300::V1, N300::V2, N300::V3, N300::V4, N300::V5, N300::V6, N300::V7, N300::V8, N300::V9, N300::V10, N300::V11, N300::V12, N300::V13, N300::V14, N300::V15, N300::V16, N300::V17, N300::V18, N300::V19, N300::V20, N300::V21, N300::V22, N300::V23, N300::V24, N300::V25, N300::V26, N300::V27, N300::V28, N300::V29, N300::V30, N300::V31, N300::V32, N300::V33, N300::V34, N300::V35, N300::V36, N300::V37, N300::V38, N300::V39, N300::V40, N300::V41, N300::V42, N300::V43, N300::V44, N300::V45, N300::V46, N300::V47, N300::V48, N300::V49, N300::V50, N300::V51, N300::V52, N300::V53, N300::V54, N300::V55, N300::V56, N300::V57, N300::V58, N300::V59, N300::V60, N300::V61, N300::V62, N300::V63, N300::V64, N300::V65, N300::V66, N300::V67, N300::V68, N300::V69, N300::V70, N300::V71, N300::V72, N300::V73, N300::V74, N300::V75, N300::V76, N300::V77, N300::V78, N300::V79, N300::V80, N300::V81, N300::V82, N300::V83, N300::V84, N300::V85, N300::V86, N300::V87, N300::V88, N300::V89, N300::V90, N300::V91, N300::V92, N300::V93, N300::V94, N300::V95, N300::V96, N300::V97, N300::V98, N300::V99, N300::V100, N300::V101, N300::V102, N300::V103, N300::V104, N300::V105, N300::V106, N300::V107, N300::V108, N300::V109, N300::V110, N300::V111, N300::V112, N300::V113, N300::V114, N300::V115, N300::V116, N300::V117, N300::V118, N300::V119, N300::V120, N300::V121, N300::V122, N300::V123, N300::V124, N300::V125, N300::V126, N300::V127, N300::V128, N300::V129, N300::V130, N300::V131, N300::V132, N300::V133, N300::V134, N300::V135, N300::V136, N300::V137, N300::V138, N300::V139, N300::V140, N300::V141, N300::V142, N300::V143, N300::V144, N300::V145, N300::V146, N300::V147, N300::V148, N300::V149, N300::V150, N300::V151, N300::V152, N300::V153, N300::V154, N300::V155, N300::V156, N300::V157, N300::V158, N300::V159, N300::V160, N300::V161, N300::V162, N300::V163, N300::V164, N300::V165, N300::V166, N300::V167, N300::V168, N300::V169, N300::V170, N300::V171, N300::V172, N300::V173, N300::V174, N300::V175, N300::V176, N300::V177, N300::V178, N300::V179, N300::V180, N300::V181, N300::V182, N300::V183, N300::V184, N300::V185, N300::V186, N300::V187, N300::V188, N300::V189, N300::V190, N300::V191, N300::V192, N300::V193, N300::V194, N300::V195, N300::V196, N300::V197, N300::V198, N300::V199, N300::V200, N300::V201, N300::V202, N300::V203, N300::V204, N300::V205, N300::V206, N300::V207, N300::V208, N300::V209, N300::V210, N300::V211, N300::V212, N300::V213, N300::V214, N300::V215, N300::V216, N300::V217, N300::V218, N300::V219, N300::V220, N300::V221, N300::V222, N300::V223, N300::V224, N300::V225, N300::V226, N300::V227, N300::V228, N300::V229, N300::V230, N300::V231, N300::V232, N300::V233, N300::V234, N300::V235, N300::V236, N300::V237, N300::V238, N300::V239, N300::V240, N300::V241, N300::V242, N300::V243, N300::V244, N300::V245, N300::V246, N300::V247, N300::V248, N300::V249, N300::V250, N300::V251, N300::V252, N300::V253, N300::V254, N300::V255, N300::V256, N300::V257, N300::V258, N300::V259, N300::V260, N300::V261, N300::V262, N300::V263, N300::V264, N300::V265, N300::V266, N300::V267, N300::V268, N300::V269, N300::V270, N300::V271, N300::V272, N300::V273, N300::V274, N300::V275, N300::V276, N300::V277, N300::V278, N300::V279, N300::V280, N300::V281, N300::V282, N300::V283, N300::V284, N300::V285, N300::V286, N300::V287, N300::V288, N300::V289, N300::V290, N300::V291, N300::V292, N300::V293, N300::V294, N300::V295, N300::V296, N300::V297, N300::V298, N300::V299];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            N300::V0 => 0,
            N300::V1 => 1,
            N300::V2 => 2,
            N300::V3 => 3,
            N300::V4 => 4,
            N300::V5 => 5,
            N300::V6 => 6,
            N300::V7 => 7,
            N300::V8 => 8,
            N300::V9 => 9,
            N300::V10 => 10,
            N300::V11 => 11,
            N300::V12 => 12,
            N300::V13 => 13,
            N300::V14 => 14,
            N300::V15 => 15,
            N300::V16 => 16,
            N300::V17 => 17,
            N300::V18 => 18,
            N300::V19 => 19,
            N300::V20 => 20,
            N300::V21 => 21,
            N300::V22 => 22,
            N300::V23 => 23,
            N300::V24 => 24,
            N300::V25 => 25,
            N300::V26 => 26,
            N300::V27 => 27,
            N300::V28 => 28,
            N300::V29 => 29,
            N300::V30 => 30,
            N300::V31 => 31,
            N300::V32 => 32,
            N300::V33 => 33,
            N300::V34 => 34,
            N300::V35 => 35,
            N300::V36 => 36,
            N300::V37 => 37,
            N300::V38 => 38,
            N300::V39 => 39,
            N300::V40 => 40,
            N300::V41 => 41,
            N300::V42 => 42,
            N300::V43 => 43,
            N300::V44 => 44,
            N300::V45 => 45,
            N300::V46 => 46,
            N300::V47 => 47,
            N300::V48 => 48,
            N300::V49 => 49,
            N300::V50 => 50,
            N300::V51 => 51,
            N300::V52 => 52,
            N300::V53 => 53,
            N300::V54 => 54,
            N300::V55 => 55,
            N300::V56 => 56,
            N300::V57 => 57,
            N300::V58 => 58,
            N300::V59 => 59,
            N300::V60 => 60,
            N300::V61 => 61,
            N300::V62 => 62,
            N300::V63 => 63,
            N300::V64 => 64,
            N300::V65 => 65,
            N300::V66 => 66,
            N300::V67 => 67,
            N300::V68 => 68,
            N300::V69 => 69,
            N300::V70 => 70,
            N300::V71 => 71,
            N300::V72 => 72,
            N300::V73 => 73,
            N300::V74 => 74,
            N300::V75 => 75,
            N300::V76 => 76,
            N300::V77 => 77,
            N300::V78 => 78,
            N300::V79 => 79,
            N300::V80 => 80,
            N300::V81 => 81,
            N300::V82 => 82,
            N300::V83 => 83,
            N300::V84 => 84,
            N300::V85 => 85,
            N300::V86 => 86,
            N300::V87 => 87,
            N300::V88 => 88,
            N300::V89 => 89,
            N300::V90 => 90,
            N300::V91 => 91,
            N300::V92 => 92,
            N300::V93 => 93,
            N300::V94 => 94,
            N300::V95 => 95,
            N300::V96 => 96,
            N300::V97 => 97,
            N300::V98 => 98,
            N300::V99 => 99,
            N300::V100 => 100,
            N300::V101 => 101,
            N300::V102 => 102,
            N300::V103 => 103,
            N300::V104 => 104,
            N300::V105 => 105,
            N300::V106 => 106,
            N300::V107 => 107,
            N300::V108 => 108,
            N300::V109 => 109,
            N300::V110 => 110,
            N300::V111 => 111,
            N300::V112 => 112,
            N300::V113 => 113,
            N300::V114 => 114,
            N300::V115 => 115,
            N300::V116 => 116,
            N300::V117 => 117,
            N300::V118 => 118,
            N300::V119 => 119,
            N300::V120 => 120,
            N300::V121 => 121,
            N300::V122 => 122,
            N300::V123 => 123,
            N300::V124 => 124,
            N300::V125 => 125,
            N300::V126 => 126,
            N300::V127 => 127,
            N300::V128 => 128,
            N300::V129 => 129,
            N300::V130 => 130,
            N300::V131 => 131,
            N300::V132 => 132,
            N300::V133 => 133,
            N300::V134 => 134,
            N300::V135 => 135,
            N300::V136 => 136,
            N300::V137 => 137,
            N300::V138 => 138,
            N300::V139 => 139,
            N300::V140 => 140,
            N300::V141 => 141,
            N300::V142 => 142,
            N300::V143 => 143,
            N300::V144 => 144,
            N300::V145 => 145,
            N300::V146 => 146,
            N300::V147 => 147,
            N300::V148 => 148,
            N300::V149 => 149,
            N300::V150 => 150,
            N300::V151 => 151,
            N300::V152 => 152,
            N300::V153 => 153,
            N300::V154 => 154,
            N300::V155 => 155,
            N300::V156 => 156,
            N300::V157 => 157,
            N300::V158 => 158,
            N300::V159 => 159,
            N300::V160 => 160,
            N300::V161 => 161,
            N300::V162 => 162,
            N300::V163 => 163,
            N300::V164 => 164,
            N300::V165 => 165,
            N300::V166 => 166,
            N300::V167 => 167,
            N300::V168 => 168,
            N300::V169 => 169,
            N300::V170 => 170,
            N300::V171 => 171,
            N300::V172 => 172,
            N300::V173 => 173,
            N300::V174 => 174,
            N300::V175 => 175,
            N300::V176 => 176,
            N300::V177 => 177,
            N300::V178 => 178,
            N300::V179 => 179,
            N300::V180 => 180,
            N300::V181 => 181,
            N300::V182 => 182,
            N300::V183 => 183,
            N300::V184 => 184,
            N300::V185 => 185,
            N300::V186 => 186,
            N300::V187 => 187,
            N300::V188 => 188,
            N300::V189 => 189,
            N300::V190 => 190,
            N300::V191 => 191,
            N300::V192 => 192,
            N300::V193 => 193,
            N300::V194 => 194,
            N300::V195 => 195,
            N300::V196 => 196,
            N300::V197 => 197,
            N300::V198 => 198,
            N300::V199 => 199,
            N300::V200 => 200,
            N300::V201 => 201,
            N300::V202 => 202,
            N300::V203 => 203,
            N300::V204 => 204,
            N300::V205 => 205,
            N300::V206 => 206,
            N300::V207 => 207,
            N300::V208 => 208,
            N300::V209 => 209,
            N300::V210 => 210,
            N300::V211 => 211,
            N300::V212 => 212,
            N300::V213 => 213,
            N300::V214 => 214,
            N300::V215 => 215,
            N300::V216 => 216,
            N300::V217 => 217,
            N300::V218 => 218,
            N300::V219 => 219,
            N300::V220 => 220,
            N300::V221 => 221,
            N300::V222 => 222,
            N300::V223 => 223,
            N300::V224 => 224,
            N300::V225 => 225,
            N300::V226 => 226,
            N300::V227 => 227,
            N300::V228 => 228,
            N300::V229 => 229,
            N300::V230 => 230,
            N300::V231 => 231,
            N300::V232 => 232,
            N300::V233 => 233,
            N300::V234 => 234,
            N300::V235 => 235,
            N300::V236 => 236,
            N300::V237 => 237,
            N300::V238 => 238,
            N300::V239 => 239,
            N300::V240 => 240,
            N300::V241 => 241,
            N300::V242 => 242,
            N300::V243 => 243,
            N300::V244 => 244,
            N300::V245 => 245,
            N300::V246 => 246,
            N300::V247 => 247,
            N300::V248 => 248,
            N300::V249 => 249,
            N300::V250 => 250,
            N300::V251 => 251,
            N300::V252 => 252,
            N300::V253 => 253,
            N300::V254 => 254,
            N300::V255 => 255,
            N300::V256 => 256,
            N300::V257 => 257,
            N300::V258 => 258,
            N300::V259 => 259,
            N300::V260 => 260,
            N300::V261 => 261,
            N300::V262 => 262,
            N300::V263 => 263,
            N300::V264 => 264,
            N300::V265 => 265,
            N300::V266 => 266,
            N300::V267 => 267,
            N300::V268 => 268,
            N300::V269 => 269,
            N300::V270 => 270,
            N300::V271 => 271,
            N300::V272 => 272,
            N300::V273 => 273,
            N300::V274 => 274,
            N300::V275 => 275,
            N300::V276 => 276,
            N300::V277 => 277,
            N300::V278 => 278,
            N300::V279 => 279,
            N300::V280 => 280,
            N300::V281 => 281,
            N300::V282 => 282,
            N300::V283 => 283,
            N300::V284 => 284,
            N300::V285 => 285,
            N300::V286 => 286,
            N300::V287 => 287,
            N300::V288 => 288,
            N300::V289 => 289,
            N300::V290 => 290,
            N300::V291 => 291,
            N300::V292 => 292,
            N300::V293 => 293,
            N300::V294 => 294,
            N300::V295 => 295,
            N300::V296 => 296,
            N300::V297 => 297,
            N300::V298 => 298,
            N300::V299 => 299,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..300 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_80 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB2 { V0 = -1, V1 = 1, V2 = 0, V3 = 7 }
impl Dom for DB2 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB2] = &[DB2::V0, DB2::V1, DB2::V2, DB2::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB2::V0 => 0,
            DB2::V1 => 1,
            DB2::V2 => 2,
            DB2::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_81 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D4 { V0 = -1, V1 = 7, V2 = 0, V3 = 1 }
impl Dom for D4 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D4] = &[D4::V0, D4::V1, D4::V2, D4::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D4::V0 => 0,
            D4::V1 => 1,
            D4::V2 => 2,
            D4::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_82 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB5 { V0 = -1, V1 = 7, V2 = 1, V3 = 0 }
impl Dom for DB5 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB5] = &[DB5::V0, DB5::V1, DB5::V2, DB5::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB5::V0 => 0,
            DB5::V1 => 1,
            DB5::V2 => 2,
            DB5::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_83 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum D7 { V0 = 0, V1 = -1, V2 = 7, V3 = 1 }
impl Dom for D7 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[D7] = &[D7::V0, D7::V1, D7::V2, D7::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            D7::V0 => 0,
            D7::V1 => 1,
            D7::V2 => 2,
            D7::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_84 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB8 { V0 = 0, V1 = 1, V2 = -1, V3 = 7 }
impl Dom for DB8 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB8] = &[DB8::V0, DB8::V1, DB8::V2, DB8::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB8::V0 => 0,
            DB8::V1 => 1,
            DB8::V2 => 2,
            DB8::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_85 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB10 { V0 = 0, V1 = 7, V2 = -1, V3 = 1 }
impl Dom for DB10 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB10] = &[DB10::V0, DB10::V1, DB10::V2, DB10::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB10::V0 => 0,
            DB10::V1 => 1,
            DB10::V2 => 2,
            DB10::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_86 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB12 { V0 = 1, V1 = -1, V2 = 0, V3 = 7 }
impl Dom for DB12 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB12] = &[DB12::V0, DB12::V1, DB12::V2, DB12::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB12::V0 => 0,
            DB12::V1 => 1,
            DB12::V2 => 2,
            DB12::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_87 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB14 { V0 = 1, V1 = 0, V2 = -1, V3 = 7 }
impl Dom for DB14 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB14] = &[DB14::V0, DB14::V1, DB14::V2, DB14::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB14::V0 => 0,
            DB14::V1 => 1,
            DB14::V2 => 2,
            DB14::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_88 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB16 { V0 = 1, V1 = 7, V2 = -1, V3 = 0 }
impl Dom for DB16 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB16] = &[DB16::V0, DB16::V1, DB16::V2, DB16::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB16::V0 => 0,
            DB16::V1 => 1,
            DB16::V2 => 2,
            DB16::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_89 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB18 { V0 = 7, V1 = -1, V2 = 0, V3 = 1 }
impl Dom for DB18 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB18] = &[DB18::V0, DB18::V1, DB18::V2, DB18::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB18::V0 => 0,
            DB18::V1 => 1,
            DB18::V2 => 2,
            DB18::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_90 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB20 { V0 = 7, V1 = 0, V2 = -1, V3 = 1 }
impl Dom for DB20 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB20] = &[DB20::V0, DB20::V1, DB20::V2, DB20::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB20::V0 => 0,
            DB20::V1 => 1,
            DB20::V2 => 2,
            DB20::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_91 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DB22 { V0 = 7, V1 = 1, V2 = -1, V3 = 0 }
impl Dom for DB22 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DB22] = &[DB22::V0, DB22::V1, DB22::V2, DB22::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DB22::V0 => 0,
            DB22::V1 => 1,
            DB22::V2 => 2,
            DB22::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_92 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DFB0 { A = 1, B, C, D }
impl Dom for DFB0 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DFB0] = &[DFB0::A, DFB0::B, DFB0::C, DFB0::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DFB0::A => 0,
            DFB0::B => 1,
            DFB0::C => 2,
            DFB0::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_93 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DLB1 { A, B, C = 2, D }
impl Dom for DLB1 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DLB1] = &[DLB1::A, DLB1::B, DLB1::C, DLB1::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DLB1::A => 0,
            DLB1::B => 1,
            DLB1::C => 2,
            DLB1::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_94 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DLB2 { A, B, C = 3, D }
impl Dom for DLB2 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DLB2] = &[DLB2::A, DLB2::B, DLB2::C, DLB2::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DLB2::A => 0,
            DLB2::B => 1,
            DLB2::C => 2,
            DLB2::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_95 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DLB3 { A, B, C = 7, D }
impl Dom for DLB3 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DLB3] = &[DLB3::A, DLB3::B, DLB3::C, DLB3::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DLB3::A => 0,
            DLB3::B => 1,
            DLB3::C => 2,
            DLB3::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_96 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DLB4 { A, B, C = 8, D }
impl Dom for DLB4 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DLB4] = &[DLB4::A, DLB4::B, DLB4::C, DLB4::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DLB4::A => 0,
            DLB4::B => 1,
            DLB4::C => 2,
            DLB4::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_97 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DLB5 { A, B, C = 31, D }
impl Dom for DLB5 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DLB5] = &[DLB5::A, DLB5::B, DLB5::C, DLB5::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DLB5::A => 0,
            DLB5::B => 1,
            DLB5::C => 2,
            DLB5::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_98 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DLB6 { A, B, C = 32, D }
impl Dom for DLB6 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DLB6] = &[DLB6::A, DLB6::B, DLB6::C, DLB6::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DLB6::A => 0,
            DLB6::B => 1,
            DLB6::C => 2,
            DLB6::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_99 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DLB7 { A, B, C = 63, D }
impl Dom for DLB7 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DLB7] = &[DLB7::A, DLB7::B, DLB7::C, DLB7::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DLB7::A => 0,
            DLB7::B => 1,
            DLB7::C => 2,
            DLB7::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_100 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DLB8 { A, B, C = 64, D }
impl Dom for DLB8 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DLB8] = &[DLB8::A, DLB8::B, DLB8::C, DLB8::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DLB8::A => 0,
            DLB8::B => 1,
            DLB8::C => 2,
            DLB8::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_101 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DLB9 { A, B, C = 127, D }
impl Dom for DLB9 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DLB9] = &[DLB9::A, DLB9::B, DLB9::C, DLB9::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DLB9::A => 0,
            DLB9::B => 1,
            DLB9::C => 2,
            DLB9::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_102 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DLB10 { A, B, C = 128, D }
impl Dom for DLB10 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DLB10] = &[DLB10::A, DLB10::B, DLB10::C, DLB10::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DLB10::A => 0,
            DLB10::B => 1,
            DLB10::C => 2,
            DLB10::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_103 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DLB11 { A, B, C = 255, D }
impl Dom for DLB11 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DLB11] = &[DLB11::A, DLB11::B, DLB11::C, DLB11::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DLB11::A => 0,
            DLB11::B => 1,
            DLB11::C => 2,
            DLB11::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_104 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DLB12 { A, B, C = 256, D }
impl Dom for DLB12 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DLB12] = &[DLB12::A, DLB12::B, DLB12::C, DLB12::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DLB12::A => 0,
            DLB12::B => 1,
            DLB12::C => 2,
            DLB12::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_105 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DLB13 { A, B, C = 65535, D }
impl Dom for DLB13 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DLB13] = &[DLB13::A, DLB13::B, DLB13::C, DLB13::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DLB13::A => 0,
            DLB13::B => 1,
            DLB13::C => 2,
            DLB13::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_106 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum DLB14 { A, B, C = -128, D }
impl Dom for DLB14 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DLB14] = &[DLB14::A, DLB14::B, DLB14::C, DLB14::D];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DLB14::A => 0,
            DLB14::B => 1,
            DLB14::C => 2,
            DLB14::D => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_107 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[repr(i8)]
pub enum Ri8 { A = 127, B = -128, C }
impl Dom for Ri8 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[Ri8] = &[Ri8::A, Ri8::B, Ri8::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            Ri8::A => 0,
            Ri8::B => 1,
            Ri8::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_108 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[repr(i64)]
pub enum Ri64 { A = 9223372036854775807, B = -9223372036854775808, C }
impl Dom for Ri64 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[Ri64] = &[Ri64::A, Ri64::B, Ri64::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            Ri64::A => 0,
            Ri64::B => 1,
            Ri64::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_109 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
#[repr(C)]
pub enum RBC { A = 5, B = -5, C }
impl Dom for RBC {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[RBC] = &[RBC::A, RBC::B, RBC::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            RBC::A => 0,
            RBC::B => 1,
            RBC::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_110 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB0 { Some, None, Ok }
impl Dom for IB0 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB0] = &[IB0::Some, IB0::None, IB0::Ok];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB0::Some => 0,
            IB0::None => 1,
            IB0::Ok => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_111 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC3 { Err(bool), Self_, V(Option<bool>) }
impl Dom for IC3 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC3::Err(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC3::Self_; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC3::V(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC3::Err(x) => off(0, <bool as Dom>::idx(x)),
            IC3::Self_ => 0 + <bool as Dom>::N,
            IC3::V(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_112 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID6 { K, T(&'static str), F }
impl Dom for ID6 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID6::K; } i -= 1;
        if i < <&'static str as Dom>::N { return ID6::T(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID6::F; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID6::K => 0,
            ID6::T(x) => off(1, <&'static str as Dom>::idx(x)),
            ID6::F => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_113 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I12 { Iter, Keys, Values }
impl Dom for I12 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I12] = &[I12::Iter, I12::Keys, I12::Values];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I12::Iter => 0,
            I12::Keys => 1,
            I12::Values => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_114 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB15 { IterMut, ValuesMut, IntoIter }
impl Dom for IB15 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB15] = &[IB15::IterMut, IB15::ValuesMut, IB15::IntoIter];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB15::IterMut => 0,
            IB15::ValuesMut => 1,
            IB15::IntoIter => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_115 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC18 { Occupied(bool), Vacant, MapStorage(Option<bool>) }
impl Dom for IC18 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC18::Occupied(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC18::Vacant; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC18::MapStorage(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC18::Occupied(x) => off(0, <bool as Dom>::idx(x)),
            IC18::Vacant => 0 + <bool as Dom>::N,
            IC18::MapStorage(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_116 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID21 { SetStorage, __MapStorage(&'static str), __SetStorage }
impl Dom for ID21 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID21::SetStorage; } i -= 1;
        if i < <&'static str as Dom>::N { return ID21::__MapStorage(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID21::__SetStorage; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID21::SetStorage => 0,
            ID21::__MapStorage(x) => off(1, <&'static str as Dom>::idx(x)),
            ID21::__SetStorage => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_117 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I27 { SimpleOccupied, SimpleVacant, Option }
impl Dom for I27 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I27] = &[I27::SimpleOccupied, I27::SimpleVacant, I27::Option];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I27::SimpleOccupied => 0,
            I27::SimpleVacant => 1,
            I27::Option => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_118 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB30 { Result, Box, String }
impl Dom for IB30 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB30] = &[IB30::Result, IB30::Box, IB30::String];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB30::Result => 0,
            IB30::Box => 1,
            IB30::String => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_119 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC33 { Vec(bool), bool, usize(Option<bool>) }
impl Dom for IC33 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC33::Vec(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC33::bool; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC33::usize(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC33::Vec(x) => off(0, <bool as Dom>::idx(x)),
            IC33::bool => 0 + <bool as Dom>::N,
            IC33::usize(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_120 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID36 { str, u8(&'static str), core }
impl Dom for ID36 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID36::str; } i -= 1;
        if i < <&'static str as Dom>::N { return ID36::u8(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID36::core; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID36::str => 0,
            ID36::u8(x) => off(1, <&'static str as Dom>::idx(x)),
            ID36::core => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_121 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I42 { start, end, iter }
impl Dom for I42 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I42] = &[I42::start, I42::end, I42::iter];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I42::start => 0,
            I42::end => 1,
            I42::iter => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_122 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB45 { key, value, val }
impl Dom for IB45 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB45] = &[IB45::key, IB45::value, IB45::val];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB45::key => 0,
            IB45::value => 1,
            IB45::val => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_123 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC48 { v(bool), k, func(Option<bool>) }
impl Dom for IC48 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC48::v(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC48::k; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC48::func(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC48::v(x) => off(0, <bool as Dom>::idx(x)),
            IC48::k => 0 + <bool as Dom>::N,
            IC48::func(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_124 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID51 { inner, opt(&'static str), other }
impl Dom for ID51 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID51::inner; } i -= 1;
        if i < <&'static str as Dom>::N { return ID51::opt(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID51::other; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID51::inner => 0,
            ID51::opt(x) => off(1, <&'static str as Dom>::idx(x)),
            ID51::other => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_125 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I57 { BITS, _0, _1 }
impl Dom for I57 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I57] = &[I57::BITS, I57::_0, I57::_1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I57::BITS => 0,
            I57::_0 => 1,
            I57::_1 => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_126 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB60 { _2, __, r#type }
impl Dom for IB60 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB60] = &[IB60::_2, IB60::__, IB60::r#type];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB60::_2 => 0,
            IB60::__ => 1,
            IB60::r#type => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_127 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC63 { r#fn(bool), r#match, r#loop(Option<bool>) }
impl Dom for IC63 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC63::r#fn(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC63::r#match; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC63::r#loop(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC63::r#fn(x) => off(0, <bool as Dom>::idx(x)),
            IC63::r#match => 0 + <bool as Dom>::N,
            IC63::r#loop(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_128 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID66 { r#Self_, Ünï(&'static str), 名 }
impl Dom for ID66 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID66::r#Self_; } i -= 1;
        if i < <&'static str as Dom>::N { return ID66::Ünï(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID66::名; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID66::r#Self_ => 0,
            ID66::Ünï(x) => off(1, <&'static str as Dom>::idx(x)),
            ID66::名 => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_129 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I72 { Set, Hash, Ord }
impl Dom for I72 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I72] = &[I72::Set, I72::Hash, I72::Ord];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I72::Set => 0,
            I72::Hash => 1,
            I72::Ord => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_130 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB75 { Less, Equal, Greater }
impl Dom for IB75 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB75] = &[IB75::Less, IB75::Equal, IB75::Greater];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB75::Less => 0,
            IB75::Equal => 1,
            IB75::Greater => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_131 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum IC78 { Copy(bool), Clone, EMPTY(Option<bool>) }
impl Dom for IC78 {
    const N: usize = 1 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return IC78::Copy(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return IC78::Clone; } i -= 1;
        if i < <Option<bool> as Dom>::N { return IC78::EMPTY(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            IC78::Copy(x) => off(0, <bool as Dom>::idx(x)),
            IC78::Clone => 0 + <bool as Dom>::N,
            IC78::EMPTY(x) => off(1 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
}
pub mod m_132 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum ID81 { len, is_empty(&'static str), insert }
impl Dom for ID81 {
    const N: usize = 2 + <&'static str as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return ID81::len; } i -= 1;
        if i < <&'static str as Dom>::N { return ID81::is_empty(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i == 0 { return ID81::insert; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            ID81::len => 0,
            ID81::is_empty(x) => off(1, <&'static str as Dom>::idx(x)),
            ID81::insert => 1 + <&'static str as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <&'static str as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
}
pub mod m_133 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum I87 { clear, contains, empty }
impl Dom for I87 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[I87] = &[I87::clear, I87::contains, I87::empty];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            I87::clear => 0,
            I87::contains => 1,
            I87::empty => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_134 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum IB90 { entry }
impl Dom for IB90 {
    const N: usize = 1;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[IB90] = &[IB90::entry];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            IB90::entry => 0,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..1 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_135 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Item { A, B }
impl Dom for Item {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[Item] = &[Item::A, Item::B];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            Item::A => 0,
            Item::B => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_136 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum MapStorage { A, B }
impl Dom for MapStorage {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[MapStorage] = &[MapStorage::A, MapStorage::B];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            MapStorage::A => 0,
            MapStorage::B => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub mod m_137 { use fixed_map::Key; use fmcheck_dom::{off, Dom}; #[allow(unused_imports)] use super::{U2, K2, U0, NestA};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum _Lead { A, B }
impl Dom for _Lead {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[_Lead] = &[_Lead::A, _Lead::B];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            _Lead::A => 0,
            _Lead::B => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
}
pub fn jobs(c: &mut fmcore::report::Ctx) {
    c.job("S1D", |w| fmcheck_slots::unit::<m_0::S1D>(w, "S1D"));
    c.job("S2UZ", |w| fmcheck_slots::unit::<m_1::S2UZ>(w, "S2UZ"));
    c.job("S2BO", |w| fmcheck_slots::unit::<m_2::S2BO>(w, "S2BO"));
    c.job("S2SU", |w| fmcheck_slots::unit::<m_3::S2SU>(w, "S2SU"));
    c.job("S2SD", |w| fmcheck_slots::unit::<m_4::S2SD>(w, "S2SD"));
    c.job("S2OK", |w| fmcheck_slots::unit::<m_5::S2OK>(w, "S2OK"));
    c.job("S2ES", |w| fmcheck_slots::unit::<m_6::S2ES>(w, "S2ES"));
    c.job("S2EW", |w| fmcheck_slots::unit::<m_7::S2EW>(w, "S2EW"));
    c.job("S2KC", |w| fmcheck_slots::unit::<m_8::S2KC>(w, "S2KC"));
    c.job("S2ZE", |w| fmcheck_slots::unit::<m_9::S2ZE>(w, "S2ZE"));
    c.job("S2CB", |w| fmcheck_slots::unit::<m_10::S2CB>(w, "S2CB"));
    c.job("S2CT", |w| fmcheck_slots::unit::<m_11::S2CT>(w, "S2CT"));
    c.job("S2DZ", |w| fmcheck_slots::unit::<m_12::S2DZ>(w, "S2DZ"));
    c.job("S2TO", |w| fmcheck_slots::unit::<m_13::S2TO>(w, "S2TO"));
    c.job("S2WU", |w| fmcheck_slots::unit::<m_14::S2WU>(w, "S2WU"));
    c.job("S2WD", |w| fmcheck_slots::unit::<m_15::S2WD>(w, "S2WD"));
    c.job("S3UBU", |w| fmcheck_slots::unit::<m_16::S3UBU>(w, "S3UBU"));
    c.job("S3USS", |w| fmcheck_slots::unit::<m_17::S3USS>(w, "S3USS"));
    c.job("S3UOK", |w| fmcheck_slots::unit::<m_18::S3UOK>(w, "S3UOK"));
    c.job("S3UDU", |w| fmcheck_slots::unit::<m_19::S3UDU>(w, "S3UDU"));
    c.job("S3BUS", |w| fmcheck_slots::unit::<m_20::S3BUS>(w, "S3BUS"));
    c.job("S3BBK", |w| fmcheck_slots::unit::<m_21::S3BBK>(w, "S3BBK"));
    c.job("S3BOU", |w| fmcheck_slots::unit::<m_22::S3BOU>(w, "S3BOU"));
    c.job("S3BKS", |w| fmcheck_slots::unit::<m_23::S3BKS>(w, "S3BKS"));
    c.job("S3BDK", |w| fmcheck_slots::unit::<m_24::S3BDK>(w, "S3BDK"));
    c.job("S3SBU", |w| fmcheck_slots::unit::<m_25::S3SBU>(w, "S3SBU"));
    c.job("S3SSS", |w| fmcheck_slots::unit::<m_26::S3SSS>(w, "S3SSS"));
    c.job("S3SOK", |w| fmcheck_slots::unit::<m_27::S3SOK>(w, "S3SOK"));
    c.job("S3SDU", |w| fmcheck_slots::unit::<m_28::S3SDU>(w, "S3SDU"));
    c.job("S3OUS", |w| fmcheck_slots::unit::<m_29::S3OUS>(w, "S3OUS"));
    c.job("S3OBK", |w| fmcheck_slots::unit::<m_30::S3OBK>(w, "S3OBK"));
    c.job("S3OOU", |w| fmcheck_slots::unit::<m_31::S3OOU>(w, "S3OOU"));
    c.job("S3OKS", |w| fmcheck_slots::unit::<m_32::S3OKS>(w, "S3OKS"));
    c.job("S3ODK", |w| fmcheck_slots::unit::<m_33::S3ODK>(w, "S3ODK"));
    c.job("S3KBU", |w| fmcheck_slots::unit::<m_34::S3KBU>(w, "S3KBU"));
    c.job("S3KSS", |w| fmcheck_slots::unit::<m_35::S3KSS>(w, "S3KSS"));
    c.job("S3KOK", |w| fmcheck_slots::unit::<m_36::S3KOK>(w, "S3KOK"));
    c.job("S3KDU", |w| fmcheck_slots::unit::<m_37::S3KDU>(w, "S3KDU"));
    c.job("S3DUS", |w| fmcheck_slots::unit::<m_38::S3DUS>(w, "S3DUS"));
    c.job("S3DBK", |w| fmcheck_slots::unit::<m_39::S3DBK>(w, "S3DBK"));
    c.job("S3DOU", |w| fmcheck_slots::unit::<m_40::S3DOU>(w, "S3DOU"));
    c.job("S3DKS", |w| fmcheck_slots::unit::<m_41::S3DKS>(w, "S3DKS"));
    c.job("S3DDK", |w| fmcheck_slots::unit::<m_42::S3DDK>(w, "S3DDK"));
    c.job("S4UUSB", |w| fmcheck_slots::unit::<m_43::S4UUSB>(w, "S4UUSB"));
    c.job("S4UBSU", |w| fmcheck_slots::unit::<m_44::S4UBSU>(w, "S4UBSU"));
    c.job("S4USBS", |w| fmcheck_slots::unit::<m_45::S4USBS>(w, "S4USBS"));
    c.job("S4BUBB", |w| fmcheck_slots::unit::<m_46::S4BUBB>(w, "S4BUBB"));
    c.job("S4BBBU", |w| fmcheck_slots::unit::<m_47::S4BBBU>(w, "S4BBBU"));
    c.job("S4BSUS", |w| fmcheck_slots::unit::<m_48::S4BSUS>(w, "S4BSUS"));
    c.job("S4SUUB", |w| fmcheck_slots::unit::<m_49::S4SUUB>(w, "S4SUUB"));
    c.job("S4SBUU", |w| fmcheck_slots::unit::<m_50::S4SBUU>(w, "S4SBUU"));
    c.job("S4SBSS", |w| fmcheck_slots::unit::<m_51::S4SBSS>(w, "S4SBSS"));
    c.job("S4SSSB", |w| fmcheck_slots::unit::<m_52::S4SSSB>(w, "S4SSSB"));
    c.job("S5UUOOO", |w| fmcheck_slots::unit::<m_53::S5UUOOO>(w, "S5UUOOO"));
    c.job("S5UOOOO", |w| fmcheck_slots::unit::<m_54::S5UOOOO>(w, "S5UOOOO"));
    c.job("S5OUOOO", |w| fmcheck_slots::unit::<m_55::S5OUOOO>(w, "S5OUOOO"));
    c.job("S5OOOOO", |w| fmcheck_slots::unit::<m_56::S5OOOOO>(w, "S5OOOOO"));
    c.job("P8_1", |w| fmcheck_slots::unit::<m_57::P8_1>(w, "P8_1"));
    c.job("P12_1", |w| fmcheck_slots::unit::<m_58::P12_1>(w, "P12_1"));
    c.job("P12_9", |w| fmcheck_slots::unit::<m_59::P12_9>(w, "P12_9"));
    c.job("B2", |w| fmcheck_slots::unit::<m_60::B2>(w, "B2"));
    c.job("B6", |w| fmcheck_slots::unit::<m_61::B6>(w, "B6"));
    c.job("B10", |w| fmcheck_slots::unit::<m_62::B10>(w, "B10"));
    c.job("B14", |w| fmcheck_slots::unit::<m_63::B14>(w, "B14"));
    c.job("B18", |w| fmcheck_slots::unit::<m_64::B18>(w, "B18"));
    c.job("B22", |w| fmcheck_slots::unit::<m_65::B22>(w, "B22"));
    c.job("B26", |w| fmcheck_slots::unit::<m_66::B26>(w, "B26"));
    c.job("B30", |w| fmcheck_slots::unit::<m_67::B30>(w, "B30"));
    c.job("B34", |w| fmcheck_slots::unit::<m_68::B34>(w, "B34"));
    c.job("B38", |w| fmcheck_slots::unit::<m_69::B38>(w, "B38"));
    c.job("B42", |w| fmcheck_slots::unit::<m_70::B42>(w, "B42"));
    c.job("B46", |w| fmcheck_slots::unit::<m_71::B46>(w, "B46"));
    c.job("B50", |w| fmcheck_slots::unit::<m_72::B50>(w, "B50"));
    c.job("B54", |w| fmcheck_slots::unit::<m_73::B54>(w, "B54"));
    c.job("B58", |w| fmcheck_slots::unit::<m_74::B58>(w, "B58"));
    c.job("B62", |w| fmcheck_slots::unit::<m_75::B62>(w, "B62"));
    c.job("B66", |w| fmcheck_slots::unit::<m_76::B66>(w, "B66"));
    c.job("B97", |w| fmcheck_slots::unit::<m_77::B97>(w, "B97"));
    c.job("N130", |w| fmcheck_slots::unit::<m_78::N130>(w, "N130"));
    c.job("N300", |w| fmcheck_slots::unit::<m_79::N300>(w, "N300"));
    c.job("DB2", |w| fmcheck_slots::unit::<m_80::DB2>(w, "DB2"));
    c.job("D4", |w| fmcheck_slots::unit::<m_81::D4>(w, "D4"));
    c.job("DB5", |w| fmcheck_slots::unit::<m_82::DB5>(w, "DB5"));
    c.job("D7", |w| fmcheck_slots::unit::<m_83::D7>(w, "D7"));
    c.job("DB8", |w| fmcheck_slots::unit::<m_84::DB8>(w, "DB8"));
    c.job("DB10", |w| fmcheck_slots::unit::<m_85::DB10>(w, "DB10"));
    c.job("DB12", |w| fmcheck_slots::unit::<m_86::DB12>(w, "DB12"));
    c.job("DB14", |w| fmcheck_slots::unit::<m_87::DB14>(w, "DB14"));
    c.job("DB16", |w| fmcheck_slots::unit::<m_88::DB16>(w, "DB16"));
    c.job("DB18", |w| fmcheck_slots::unit::<m_89::DB18>(w, "DB18"));
    c.job("DB20", |w| fmcheck_slots::unit::<m_90::DB20>(w, "DB20"));
    c.job("DB22", |w| fmcheck_slots::unit::<m_91::DB22>(w, "DB22"));
    c.job("DFB0", |w| fmcheck_slots::unit::<m_92::DFB0>(w, "DFB0"));
    c.job("DLB1", |w| fmcheck_slots::unit::<m_93::DLB1>(w, "DLB1"));
    c.job("DLB2", |w| fmcheck_slots::unit::<m_94::DLB2>(w, "DLB2"));
    c.job("DLB3", |w| fmcheck_slots::unit::<m_95::DLB3>(w, "DLB3"));
    c.job("DLB4", |w| fmcheck_slots::unit::<m_96::DLB4>(w, "DLB4"));
    c.job("DLB5", |w| fmcheck_slots::unit::<m_97::DLB5>(w, "DLB5"));
    c.job("DLB6", |w| fmcheck_slots::unit::<m_98::DLB6>(w, "DLB6"));
    c.job("DLB7", |w| fmcheck_slots::unit::<m_99::DLB7>(w, "DLB7"));
    c.job("DLB8", |w| fmcheck_slots::unit::<m_100::DLB8>(w, "DLB8"));
    c.job("DLB9", |w| fmcheck_slots::unit::<m_101::DLB9>(w, "DLB9"));
    c.job("DLB10", |w| fmcheck_slots::unit::<m_102::DLB10>(w, "DLB10"));
    c.job("DLB11", |w| fmcheck_slots::unit::<m_103::DLB11>(w, "DLB11"));
    c.job("DLB12", |w| fmcheck_slots::unit::<m_104::DLB12>(w, "DLB12"));
    c.job("DLB13", |w| fmcheck_slots::unit::<m_105::DLB13>(w, "DLB13"));
    c.job("DLB14", |w| fmcheck_slots::unit::<m_106::DLB14>(w, "DLB14"));
    c.job("Ri8", |w| fmcheck_slots::unit::<m_107::Ri8>(w, "Ri8"));
    c.job("Ri64", |w| fmcheck_slots::unit::<m_108::Ri64>(w, "Ri64"));
    c.job("RBC", |w| fmcheck_slots::unit::<m_109::RBC>(w, "RBC"));
    c.job("IB0", |w| fmcheck_slots::unit::<m_110::IB0>(w, "IB0"));
    c.job("IC3", |w| fmcheck_slots::unit::<m_111::IC3>(w, "IC3"));
    c.job("ID6", |w| fmcheck_slots::unit::<m_112::ID6>(w, "ID6"));
    c.job("I12", |w| fmcheck_slots::unit::<m_113::I12>(w, "I12"));
    c.job("IB15", |w| fmcheck_slots::unit::<m_114::IB15>(w, "IB15"));
    c.job("IC18", |w| fmcheck_slots::unit::<m_115::IC18>(w, "IC18"));
    c.job("ID21", |w| fmcheck_slots::unit::<m_116::ID21>(w, "ID21"));
    c.job("I27", |w| fmcheck_slots::unit::<m_117::I27>(w, "I27"));
    c.job("IB30", |w| fmcheck_slots::unit::<m_118::IB30>(w, "IB30"));
    c.job("IC33", |w| fmcheck_slots::unit::<m_119::IC33>(w, "IC33"));
    c.job("ID36", |w| fmcheck_slots::unit::<m_120::ID36>(w, "ID36"));
    c.job("I42", |w| fmcheck_slots::unit::<m_121::I42>(w, "I42"));
    c.job("IB45", |w| fmcheck_slots::unit::<m_122::IB45>(w, "IB45"));
    c.job("IC48", |w| fmcheck_slots::unit::<m_123::IC48>(w, "IC48"));
    c.job("ID51", |w| fmcheck_slots::unit::<m_124::ID51>(w, "ID51"));
    c.job("I57", |w| fmcheck_slots::unit::<m_125::I57>(w, "I57"));
    c.job("IB60", |w| fmcheck_slots::unit::<m_126::IB60>(w, "IB60"));
    c.job("IC63", |w| fmcheck_slots::unit::<m_127::IC63>(w, "IC63"));
    c.job("ID66", |w| fmcheck_slots::unit::<m_128::ID66>(w, "ID66"));
    c.job("I72", |w| fmcheck_slots::unit::<m_129::I72>(w, "I72"));
    c.job("IB75", |w| fmcheck_slots::unit::<m_130::IB75>(w, "IB75"));
    c.job("IC78", |w| fmcheck_slots::unit::<m_131::IC78>(w, "IC78"));
    c.job("ID81", |w| fmcheck_slots::unit::<m_132::ID81>(w, "ID81"));
    c.job("I87", |w| fmcheck_slots::unit::<m_133::I87>(w, "I87"));
    c.job("IB90", |w| fmcheck_slots::unit::<m_134::IB90>(w, "IB90"));
    c.job("Item", |w| fmcheck_slots::unit::<m_135::Item>(w, "Item"));
    c.job("MapStorage", |w| fmcheck_slots::unit::<m_136::MapStorage>(w, "MapStorage"));
    c.job("_Lead", |w| fmcheck_slots::unit::<m_137::_Lead>(w, "_Lead"));
}
