//! Generated by gen3.py; do not edit.
#![allow(non_camel_case_types, dead_code, unexpected_cfgs)]
use crate::dom::{off, Dom};
use fixed_map::Key;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U0 {  }
impl Dom for U0 {
    const N: usize = 0;
    const STATIC: bool = true;
    fn at(_: usize) -> Self { panic!("no such key") }
    fn idx(self) -> usize { match self {} }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..0 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(U0);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K0 {  }
impl Dom for K0 {
    const N: usize = 0;
    const STATIC: bool = true;
    fn at(_: usize) -> Self { panic!("no such key") }
    fn idx(self) -> usize { match self {} }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..0 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(K0);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U1 { V0 }
impl Dom for U1 {
    const N: usize = 1;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U1] = &[U1::V0];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U1::V0 => 0,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..1 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(U1);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K1 { V0 }
impl Dom for K1 {
    const N: usize = 1;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K1] = &[K1::V0];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K1::V0 => 0,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..1 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(K1);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U2 { V0, V1 }
impl Dom for U2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U2] = &[U2::V0, U2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U2::V0 => 0,
            U2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(U2);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K2 { V0, V1 }
impl Dom for K2 {
    const N: usize = 2;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K2] = &[K2::V0, K2::V1];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K2::V0 => 0,
            K2::V1 => 1,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..2 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(K2);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U3 { V0, V1, V2 }
impl Dom for U3 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U3] = &[U3::V0, U3::V1, U3::V2];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U3::V0 => 0,
            U3::V1 => 1,
            U3::V2 => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(U3);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K3 { V0, V1, V2 }
impl Dom for K3 {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K3] = &[K3::V0, K3::V1, K3::V2];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K3::V0 => 0,
            K3::V1 => 1,
            K3::V2 => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(K3);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U4 { V0, V1, V2, V3 }
impl Dom for U4 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U4] = &[U4::V0, U4::V1, U4::V2, U4::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U4::V0 => 0,
            U4::V1 => 1,
            U4::V2 => 2,
            U4::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(U4);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K4 { V0, V1, V2, V3 }
impl Dom for K4 {
    const N: usize = 4;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K4] = &[K4::V0, K4::V1, K4::V2, K4::V3];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K4::V0 => 0,
            K4::V1 => 1,
            K4::V2 => 2,
            K4::V3 => 3,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..4 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(K4);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U9 { V0, V1, V2, V3, V4, V5, V6, V7, V8 }
impl Dom for U9 {
    const N: usize = 9;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U9] = &[U9::V0, U9::V1, U9::V2, U9::V3, U9::V4, U9::V5, U9::V6, U9::V7, U9::V8];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U9::V0 => 0,
            U9::V1 => 1,
            U9::V2 => 2,
            U9::V3 => 3,
            U9::V4 => 4,
            U9::V5 => 5,
            U9::V6 => 6,
            U9::V7 => 7,
            U9::V8 => 8,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..9 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(U9);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K9 { V0, V1, V2, V3, V4, V5, V6, V7, V8 }
impl Dom for K9 {
    const N: usize = 9;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K9] = &[K9::V0, K9::V1, K9::V2, K9::V3, K9::V4, K9::V5, K9::V6, K9::V7, K9::V8];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K9::V0 => 0,
            K9::V1 => 1,
            K9::V2 => 2,
            K9::V3 => 3,
            K9::V4 => 4,
            K9::V5 => 5,
            K9::V6 => 6,
            K9::V7 => 7,
            K9::V8 => 8,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..9 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(K9);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U17 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16 }
impl Dom for U17 {
    const N: usize = 17;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U17] = &[U17::V0, U17::V1, U17::V2, U17::V3, U17::V4, U17::V5, U17::V6, U17::V7, U17::V8, U17::V9, U17::V10, U17::V11, U17::V12, U17::V13, U17::V14, U17::V15, U17::V16];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U17::V0 => 0,
            U17::V1 => 1,
            U17::V2 => 2,
            U17::V3 => 3,
            U17::V4 => 4,
            U17::V5 => 5,
            U17::V6 => 6,
            U17::V7 => 7,
            U17::V8 => 8,
            U17::V9 => 9,
            U17::V10 => 10,
            U17::V11 => 11,
            U17::V12 => 12,
            U17::V13 => 13,
            U17::V14 => 14,
            U17::V15 => 15,
            U17::V16 => 16,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..17 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(U17);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K17 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16 }
impl Dom for K17 {
    const N: usize = 17;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K17] = &[K17::V0, K17::V1, K17::V2, K17::V3, K17::V4, K17::V5, K17::V6, K17::V7, K17::V8, K17::V9, K17::V10, K17::V11, K17::V12, K17::V13, K17::V14, K17::V15, K17::V16];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K17::V0 => 0,
            K17::V1 => 1,
            K17::V2 => 2,
            K17::V3 => 3,
            K17::V4 => 4,
            K17::V5 => 5,
            K17::V6 => 6,
            K17::V7 => 7,
            K17::V8 => 8,
            K17::V9 => 9,
            K17::V10 => 10,
            K17::V11 => 11,
            K17::V12 => 12,
            K17::V13 => 13,
            K17::V14 => 14,
            K17::V15 => 15,
            K17::V16 => 16,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..17 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(K17);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U33 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32 }
impl Dom for U33 {
    const N: usize = 33;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U33] = &[U33::V0, U33::V1, U33::V2, U33::V3, U33::V4, U33::V5, U33::V6, U33::V7, U33::V8, U33::V9, U33::V10, U33::V11, U33::V12, U33::V13, U33::V14, U33::V15, U33::V16, U33::V17, U33::V18, U33::V19, U33::V20, U33::V21, U33::V22, U33::V23, U33::V24, U33::V25, U33::V26, U33::V27, U33::V28, U33::V29, U33::V30, U33::V31, U33::V32];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U33::V0 => 0,
            U33::V1 => 1,
            U33::V2 => 2,
            U33::V3 => 3,
            U33::V4 => 4,
            U33::V5 => 5,
            U33::V6 => 6,
            U33::V7 => 7,
            U33::V8 => 8,
            U33::V9 => 9,
            U33::V10 => 10,
            U33::V11 => 11,
            U33::V12 => 12,
            U33::V13 => 13,
            U33::V14 => 14,
            U33::V15 => 15,
            U33::V16 => 16,
            U33::V17 => 17,
            U33::V18 => 18,
            U33::V19 => 19,
            U33::V20 => 20,
            U33::V21 => 21,
            U33::V22 => 22,
            U33::V23 => 23,
            U33::V24 => 24,
            U33::V25 => 25,
            U33::V26 => 26,
            U33::V27 => 27,
            U33::V28 => 28,
            U33::V29 => 29,
            U33::V30 => 30,
            U33::V31 => 31,
            U33::V32 => 32,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..33 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(U33);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K33 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32 }
impl Dom for K33 {
    const N: usize = 33;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K33] = &[K33::V0, K33::V1, K33::V2, K33::V3, K33::V4, K33::V5, K33::V6, K33::V7, K33::V8, K33::V9, K33::V10, K33::V11, K33::V12, K33::V13, K33::V14, K33::V15, K33::V16, K33::V17, K33::V18, K33::V19, K33::V20, K33::V21, K33::V22, K33::V23, K33::V24, K33::V25, K33::V26, K33::V27, K33::V28, K33::V29, K33::V30, K33::V31, K33::V32];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K33::V0 => 0,
            K33::V1 => 1,
            K33::V2 => 2,
            K33::V3 => 3,
            K33::V4 => 4,
            K33::V5 => 5,
            K33::V6 => 6,
            K33::V7 => 7,
            K33::V8 => 8,
            K33::V9 => 9,
            K33::V10 => 10,
            K33::V11 => 11,
            K33::V12 => 12,
            K33::V13 => 13,
            K33::V14 => 14,
            K33::V15 => 15,
            K33::V16 => 16,
            K33::V17 => 17,
            K33::V18 => 18,
            K33::V19 => 19,
            K33::V20 => 20,
            K33::V21 => 21,
            K33::V22 => 22,
            K33::V23 => 23,
            K33::V24 => 24,
            K33::V25 => 25,
            K33::V26 => 26,
            K33::V27 => 27,
            K33::V28 => 28,
            K33::V29 => 29,
            K33::V30 => 30,
            K33::V31 => 31,
            K33::V32 => 32,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..33 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(K33);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U65 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64 }
impl Dom for U65 {
    const N: usize = 65;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U65] = &[U65::V0, U65::V1, U65::V2, U65::V3, U65::V4, U65::V5, U65::V6, U65::V7, U65::V8, U65::V9, U65::V10, U65::V11, U65::V12, U65::V13, U65::V14, U65::V15, U65::V16, U65::V17, U65::V18, U65::V19, U65::V20, U65::V21, U65::V22, U65::V23, U65::V24, U65::V25, U65::V26, U65::V27, U65::V28, U65::V29, U65::V30, U65::V31, U65::V32, U65::V33, U65::V34, U65::V35, U65::V36, U65::V37, U65::V38, U65::V39, U65::V40, U65::V41, U65::V42, U65::V43, U65::V44, U65::V45, U65::V46, U65::V47, U65::V48, U65::V49, U65::V50, U65::V51, U65::V52, U65::V53, U65::V54, U65::V55, U65::V56, U65::V57, U65::V58, U65::V59, U65::V60, U65::V61, U65::V62, U65::V63, U65::V64];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U65::V0 => 0,
            U65::V1 => 1,
            U65::V2 => 2,
            U65::V3 => 3,
            U65::V4 => 4,
            U65::V5 => 5,
            U65::V6 => 6,
            U65::V7 => 7,
            U65::V8 => 8,
            U65::V9 => 9,
            U65::V10 => 10,
            U65::V11 => 11,
            U65::V12 => 12,
            U65::V13 => 13,
            U65::V14 => 14,
            U65::V15 => 15,
            U65::V16 => 16,
            U65::V17 => 17,
            U65::V18 => 18,
            U65::V19 => 19,
            U65::V20 => 20,
            U65::V21 => 21,
            U65::V22 => 22,
            U65::V23 => 23,
            U65::V24 => 24,
            U65::V25 => 25,
            U65::V26 => 26,
            U65::V27 => 27,
            U65::V28 => 28,
            U65::V29 => 29,
            U65::V30 => 30,
            U65::V31 => 31,
            U65::V32 => 32,
            U65::V33 => 33,
            U65::V34 => 34,
            U65::V35 => 35,
            U65::V36 => 36,
            U65::V37 => 37,
            U65::V38 => 38,
            U65::V39 => 39,
            U65::V40 => 40,
            U65::V41 => 41,
            U65::V42 => 42,
            U65::V43 => 43,
            U65::V44 => 44,
            U65::V45 => 45,
            U65::V46 => 46,
            U65::V47 => 47,
            U65::V48 => 48,
            U65::V49 => 49,
            U65::V50 => 50,
            U65::V51 => 51,
            U65::V52 => 52,
            U65::V53 => 53,
            U65::V54 => 54,
            U65::V55 => 55,
            U65::V56 => 56,
            U65::V57 => 57,
            U65::V58 => 58,
            U65::V59 => 59,
            U65::V60 => 60,
            U65::V61 => 61,
            U65::V62 => 62,
            U65::V63 => 63,
            U65::V64 => 64,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..65 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(U65);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K65 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64 }
impl Dom for K65 {
    const N: usize = 65;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K65] = &[K65::V0, K65::V1, K65::V2, K65::V3, K65::V4, K65::V5, K65::V6, K65::V7, K65::V8, K65::V9, K65::V10, K65::V11, K65::V12, K65::V13, K65::V14, K65::V15, K65::V16, K65::V17, K65::V18, K65::V19, K65::V20, K65::V21, K65::V22, K65::V23, K65::V24, K65::V25, K65::V26, K65::V27, K65::V28, K65::V29, K65::V30, K65::V31, K65::V32, K65::V33, K65::V34, K65::V35, K65::V36, K65::V37, K65::V38, K65::V39, K65::V40, K65::V41, K65::V42, K65::V43, K65::V44, K65::V45, K65::V46, K65::V47, K65::V48, K65::V49, K65::V50, K65::V51, K65::V52, K65::V53, K65::V54, K65::V55, K65::V56, K65::V57, K65::V58, K65::V59, K65::V60, K65::V61, K65::V62, K65::V63, K65::V64];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K65::V0 => 0,
            K65::V1 => 1,
            K65::V2 => 2,
            K65::V3 => 3,
            K65::V4 => 4,
            K65::V5 => 5,
            K65::V6 => 6,
            K65::V7 => 7,
            K65::V8 => 8,
            K65::V9 => 9,
            K65::V10 => 10,
            K65::V11 => 11,
            K65::V12 => 12,
            K65::V13 => 13,
            K65::V14 => 14,
            K65::V15 => 15,
            K65::V16 => 16,
            K65::V17 => 17,
            K65::V18 => 18,
            K65::V19 => 19,
            K65::V20 => 20,
            K65::V21 => 21,
            K65::V22 => 22,
            K65::V23 => 23,
            K65::V24 => 24,
            K65::V25 => 25,
            K65::V26 => 26,
            K65::V27 => 27,
            K65::V28 => 28,
            K65::V29 => 29,
            K65::V30 => 30,
            K65::V31 => 31,
            K65::V32 => 32,
            K65::V33 => 33,
            K65::V34 => 34,
            K65::V35 => 35,
            K65::V36 => 36,
            K65::V37 => 37,
            K65::V38 => 38,
            K65::V39 => 39,
            K65::V40 => 40,
            K65::V41 => 41,
            K65::V42 => 42,
            K65::V43 => 43,
            K65::V44 => 44,
            K65::V45 => 45,
            K65::V46 => 46,
            K65::V47 => 47,
            K65::V48 => 48,
            K65::V49 => 49,
            K65::V50 => 50,
            K65::V51 => 51,
            K65::V52 => 52,
            K65::V53 => 53,
            K65::V54 => 54,
            K65::V55 => 55,
            K65::V56 => 56,
            K65::V57 => 57,
            K65::V58 => 58,
            K65::V59 => 59,
            K65::V60 => 60,
            K65::V61 => 61,
            K65::V62 => 62,
            K65::V63 => 63,
            K65::V64 => 64,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..65 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(K65);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U128 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
impl Dom for U128 {
    const N: usize = 128;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U128] = &[U128::V0, U128::V1, U128::V2, U128::V3, U128::V4, U128::V5, U128::V6, U128::V7, U128::V8, U128::V9, U128::V10, U128::V11, U128::V12, U128::V13, U128::V14, U128::V15, U128::V16, U128::V17, U128::V18, U128::V19, U128::V20, U128::V21, U128::V22, U128::V23, U128::V24, U128::V25, U128::V26, U128::V27, U128::V28, U128::V29, U128::V30, U128::V31, U128::V32, U128::V33, U128::V34, U128::V35, U128::V36, U128::V37, U128::V38, U128::V39, U128::V40, U128::V41, U128::V42, U128::V43, U128::V44, U128::V45, U128::V46, U128::V47, U128::V48, U128::V49, U128::V50, U128::V51, U128::V52, U128::V53, U128::V54, U128::V55, U128::V56, U128::V57, U128::V58, U128::V59, U128::V60, U128::V61, U128::V62, U128::V63, U128::V64, U128::V65, U128::V66, U128::V67, U128::V68, U128::V69, U128::V70, U128::V71, U128::V72, U128::V73, U128::V74, U128::V75, U128::V76, U128::V77, U128::V78, U128::V79, U128::V80, U128::V81, U128::V82, U128::V83, U128::V84, U128::V85, U128::V86, U128::V87, U128::V88, U128::V89, U128::V90, U128::V91, U128::V92, U128::V93, U128::V94, U128::V95, U128::V96, U128::V97, U128::V98, U128::V99, U128::V100, U128::V101, U128::V102, U128::V103, U128::V104, U128::V105, U128::V106, U128::V107, U128::V108, U128::V109, U128::V110, U128::V111, U128::V112, U128::V113, U128::V114, U128::V115, U128::V116, U128::V117, U128::V118, U128::V119, U128::V120, U128::V121, U128::V122, U128::V123, U128::V124, U128::V125, U128::V126, U128::V127];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U128::V0 => 0,
            U128::V1 => 1,
            U128::V2 => 2,
            U128::V3 => 3,
            U128::V4 => 4,
            U128::V5 => 5,
            U128::V6 => 6,
            U128::V7 => 7,
            U128::V8 => 8,
            U128::V9 => 9,
            U128::V10 => 10,
            U128::V11 => 11,
            U128::V12 => 12,
            U128::V13 => 13,
            U128::V14 => 14,
            U128::V15 => 15,
            U128::V16 => 16,
            U128::V17 => 17,
            U128::V18 => 18,
            U128::V19 => 19,
            U128::V20 => 20,
            U128::V21 => 21,
            U128::V22 => 22,
            U128::V23 => 23,
            U128::V24 => 24,
            U128::V25 => 25,
            U128::V26 => 26,
            U128::V27 => 27,
            U128::V28 => 28,
            U128::V29 => 29,
            U128::V30 => 30,
            U128::V31 => 31,
            U128::V32 => 32,
            U128::V33 => 33,
            U128::V34 => 34,
            U128::V35 => 35,
            U128::V36 => 36,
            U128::V37 => 37,
            U128::V38 => 38,
            U128::V39 => 39,
            U128::V40 => 40,
            U128::V41 => 41,
            U128::V42 => 42,
            U128::V43 => 43,
            U128::V44 => 44,
            U128::V45 => 45,
            U128::V46 => 46,
            U128::V47 => 47,
            U128::V48 => 48,
            U128::V49 => 49,
            U128::V50 => 50,
            U128::V51 => 51,
            U128::V52 => 52,
            U128::V53 => 53,
            U128::V54 => 54,
            U128::V55 => 55,
            U128::V56 => 56,
            U128::V57 => 57,
            U128::V58 => 58,
            U128::V59 => 59,
            U128::V60 => 60,
            U128::V61 => 61,
            U128::V62 => 62,
            U128::V63 => 63,
            U128::V64 => 64,
            U128::V65 => 65,
            U128::V66 => 66,
            U128::V67 => 67,
            U128::V68 => 68,
            U128::V69 => 69,
            U128::V70 => 70,
            U128::V71 => 71,
            U128::V72 => 72,
            U128::V73 => 73,
            U128::V74 => 74,
            U128::V75 => 75,
            U128::V76 => 76,
            U128::V77 => 77,
            U128::V78 => 78,
            U128::V79 => 79,
            U128::V80 => 80,
            U128::V81 => 81,
            U128::V82 => 82,
            U128::V83 => 83,
            U128::V84 => 84,
            U128::V85 => 85,
            U128::V86 => 86,
            U128::V87 => 87,
            U128::V88 => 88,
            U128::V89 => 89,
            U128::V90 => 90,
            U128::V91 => 91,
            U128::V92 => 92,
            U128::V93 => 93,
            U128::V94 => 94,
            U128::V95 => 95,
            U128::V96 => 96,
            U128::V97 => 97,
            U128::V98 => 98,
            U128::V99 => 99,
            U128::V100 => 100,
            U128::V101 => 101,
            U128::V102 => 102,
            U128::V103 => 103,
            U128::V104 => 104,
            U128::V105 => 105,
            U128::V106 => 106,
            U128::V107 => 107,
            U128::V108 => 108,
            U128::V109 => 109,
            U128::V110 => 110,
            U128::V111 => 111,
            U128::V112 => 112,
            U128::V113 => 113,
            U128::V114 => 114,
            U128::V115 => 115,
            U128::V116 => 116,
            U128::V117 => 117,
            U128::V118 => 118,
            U128::V119 => 119,
            U128::V120 => 120,
            U128::V121 => 121,
            U128::V122 => 122,
            U128::V123 => 123,
            U128::V124 => 124,
            U128::V125 => 125,
            U128::V126 => 126,
            U128::V127 => 127,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..128 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(U128);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
#[key(bitset)]
pub enum K128 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
impl Dom for K128 {
    const N: usize = 128;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[K128] = &[K128::V0, K128::V1, K128::V2, K128::V3, K128::V4, K128::V5, K128::V6, K128::V7, K128::V8, K128::V9, K128::V10, K128::V11, K128::V12, K128::V13, K128::V14, K128::V15, K128::V16, K128::V17, K128::V18, K128::V19, K128::V20, K128::V21, K128::V22, K128::V23, K128::V24, K128::V25, K128::V26, K128::V27, K128::V28, K128::V29, K128::V30, K128::V31, K128::V32, K128::V33, K128::V34, K128::V35, K128::V36, K128::V37, K128::V38, K128::V39, K128::V40, K128::V41, K128::V42, K128::V43, K128::V44, K128::V45, K128::V46, K128::V47, K128::V48, K128::V49, K128::V50, K128::V51, K128::V52, K128::V53, K128::V54, K128::V55, K128::V56, K128::V57, K128::V58, K128::V59, K128::V60, K128::V61, K128::V62, K128::V63, K128::V64, K128::V65, K128::V66, K128::V67, K128::V68, K128::V69, K128::V70, K128::V71, K128::V72, K128::V73, K128::V74, K128::V75, K128::V76, K128::V77, K128::V78, K128::V79, K128::V80, K128::V81, K128::V82, K128::V83, K128::V84, K128::V85, K128::V86, K128::V87, K128::V88, K128::V89, K128::V90, K128::V91, K128::V92, K128::V93, K128::V94, K128::V95, K128::V96, K128::V97, K128::V98, K128::V99, K128::V100, K128::V101, K128::V102, K128::V103, K128::V104, K128::V105, K128::V106, K128::V107, K128::V108, K128::V109, K128::V110, K128::V111, K128::V112, K128::V113, K128::V114, K128::V115, K128::V116, K128::V117, K128::V118, K128::V119, K128::V120, K128::V121, K128::V122, K128::V123, K128::V124, K128::V125, K128::V126, K128::V127];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            K128::V0 => 0,
            K128::V1 => 1,
            K128::V2 => 2,
            K128::V3 => 3,
            K128::V4 => 4,
            K128::V5 => 5,
            K128::V6 => 6,
            K128::V7 => 7,
            K128::V8 => 8,
            K128::V9 => 9,
            K128::V10 => 10,
            K128::V11 => 11,
            K128::V12 => 12,
            K128::V13 => 13,
            K128::V14 => 14,
            K128::V15 => 15,
            K128::V16 => 16,
            K128::V17 => 17,
            K128::V18 => 18,
            K128::V19 => 19,
            K128::V20 => 20,
            K128::V21 => 21,
            K128::V22 => 22,
            K128::V23 => 23,
            K128::V24 => 24,
            K128::V25 => 25,
            K128::V26 => 26,
            K128::V27 => 27,
            K128::V28 => 28,
            K128::V29 => 29,
            K128::V30 => 30,
            K128::V31 => 31,
            K128::V32 => 32,
            K128::V33 => 33,
            K128::V34 => 34,
            K128::V35 => 35,
            K128::V36 => 36,
            K128::V37 => 37,
            K128::V38 => 38,
            K128::V39 => 39,
            K128::V40 => 40,
            K128::V41 => 41,
            K128::V42 => 42,
            K128::V43 => 43,
            K128::V44 => 44,
            K128::V45 => 45,
            K128::V46 => 46,
            K128::V47 => 47,
            K128::V48 => 48,
            K128::V49 => 49,
            K128::V50 => 50,
            K128::V51 => 51,
            K128::V52 => 52,
            K128::V53 => 53,
            K128::V54 => 54,
            K128::V55 => 55,
            K128::V56 => 56,
            K128::V57 => 57,
            K128::V58 => 58,
            K128::V59 => 59,
            K128::V60 => 60,
            K128::V61 => 61,
            K128::V62 => 62,
            K128::V63 => 63,
            K128::V64 => 64,
            K128::V65 => 65,
            K128::V66 => 66,
            K128::V67 => 67,
            K128::V68 => 68,
            K128::V69 => 69,
            K128::V70 => 70,
            K128::V71 => 71,
            K128::V72 => 72,
            K128::V73 => 73,
            K128::V74 => 74,
            K128::V75 => 75,
            K128::V76 => 76,
            K128::V77 => 77,
            K128::V78 => 78,
            K128::V79 => 79,
            K128::V80 => 80,
            K128::V81 => 81,
            K128::V82 => 82,
            K128::V83 => 83,
            K128::V84 => 84,
            K128::V85 => 85,
            K128::V86 => 86,
            K128::V87 => 87,
            K128::V88 => 88,
            K128::V89 => 89,
            K128::V90 => 90,
            K128::V91 => 91,
            K128::V92 => 92,
            K128::V93 => 93,
            K128::V94 => 94,
            K128::V95 => 95,
            K128::V96 => 96,
            K128::V97 => 97,
            K128::V98 => 98,
            K128::V99 => 99,
            K128::V100 => 100,
            K128::V101 => 101,
            K128::V102 => 102,
            K128::V103 => 103,
            K128::V104 => 104,
            K128::V105 => 105,
            K128::V106 => 106,
            K128::V107 => 107,
            K128::V108 => 108,
            K128::V109 => 109,
            K128::V110 => 110,
            K128::V111 => 111,
            K128::V112 => 112,
            K128::V113 => 113,
            K128::V114 => 114,
            K128::V115 => 115,
            K128::V116 => 116,
            K128::V117 => 117,
            K128::V118 => 118,
            K128::V119 => 119,
            K128::V120 => 120,
            K128::V121 => 121,
            K128::V122 => 122,
            K128::V123 => 123,
            K128::V124 => 124,
            K128::V125 => 125,
            K128::V126 => 126,
            K128::V127 => 127,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..128 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(K128);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U129 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128 }
impl Dom for U129 {
    const N: usize = 129;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U129] = &[U129::V0, U129::V1, U129::V2, U129::V3, U129::V4, U129::V5, U129::V6, U129::V7, U129::V8, U129::V9, U129::V10, U129::V11, U129::V12, U129::V13, U129::V14, U129::V15, U129::V16, U129::V17, U129::V18, U129::V19, U129::V20, U129::V21, U129::V22, U129::V23, U129::V24, U129::V25, U129::V26, U129::V27, U129::V28, U129::V29, U129::V30, U129::V31, U129::V32, U129::V33, U129::V34, U129::V35, U129::V36, U129::V37, U129::V38, U129::V39, U129::V40, U129::V41, U129::V42, U129::V43, U129::V44, U129::V45, U129::V46, U129::V47, U129::V48, U129::V49, U129::V50, U129::V51, U129::V52, U129::V53, U129::V54, U129::V55, U129::V56, U129::V57, U129::V58, U129::V59, U129::V60, U129::V61, U129::V62, U129::V63, U129::V64, U129::V65, U129::V66, U129::V67, U129::V68, U129::V69, U129::V70, U129::V71, U129::V72, U129::V73, U129::V74, U129::V75, U129::V76, U129::V77, U129::V78, U129::V79, U129::V80, U129::V81, U129::V82, U129::V83, U129::V84, U129::V85, U129::V86, U129::V87, U129::V88, U129::V89, U129::V90, U129::V91, U129::V92, U129::V93, U129::V94, U129::V95, U129::V96, U129::V97, U129::V98, U129::V99, U129::V100, U129::V101, U129::V102, U129::V103, U129::V104, U129::V105, U129::V106, U129::V107, U129::V108, U129::V109, U129::V110, U129::V111, U129::V112, U129::V113, U129::V114, U129::V115, U129::V116, U129::V117, U129::V118, U129::V119, U129::V120, U129::V121, U129::V122, U129::V123, U129::V124, U129::V125, U129::V126, U129::V127, U129::V128];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U129::V0 => 0,
            U129::V1 => 1,
            U129::V2 => 2,
            U129::V3 => 3,
            U129::V4 => 4,
            U129::V5 => 5,
            U129::V6 => 6,
            U129::V7 => 7,
            U129::V8 => 8,
            U129::V9 => 9,
            U129::V10 => 10,
            U129::V11 => 11,
            U129::V12 => 12,
            U129::V13 => 13,
            U129::V14 => 14,
            U129::V15 => 15,
            U129::V16 => 16,
            U129::V17 => 17,
            U129::V18 => 18,
            U129::V19 => 19,
            U129::V20 => 20,
            U129::V21 => 21,
            U129::V22 => 22,
            U129::V23 => 23,
            U129::V24 => 24,
            U129::V25 => 25,
            U129::V26 => 26,
            U129::V27 => 27,
            U129::V28 => 28,
            U129::V29 => 29,
            U129::V30 => 30,
            U129::V31 => 31,
            U129::V32 => 32,
            U129::V33 => 33,
            U129::V34 => 34,
            U129::V35 => 35,
            U129::V36 => 36,
            U129::V37 => 37,
            U129::V38 => 38,
            U129::V39 => 39,
            U129::V40 => 40,
            U129::V41 => 41,
            U129::V42 => 42,
            U129::V43 => 43,
            U129::V44 => 44,
            U129::V45 => 45,
            U129::V46 => 46,
            U129::V47 => 47,
            U129::V48 => 48,
            U129::V49 => 49,
            U129::V50 => 50,
            U129::V51 => 51,
            U129::V52 => 52,
            U129::V53 => 53,
            U129::V54 => 54,
            U129::V55 => 55,
            U129::V56 => 56,
            U129::V57 => 57,
            U129::V58 => 58,
            U129::V59 => 59,
            U129::V60 => 60,
            U129::V61 => 61,
            U129::V62 => 62,
            U129::V63 => 63,
            U129::V64 => 64,
            U129::V65 => 65,
            U129::V66 => 66,
            U129::V67 => 67,
            U129::V68 => 68,
            U129::V69 => 69,
            U129::V70 => 70,
            U129::V71 => 71,
            U129::V72 => 72,
            U129::V73 => 73,
            U129::V74 => 74,
            U129::V75 => 75,
            U129::V76 => 76,
            U129::V77 => 77,
            U129::V78 => 78,
            U129::V79 => 79,
            U129::V80 => 80,
            U129::V81 => 81,
            U129::V82 => 82,
            U129::V83 => 83,
            U129::V84 => 84,
            U129::V85 => 85,
            U129::V86 => 86,
            U129::V87 => 87,
            U129::V88 => 88,
            U129::V89 => 89,
            U129::V90 => 90,
            U129::V91 => 91,
            U129::V92 => 92,
            U129::V93 => 93,
            U129::V94 => 94,
            U129::V95 => 95,
            U129::V96 => 96,
            U129::V97 => 97,
            U129::V98 => 98,
            U129::V99 => 99,
            U129::V100 => 100,
            U129::V101 => 101,
            U129::V102 => 102,
            U129::V103 => 103,
            U129::V104 => 104,
            U129::V105 => 105,
            U129::V106 => 106,
            U129::V107 => 107,
            U129::V108 => 108,
            U129::V109 => 109,
            U129::V110 => 110,
            U129::V111 => 111,
            U129::V112 => 112,
            U129::V113 => 113,
            U129::V114 => 114,
            U129::V115 => 115,
            U129::V116 => 116,
            U129::V117 => 117,
            U129::V118 => 118,
            U129::V119 => 119,
            U129::V120 => 120,
            U129::V121 => 121,
            U129::V122 => 122,
            U129::V123 => 123,
            U129::V124 => 124,
            U129::V125 => 125,
            U129::V126 => 126,
            U129::V127 => 127,
            U129::V128 => 128,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..129 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(U129);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum U257 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256 }
impl Dom for U257 {
    const N: usize = 257;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[U257] = &[U257::V0, U257::V1, U257::V2, U257::V3, U257::V4, U257::V5, U257::V6, U257::V7, U257::V8, U257::V9, U257::V10, U257::V11, U257::V12, U257::V13, U257::V14, U257::V15, U257::V16, U257::V17, U257::V18, U257::V19, U257::V20, U257::V21, U257::V22, U257::V23, U257::V24, U257::V25, U257::V26, U257::V27, U257::V28, U257::V29, U257::V30, U257::V31, U257::V32, U257::V33, U257::V34, U257::V35, U257::V36, U257::V37, U257::V38, U257::V39, U257::V40, U257::V41, U257::V42, U257::V43, U257::V44, U257::V45, U257::V46, U257::V47, U257::V48, U257::V49, U257::V50, U257::V51, U257::V52, U257::V53, U257::V54, U257::V55, U257::V56, U257::V57, U257::V58, U257::V59, U257::V60, U257::V61, U257::V62, U257::V63, U257::V64, U257::V65, U257::V66, U257::V67, U257::V68, U257::V69, U257::V70, U257::V71, U257::V72, U257::V73, U257::V74, U257::V75, U257::V76, U257::V77, U257::V78, U257::V79, U257::V80, U257::V81, U257::V82, U257::V83, U257::V84, U257::V85, U257::V86, U257::V87, U257::V88, U257::V89, U257::V90, U257::V91, U257::V92, U257::V93, U257::V94, U257::V95, U257::V96, U257::V97, U257::V98, U257::V99, U257::V100, U257::V101, U257::V102, U257::V103, U257::V104, U257::V105, U257::V106, U257::V107, U257::V108, U257::V109, U257::V110, U257::V111, U257::V112, U257::V113, U257::V114, U257::V115, U257::V116, U257::V117, U257::V118, U257::V119, U257::V120, U257::V121, U257::V122, U257::V123, U257::V124, U257::V125, U257::V126, U257::V127, U257::V128, U257::V129, U257::V130, U257::V131, U257::V132, U257::V133, U257::V134, U257::V135, U257::V136, U257::V137, U257::V138, U257::V139, U257::V140, U257::V141, U257::V142, U257::V143, U257::V144, U257::V145, U257::V146, U257::V147, U257::V148, U257::V149, U257::V150, U257::V151, U257::V152, U257::V153, U257::V154, U257::V155, U257::V156, U257::V157, U257::V158, U257::V159, U257::V160, U257::V161, U257::V162, U257::V163, U257::V164, U257::V165, U257::V166, U257::V167, U257::V168, U257::V169, U257::V170, U257::V171, U257::V172, U257::V173, U257::V174, U257::V175, U257::V176, U257::V177, U257::V178, U257::V179, U257::V180, U257::V181, U257::V182, U257::V183, U257::V184, U257::V185, U257::V186, U257::V187, U257::V188, U257::V189, U257::V190, U257::V191, U257::V192, U257::V193, U257::V194, U257::V195, U257::V196, U257::V197, U257::V198, U257::V199, U257::V200, U257::V201, U257::V202, U257::V203, U257::V204, U257::V205, U257::V206, U257::V207, U257::V208, U257::V209, U257::V210, U257::V211, U257::V212, U257::V213, U257::V214, U257::V215, U257::V216, U257::V217, U257::V218, U257::V219, U257::V220, U257::V221, U257::V222, U257::V223, U257::V224, U257::V225, U257::V226, U257::V227, U257::V228, U257::V229, U257::V230, U257::V231, U257::V232, U257::V233, U257::V234, U257::V235, U257::V236, U257::V237, U257::V238, U257::V239, U257::V240, U257::V241, U257::V242, U257::V243, U257::V244, U257::V245, U257::V246, U257::V247, U257::V248, U257::V249, U257::V250, U257::V251, U257::V252, U257::V253, U257::V254, U257::V255, U257::V256];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            U257::V0 => 0,
            U257::V1 => 1,
            U257::V2 => 2,
            U257::V3 => 3,
            U257::V4 => 4,
            U257::V5 => 5,
            U257::V6 => 6,
            U257::V7 => 7,
            U257::V8 => 8,
            U257::V9 => 9,
            U257::V10 => 10,
            U257::V11 => 11,
            U257::V12 => 12,
            U257::V13 => 13,
            U257::V14 => 14,
            U257::V15 => 15,
            U257::V16 => 16,
            U257::V17 => 17,
            U257::V18 => 18,
            U257::V19 => 19,
            U257::V20 => 20,
            U257::V21 => 21,
            U257::V22 => 22,
            U257::V23 => 23,
            U257::V24 => 24,
            U257::V25 => 25,
            U257::V26 => 26,
            U257::V27 => 27,
            U257::V28 => 28,
            U257::V29 => 29,
            U257::V30 => 30,
            U257::V31 => 31,
            U257::V32 => 32,
            U257::V33 => 33,
            U257::V34 => 34,
            U257::V35 => 35,
            U257::V36 => 36,
            U257::V37 => 37,
            U257::V38 => 38,
            U257::V39 => 39,
            U257::V40 => 40,
            U257::V41 => 41,
            U257::V42 => 42,
            U257::V43 => 43,
            U257::V44 => 44,
            U257::V45 => 45,
            U257::V46 => 46,
            U257::V47 => 47,
            U257::V48 => 48,
            U257::V49 => 49,
            U257::V50 => 50,
            U257::V51 => 51,
            U257::V52 => 52,
            U257::V53 => 53,
            U257::V54 => 54,
            U257::V55 => 55,
            U257::V56 => 56,
            U257::V57 => 57,
            U257::V58 => 58,
            U257::V59 => 59,
            U257::V60 => 60,
            U257::V61 => 61,
            U257::V62 => 62,
            U257::V63 => 63,
            U257::V64 => 64,
            U257::V65 => 65,
            U257::V66 => 66,
            U257::V67 => 67,
            U257::V68 => 68,
            U257::V69 => 69,
            U257::V70 => 70,
            U257::V71 => 71,
            U257::V72 => 72,
            U257::V73 => 73,
            U257::V74 => 74,
            U257::V75 => 75,
            U257::V76 => 76,
            U257::V77 => 77,
            U257::V78 => 78,
            U257::V79 => 79,
            U257::V80 => 80,
            U257::V81 => 81,
            U257::V82 => 82,
            U257::V83 => 83,
            U257::V84 => 84,
            U257::V85 => 85,
            U257::V86 => 86,
            U257::V87 => 87,
            U257::V88 => 88,
            U257::V89 => 89,
            U257::V90 => 90,
            U257::V91 => 91,
            U257::V92 => 92,
            U257::V93 => 93,
            U257::V94 => 94,
            U257::V95 => 95,
            U257::V96 => 96,
            U257::V97 => 97,
            U257::V98 => 98,
            U257::V99 => 99,
            U257::V100 => 100,
            U257::V101 => 101,
            U257::V102 => 102,
            U257::V103 => 103,
            U257::V104 => 104,
            U257::V105 => 105,
            U257::V106 => 106,
            U257::V107 => 107,
            U257::V108 => 108,
            U257::V109 => 109,
            U257::V110 => 110,
            U257::V111 => 111,
            U257::V112 => 112,
            U257::V113 => 113,
            U257::V114 => 114,
            U257::V115 => 115,
            U257::V116 => 116,
            U257::V117 => 117,
            U257::V118 => 118,
            U257::V119 => 119,
            U257::V120 => 120,
            U257::V121 => 121,
            U257::V122 => 122,
            U257::V123 => 123,
            U257::V124 => 124,
            U257::V125 => 125,
            U257::V126 => 126,
            U257::V127 => 127,
            U257::V128 => 128,
            U257::V129 => 129,
            U257::V130 => 130,
            U257::V131 => 131,
            U257::V132 => 132,
            U257::V133 => 133,
            U257::V134 => 134,
            U257::V135 => 135,
            U257::V136 => 136,
            U257::V137 => 137,
            U257::V138 => 138,
            U257::V139 => 139,
            U257::V140 => 140,
            U257::V141 => 141,
            U257::V142 => 142,
            U257::V143 => 143,
            U257::V144 => 144,
            U257::V145 => 145,
            U257::V146 => 146,
            U257::V147 => 147,
            U257::V148 => 148,
            U257::V149 => 149,
            U257::V150 => 150,
            U257::V151 => 151,
            U257::V152 => 152,
            U257::V153 => 153,
            U257::V154 => 154,
            U257::V155 => 155,
            U257::V156 => 156,
            U257::V157 => 157,
            U257::V158 => 158,
            U257::V159 => 159,
            U257::V160 => 160,
            U257::V161 => 161,
            U257::V162 => 162,
            U257::V163 => 163,
            U257::V164 => 164,
            U257::V165 => 165,
            U257::V166 => 166,
            U257::V167 => 167,
            U257::V168 => 168,
            U257::V169 => 169,
            U257::V170 => 170,
            U257::V171 => 171,
            U257::V172 => 172,
            U257::V173 => 173,
            U257::V174 => 174,
            U257::V175 => 175,
            U257::V176 => 176,
            U257::V177 => 177,
            U257::V178 => 178,
            U257::V179 => 179,
            U257::V180 => 180,
            U257::V181 => 181,
            U257::V182 => 182,
            U257::V183 => 183,
            U257::V184 => 184,
            U257::V185 => 185,
            U257::V186 => 186,
            U257::V187 => 187,
            U257::V188 => 188,
            U257::V189 => 189,
            U257::V190 => 190,
            U257::V191 => 191,
            U257::V192 => 192,
            U257::V193 => 193,
            U257::V194 => 194,
            U257::V195 => 195,
            U257::V196 => 196,
            U257::V197 => 197,
            U257::V198 => 198,
            U257::V199 => 199,
            U257::V200 => 200,
            U257::V201 => 201,
            U257::V202 => 202,
            U257::V203 => 203,
            U257::V204 => 204,
            U257::V205 => 205,
            U257::V206 => 206,
            U257::V207 => 207,
            U257::V208 => 208,
            U257::V209 => 209,
            U257::V210 => 210,
            U257::V211 => 211,
            U257::V212 => 212,
            U257::V213 => 213,
            U257::V214 => 214,
            U257::V215 => 215,
            U257::V216 => 216,
            U257::V217 => 217,
            U257::V218 => 218,
            U257::V219 => 219,
            U257::V220 => 220,
            U257::V221 => 221,
            U257::V222 => 222,
            U257::V223 => 223,
            U257::V224 => 224,
            U257::V225 => 225,
            U257::V226 => 226,
            U257::V227 => 227,
            U257::V228 => 228,
            U257::V229 => 229,
            U257::V230 => 230,
            U257::V231 => 231,
            U257::V232 => 232,
            U257::V233 => 233,
            U257::V234 => 234,
            U257::V235 => 235,
            U257::V236 => 236,
            U257::V237 => 237,
            U257::V238 => 238,
            U257::V239 => 239,
            U257::V240 => 240,
            U257::V241 => 241,
            U257::V242 => 242,
            U257::V243 => 243,
            U257::V244 => 244,
            U257::V245 => 245,
            U257::V246 => 246,
            U257::V247 => 247,
            U257::V248 => 248,
            U257::V249 => 249,
            U257::V250 => 250,
            U257::V251 => 251,
            U257::V252 => 252,
            U257::V253 => 253,
            U257::V254 => 254,
            U257::V255 => 255,
            U257::V256 => 256,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..257 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(U257);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DiscU { A = 5, B = -3, C = 200 }
impl Dom for DiscU {
    const N: usize = 3;
    const STATIC: bool = true;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        const T: &[DiscU] = &[DiscU::A, DiscU::B, DiscU::C];
        return T[i];
    }
    fn idx(self) -> usize {
        match self {
            DiscU::A => 0,
            DiscU::B => 1,
            DiscU::C => 2,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        for _ in 0..3 { out.push(*next); *next += 1; }
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(DiscU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum NestA { X(bool), Y }
impl Dom for NestA {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return NestA::X(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return NestA::Y; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            NestA::X(x) => off(0, <bool as Dom>::idx(x)),
            NestA::Y => 0 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(NestA);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum NestB { P, Q(NestA), R(Option<U2>) }
impl Dom for NestB {
    const N: usize = 1 + <NestA as Dom>::N + <Option<U2> as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <Option<U2> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return NestB::P; } i -= 1;
        if i < <NestA as Dom>::N { return NestB::Q(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i < <Option<U2> as Dom>::N { return NestB::R(<Option<U2> as Dom>::at(i)); } i -= <Option<U2> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            NestB::P => 0,
            NestB::Q(x) => off(1, <NestA as Dom>::idx(x)),
            NestB::R(x) => off(1 + <NestA as Dom>::N, <Option<U2> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <NestA as Dom>::ranks(out, next);
        <Option<U2> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(NestB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1B { V0(bool) }
impl Dom for C1B {
    const N: usize = 0 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C1B::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1B::V0(x) => off(0, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C1B);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1S { V0(()) }
impl Dom for C1S {
    const N: usize = 0 + <() as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C1S::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1S::V0(x) => off(0, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C1S);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1O { V0(Option<bool>) }
impl Dom for C1O {
    const N: usize = 0 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return C1O::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1O::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C1O);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1E { V0(U2) }
impl Dom for C1E {
    const N: usize = 0 + <U2 as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return C1E::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1E::V0(x) => off(0, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C1E);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1K { V0(K2) }
impl Dom for C1K {
    const N: usize = 0 + <K2 as Dom>::N;
    const STATIC: bool = true && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <K2 as Dom>::N { return C1K::V0(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1K::V0(x) => off(0, <K2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <K2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C1K);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C1C { V0(NestA) }
impl Dom for C1C {
    const N: usize = 0 + <NestA as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return C1C::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C1C::V0(x) => off(0, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C1C);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2UB { V0, V1(bool) }
impl Dom for C2UB {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C2UB::V0; } i -= 1;
        if i < <bool as Dom>::N { return C2UB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2UB::V0 => 0,
            C2UB::V1(x) => off(1, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C2UB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2UO { V0, V1(Option<bool>) }
impl Dom for C2UO {
    const N: usize = 1 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C2UO::V0; } i -= 1;
        if i < <Option<bool> as Dom>::N { return C2UO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2UO::V0 => 0,
            C2UO::V1(x) => off(1, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C2UO);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2UE { V0, V1(U2) }
impl Dom for C2UE {
    const N: usize = 1 + <U2 as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C2UE::V0; } i -= 1;
        if i < <U2 as Dom>::N { return C2UE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2UE::V0 => 0,
            C2UE::V1(x) => off(1, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <U2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C2UE);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2BU { V0(bool), V1 }
impl Dom for C2BU {
    const N: usize = 1 + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C2BU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return C2BU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2BU::V0(x) => off(0, <bool as Dom>::idx(x)),
            C2BU::V1 => 0 + <bool as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C2BU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2BB { V0(bool), V1(bool) }
impl Dom for C2BB {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C2BB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return C2BB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2BB::V0(x) => off(0, <bool as Dom>::idx(x)),
            C2BB::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C2BB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2BO { V0(bool), V1(Option<bool>) }
impl Dom for C2BO {
    const N: usize = 0 + <bool as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C2BO::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <Option<bool> as Dom>::N { return C2BO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2BO::V0(x) => off(0, <bool as Dom>::idx(x)),
            C2BO::V1(x) => off(0 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C2BO);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2BE { V0(bool), V1(U2) }
impl Dom for C2BE {
    const N: usize = 0 + <bool as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C2BE::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <U2 as Dom>::N { return C2BE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2BE::V0(x) => off(0, <bool as Dom>::idx(x)),
            C2BE::V1(x) => off(0 + <bool as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C2BE);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2OU { V0(Option<bool>), V1 }
impl Dom for C2OU {
    const N: usize = 1 + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return C2OU::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return C2OU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2OU::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            C2OU::V1 => 0 + <Option<bool> as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C2OU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2OB { V0(Option<bool>), V1(bool) }
impl Dom for C2OB {
    const N: usize = 0 + <Option<bool> as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return C2OB::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <bool as Dom>::N { return C2OB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2OB::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            C2OB::V1(x) => off(0 + <Option<bool> as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C2OB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2OO { V0(Option<bool>), V1(Option<bool>) }
impl Dom for C2OO {
    const N: usize = 0 + <Option<bool> as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return C2OO::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <Option<bool> as Dom>::N { return C2OO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2OO::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            C2OO::V1(x) => off(0 + <Option<bool> as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C2OO);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2OE { V0(Option<bool>), V1(U2) }
impl Dom for C2OE {
    const N: usize = 0 + <Option<bool> as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <Option<bool> as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<bool> as Dom>::N { return C2OE::V0(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i < <U2 as Dom>::N { return C2OE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2OE::V0(x) => off(0, <Option<bool> as Dom>::idx(x)),
            C2OE::V1(x) => off(0 + <Option<bool> as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<bool> as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C2OE);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2EU { V0(U2), V1 }
impl Dom for C2EU {
    const N: usize = 1 + <U2 as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return C2EU::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i == 0 { return C2EU::V1; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2EU::V0(x) => off(0, <U2 as Dom>::idx(x)),
            C2EU::V1 => 0 + <U2 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C2EU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2EB { V0(U2), V1(bool) }
impl Dom for C2EB {
    const N: usize = 0 + <U2 as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return C2EB::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <bool as Dom>::N { return C2EB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2EB::V0(x) => off(0, <U2 as Dom>::idx(x)),
            C2EB::V1(x) => off(0 + <U2 as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C2EB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2EO { V0(U2), V1(Option<bool>) }
impl Dom for C2EO {
    const N: usize = 0 + <U2 as Dom>::N + <Option<bool> as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <Option<bool> as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return C2EO::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <Option<bool> as Dom>::N { return C2EO::V1(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2EO::V0(x) => off(0, <U2 as Dom>::idx(x)),
            C2EO::V1(x) => off(0 + <U2 as Dom>::N, <Option<bool> as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <Option<bool> as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C2EO);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C2EE { V0(U2), V1(U2) }
impl Dom for C2EE {
    const N: usize = 0 + <U2 as Dom>::N + <U2 as Dom>::N;
    const STATIC: bool = true && <U2 as Dom>::STATIC && <U2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <U2 as Dom>::N { return C2EE::V0(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        if i < <U2 as Dom>::N { return C2EE::V1(<U2 as Dom>::at(i)); } i -= <U2 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C2EE::V0(x) => off(0, <U2 as Dom>::idx(x)),
            C2EE::V1(x) => off(0 + <U2 as Dom>::N, <U2 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <U2 as Dom>::ranks(out, next);
        <U2 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C2EE);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3UBS { V0, V1(bool), V2(()) }
impl Dom for C3UBS {
    const N: usize = 1 + <bool as Dom>::N + <() as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <() as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i == 0 { return C3UBS::V0; } i -= 1;
        if i < <bool as Dom>::N { return C3UBS::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <() as Dom>::N { return C3UBS::V2(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3UBS::V0 => 0,
            C3UBS::V1(x) => off(1, <bool as Dom>::idx(x)),
            C3UBS::V2(x) => off(1 + <bool as Dom>::N, <() as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
        <() as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C3UBS);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3SUB { V0(()), V1, V2(bool) }
impl Dom for C3SUB {
    const N: usize = 1 + <() as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <() as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <() as Dom>::N { return C3SUB::V0(<() as Dom>::at(i)); } i -= <() as Dom>::N;
        if i == 0 { return C3SUB::V1; } i -= 1;
        if i < <bool as Dom>::N { return C3SUB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3SUB::V0(x) => off(0, <() as Dom>::idx(x)),
            C3SUB::V1 => 0 + <() as Dom>::N,
            C3SUB::V2(x) => off(1 + <() as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <() as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C3SUB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3BKU { V0(bool), V1(K2), V2 }
impl Dom for C3BKU {
    const N: usize = 1 + <bool as Dom>::N + <K2 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <K2 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C3BKU::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <K2 as Dom>::N { return C3BKU::V1(<K2 as Dom>::at(i)); } i -= <K2 as Dom>::N;
        if i == 0 { return C3BKU::V2; } i -= 1;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3BKU::V0(x) => off(0, <bool as Dom>::idx(x)),
            C3BKU::V1(x) => off(0 + <bool as Dom>::N, <K2 as Dom>::idx(x)),
            C3BKU::V2 => 0 + <bool as Dom>::N + <K2 as Dom>::N,
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <K2 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C3BKU);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3CUB { V0(NestA), V1, V2(bool) }
impl Dom for C3CUB {
    const N: usize = 1 + <NestA as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <NestA as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <NestA as Dom>::N { return C3CUB::V0(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        if i == 0 { return C3CUB::V1; } i -= 1;
        if i < <bool as Dom>::N { return C3CUB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3CUB::V0(x) => off(0, <NestA as Dom>::idx(x)),
            C3CUB::V1 => 0 + <NestA as Dom>::N,
            C3CUB::V2(x) => off(1 + <NestA as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <NestA as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C3CUB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum C3BBB { V0(bool), V1(bool), V2(bool) }
impl Dom for C3BBB {
    const N: usize = 0 + <bool as Dom>::N + <bool as Dom>::N + <bool as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <bool as Dom>::STATIC && <bool as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return C3BBB::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return C3BBB::V1(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i < <bool as Dom>::N { return C3BBB::V2(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            C3BBB::V0(x) => off(0, <bool as Dom>::idx(x)),
            C3BBB::V1(x) => off(0 + <bool as Dom>::N, <bool as Dom>::idx(x)),
            C3BBB::V2(x) => off(0 + <bool as Dom>::N + <bool as Dom>::N, <bool as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
        <bool as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(C3BBB);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum LC16 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8(Option<bool>), V9, V10, V11, V12, V13, V14, V15(U3) }
impl Dom for LC16 {
    const N: usize = 13 + <bool as Dom>::N + <Option<bool> as Dom>::N + <U3 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <U3 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return LC16::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return LC16::V1; } i -= 1;
        if i == 0 { return LC16::V2; } i -= 1;
        if i == 0 { return LC16::V3; } i -= 1;
        if i == 0 { return LC16::V4; } i -= 1;
        if i == 0 { return LC16::V5; } i -= 1;
        if i == 0 { return LC16::V6; } i -= 1;
        if i == 0 { return LC16::V7; } i -= 1;
        if i < <Option<bool> as Dom>::N { return LC16::V8(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return LC16::V9; } i -= 1;
        if i == 0 { return LC16::V10; } i -= 1;
        if i == 0 { return LC16::V11; } i -= 1;
        if i == 0 { return LC16::V12; } i -= 1;
        if i == 0 { return LC16::V13; } i -= 1;
        if i == 0 { return LC16::V14; } i -= 1;
        if i < <U3 as Dom>::N { return LC16::V15(<U3 as Dom>::at(i)); } i -= <U3 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            LC16::V0(x) => off(0, <bool as Dom>::idx(x)),
            LC16::V1 => 0 + <bool as Dom>::N,
            LC16::V2 => 1 + <bool as Dom>::N,
            LC16::V3 => 2 + <bool as Dom>::N,
            LC16::V4 => 3 + <bool as Dom>::N,
            LC16::V5 => 4 + <bool as Dom>::N,
            LC16::V6 => 5 + <bool as Dom>::N,
            LC16::V7 => 6 + <bool as Dom>::N,
            LC16::V8(x) => off(7 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
            LC16::V9 => 7 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC16::V10 => 8 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC16::V11 => 9 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC16::V12 => 10 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC16::V13 => 11 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC16::V14 => 12 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC16::V15(x) => off(13 + <bool as Dom>::N + <Option<bool> as Dom>::N, <U3 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <U3 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(LC16);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum LC33 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16(Option<bool>), V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32(U3) }
impl Dom for LC33 {
    const N: usize = 30 + <bool as Dom>::N + <Option<bool> as Dom>::N + <U3 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <U3 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return LC33::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return LC33::V1; } i -= 1;
        if i == 0 { return LC33::V2; } i -= 1;
        if i == 0 { return LC33::V3; } i -= 1;
        if i == 0 { return LC33::V4; } i -= 1;
        if i == 0 { return LC33::V5; } i -= 1;
        if i == 0 { return LC33::V6; } i -= 1;
        if i == 0 { return LC33::V7; } i -= 1;
        if i == 0 { return LC33::V8; } i -= 1;
        if i == 0 { return LC33::V9; } i -= 1;
        if i == 0 { return LC33::V10; } i -= 1;
        if i == 0 { return LC33::V11; } i -= 1;
        if i == 0 { return LC33::V12; } i -= 1;
        if i == 0 { return LC33::V13; } i -= 1;
        if i == 0 { return LC33::V14; } i -= 1;
        if i == 0 { return LC33::V15; } i -= 1;
        if i < <Option<bool> as Dom>::N { return LC33::V16(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return LC33::V17; } i -= 1;
        if i == 0 { return LC33::V18; } i -= 1;
        if i == 0 { return LC33::V19; } i -= 1;
        if i == 0 { return LC33::V20; } i -= 1;
        if i == 0 { return LC33::V21; } i -= 1;
        if i == 0 { return LC33::V22; } i -= 1;
        if i == 0 { return LC33::V23; } i -= 1;
        if i == 0 { return LC33::V24; } i -= 1;
        if i == 0 { return LC33::V25; } i -= 1;
        if i == 0 { return LC33::V26; } i -= 1;
        if i == 0 { return LC33::V27; } i -= 1;
        if i == 0 { return LC33::V28; } i -= 1;
        if i == 0 { return LC33::V29; } i -= 1;
        if i == 0 { return LC33::V30; } i -= 1;
        if i == 0 { return LC33::V31; } i -= 1;
        if i < <U3 as Dom>::N { return LC33::V32(<U3 as Dom>::at(i)); } i -= <U3 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            LC33::V0(x) => off(0, <bool as Dom>::idx(x)),
            LC33::V1 => 0 + <bool as Dom>::N,
            LC33::V2 => 1 + <bool as Dom>::N,
            LC33::V3 => 2 + <bool as Dom>::N,
            LC33::V4 => 3 + <bool as Dom>::N,
            LC33::V5 => 4 + <bool as Dom>::N,
            LC33::V6 => 5 + <bool as Dom>::N,
            LC33::V7 => 6 + <bool as Dom>::N,
            LC33::V8 => 7 + <bool as Dom>::N,
            LC33::V9 => 8 + <bool as Dom>::N,
            LC33::V10 => 9 + <bool as Dom>::N,
            LC33::V11 => 10 + <bool as Dom>::N,
            LC33::V12 => 11 + <bool as Dom>::N,
            LC33::V13 => 12 + <bool as Dom>::N,
            LC33::V14 => 13 + <bool as Dom>::N,
            LC33::V15 => 14 + <bool as Dom>::N,
            LC33::V16(x) => off(15 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
            LC33::V17 => 15 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V18 => 16 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V19 => 17 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V20 => 18 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V21 => 19 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V22 => 20 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V23 => 21 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V24 => 22 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V25 => 23 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V26 => 24 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V27 => 25 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V28 => 26 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V29 => 27 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V30 => 28 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V31 => 29 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC33::V32(x) => off(30 + <bool as Dom>::N + <Option<bool> as Dom>::N, <U3 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <U3 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(LC33);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum LC66 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33(Option<bool>), V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65(U3) }
impl Dom for LC66 {
    const N: usize = 63 + <bool as Dom>::N + <Option<bool> as Dom>::N + <U3 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <U3 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return LC66::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return LC66::V1; } i -= 1;
        if i == 0 { return LC66::V2; } i -= 1;
        if i == 0 { return LC66::V3; } i -= 1;
        if i == 0 { return LC66::V4; } i -= 1;
        if i == 0 { return LC66::V5; } i -= 1;
        if i == 0 { return LC66::V6; } i -= 1;
        if i == 0 { return LC66::V7; } i -= 1;
        if i == 0 { return LC66::V8; } i -= 1;
        if i == 0 { return LC66::V9; } i -= 1;
        if i == 0 { return LC66::V10; } i -= 1;
        if i == 0 { return LC66::V11; } i -= 1;
        if i == 0 { return LC66::V12; } i -= 1;
        if i == 0 { return LC66::V13; } i -= 1;
        if i == 0 { return LC66::V14; } i -= 1;
        if i == 0 { return LC66::V15; } i -= 1;
        if i == 0 { return LC66::V16; } i -= 1;
        if i == 0 { return LC66::V17; } i -= 1;
        if i == 0 { return LC66::V18; } i -= 1;
        if i == 0 { return LC66::V19; } i -= 1;
        if i == 0 { return LC66::V20; } i -= 1;
        if i == 0 { return LC66::V21; } i -= 1;
        if i == 0 { return LC66::V22; } i -= 1;
        if i == 0 { return LC66::V23; } i -= 1;
        if i == 0 { return LC66::V24; } i -= 1;
        if i == 0 { return LC66::V25; } i -= 1;
        if i == 0 { return LC66::V26; } i -= 1;
        if i == 0 { return LC66::V27; } i -= 1;
        if i == 0 { return LC66::V28; } i -= 1;
        if i == 0 { return LC66::V29; } i -= 1;
        if i == 0 { return LC66::V30; } i -= 1;
        if i == 0 { return LC66::V31; } i -= 1;
        if i == 0 { return LC66::V32; } i -= 1;
        if i < <Option<bool> as Dom>::N { return LC66::V33(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return LC66::V34; } i -= 1;
        if i == 0 { return LC66::V35; } i -= 1;
        if i == 0 { return LC66::V36; } i -= 1;
        if i == 0 { return LC66::V37; } i -= 1;
        if i == 0 { return LC66::V38; } i -= 1;
        if i == 0 { return LC66::V39; } i -= 1;
        if i == 0 { return LC66::V40; } i -= 1;
        if i == 0 { return LC66::V41; } i -= 1;
        if i == 0 { return LC66::V42; } i -= 1;
        if i == 0 { return LC66::V43; } i -= 1;
        if i == 0 { return LC66::V44; } i -= 1;
        if i == 0 { return LC66::V45; } i -= 1;
        if i == 0 { return LC66::V46; } i -= 1;
        if i == 0 { return LC66::V47; } i -= 1;
        if i == 0 { return LC66::V48; } i -= 1;
        if i == 0 { return LC66::V49; } i -= 1;
        if i == 0 { return LC66::V50; } i -= 1;
        if i == 0 { return LC66::V51; } i -= 1;
        if i == 0 { return LC66::V52; } i -= 1;
        if i == 0 { return LC66::V53; } i -= 1;
        if i == 0 { return LC66::V54; } i -= 1;
        if i == 0 { return LC66::V55; } i -= 1;
        if i == 0 { return LC66::V56; } i -= 1;
        if i == 0 { return LC66::V57; } i -= 1;
        if i == 0 { return LC66::V58; } i -= 1;
        if i == 0 { return LC66::V59; } i -= 1;
        if i == 0 { return LC66::V60; } i -= 1;
        if i == 0 { return LC66::V61; } i -= 1;
        if i == 0 { return LC66::V62; } i -= 1;
        if i == 0 { return LC66::V63; } i -= 1;
        if i == 0 { return LC66::V64; } i -= 1;
        if i < <U3 as Dom>::N { return LC66::V65(<U3 as Dom>::at(i)); } i -= <U3 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            LC66::V0(x) => off(0, <bool as Dom>::idx(x)),
            LC66::V1 => 0 + <bool as Dom>::N,
            LC66::V2 => 1 + <bool as Dom>::N,
            LC66::V3 => 2 + <bool as Dom>::N,
            LC66::V4 => 3 + <bool as Dom>::N,
            LC66::V5 => 4 + <bool as Dom>::N,
            LC66::V6 => 5 + <bool as Dom>::N,
            LC66::V7 => 6 + <bool as Dom>::N,
            LC66::V8 => 7 + <bool as Dom>::N,
            LC66::V9 => 8 + <bool as Dom>::N,
            LC66::V10 => 9 + <bool as Dom>::N,
            LC66::V11 => 10 + <bool as Dom>::N,
            LC66::V12 => 11 + <bool as Dom>::N,
            LC66::V13 => 12 + <bool as Dom>::N,
            LC66::V14 => 13 + <bool as Dom>::N,
            LC66::V15 => 14 + <bool as Dom>::N,
            LC66::V16 => 15 + <bool as Dom>::N,
            LC66::V17 => 16 + <bool as Dom>::N,
            LC66::V18 => 17 + <bool as Dom>::N,
            LC66::V19 => 18 + <bool as Dom>::N,
            LC66::V20 => 19 + <bool as Dom>::N,
            LC66::V21 => 20 + <bool as Dom>::N,
            LC66::V22 => 21 + <bool as Dom>::N,
            LC66::V23 => 22 + <bool as Dom>::N,
            LC66::V24 => 23 + <bool as Dom>::N,
            LC66::V25 => 24 + <bool as Dom>::N,
            LC66::V26 => 25 + <bool as Dom>::N,
            LC66::V27 => 26 + <bool as Dom>::N,
            LC66::V28 => 27 + <bool as Dom>::N,
            LC66::V29 => 28 + <bool as Dom>::N,
            LC66::V30 => 29 + <bool as Dom>::N,
            LC66::V31 => 30 + <bool as Dom>::N,
            LC66::V32 => 31 + <bool as Dom>::N,
            LC66::V33(x) => off(32 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
            LC66::V34 => 32 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V35 => 33 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V36 => 34 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V37 => 35 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V38 => 36 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V39 => 37 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V40 => 38 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V41 => 39 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V42 => 40 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V43 => 41 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V44 => 42 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V45 => 43 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V46 => 44 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V47 => 45 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V48 => 46 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V49 => 47 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V50 => 48 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V51 => 49 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V52 => 50 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V53 => 51 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V54 => 52 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V55 => 53 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V56 => 54 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V57 => 55 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V58 => 56 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V59 => 57 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V60 => 58 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V61 => 59 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V62 => 60 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V63 => 61 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V64 => 62 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC66::V65(x) => off(63 + <bool as Dom>::N + <Option<bool> as Dom>::N, <U3 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <U3 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(LC66);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum LC130 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65(Option<bool>), V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129(U3) }
impl Dom for LC130 {
    const N: usize = 127 + <bool as Dom>::N + <Option<bool> as Dom>::N + <U3 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <U3 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return LC130::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return LC130::V1; } i -= 1;
        if i == 0 { return LC130::V2; } i -= 1;
        if i == 0 { return LC130::V3; } i -= 1;
        if i == 0 { return LC130::V4; } i -= 1;
        if i == 0 { return LC130::V5; } i -= 1;
        if i == 0 { return LC130::V6; } i -= 1;
        if i == 0 { return LC130::V7; } i -= 1;
        if i == 0 { return LC130::V8; } i -= 1;
        if i == 0 { return LC130::V9; } i -= 1;
        if i == 0 { return LC130::V10; } i -= 1;
        if i == 0 { return LC130::V11; } i -= 1;
        if i == 0 { return LC130::V12; } i -= 1;
        if i == 0 { return LC130::V13; } i -= 1;
        if i == 0 { return LC130::V14; } i -= 1;
        if i == 0 { return LC130::V15; } i -= 1;
        if i == 0 { return LC130::V16; } i -= 1;
        if i == 0 { return LC130::V17; } i -= 1;
        if i == 0 { return LC130::V18; } i -= 1;
        if i == 0 { return LC130::V19; } i -= 1;
        if i == 0 { return LC130::V20; } i -= 1;
        if i == 0 { return LC130::V21; } i -= 1;
        if i == 0 { return LC130::V22; } i -= 1;
        if i == 0 { return LC130::V23; } i -= 1;
        if i == 0 { return LC130::V24; } i -= 1;
        if i == 0 { return LC130::V25; } i -= 1;
        if i == 0 { return LC130::V26; } i -= 1;
        if i == 0 { return LC130::V27; } i -= 1;
        if i == 0 { return LC130::V28; } i -= 1;
        if i == 0 { return LC130::V29; } i -= 1;
        if i == 0 { return LC130::V30; } i -= 1;
        if i == 0 { return LC130::V31; } i -= 1;
        if i == 0 { return LC130::V32; } i -= 1;
        if i == 0 { return LC130::V33; } i -= 1;
        if i == 0 { return LC130::V34; } i -= 1;
        if i == 0 { return LC130::V35; } i -= 1;
        if i == 0 { return LC130::V36; } i -= 1;
        if i == 0 { return LC130::V37; } i -= 1;
        if i == 0 { return LC130::V38; } i -= 1;
        if i == 0 { return LC130::V39; } i -= 1;
        if i == 0 { return LC130::V40; } i -= 1;
        if i == 0 { return LC130::V41; } i -= 1;
        if i == 0 { return LC130::V42; } i -= 1;
        if i == 0 { return LC130::V43; } i -= 1;
        if i == 0 { return LC130::V44; } i -= 1;
        if i == 0 { return LC130::V45; } i -= 1;
        if i == 0 { return LC130::V46; } i -= 1;
        if i == 0 { return LC130::V47; } i -= 1;
        if i == 0 { return LC130::V48; } i -= 1;
        if i == 0 { return LC130::V49; } i -= 1;
        if i == 0 { return LC130::V50; } i -= 1;
        if i == 0 { return LC130::V51; } i -= 1;
        if i == 0 { return LC130::V52; } i -= 1;
        if i == 0 { return LC130::V53; } i -= 1;
        if i == 0 { return LC130::V54; } i -= 1;
        if i == 0 { return LC130::V55; } i -= 1;
        if i == 0 { return LC130::V56; } i -= 1;
        if i == 0 { return LC130::V57; } i -= 1;
        if i == 0 { return LC130::V58; } i -= 1;
        if i == 0 { return LC130::V59; } i -= 1;
        if i == 0 { return LC130::V60; } i -= 1;
        if i == 0 { return LC130::V61; } i -= 1;
        if i == 0 { return LC130::V62; } i -= 1;
        if i == 0 { return LC130::V63; } i -= 1;
        if i == 0 { return LC130::V64; } i -= 1;
        if i < <Option<bool> as Dom>::N { return LC130::V65(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return LC130::V66; } i -= 1;
        if i == 0 { return LC130::V67; } i -= 1;
        if i == 0 { return LC130::V68; } i -= 1;
        if i == 0 { return LC130::V69; } i -= 1;
        if i == 0 { return LC130::V70; } i -= 1;
        if i == 0 { return LC130::V71; } i -= 1;
        if i == 0 { return LC130::V72; } i -= 1;
        if i == 0 { return LC130::V73; } i -= 1;
        if i == 0 { return LC130::V74; } i -= 1;
        if i == 0 { return LC130::V75; } i -= 1;
        if i == 0 { return LC130::V76; } i -= 1;
        if i == 0 { return LC130::V77; } i -= 1;
        if i == 0 { return LC130::V78; } i -= 1;
        if i == 0 { return LC130::V79; } i -= 1;
        if i == 0 { return LC130::V80; } i -= 1;
        if i == 0 { return LC130::V81; } i -= 1;
        if i == 0 { return LC130::V82; } i -= 1;
        if i == 0 { return LC130::V83; } i -= 1;
        if i == 0 { return LC130::V84; } i -= 1;
        if i == 0 { return LC130::V85; } i -= 1;
        if i == 0 { return LC130::V86; } i -= 1;
        if i == 0 { return LC130::V87; } i -= 1;
        if i == 0 { return LC130::V88; } i -= 1;
        if i == 0 { return LC130::V89; } i -= 1;
        if i == 0 { return LC130::V90; } i -= 1;
        if i == 0 { return LC130::V91; } i -= 1;
        if i == 0 { return LC130::V92; } i -= 1;
        if i == 0 { return LC130::V93; } i -= 1;
        if i == 0 { return LC130::V94; } i -= 1;
        if i == 0 { return LC130::V95; } i -= 1;
        if i == 0 { return LC130::V96; } i -= 1;
        if i == 0 { return LC130::V97; } i -= 1;
        if i == 0 { return LC130::V98; } i -= 1;
        if i == 0 { return LC130::V99; } i -= 1;
        if i == 0 { return LC130::V100; } i -= 1;
        if i == 0 { return LC130::V101; } i -= 1;
        if i == 0 { return LC130::V102; } i -= 1;
        if i == 0 { return LC130::V103; } i -= 1;
        if i == 0 { return LC130::V104; } i -= 1;
        if i == 0 { return LC130::V105; } i -= 1;
        if i == 0 { return LC130::V106; } i -= 1;
        if i == 0 { return LC130::V107; } i -= 1;
        if i == 0 { return LC130::V108; } i -= 1;
        if i == 0 { return LC130::V109; } i -= 1;
        if i == 0 { return LC130::V110; } i -= 1;
        if i == 0 { return LC130::V111; } i -= 1;
        if i == 0 { return LC130::V112; } i -= 1;
        if i == 0 { return LC130::V113; } i -= 1;
        if i == 0 { return LC130::V114; } i -= 1;
        if i == 0 { return LC130::V115; } i -= 1;
        if i == 0 { return LC130::V116; } i -= 1;
        if i == 0 { return LC130::V117; } i -= 1;
        if i == 0 { return LC130::V118; } i -= 1;
        if i == 0 { return LC130::V119; } i -= 1;
        if i == 0 { return LC130::V120; } i -= 1;
        if i == 0 { return LC130::V121; } i -= 1;
        if i == 0 { return LC130::V122; } i -= 1;
        if i == 0 { return LC130::V123; } i -= 1;
        if i == 0 { return LC130::V124; } i -= 1;
        if i == 0 { return LC130::V125; } i -= 1;
        if i == 0 { return LC130::V126; } i -= 1;
        if i == 0 { return LC130::V127; } i -= 1;
        if i == 0 { return LC130::V128; } i -= 1;
        if i < <U3 as Dom>::N { return LC130::V129(<U3 as Dom>::at(i)); } i -= <U3 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            LC130::V0(x) => off(0, <bool as Dom>::idx(x)),
            LC130::V1 => 0 + <bool as Dom>::N,
            LC130::V2 => 1 + <bool as Dom>::N,
            LC130::V3 => 2 + <bool as Dom>::N,
            LC130::V4 => 3 + <bool as Dom>::N,
            LC130::V5 => 4 + <bool as Dom>::N,
            LC130::V6 => 5 + <bool as Dom>::N,
            LC130::V7 => 6 + <bool as Dom>::N,
            LC130::V8 => 7 + <bool as Dom>::N,
            LC130::V9 => 8 + <bool as Dom>::N,
            LC130::V10 => 9 + <bool as Dom>::N,
            LC130::V11 => 10 + <bool as Dom>::N,
            LC130::V12 => 11 + <bool as Dom>::N,
            LC130::V13 => 12 + <bool as Dom>::N,
            LC130::V14 => 13 + <bool as Dom>::N,
            LC130::V15 => 14 + <bool as Dom>::N,
            LC130::V16 => 15 + <bool as Dom>::N,
            LC130::V17 => 16 + <bool as Dom>::N,
            LC130::V18 => 17 + <bool as Dom>::N,
            LC130::V19 => 18 + <bool as Dom>::N,
            LC130::V20 => 19 + <bool as Dom>::N,
            LC130::V21 => 20 + <bool as Dom>::N,
            LC130::V22 => 21 + <bool as Dom>::N,
            LC130::V23 => 22 + <bool as Dom>::N,
            LC130::V24 => 23 + <bool as Dom>::N,
            LC130::V25 => 24 + <bool as Dom>::N,
            LC130::V26 => 25 + <bool as Dom>::N,
            LC130::V27 => 26 + <bool as Dom>::N,
            LC130::V28 => 27 + <bool as Dom>::N,
            LC130::V29 => 28 + <bool as Dom>::N,
            LC130::V30 => 29 + <bool as Dom>::N,
            LC130::V31 => 30 + <bool as Dom>::N,
            LC130::V32 => 31 + <bool as Dom>::N,
            LC130::V33 => 32 + <bool as Dom>::N,
            LC130::V34 => 33 + <bool as Dom>::N,
            LC130::V35 => 34 + <bool as Dom>::N,
            LC130::V36 => 35 + <bool as Dom>::N,
            LC130::V37 => 36 + <bool as Dom>::N,
            LC130::V38 => 37 + <bool as Dom>::N,
            LC130::V39 => 38 + <bool as Dom>::N,
            LC130::V40 => 39 + <bool as Dom>::N,
            LC130::V41 => 40 + <bool as Dom>::N,
            LC130::V42 => 41 + <bool as Dom>::N,
            LC130::V43 => 42 + <bool as Dom>::N,
            LC130::V44 => 43 + <bool as Dom>::N,
            LC130::V45 => 44 + <bool as Dom>::N,
            LC130::V46 => 45 + <bool as Dom>::N,
            LC130::V47 => 46 + <bool as Dom>::N,
            LC130::V48 => 47 + <bool as Dom>::N,
            LC130::V49 => 48 + <bool as Dom>::N,
            LC130::V50 => 49 + <bool as Dom>::N,
            LC130::V51 => 50 + <bool as Dom>::N,
            LC130::V52 => 51 + <bool as Dom>::N,
            LC130::V53 => 52 + <bool as Dom>::N,
            LC130::V54 => 53 + <bool as Dom>::N,
            LC130::V55 => 54 + <bool as Dom>::N,
            LC130::V56 => 55 + <bool as Dom>::N,
            LC130::V57 => 56 + <bool as Dom>::N,
            LC130::V58 => 57 + <bool as Dom>::N,
            LC130::V59 => 58 + <bool as Dom>::N,
            LC130::V60 => 59 + <bool as Dom>::N,
            LC130::V61 => 60 + <bool as Dom>::N,
            LC130::V62 => 61 + <bool as Dom>::N,
            LC130::V63 => 62 + <bool as Dom>::N,
            LC130::V64 => 63 + <bool as Dom>::N,
            LC130::V65(x) => off(64 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
            LC130::V66 => 64 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V67 => 65 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V68 => 66 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V69 => 67 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V70 => 68 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V71 => 69 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V72 => 70 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V73 => 71 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V74 => 72 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V75 => 73 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V76 => 74 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V77 => 75 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V78 => 76 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V79 => 77 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V80 => 78 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V81 => 79 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V82 => 80 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V83 => 81 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V84 => 82 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V85 => 83 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V86 => 84 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V87 => 85 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V88 => 86 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V89 => 87 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V90 => 88 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V91 => 89 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V92 => 90 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V93 => 91 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V94 => 92 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V95 => 93 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V96 => 94 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V97 => 95 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V98 => 96 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V99 => 97 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V100 => 98 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V101 => 99 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V102 => 100 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V103 => 101 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V104 => 102 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V105 => 103 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V106 => 104 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V107 => 105 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V108 => 106 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V109 => 107 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V110 => 108 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V111 => 109 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V112 => 110 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V113 => 111 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V114 => 112 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V115 => 113 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V116 => 114 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V117 => 115 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V118 => 116 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V119 => 117 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V120 => 118 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V121 => 119 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V122 => 120 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V123 => 121 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V124 => 122 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V125 => 123 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V126 => 124 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V127 => 125 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V128 => 126 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC130::V129(x) => off(127 + <bool as Dom>::N + <Option<bool> as Dom>::N, <U3 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <U3 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(LC130);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum LC260 { V0(bool), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130(Option<bool>), V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257, V258, V259(U3) }
impl Dom for LC260 {
    const N: usize = 257 + <bool as Dom>::N + <Option<bool> as Dom>::N + <U3 as Dom>::N;
    const STATIC: bool = true && <bool as Dom>::STATIC && <Option<bool> as Dom>::STATIC && <U3 as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <bool as Dom>::N { return LC260::V0(<bool as Dom>::at(i)); } i -= <bool as Dom>::N;
        if i == 0 { return LC260::V1; } i -= 1;
        if i == 0 { return LC260::V2; } i -= 1;
        if i == 0 { return LC260::V3; } i -= 1;
        if i == 0 { return LC260::V4; } i -= 1;
        if i == 0 { return LC260::V5; } i -= 1;
        if i == 0 { return LC260::V6; } i -= 1;
        if i == 0 { return LC260::V7; } i -= 1;
        if i == 0 { return LC260::V8; } i -= 1;
        if i == 0 { return LC260::V9; } i -= 1;
        if i == 0 { return LC260::V10; } i -= 1;
        if i == 0 { return LC260::V11; } i -= 1;
        if i == 0 { return LC260::V12; } i -= 1;
        if i == 0 { return LC260::V13; } i -= 1;
        if i == 0 { return LC260::V14; } i -= 1;
        if i == 0 { return LC260::V15; } i -= 1;
        if i == 0 { return LC260::V16; } i -= 1;
        if i == 0 { return LC260::V17; } i -= 1;
        if i == 0 { return LC260::V18; } i -= 1;
        if i == 0 { return LC260::V19; } i -= 1;
        if i == 0 { return LC260::V20; } i -= 1;
        if i == 0 { return LC260::V21; } i -= 1;
        if i == 0 { return LC260::V22; } i -= 1;
        if i == 0 { return LC260::V23; } i -= 1;
        if i == 0 { return LC260::V24; } i -= 1;
        if i == 0 { return LC260::V25; } i -= 1;
        if i == 0 { return LC260::V26; } i -= 1;
        if i == 0 { return LC260::V27; } i -= 1;
        if i == 0 { return LC260::V28; } i -= 1;
        if i == 0 { return LC260::V29; } i -= 1;
        if i == 0 { return LC260::V30; } i -= 1;
        if i == 0 { return LC260::V31; } i -= 1;
        if i == 0 { return LC260::V32; } i -= 1;
        if i == 0 { return LC260::V33; } i -= 1;
        if i == 0 { return LC260::V34; } i -= 1;
        if i == 0 { return LC260::V35; } i -= 1;
        if i == 0 { return LC260::V36; } i -= 1;
        if i == 0 { return LC260::V37; } i -= 1;
        if i == 0 { return LC260::V38; } i -= 1;
        if i == 0 { return LC260::V39; } i -= 1;
        if i == 0 { return LC260::V40; } i -= 1;
        if i == 0 { return LC260::V41; } i -= 1;
        if i == 0 { return LC260::V42; } i -= 1;
        if i == 0 { return LC260::V43; } i -= 1;
        if i == 0 { return LC260::V44; } i -= 1;
        if i == 0 { return LC260::V45; } i -= 1;
        if i == 0 { return LC260::V46; } i -= 1;
        if i == 0 { return LC260::V47; } i -= 1;
        if i == 0 { return LC260::V48; } i -= 1;
        if i == 0 { return LC260::V49; } i -= 1;
        if i == 0 { return LC260::V50; } i -= 1;
        if i == 0 { return LC260::V51; } i -= 1;
        if i == 0 { return LC260::V52; } i -= 1;
        if i == 0 { return LC260::V53; } i -= 1;
        if i == 0 { return LC260::V54; } i -= 1;
        if i == 0 { return LC260::V55; } i -= 1;
        if i == 0 { return LC260::V56; } i -= 1;
        if i == 0 { return LC260::V57; } i -= 1;
        if i == 0 { return LC260::V58; } i -= 1;
        if i == 0 { return LC260::V59; } i -= 1;
        if i == 0 { return LC260::V60; } i -= 1;
        if i == 0 { return LC260::V61; } i -= 1;
        if i == 0 { return LC260::V62; } i -= 1;
        if i == 0 { return LC260::V63; } i -= 1;
        if i == 0 { return LC260::V64; } i -= 1;
        if i == 0 { return LC260::V65; } i -= 1;
        if i == 0 { return LC260::V66; } i -= 1;
        if i == 0 { return LC260::V67; } i -= 1;
        if i == 0 { return LC260::V68; } i -= 1;
        if i == 0 { return LC260::V69; } i -= 1;
        if i == 0 { return LC260::V70; } i -= 1;
        if i == 0 { return LC260::V71; } i -= 1;
        if i == 0 { return LC260::V72; } i -= 1;
        if i == 0 { return LC260::V73; } i -= 1;
        if i == 0 { return LC260::V74; } i -= 1;
        if i == 0 { return LC260::V75; } i -= 1;
        if i == 0 { return LC260::V76; } i -= 1;
        if i == 0 { return LC260::V77; } i -= 1;
        if i == 0 { return LC260::V78; } i -= 1;
        if i == 0 { return LC260::V79; } i -= 1;
        if i == 0 { return LC260::V80; } i -= 1;
        if i == 0 { return LC260::V81; } i -= 1;
        if i == 0 { return LC260::V82; } i -= 1;
        if i == 0 { return LC260::V83; } i -= 1;
        if i == 0 { return LC260::V84; } i -= 1;
        if i == 0 { return LC260::V85; } i -= 1;
        if i == 0 { return LC260::V86; } i -= 1;
        if i == 0 { return LC260::V87; } i -= 1;
        if i == 0 { return LC260::V88; } i -= 1;
        if i == 0 { return LC260::V89; } i -= 1;
        if i == 0 { return LC260::V90; } i -= 1;
        if i == 0 { return LC260::V91; } i -= 1;
        if i == 0 { return LC260::V92; } i -= 1;
        if i == 0 { return LC260::V93; } i -= 1;
        if i == 0 { return LC260::V94; } i -= 1;
        if i == 0 { return LC260::V95; } i -= 1;
        if i == 0 { return LC260::V96; } i -= 1;
        if i == 0 { return LC260::V97; } i -= 1;
        if i == 0 { return LC260::V98; } i -= 1;
        if i == 0 { return LC260::V99; } i -= 1;
        if i == 0 { return LC260::V100; } i -= 1;
        if i == 0 { return LC260::V101; } i -= 1;
        if i == 0 { return LC260::V102; } i -= 1;
        if i == 0 { return LC260::V103; } i -= 1;
        if i == 0 { return LC260::V104; } i -= 1;
        if i == 0 { return LC260::V105; } i -= 1;
        if i == 0 { return LC260::V106; } i -= 1;
        if i == 0 { return LC260::V107; } i -= 1;
        if i == 0 { return LC260::V108; } i -= 1;
        if i == 0 { return LC260::V109; } i -= 1;
        if i == 0 { return LC260::V110; } i -= 1;
        if i == 0 { return LC260::V111; } i -= 1;
        if i == 0 { return LC260::V112; } i -= 1;
        if i == 0 { return LC260::V113; } i -= 1;
        if i == 0 { return LC260::V114; } i -= 1;
        if i == 0 { return LC260::V115; } i -= 1;
        if i == 0 { return LC260::V116; } i -= 1;
        if i == 0 { return LC260::V117; } i -= 1;
        if i == 0 { return LC260::V118; } i -= 1;
        if i == 0 { return LC260::V119; } i -= 1;
        if i == 0 { return LC260::V120; } i -= 1;
        if i == 0 { return LC260::V121; } i -= 1;
        if i == 0 { return LC260::V122; } i -= 1;
        if i == 0 { return LC260::V123; } i -= 1;
        if i == 0 { return LC260::V124; } i -= 1;
        if i == 0 { return LC260::V125; } i -= 1;
        if i == 0 { return LC260::V126; } i -= 1;
        if i == 0 { return LC260::V127; } i -= 1;
        if i == 0 { return LC260::V128; } i -= 1;
        if i == 0 { return LC260::V129; } i -= 1;
        if i < <Option<bool> as Dom>::N { return LC260::V130(<Option<bool> as Dom>::at(i)); } i -= <Option<bool> as Dom>::N;
        if i == 0 { return LC260::V131; } i -= 1;
        if i == 0 { return LC260::V132; } i -= 1;
        if i == 0 { return LC260::V133; } i -= 1;
        if i == 0 { return LC260::V134; } i -= 1;
        if i == 0 { return LC260::V135; } i -= 1;
        if i == 0 { return LC260::V136; } i -= 1;
        if i == 0 { return LC260::V137; } i -= 1;
        if i == 0 { return LC260::V138; } i -= 1;
        if i == 0 { return LC260::V139; } i -= 1;
        if i == 0 { return LC260::V140; } i -= 1;
        if i == 0 { return LC260::V141; } i -= 1;
        if i == 0 { return LC260::V142; } i -= 1;
        if i == 0 { return LC260::V143; } i -= 1;
        if i == 0 { return LC260::V144; } i -= 1;
        if i == 0 { return LC260::V145; } i -= 1;
        if i == 0 { return LC260::V146; } i -= 1;
        if i == 0 { return LC260::V147; } i -= 1;
        if i == 0 { return LC260::V148; } i -= 1;
        if i == 0 { return LC260::V149; } i -= 1;
        if i == 0 { return LC260::V150; } i -= 1;
        if i == 0 { return LC260::V151; } i -= 1;
        if i == 0 { return LC260::V152; } i -= 1;
        if i == 0 { return LC260::V153; } i -= 1;
        if i == 0 { return LC260::V154; } i -= 1;
        if i == 0 { return LC260::V155; } i -= 1;
        if i == 0 { return LC260::V156; } i -= 1;
        if i == 0 { return LC260::V157; } i -= 1;
        if i == 0 { return LC260::V158; } i -= 1;
        if i == 0 { return LC260::V159; } i -= 1;
        if i == 0 { return LC260::V160; } i -= 1;
        if i == 0 { return LC260::V161; } i -= 1;
        if i == 0 { return LC260::V162; } i -= 1;
        if i == 0 { return LC260::V163; } i -= 1;
        if i == 0 { return LC260::V164; } i -= 1;
        if i == 0 { return LC260::V165; } i -= 1;
        if i == 0 { return LC260::V166; } i -= 1;
        if i == 0 { return LC260::V167; } i -= 1;
        if i == 0 { return LC260::V168; } i -= 1;
        if i == 0 { return LC260::V169; } i -= 1;
        if i == 0 { return LC260::V170; } i -= 1;
        if i == 0 { return LC260::V171; } i -= 1;
        if i == 0 { return LC260::V172; } i -= 1;
        if i == 0 { return LC260::V173; } i -= 1;
        if i == 0 { return LC260::V174; } i -= 1;
        if i == 0 { return LC260::V175; } i -= 1;
        if i == 0 { return LC260::V176; } i -= 1;
        if i == 0 { return LC260::V177; } i -= 1;
        if i == 0 { return LC260::V178; } i -= 1;
        if i == 0 { return LC260::V179; } i -= 1;
        if i == 0 { return LC260::V180; } i -= 1;
        if i == 0 { return LC260::V181; } i -= 1;
        if i == 0 { return LC260::V182; } i -= 1;
        if i == 0 { return LC260::V183; } i -= 1;
        if i == 0 { return LC260::V184; } i -= 1;
        if i == 0 { return LC260::V185; } i -= 1;
        if i == 0 { return LC260::V186; } i -= 1;
        if i == 0 { return LC260::V187; } i -= 1;
        if i == 0 { return LC260::V188; } i -= 1;
        if i == 0 { return LC260::V189; } i -= 1;
        if i == 0 { return LC260::V190; } i -= 1;
        if i == 0 { return LC260::V191; } i -= 1;
        if i == 0 { return LC260::V192; } i -= 1;
        if i == 0 { return LC260::V193; } i -= 1;
        if i == 0 { return LC260::V194; } i -= 1;
        if i == 0 { return LC260::V195; } i -= 1;
        if i == 0 { return LC260::V196; } i -= 1;
        if i == 0 { return LC260::V197; } i -= 1;
        if i == 0 { return LC260::V198; } i -= 1;
        if i == 0 { return LC260::V199; } i -= 1;
        if i == 0 { return LC260::V200; } i -= 1;
        if i == 0 { return LC260::V201; } i -= 1;
        if i == 0 { return LC260::V202; } i -= 1;
        if i == 0 { return LC260::V203; } i -= 1;
        if i == 0 { return LC260::V204; } i -= 1;
        if i == 0 { return LC260::V205; } i -= 1;
        if i == 0 { return LC260::V206; } i -= 1;
        if i == 0 { return LC260::V207; } i -= 1;
        if i == 0 { return LC260::V208; } i -= 1;
        if i == 0 { return LC260::V209; } i -= 1;
        if i == 0 { return LC260::V210; } i -= 1;
        if i == 0 { return LC260::V211; } i -= 1;
        if i == 0 { return LC260::V212; } i -= 1;
        if i == 0 { return LC260::V213; } i -= 1;
        if i == 0 { return LC260::V214; } i -= 1;
        if i == 0 { return LC260::V215; } i -= 1;
        if i == 0 { return LC260::V216; } i -= 1;
        if i == 0 { return LC260::V217; } i -= 1;
        if i == 0 { return LC260::V218; } i -= 1;
        if i == 0 { return LC260::V219; } i -= 1;
        if i == 0 { return LC260::V220; } i -= 1;
        if i == 0 { return LC260::V221; } i -= 1;
        if i == 0 { return LC260::V222; } i -= 1;
        if i == 0 { return LC260::V223; } i -= 1;
        if i == 0 { return LC260::V224; } i -= 1;
        if i == 0 { return LC260::V225; } i -= 1;
        if i == 0 { return LC260::V226; } i -= 1;
        if i == 0 { return LC260::V227; } i -= 1;
        if i == 0 { return LC260::V228; } i -= 1;
        if i == 0 { return LC260::V229; } i -= 1;
        if i == 0 { return LC260::V230; } i -= 1;
        if i == 0 { return LC260::V231; } i -= 1;
        if i == 0 { return LC260::V232; } i -= 1;
        if i == 0 { return LC260::V233; } i -= 1;
        if i == 0 { return LC260::V234; } i -= 1;
        if i == 0 { return LC260::V235; } i -= 1;
        if i == 0 { return LC260::V236; } i -= 1;
        if i == 0 { return LC260::V237; } i -= 1;
        if i == 0 { return LC260::V238; } i -= 1;
        if i == 0 { return LC260::V239; } i -= 1;
        if i == 0 { return LC260::V240; } i -= 1;
        if i == 0 { return LC260::V241; } i -= 1;
        if i == 0 { return LC260::V242; } i -= 1;
        if i == 0 { return LC260::V243; } i -= 1;
        if i == 0 { return LC260::V244; } i -= 1;
        if i == 0 { return LC260::V245; } i -= 1;
        if i == 0 { return LC260::V246; } i -= 1;
        if i == 0 { return LC260::V247; } i -= 1;
        if i == 0 { return LC260::V248; } i -= 1;
        if i == 0 { return LC260::V249; } i -= 1;
        if i == 0 { return LC260::V250; } i -= 1;
        if i == 0 { return LC260::V251; } i -= 1;
        if i == 0 { return LC260::V252; } i -= 1;
        if i == 0 { return LC260::V253; } i -= 1;
        if i == 0 { return LC260::V254; } i -= 1;
        if i == 0 { return LC260::V255; } i -= 1;
        if i == 0 { return LC260::V256; } i -= 1;
        if i == 0 { return LC260::V257; } i -= 1;
        if i == 0 { return LC260::V258; } i -= 1;
        if i < <U3 as Dom>::N { return LC260::V259(<U3 as Dom>::at(i)); } i -= <U3 as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            LC260::V0(x) => off(0, <bool as Dom>::idx(x)),
            LC260::V1 => 0 + <bool as Dom>::N,
            LC260::V2 => 1 + <bool as Dom>::N,
            LC260::V3 => 2 + <bool as Dom>::N,
            LC260::V4 => 3 + <bool as Dom>::N,
            LC260::V5 => 4 + <bool as Dom>::N,
            LC260::V6 => 5 + <bool as Dom>::N,
            LC260::V7 => 6 + <bool as Dom>::N,
            LC260::V8 => 7 + <bool as Dom>::N,
            LC260::V9 => 8 + <bool as Dom>::N,
            LC260::V10 => 9 + <bool as Dom>::N,
            LC260::V11 => 10 + <bool as Dom>::N,
            LC260::V12 => 11 + <bool as Dom>::N,
            LC260::V13 => 12 + <bool as Dom>::N,
            LC260::V14 => 13 + <bool as Dom>::N,
            LC260::V15 => 14 + <bool as Dom>::N,
            LC260::V16 => 15 + <bool as Dom>::N,
            LC260::V17 => 16 + <bool as Dom>::N,
            LC260::V18 => 17 + <bool as Dom>::N,
            LC260::V19 => 18 + <bool as Dom>::N,
            LC260::V20 => 19 + <bool as Dom>::N,
            LC260::V21 => 20 + <bool as Dom>::N,
            LC260::V22 => 21 + <bool as Dom>::N,
            LC260::V23 => 22 + <bool as Dom>::N,
            LC260::V24 => 23 + <bool as Dom>::N,
            LC260::V25 => 24 + <bool as Dom>::N,
            LC260::V26 => 25 + <bool as Dom>::N,
            LC260::V27 => 26 + <bool as Dom>::N,
            LC260::V28 => 27 + <bool as Dom>::N,
            LC260::V29 => 28 + <bool as Dom>::N,
            LC260::V30 => 29 + <bool as Dom>::N,
            LC260::V31 => 30 + <bool as Dom>::N,
            LC260::V32 => 31 + <bool as Dom>::N,
            LC260::V33 => 32 + <bool as Dom>::N,
            LC260::V34 => 33 + <bool as Dom>::N,
            LC260::V35 => 34 + <bool as Dom>::N,
            LC260::V36 => 35 + <bool as Dom>::N,
            LC260::V37 => 36 + <bool as Dom>::N,
            LC260::V38 => 37 + <bool as Dom>::N,
            LC260::V39 => 38 + <bool as Dom>::N,
            LC260::V40 => 39 + <bool as Dom>::N,
            LC260::V41 => 40 + <bool as Dom>::N,
            LC260::V42 => 41 + <bool as Dom>::N,
            LC260::V43 => 42 + <bool as Dom>::N,
            LC260::V44 => 43 + <bool as Dom>::N,
            LC260::V45 => 44 + <bool as Dom>::N,
            LC260::V46 => 45 + <bool as Dom>::N,
            LC260::V47 => 46 + <bool as Dom>::N,
            LC260::V48 => 47 + <bool as Dom>::N,
            LC260::V49 => 48 + <bool as Dom>::N,
            LC260::V50 => 49 + <bool as Dom>::N,
            LC260::V51 => 50 + <bool as Dom>::N,
            LC260::V52 => 51 + <bool as Dom>::N,
            LC260::V53 => 52 + <bool as Dom>::N,
            LC260::V54 => 53 + <bool as Dom>::N,
            LC260::V55 => 54 + <bool as Dom>::N,
            LC260::V56 => 55 + <bool as Dom>::N,
            LC260::V57 => 56 + <bool as Dom>::N,
            LC260::V58 => 57 + <bool as Dom>::N,
            LC260::V59 => 58 + <bool as Dom>::N,
            LC260::V60 => 59 + <bool as Dom>::N,
            LC260::V61 => 60 + <bool as Dom>::N,
            LC260::V62 => 61 + <bool as Dom>::N,
            LC260::V63 => 62 + <bool as Dom>::N,
            LC260::V64 => 63 + <bool as Dom>::N,
            LC260::V65 => 64 + <bool as Dom>::N,
            LC260::V66 => 65 + <bool as Dom>::N,
            LC260::V67 => 66 + <bool as Dom>::N,
            LC260::V68 => 67 + <bool as Dom>::N,
            LC260::V69 => 68 + <bool as Dom>::N,
            LC260::V70 => 69 + <bool as Dom>::N,
            LC260::V71 => 70 + <bool as Dom>::N,
            LC260::V72 => 71 + <bool as Dom>::N,
            LC260::V73 => 72 + <bool as Dom>::N,
            LC260::V74 => 73 + <bool as Dom>::N,
            LC260::V75 => 74 + <bool as Dom>::N,
            LC260::V76 => 75 + <bool as Dom>::N,
            LC260::V77 => 76 + <bool as Dom>::N,
            LC260::V78 => 77 + <bool as Dom>::N,
            LC260::V79 => 78 + <bool as Dom>::N,
            LC260::V80 => 79 + <bool as Dom>::N,
            LC260::V81 => 80 + <bool as Dom>::N,
            LC260::V82 => 81 + <bool as Dom>::N,
            LC260::V83 => 82 + <bool as Dom>::N,
            LC260::V84 => 83 + <bool as Dom>::N,
            LC260::V85 => 84 + <bool as Dom>::N,
            LC260::V86 => 85 + <bool as Dom>::N,
            LC260::V87 => 86 + <bool as Dom>::N,
            LC260::V88 => 87 + <bool as Dom>::N,
            LC260::V89 => 88 + <bool as Dom>::N,
            LC260::V90 => 89 + <bool as Dom>::N,
            LC260::V91 => 90 + <bool as Dom>::N,
            LC260::V92 => 91 + <bool as Dom>::N,
            LC260::V93 => 92 + <bool as Dom>::N,
            LC260::V94 => 93 + <bool as Dom>::N,
            LC260::V95 => 94 + <bool as Dom>::N,
            LC260::V96 => 95 + <bool as Dom>::N,
            LC260::V97 => 96 + <bool as Dom>::N,
            LC260::V98 => 97 + <bool as Dom>::N,
            LC260::V99 => 98 + <bool as Dom>::N,
            LC260::V100 => 99 + <bool as Dom>::N,
            LC260::V101 => 100 + <bool as Dom>::N,
            LC260::V102 => 101 + <bool as Dom>::N,
            LC260::V103 => 102 + <bool as Dom>::N,
            LC260::V104 => 103 + <bool as Dom>::N,
            LC260::V105 => 104 + <bool as Dom>::N,
            LC260::V106 => 105 + <bool as Dom>::N,
            LC260::V107 => 106 + <bool as Dom>::N,
            LC260::V108 => 107 + <bool as Dom>::N,
            LC260::V109 => 108 + <bool as Dom>::N,
            LC260::V110 => 109 + <bool as Dom>::N,
            LC260::V111 => 110 + <bool as Dom>::N,
            LC260::V112 => 111 + <bool as Dom>::N,
            LC260::V113 => 112 + <bool as Dom>::N,
            LC260::V114 => 113 + <bool as Dom>::N,
            LC260::V115 => 114 + <bool as Dom>::N,
            LC260::V116 => 115 + <bool as Dom>::N,
            LC260::V117 => 116 + <bool as Dom>::N,
            LC260::V118 => 117 + <bool as Dom>::N,
            LC260::V119 => 118 + <bool as Dom>::N,
            LC260::V120 => 119 + <bool as Dom>::N,
            LC260::V121 => 120 + <bool as Dom>::N,
            LC260::V122 => 121 + <bool as Dom>::N,
            LC260::V123 => 122 + <bool as Dom>::N,
            LC260::V124 => 123 + <bool as Dom>::N,
            LC260::V125 => 124 + <bool as Dom>::N,
            LC260::V126 => 125 + <bool as Dom>::N,
            LC260::V127 => 126 + <bool as Dom>::N,
            LC260::V128 => 127 + <bool as Dom>::N,
            LC260::V129 => 128 + <bool as Dom>::N,
            LC260::V130(x) => off(129 + <bool as Dom>::N, <Option<bool> as Dom>::idx(x)),
            LC260::V131 => 129 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V132 => 130 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V133 => 131 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V134 => 132 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V135 => 133 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V136 => 134 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V137 => 135 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V138 => 136 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V139 => 137 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V140 => 138 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V141 => 139 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V142 => 140 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V143 => 141 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V144 => 142 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V145 => 143 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V146 => 144 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V147 => 145 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V148 => 146 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V149 => 147 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V150 => 148 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V151 => 149 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V152 => 150 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V153 => 151 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V154 => 152 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V155 => 153 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V156 => 154 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V157 => 155 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V158 => 156 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V159 => 157 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V160 => 158 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V161 => 159 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V162 => 160 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V163 => 161 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V164 => 162 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V165 => 163 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V166 => 164 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V167 => 165 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V168 => 166 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V169 => 167 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V170 => 168 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V171 => 169 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V172 => 170 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V173 => 171 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V174 => 172 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V175 => 173 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V176 => 174 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V177 => 175 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V178 => 176 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V179 => 177 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V180 => 178 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V181 => 179 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V182 => 180 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V183 => 181 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V184 => 182 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V185 => 183 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V186 => 184 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V187 => 185 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V188 => 186 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V189 => 187 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V190 => 188 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V191 => 189 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V192 => 190 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V193 => 191 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V194 => 192 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V195 => 193 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V196 => 194 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V197 => 195 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V198 => 196 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V199 => 197 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V200 => 198 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V201 => 199 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V202 => 200 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V203 => 201 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V204 => 202 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V205 => 203 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V206 => 204 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V207 => 205 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V208 => 206 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V209 => 207 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V210 => 208 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V211 => 209 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V212 => 210 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V213 => 211 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V214 => 212 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V215 => 213 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V216 => 214 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V217 => 215 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V218 => 216 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V219 => 217 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V220 => 218 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V221 => 219 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V222 => 220 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V223 => 221 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V224 => 222 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V225 => 223 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V226 => 224 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V227 => 225 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V228 => 226 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V229 => 227 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V230 => 228 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V231 => 229 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V232 => 230 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V233 => 231 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V234 => 232 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V235 => 233 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V236 => 234 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V237 => 235 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V238 => 236 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V239 => 237 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V240 => 238 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V241 => 239 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V242 => 240 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V243 => 241 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V244 => 242 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V245 => 243 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V246 => 244 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V247 => 245 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V248 => 246 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V249 => 247 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V250 => 248 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V251 => 249 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V252 => 250 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V253 => 251 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V254 => 252 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V255 => 253 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V256 => 254 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V257 => 255 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V258 => 256 + <bool as Dom>::N + <Option<bool> as Dom>::N,
            LC260::V259(x) => off(257 + <bool as Dom>::N + <Option<bool> as Dom>::N, <U3 as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <bool as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <Option<bool> as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        out.push(*next); *next += 1;
        <U3 as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(LC260);

#[cfg(feature = "hashbrown")]
mod m_DA { use super::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DA { A(u8), B, C(char) }
impl Dom for DA {
    const N: usize = 1 + <u8 as Dom>::N + <char as Dom>::N;
    const STATIC: bool = true && <u8 as Dom>::STATIC && <char as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <u8 as Dom>::N { return DA::A(<u8 as Dom>::at(i)); } i -= <u8 as Dom>::N;
        if i == 0 { return DA::B; } i -= 1;
        if i < <char as Dom>::N { return DA::C(<char as Dom>::at(i)); } i -= <char as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            DA::A(x) => off(0, <u8 as Dom>::idx(x)),
            DA::B => 0 + <u8 as Dom>::N,
            DA::C(x) => off(1 + <u8 as Dom>::N, <char as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <u8 as Dom>::ranks(out, next);
        out.push(*next); *next += 1;
        <char as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(DA);
}
#[cfg(feature = "hashbrown")]
pub use m_DA::DA;

#[cfg(feature = "hashbrown")]
mod m_DB { use super::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DB { A(&'static str), B(NestA) }
impl Dom for DB {
    const N: usize = 0 + <&'static str as Dom>::N + <NestA as Dom>::N;
    const STATIC: bool = true && <&'static str as Dom>::STATIC && <NestA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <&'static str as Dom>::N { return DB::A(<&'static str as Dom>::at(i)); } i -= <&'static str as Dom>::N;
        if i < <NestA as Dom>::N { return DB::B(<NestA as Dom>::at(i)); } i -= <NestA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            DB::A(x) => off(0, <&'static str as Dom>::idx(x)),
            DB::B(x) => off(0 + <&'static str as Dom>::N, <NestA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <&'static str as Dom>::ranks(out, next);
        <NestA as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(DB);
}
#[cfg(feature = "hashbrown")]
pub use m_DB::DB;

#[cfg(feature = "hashbrown")]
mod m_DC { use super::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum DC { A(Option<i64>), B(DA) }
impl Dom for DC {
    const N: usize = 0 + <Option<i64> as Dom>::N + <DA as Dom>::N;
    const STATIC: bool = true && <Option<i64> as Dom>::STATIC && <DA as Dom>::STATIC;
    #[allow(unused_mut, unused_assignments, clippy::all)]
    fn at(mut i: usize) -> Self {
        if i < <Option<i64> as Dom>::N { return DC::A(<Option<i64> as Dom>::at(i)); } i -= <Option<i64> as Dom>::N;
        if i < <DA as Dom>::N { return DC::B(<DA as Dom>::at(i)); } i -= <DA as Dom>::N;
        panic!("no such key")
    }
    fn idx(self) -> usize {
        match self {
            DC::A(x) => off(0, <Option<i64> as Dom>::idx(x)),
            DC::B(x) => off(0 + <Option<i64> as Dom>::N, <DA as Dom>::idx(x)),
        }
    }
    fn ranks(out: &mut Vec<u32>, next: &mut u32) {
        let _ = (&out, &next);
        <Option<i64> as Dom>::ranks(out, next);
        <DA as Dom>::ranks(out, next);
    }
}
#[cfg(feature = "serde")]
fmcheck_dom::key_serde!(DC);
}
#[cfg(feature = "hashbrown")]
pub use m_DC::DC;

#[macro_export]
macro_rules! zoo_unit { ($m:ident) => { $m! { [$crate::zoo::U0, "U0"], [$crate::zoo::K0, "K0"], [$crate::zoo::U1, "U1"], [$crate::zoo::K1, "K1"], [$crate::zoo::U2, "U2"], [$crate::zoo::K2, "K2"], [$crate::zoo::U3, "U3"], [$crate::zoo::K3, "K3"], [$crate::zoo::U4, "U4"], [$crate::zoo::K4, "K4"], [$crate::zoo::U9, "U9"], [$crate::zoo::K9, "K9"], [$crate::zoo::U17, "U17"], [$crate::zoo::K17, "K17"], [$crate::zoo::U33, "U33"], [$crate::zoo::K33, "K33"], [$crate::zoo::U65, "U65"], [$crate::zoo::K65, "K65"], [$crate::zoo::U128, "U128"], [$crate::zoo::K128, "K128"], [$crate::zoo::U129, "U129"], [$crate::zoo::U257, "U257"], [$crate::zoo::DiscU, "DiscU"] } } }
#[macro_export]
macro_rules! zoo_bits { ($m:ident) => { $m! { [$crate::zoo::K0, "K0"], [$crate::zoo::K1, "K1"], [$crate::zoo::K2, "K2"], [$crate::zoo::K3, "K3"], [$crate::zoo::K4, "K4"], [$crate::zoo::K9, "K9"], [$crate::zoo::K17, "K17"], [$crate::zoo::K33, "K33"], [$crate::zoo::K65, "K65"], [$crate::zoo::K128, "K128"] } } }
#[macro_export]
macro_rules! zoo_comp { ($m:ident) => { $m! { [$crate::zoo::NestA, "NestA"], [$crate::zoo::NestB, "NestB"], [$crate::zoo::C1B, "C1B"], [$crate::zoo::C1S, "C1S"], [$crate::zoo::C1O, "C1O"], [$crate::zoo::C1E, "C1E"], [$crate::zoo::C1K, "C1K"], [$crate::zoo::C1C, "C1C"], [$crate::zoo::C2UB, "C2UB"], [$crate::zoo::C2UO, "C2UO"], [$crate::zoo::C2UE, "C2UE"], [$crate::zoo::C2BU, "C2BU"], [$crate::zoo::C2BB, "C2BB"], [$crate::zoo::C2BO, "C2BO"], [$crate::zoo::C2BE, "C2BE"], [$crate::zoo::C2OU, "C2OU"], [$crate::zoo::C2OB, "C2OB"], [$crate::zoo::C2OO, "C2OO"], [$crate::zoo::C2OE, "C2OE"], [$crate::zoo::C2EU, "C2EU"], [$crate::zoo::C2EB, "C2EB"], [$crate::zoo::C2EO, "C2EO"], [$crate::zoo::C2EE, "C2EE"], [$crate::zoo::C3UBS, "C3UBS"], [$crate::zoo::C3SUB, "C3SUB"], [$crate::zoo::C3BKU, "C3BKU"], [$crate::zoo::C3CUB, "C3CUB"], [$crate::zoo::C3BBB, "C3BBB"], [$crate::zoo::LC16, "LC16"], [$crate::zoo::LC33, "LC33"], [$crate::zoo::LC66, "LC66"], [$crate::zoo::LC130, "LC130"], [$crate::zoo::LC260, "LC260"] } } }
#[macro_export]
macro_rules! zoo_dyncomp { ($m:ident) => { $m! { [$crate::zoo::DA, "DA"], [$crate::zoo::DB, "DB"], [$crate::zoo::DC, "DC"] } } }
#[macro_export]
macro_rules! zoo_dyn { ($m:ident) => { $m! { [u8, "u8"], [char, "char"], [i128, "i128"], [&'static str, "&'static str"], [&'static [u8], "&'static [u8]"], [isize, "isize"], [Option<u64>, "Option<u64>"], [Option<Option<i8>>, "Option<Option<i8>>"], [Option<$crate::zoo::DA>, "Option<DA>"] } } }
#[macro_export]
macro_rules! zoo_base { ($m:ident) => { $m! { [(), "()"], [bool, "bool"], [Option<()>, "Option<()>"], [Option<bool>, "Option<bool>"], [Option<Option<bool>>, "Option<Option<bool>>"], [Option<$crate::zoo::U2>, "Option<U2>"], [Option<$crate::zoo::K2>, "Option<K2>"], [Option<$crate::zoo::NestA>, "Option<NestA>"] } } }
