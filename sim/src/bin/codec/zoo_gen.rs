// @generated by gen/gen_zoo.py. Do not edit.
#![allow(clippy::all, dead_code, unused)]
use crate::zoo::*;
use crate::erased::{ty, Erased};
use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
use smallvec::SmallVec;
use ssz::{four_byte_option_impl, BitList, BitVector, BitVectorDynamic, Encode as _, Decode as _, SszEncoder};
use ssz_derive::{Decode, Encode};
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroUsize;
use std::sync::Arc;
use typenum::*;
pub type Huge = typenum::U1099511627776;

type VecU8 = Vec<u8>;
type VecVec = Vec<Vec<u8>>;

four_byte_option_impl!(leg_u16, u16);
four_byte_option_impl!(leg_u64, u64);
four_byte_option_impl!(leg_vec, VecU8);
four_byte_option_impl!(leg_vv, VecVec);

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S0 {
    pub f0: BitVector<U64>,
}
impl Zoo for S0 {
    fn gen(g: &mut Gen) -> Self {
        S0 { f0: <BitVector<U64> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<BitVector<U64> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BitVector<U64> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <BitVector<U64> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S1 {
    pub f0: [u8; 4],
}
impl Zoo for S1 {
    fn gen(g: &mut Gen) -> Self {
        S1 { f0: <[u8; 4] as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<[u8; 4] as Zoo>::mem()]) }
    fn nofail() -> bool { false || <[u8; 4] as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <[u8; 4] as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S2 {
    pub f0: Address,
}
impl Zoo for S2 {
    fn gen(g: &mut Gen) -> Self {
        S2 { f0: <Address as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Address as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Address as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <Address as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S3 {
    pub f0: Vec<S1>,
    pub f1: u16,
}
impl Zoo for S3 {
    fn gen(g: &mut Gen) -> Self {
        S3 { f0: <Vec<S1> as Zoo>::gen(g), f1: <u16 as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Vec<S1> as Zoo>::mem(), <u16 as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Vec<S1> as Zoo>::nofail() || <u16 as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <Vec<S1> as ssz::Encode>::ssz_fixed_len() + <u16 as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S4 {
    pub f0: BitVector<U1>,
    pub f1: Vec<u16>,
}
impl Zoo for S4 {
    fn gen(g: &mut Gen) -> Self {
        S4 { f0: <BitVector<U1> as Zoo>::gen(g), f1: <Vec<u16> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<BitVector<U1> as Zoo>::mem(), <Vec<u16> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BitVector<U1> as Zoo>::nofail() || <Vec<u16> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <BitVector<U1> as ssz::Encode>::ssz_fixed_len() + <Vec<u16> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S5 {
    pub f0: SmallVec<[Vec<u8>; 2]>,
    pub f1: BitList<U8>,
}
impl Zoo for S5 {
    fn gen(g: &mut Gen) -> Self {
        S5 { f0: <SmallVec<[Vec<u8>; 2]> as Zoo>::gen(g), f1: <BitList<U8> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<SmallVec<[Vec<u8>; 2]> as Zoo>::mem(), <BitList<U8> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BitList<U8> as Zoo>::nofail() || <SmallVec<[Vec<u8>; 2]> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <SmallVec<[Vec<u8>; 2]> as ssz::Encode>::ssz_fixed_len() + <BitList<U8> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S6 {
    pub f0: BitVector<U1>,
    pub f1: Arc<u32>,
}
impl Zoo for S6 {
    fn gen(g: &mut Gen) -> Self {
        S6 { f0: <BitVector<U1> as Zoo>::gen(g), f1: <Arc<u32> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<BitVector<U1> as Zoo>::mem(), <Arc<u32> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Arc<u32> as Zoo>::nofail() || <BitVector<U1> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <BitVector<U1> as ssz::Encode>::ssz_fixed_len() + <Arc<u32> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S7 {
    pub f0: (u8, u16),
    pub f1: FixedBytes<96>,
}
impl Zoo for S7 {
    fn gen(g: &mut Gen) -> Self {
        S7 { f0: <(u8, u16) as Zoo>::gen(g), f1: <FixedBytes<96> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<(u8, u16) as Zoo>::mem(), <FixedBytes<96> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <(u8, u16) as Zoo>::nofail() || <FixedBytes<96> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <(u8, u16) as ssz::Encode>::ssz_fixed_len() + <FixedBytes<96> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S8 {
    pub f0: BitList<U100>,
    pub f1: YItem,
}
impl Zoo for S8 {
    fn gen(g: &mut Gen) -> Self {
        S8 { f0: <BitList<U100> as Zoo>::gen(g), f1: <YItem as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<BitList<U100> as Zoo>::mem(), <YItem as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BitList<U100> as Zoo>::nofail() || <YItem as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <BitList<U100> as ssz::Encode>::ssz_fixed_len() + <YItem as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S9 {
    pub f0: BitVector<U1>,
    pub f1: BitVector<U4096>,
    pub f2: [u8; 1],
}
impl Zoo for S9 {
    fn gen(g: &mut Gen) -> Self {
        S9 { f0: <BitVector<U1> as Zoo>::gen(g), f1: <BitVector<U4096> as Zoo>::gen(g), f2: <[u8; 1] as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<BitVector<U1> as Zoo>::mem(), <BitVector<U4096> as Zoo>::mem(), <[u8; 1] as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BitVector<U1> as Zoo>::nofail() || <BitVector<U4096> as Zoo>::nofail() || <[u8; 1] as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <BitVector<U1> as ssz::Encode>::ssz_fixed_len() + <BitVector<U4096> as ssz::Encode>::ssz_fixed_len() + <[u8; 1] as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S10 {
    pub f0: Arc<u32>,
    pub f1: Vec<bool>,
    pub f2: Vec<S0>,
}
impl Zoo for S10 {
    fn gen(g: &mut Gen) -> Self {
        S10 { f0: <Arc<u32> as Zoo>::gen(g), f1: <Vec<bool> as Zoo>::gen(g), f2: <Vec<S0> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Arc<u32> as Zoo>::mem(), <Vec<bool> as Zoo>::mem(), <Vec<S0> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Arc<u32> as Zoo>::nofail() || <Vec<S0> as Zoo>::nofail() || <Vec<bool> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <Arc<u32> as ssz::Encode>::ssz_fixed_len() + <Vec<bool> as ssz::Encode>::ssz_fixed_len() + <Vec<S0> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S11 {
    pub f0: U128,
    pub f1: BitList<U8>,
    pub f2: Address,
}
impl Zoo for S11 {
    fn gen(g: &mut Gen) -> Self {
        S11 { f0: <U128 as Zoo>::gen(g), f1: <BitList<U8> as Zoo>::gen(g), f2: <Address as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<U128 as Zoo>::mem(), <BitList<U8> as Zoo>::mem(), <Address as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Address as Zoo>::nofail() || <BitList<U8> as Zoo>::nofail() || <U128 as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <U128 as ssz::Encode>::ssz_fixed_len() + <BitList<U8> as ssz::Encode>::ssz_fixed_len() + <Address as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S12 {
    pub f0: NonZeroUsize,
    pub f1: BitVector<U64>,
    pub f2: BitVector<U8>,
}
impl Zoo for S12 {
    fn gen(g: &mut Gen) -> Self {
        S12 { f0: <NonZeroUsize as Zoo>::gen(g), f1: <BitVector<U64> as Zoo>::gen(g), f2: <BitVector<U8> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<NonZeroUsize as Zoo>::mem(), <BitVector<U64> as Zoo>::mem(), <BitVector<U8> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BitVector<U64> as Zoo>::nofail() || <BitVector<U8> as Zoo>::nofail() || <NonZeroUsize as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <NonZeroUsize as ssz::Encode>::ssz_fixed_len() + <BitVector<U64> as ssz::Encode>::ssz_fixed_len() + <BitVector<U8> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S13 {
    pub f0: Vec<S1>,
    pub f1: BitVector<U64>,
    pub f2: Vec<YFix>,
}
impl Zoo for S13 {
    fn gen(g: &mut Gen) -> Self {
        S13 { f0: <Vec<S1> as Zoo>::gen(g), f1: <BitVector<U64> as Zoo>::gen(g), f2: <Vec<YFix> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Vec<S1> as Zoo>::mem(), <BitVector<U64> as Zoo>::mem(), <Vec<YFix> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BitVector<U64> as Zoo>::nofail() || <Vec<S1> as Zoo>::nofail() || <Vec<YFix> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <Vec<S1> as ssz::Encode>::ssz_fixed_len() + <BitVector<U64> as ssz::Encode>::ssz_fixed_len() + <Vec<YFix> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S14 {
    pub f0: u128,
    pub f1: Vec<S5>,
    pub f2: Vec<bool>,
}
impl Zoo for S14 {
    fn gen(g: &mut Gen) -> Self {
        S14 { f0: <u128 as Zoo>::gen(g), f1: <Vec<S5> as Zoo>::gen(g), f2: <Vec<bool> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<u128 as Zoo>::mem(), <Vec<S5> as Zoo>::mem(), <Vec<bool> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Vec<S5> as Zoo>::nofail() || <Vec<bool> as Zoo>::nofail() || <u128 as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <u128 as ssz::Encode>::ssz_fixed_len() + <Vec<S5> as ssz::Encode>::ssz_fixed_len() + <Vec<bool> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S15 {
    pub f0: S7,
    pub f1: [u8; 33],
    pub f2: u16,
    pub f3: (u64, [u8; 4], bool),
}
impl Zoo for S15 {
    fn gen(g: &mut Gen) -> Self {
        S15 { f0: <S7 as Zoo>::gen(g), f1: <[u8; 33] as Zoo>::gen(g), f2: <u16 as Zoo>::gen(g), f3: <(u64, [u8; 4], bool) as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<S7 as Zoo>::mem(), <[u8; 33] as Zoo>::mem(), <u16 as Zoo>::mem(), <(u64, [u8; 4], bool) as Zoo>::mem()]) }
    fn nofail() -> bool { false || <(u64, [u8; 4], bool) as Zoo>::nofail() || <S7 as Zoo>::nofail() || <[u8; 33] as Zoo>::nofail() || <u16 as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <S7 as ssz::Encode>::ssz_fixed_len() + <[u8; 33] as ssz::Encode>::ssz_fixed_len() + <u16 as ssz::Encode>::ssz_fixed_len() + <(u64, [u8; 4], bool) as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S16 {
    pub f0: Vec<YItem>,
    pub f1: Address,
    pub f2: [u8; 1],
    pub f3: Arc<[u8; 32]>,
}
impl Zoo for S16 {
    fn gen(g: &mut Gen) -> Self {
        S16 { f0: <Vec<YItem> as Zoo>::gen(g), f1: <Address as Zoo>::gen(g), f2: <[u8; 1] as Zoo>::gen(g), f3: <Arc<[u8; 32]> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Vec<YItem> as Zoo>::mem(), <Address as Zoo>::mem(), <[u8; 1] as Zoo>::mem(), <Arc<[u8; 32]> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Address as Zoo>::nofail() || <Arc<[u8; 32]> as Zoo>::nofail() || <Vec<YItem> as Zoo>::nofail() || <[u8; 1] as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <Vec<YItem> as ssz::Encode>::ssz_fixed_len() + <Address as ssz::Encode>::ssz_fixed_len() + <[u8; 1] as ssz::Encode>::ssz_fixed_len() + <Arc<[u8; 32]> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S17 {
    pub f0: BitList<U1>,
    pub f1: BTreeSet<Vec<u8>>,
    pub f2: Bytes,
    pub f3: BitVectorDynamic,
}
impl Zoo for S17 {
    fn gen(g: &mut Gen) -> Self {
        S17 { f0: <BitList<U1> as Zoo>::gen(g), f1: <BTreeSet<Vec<u8>> as Zoo>::gen(g), f2: <Bytes as Zoo>::gen(g), f3: <BitVectorDynamic as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<BitList<U1> as Zoo>::mem(), <BTreeSet<Vec<u8>> as Zoo>::mem(), <Bytes as Zoo>::mem(), <BitVectorDynamic as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BTreeSet<Vec<u8>> as Zoo>::nofail() || <BitList<U1> as Zoo>::nofail() || <BitVectorDynamic as Zoo>::nofail() || <Bytes as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <BitList<U1> as ssz::Encode>::ssz_fixed_len() + <BTreeSet<Vec<u8>> as ssz::Encode>::ssz_fixed_len() + <Bytes as ssz::Encode>::ssz_fixed_len() + <BitVectorDynamic as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S18 {
    pub f0: Vec<S13>,
    pub f1: BitVector<U12>,
    pub f2: [u8; 33],
    pub f3: Arc<u32>,
}
impl Zoo for S18 {
    fn gen(g: &mut Gen) -> Self {
        S18 { f0: <Vec<S13> as Zoo>::gen(g), f1: <BitVector<U12> as Zoo>::gen(g), f2: <[u8; 33] as Zoo>::gen(g), f3: <Arc<u32> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Vec<S13> as Zoo>::mem(), <BitVector<U12> as Zoo>::mem(), <[u8; 33] as Zoo>::mem(), <Arc<u32> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Arc<u32> as Zoo>::nofail() || <BitVector<U12> as Zoo>::nofail() || <Vec<S13> as Zoo>::nofail() || <[u8; 33] as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <Vec<S13> as ssz::Encode>::ssz_fixed_len() + <BitVector<U12> as ssz::Encode>::ssz_fixed_len() + <[u8; 33] as ssz::Encode>::ssz_fixed_len() + <Arc<u32> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S19 {
    pub f0: S9,
    pub f1: YItem,
    pub f2: BitVector<U64>,
    pub f3: BitVector<U4096>,
}
impl Zoo for S19 {
    fn gen(g: &mut Gen) -> Self {
        S19 { f0: <S9 as Zoo>::gen(g), f1: <YItem as Zoo>::gen(g), f2: <BitVector<U64> as Zoo>::gen(g), f3: <BitVector<U4096> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<S9 as Zoo>::mem(), <YItem as Zoo>::mem(), <BitVector<U64> as Zoo>::mem(), <BitVector<U4096> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BitVector<U4096> as Zoo>::nofail() || <BitVector<U64> as Zoo>::nofail() || <S9 as Zoo>::nofail() || <YItem as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <S9 as ssz::Encode>::ssz_fixed_len() + <YItem as ssz::Encode>::ssz_fixed_len() + <BitVector<U64> as ssz::Encode>::ssz_fixed_len() + <BitVector<U4096> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S20 {
    pub f0: Vec<u8>,
    pub f1: Vec<S18>,
    pub f2: BitList<U2048>,
    pub f3: FixedBytes<32>,
}
impl Zoo for S20 {
    fn gen(g: &mut Gen) -> Self {
        S20 { f0: <Vec<u8> as Zoo>::gen(g), f1: <Vec<S18> as Zoo>::gen(g), f2: <BitList<U2048> as Zoo>::gen(g), f3: <FixedBytes<32> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Vec<u8> as Zoo>::mem(), <Vec<S18> as Zoo>::mem(), <BitList<U2048> as Zoo>::mem(), <FixedBytes<32> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BitList<U2048> as Zoo>::nofail() || <FixedBytes<32> as Zoo>::nofail() || <Vec<S18> as Zoo>::nofail() || <Vec<u8> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <Vec<u8> as ssz::Encode>::ssz_fixed_len() + <Vec<S18> as ssz::Encode>::ssz_fixed_len() + <BitList<U2048> as ssz::Encode>::ssz_fixed_len() + <FixedBytes<32> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S21 {
    pub f0: S19,
    pub f1: FixedBytes<1>,
    pub f2: Arc<u32>,
    pub f3: [u8; 33],
    pub f4: u8,
}
impl Zoo for S21 {
    fn gen(g: &mut Gen) -> Self {
        S21 { f0: <S19 as Zoo>::gen(g), f1: <FixedBytes<1> as Zoo>::gen(g), f2: <Arc<u32> as Zoo>::gen(g), f3: <[u8; 33] as Zoo>::gen(g), f4: <u8 as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<S19 as Zoo>::mem(), <FixedBytes<1> as Zoo>::mem(), <Arc<u32> as Zoo>::mem(), <[u8; 33] as Zoo>::mem(), <u8 as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Arc<u32> as Zoo>::nofail() || <FixedBytes<1> as Zoo>::nofail() || <S19 as Zoo>::nofail() || <[u8; 33] as Zoo>::nofail() || <u8 as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <S19 as ssz::Encode>::ssz_fixed_len() + <FixedBytes<1> as ssz::Encode>::ssz_fixed_len() + <Arc<u32> as ssz::Encode>::ssz_fixed_len() + <[u8; 33] as ssz::Encode>::ssz_fixed_len() + <u8 as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S22 {
    pub f0: U128,
    pub f1: (u8, u16),
    pub f2: Vec<Option<u32>>,
    pub f3: Vec<FixedBytes<32>>,
    pub f4: SmallVec<[u64; 4]>,
}
impl Zoo for S22 {
    fn gen(g: &mut Gen) -> Self {
        S22 { f0: <U128 as Zoo>::gen(g), f1: <(u8, u16) as Zoo>::gen(g), f2: <Vec<Option<u32>> as Zoo>::gen(g), f3: <Vec<FixedBytes<32>> as Zoo>::gen(g), f4: <SmallVec<[u64; 4]> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<U128 as Zoo>::mem(), <(u8, u16) as Zoo>::mem(), <Vec<Option<u32>> as Zoo>::mem(), <Vec<FixedBytes<32>> as Zoo>::mem(), <SmallVec<[u64; 4]> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <(u8, u16) as Zoo>::nofail() || <SmallVec<[u64; 4]> as Zoo>::nofail() || <U128 as Zoo>::nofail() || <Vec<FixedBytes<32>> as Zoo>::nofail() || <Vec<Option<u32>> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <U128 as ssz::Encode>::ssz_fixed_len() + <(u8, u16) as ssz::Encode>::ssz_fixed_len() + <Vec<Option<u32>> as ssz::Encode>::ssz_fixed_len() + <Vec<FixedBytes<32>> as ssz::Encode>::ssz_fixed_len() + <SmallVec<[u64; 4]> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S23 {
    pub f0: Vec<U256>,
    pub f1: Option<u16>,
    pub f2: [u8; 4],
    pub f3: Vec<u8>,
    pub f4: [u8; 1],
}
impl Zoo for S23 {
    fn gen(g: &mut Gen) -> Self {
        S23 { f0: <Vec<U256> as Zoo>::gen(g), f1: <Option<u16> as Zoo>::gen(g), f2: <[u8; 4] as Zoo>::gen(g), f3: <Vec<u8> as Zoo>::gen(g), f4: <[u8; 1] as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Vec<U256> as Zoo>::mem(), <Option<u16> as Zoo>::mem(), <[u8; 4] as Zoo>::mem(), <Vec<u8> as Zoo>::mem(), <[u8; 1] as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Option<u16> as Zoo>::nofail() || <Vec<U256> as Zoo>::nofail() || <Vec<u8> as Zoo>::nofail() || <[u8; 1] as Zoo>::nofail() || <[u8; 4] as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <Vec<U256> as ssz::Encode>::ssz_fixed_len() + <Option<u16> as ssz::Encode>::ssz_fixed_len() + <[u8; 4] as ssz::Encode>::ssz_fixed_len() + <Vec<u8> as ssz::Encode>::ssz_fixed_len() + <[u8; 1] as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S24 {
    pub f0: NonZeroUsize,
    pub f1: [u8; 33],
    pub f2: U128,
    pub f3: BitVector<U4096>,
    pub f4: BitVector<U1024>,
    pub f5: FixedBytes<48>,
}
impl Zoo for S24 {
    fn gen(g: &mut Gen) -> Self {
        S24 { f0: <NonZeroUsize as Zoo>::gen(g), f1: <[u8; 33] as Zoo>::gen(g), f2: <U128 as Zoo>::gen(g), f3: <BitVector<U4096> as Zoo>::gen(g), f4: <BitVector<U1024> as Zoo>::gen(g), f5: <FixedBytes<48> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<NonZeroUsize as Zoo>::mem(), <[u8; 33] as Zoo>::mem(), <U128 as Zoo>::mem(), <BitVector<U4096> as Zoo>::mem(), <BitVector<U1024> as Zoo>::mem(), <FixedBytes<48> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BitVector<U1024> as Zoo>::nofail() || <BitVector<U4096> as Zoo>::nofail() || <FixedBytes<48> as Zoo>::nofail() || <NonZeroUsize as Zoo>::nofail() || <U128 as Zoo>::nofail() || <[u8; 33] as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <NonZeroUsize as ssz::Encode>::ssz_fixed_len() + <[u8; 33] as ssz::Encode>::ssz_fixed_len() + <U128 as ssz::Encode>::ssz_fixed_len() + <BitVector<U4096> as ssz::Encode>::ssz_fixed_len() + <BitVector<U1024> as ssz::Encode>::ssz_fixed_len() + <FixedBytes<48> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S25 {
    pub f0: u8,
    pub f1: u32,
    pub f2: Vec<u8>,
    pub f3: BitVector<U1>,
    pub f4: Vec<S9>,
    pub f5: FixedBytes<48>,
}
impl Zoo for S25 {
    fn gen(g: &mut Gen) -> Self {
        S25 { f0: <u8 as Zoo>::gen(g), f1: <u32 as Zoo>::gen(g), f2: <Vec<u8> as Zoo>::gen(g), f3: <BitVector<U1> as Zoo>::gen(g), f4: <Vec<S9> as Zoo>::gen(g), f5: <FixedBytes<48> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<u8 as Zoo>::mem(), <u32 as Zoo>::mem(), <Vec<u8> as Zoo>::mem(), <BitVector<U1> as Zoo>::mem(), <Vec<S9> as Zoo>::mem(), <FixedBytes<48> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BitVector<U1> as Zoo>::nofail() || <FixedBytes<48> as Zoo>::nofail() || <Vec<S9> as Zoo>::nofail() || <Vec<u8> as Zoo>::nofail() || <u32 as Zoo>::nofail() || <u8 as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <u8 as ssz::Encode>::ssz_fixed_len() + <u32 as ssz::Encode>::ssz_fixed_len() + <Vec<u8> as ssz::Encode>::ssz_fixed_len() + <BitVector<U1> as ssz::Encode>::ssz_fixed_len() + <Vec<S9> as ssz::Encode>::ssz_fixed_len() + <FixedBytes<48> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S26 {
    pub f0: Vec<Option<u32>>,
    pub f1: S14,
    pub f2: Vec<S4>,
    pub f3: SmallVec<[u64; 4]>,
    pub f4: Bytes,
    pub f5: Vec<Vec<u16>>,
}
impl Zoo for S26 {
    fn gen(g: &mut Gen) -> Self {
        S26 { f0: <Vec<Option<u32>> as Zoo>::gen(g), f1: <S14 as Zoo>::gen(g), f2: <Vec<S4> as Zoo>::gen(g), f3: <SmallVec<[u64; 4]> as Zoo>::gen(g), f4: <Bytes as Zoo>::gen(g), f5: <Vec<Vec<u16>> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Vec<Option<u32>> as Zoo>::mem(), <S14 as Zoo>::mem(), <Vec<S4> as Zoo>::mem(), <SmallVec<[u64; 4]> as Zoo>::mem(), <Bytes as Zoo>::mem(), <Vec<Vec<u16>> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Bytes as Zoo>::nofail() || <S14 as Zoo>::nofail() || <SmallVec<[u64; 4]> as Zoo>::nofail() || <Vec<Option<u32>> as Zoo>::nofail() || <Vec<S4> as Zoo>::nofail() || <Vec<Vec<u16>> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <Vec<Option<u32>> as ssz::Encode>::ssz_fixed_len() + <S14 as ssz::Encode>::ssz_fixed_len() + <Vec<S4> as ssz::Encode>::ssz_fixed_len() + <SmallVec<[u64; 4]> as ssz::Encode>::ssz_fixed_len() + <Bytes as ssz::Encode>::ssz_fixed_len() + <Vec<Vec<u16>> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S27 {
    pub f0: BitVector<U8>,
    pub f1: Address,
    pub f2: BitVector<U4096>,
    pub f3: S15,
    pub f4: FixedBytes<96>,
    pub f5: Arc<u32>,
    pub f6: S14,
}
impl Zoo for S27 {
    fn gen(g: &mut Gen) -> Self {
        S27 { f0: <BitVector<U8> as Zoo>::gen(g), f1: <Address as Zoo>::gen(g), f2: <BitVector<U4096> as Zoo>::gen(g), f3: <S15 as Zoo>::gen(g), f4: <FixedBytes<96> as Zoo>::gen(g), f5: <Arc<u32> as Zoo>::gen(g), f6: <S14 as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<BitVector<U8> as Zoo>::mem(), <Address as Zoo>::mem(), <BitVector<U4096> as Zoo>::mem(), <S15 as Zoo>::mem(), <FixedBytes<96> as Zoo>::mem(), <Arc<u32> as Zoo>::mem(), <S14 as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Address as Zoo>::nofail() || <Arc<u32> as Zoo>::nofail() || <BitVector<U4096> as Zoo>::nofail() || <BitVector<U8> as Zoo>::nofail() || <FixedBytes<96> as Zoo>::nofail() || <S14 as Zoo>::nofail() || <S15 as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <BitVector<U8> as ssz::Encode>::ssz_fixed_len() + <Address as ssz::Encode>::ssz_fixed_len() + <BitVector<U4096> as ssz::Encode>::ssz_fixed_len() + <S15 as ssz::Encode>::ssz_fixed_len() + <FixedBytes<96> as ssz::Encode>::ssz_fixed_len() + <Arc<u32> as ssz::Encode>::ssz_fixed_len() + <S14 as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        field(&mut e, &self.f6, style.wrapping_add(6));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S28 {
    pub f0: [u8; 4],
    pub f1: Address,
    pub f2: FixedBytes<1>,
    pub f3: BitVector<U12>,
    pub f4: [u8; 1],
    pub f5: Arc<Vec<u8>>,
    pub f6: Vec<u8>,
}
impl Zoo for S28 {
    fn gen(g: &mut Gen) -> Self {
        S28 { f0: <[u8; 4] as Zoo>::gen(g), f1: <Address as Zoo>::gen(g), f2: <FixedBytes<1> as Zoo>::gen(g), f3: <BitVector<U12> as Zoo>::gen(g), f4: <[u8; 1] as Zoo>::gen(g), f5: <Arc<Vec<u8>> as Zoo>::gen(g), f6: <Vec<u8> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<[u8; 4] as Zoo>::mem(), <Address as Zoo>::mem(), <FixedBytes<1> as Zoo>::mem(), <BitVector<U12> as Zoo>::mem(), <[u8; 1] as Zoo>::mem(), <Arc<Vec<u8>> as Zoo>::mem(), <Vec<u8> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Address as Zoo>::nofail() || <Arc<Vec<u8>> as Zoo>::nofail() || <BitVector<U12> as Zoo>::nofail() || <FixedBytes<1> as Zoo>::nofail() || <Vec<u8> as Zoo>::nofail() || <[u8; 1] as Zoo>::nofail() || <[u8; 4] as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <[u8; 4] as ssz::Encode>::ssz_fixed_len() + <Address as ssz::Encode>::ssz_fixed_len() + <FixedBytes<1> as ssz::Encode>::ssz_fixed_len() + <BitVector<U12> as ssz::Encode>::ssz_fixed_len() + <[u8; 1] as ssz::Encode>::ssz_fixed_len() + <Arc<Vec<u8>> as ssz::Encode>::ssz_fixed_len() + <Vec<u8> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        field(&mut e, &self.f6, style.wrapping_add(6));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S29 {
    pub f0: (Vec<u8>, u16, Vec<u16>),
    pub f1: Vec<S21>,
    pub f2: Vec<YFix>,
    pub f3: Vec<S0>,
    pub f4: BitList<U100>,
    pub f5: BTreeMap<u16, Vec<u8>>,
    pub f6: Vec<FixedBytes<32>>,
}
impl Zoo for S29 {
    fn gen(g: &mut Gen) -> Self {
        S29 { f0: <(Vec<u8>, u16, Vec<u16>) as Zoo>::gen(g), f1: <Vec<S21> as Zoo>::gen(g), f2: <Vec<YFix> as Zoo>::gen(g), f3: <Vec<S0> as Zoo>::gen(g), f4: <BitList<U100> as Zoo>::gen(g), f5: <BTreeMap<u16, Vec<u8>> as Zoo>::gen(g), f6: <Vec<FixedBytes<32>> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<(Vec<u8>, u16, Vec<u16>) as Zoo>::mem(), <Vec<S21> as Zoo>::mem(), <Vec<YFix> as Zoo>::mem(), <Vec<S0> as Zoo>::mem(), <BitList<U100> as Zoo>::mem(), <BTreeMap<u16, Vec<u8>> as Zoo>::mem(), <Vec<FixedBytes<32>> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <(Vec<u8>, u16, Vec<u16>) as Zoo>::nofail() || <BTreeMap<u16, Vec<u8>> as Zoo>::nofail() || <BitList<U100> as Zoo>::nofail() || <Vec<FixedBytes<32>> as Zoo>::nofail() || <Vec<S0> as Zoo>::nofail() || <Vec<S21> as Zoo>::nofail() || <Vec<YFix> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <(Vec<u8>, u16, Vec<u16>) as ssz::Encode>::ssz_fixed_len() + <Vec<S21> as ssz::Encode>::ssz_fixed_len() + <Vec<YFix> as ssz::Encode>::ssz_fixed_len() + <Vec<S0> as ssz::Encode>::ssz_fixed_len() + <BitList<U100> as ssz::Encode>::ssz_fixed_len() + <BTreeMap<u16, Vec<u8>> as ssz::Encode>::ssz_fixed_len() + <Vec<FixedBytes<32>> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        field(&mut e, &self.f6, style.wrapping_add(6));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S30 {
    pub f0: u64,
    pub f1: u64,
    pub f2: [u8; 4],
    pub f3: Address,
    pub f4: usize,
    pub f5: (u64, [u8; 4], bool),
    pub f6: Address,
    pub f7: FixedBytes<1>,
}
impl Zoo for S30 {
    fn gen(g: &mut Gen) -> Self {
        S30 { f0: <u64 as Zoo>::gen(g), f1: <u64 as Zoo>::gen(g), f2: <[u8; 4] as Zoo>::gen(g), f3: <Address as Zoo>::gen(g), f4: <usize as Zoo>::gen(g), f5: <(u64, [u8; 4], bool) as Zoo>::gen(g), f6: <Address as Zoo>::gen(g), f7: <FixedBytes<1> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<u64 as Zoo>::mem(), <u64 as Zoo>::mem(), <[u8; 4] as Zoo>::mem(), <Address as Zoo>::mem(), <usize as Zoo>::mem(), <(u64, [u8; 4], bool) as Zoo>::mem(), <Address as Zoo>::mem(), <FixedBytes<1> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <(u64, [u8; 4], bool) as Zoo>::nofail() || <Address as Zoo>::nofail() || <FixedBytes<1> as Zoo>::nofail() || <[u8; 4] as Zoo>::nofail() || <u64 as Zoo>::nofail() || <usize as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <u64 as ssz::Encode>::ssz_fixed_len() + <u64 as ssz::Encode>::ssz_fixed_len() + <[u8; 4] as ssz::Encode>::ssz_fixed_len() + <Address as ssz::Encode>::ssz_fixed_len() + <usize as ssz::Encode>::ssz_fixed_len() + <(u64, [u8; 4], bool) as ssz::Encode>::ssz_fixed_len() + <Address as ssz::Encode>::ssz_fixed_len() + <FixedBytes<1> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        field(&mut e, &self.f6, style.wrapping_add(6));
        field(&mut e, &self.f7, style.wrapping_add(7));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S31 {
    pub f0: u16,
    pub f1: BitVector<U64>,
    pub f2: Address,
    pub f3: BitList<U1>,
    pub f4: Arc<u32>,
    pub f5: FixedBytes<1>,
    pub f6: Address,
    pub f7: S18,
}
impl Zoo for S31 {
    fn gen(g: &mut Gen) -> Self {
        S31 { f0: <u16 as Zoo>::gen(g), f1: <BitVector<U64> as Zoo>::gen(g), f2: <Address as Zoo>::gen(g), f3: <BitList<U1> as Zoo>::gen(g), f4: <Arc<u32> as Zoo>::gen(g), f5: <FixedBytes<1> as Zoo>::gen(g), f6: <Address as Zoo>::gen(g), f7: <S18 as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<u16 as Zoo>::mem(), <BitVector<U64> as Zoo>::mem(), <Address as Zoo>::mem(), <BitList<U1> as Zoo>::mem(), <Arc<u32> as Zoo>::mem(), <FixedBytes<1> as Zoo>::mem(), <Address as Zoo>::mem(), <S18 as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Address as Zoo>::nofail() || <Arc<u32> as Zoo>::nofail() || <BitList<U1> as Zoo>::nofail() || <BitVector<U64> as Zoo>::nofail() || <FixedBytes<1> as Zoo>::nofail() || <S18 as Zoo>::nofail() || <u16 as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <u16 as ssz::Encode>::ssz_fixed_len() + <BitVector<U64> as ssz::Encode>::ssz_fixed_len() + <Address as ssz::Encode>::ssz_fixed_len() + <BitList<U1> as ssz::Encode>::ssz_fixed_len() + <Arc<u32> as ssz::Encode>::ssz_fixed_len() + <FixedBytes<1> as ssz::Encode>::ssz_fixed_len() + <Address as ssz::Encode>::ssz_fixed_len() + <S18 as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        field(&mut e, &self.f6, style.wrapping_add(6));
        field(&mut e, &self.f7, style.wrapping_add(7));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S32 {
    pub f0: Arc<[u8; 32]>,
    pub f1: BitVector<U8>,
    pub f2: Vec<S27>,
    pub f3: Address,
    pub f4: Vec<S1>,
    pub f5: FixedBytes<4>,
    pub f6: S3,
    pub f7: FixedBytes<96>,
    pub f8: Vec<S8>,
}
impl Zoo for S32 {
    fn gen(g: &mut Gen) -> Self {
        S32 { f0: <Arc<[u8; 32]> as Zoo>::gen(g), f1: <BitVector<U8> as Zoo>::gen(g), f2: <Vec<S27> as Zoo>::gen(g), f3: <Address as Zoo>::gen(g), f4: <Vec<S1> as Zoo>::gen(g), f5: <FixedBytes<4> as Zoo>::gen(g), f6: <S3 as Zoo>::gen(g), f7: <FixedBytes<96> as Zoo>::gen(g), f8: <Vec<S8> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Arc<[u8; 32]> as Zoo>::mem(), <BitVector<U8> as Zoo>::mem(), <Vec<S27> as Zoo>::mem(), <Address as Zoo>::mem(), <Vec<S1> as Zoo>::mem(), <FixedBytes<4> as Zoo>::mem(), <S3 as Zoo>::mem(), <FixedBytes<96> as Zoo>::mem(), <Vec<S8> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Address as Zoo>::nofail() || <Arc<[u8; 32]> as Zoo>::nofail() || <BitVector<U8> as Zoo>::nofail() || <FixedBytes<4> as Zoo>::nofail() || <FixedBytes<96> as Zoo>::nofail() || <S3 as Zoo>::nofail() || <Vec<S1> as Zoo>::nofail() || <Vec<S27> as Zoo>::nofail() || <Vec<S8> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <Arc<[u8; 32]> as ssz::Encode>::ssz_fixed_len() + <BitVector<U8> as ssz::Encode>::ssz_fixed_len() + <Vec<S27> as ssz::Encode>::ssz_fixed_len() + <Address as ssz::Encode>::ssz_fixed_len() + <Vec<S1> as ssz::Encode>::ssz_fixed_len() + <FixedBytes<4> as ssz::Encode>::ssz_fixed_len() + <S3 as ssz::Encode>::ssz_fixed_len() + <FixedBytes<96> as ssz::Encode>::ssz_fixed_len() + <Vec<S8> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        field(&mut e, &self.f6, style.wrapping_add(6));
        field(&mut e, &self.f7, style.wrapping_add(7));
        field(&mut e, &self.f8, style.wrapping_add(8));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S33 {
    pub f0: FixedBytes<1>,
    pub f1: BTreeMap<u16, Vec<u8>>,
    pub f2: SmallVec<[u64; 4]>,
    pub f3: BitVector<U4096>,
    pub f4: Vec<S7>,
    pub f5: FixedBytes<48>,
    pub f6: u8,
    pub f7: U128,
    pub f8: Bloom,
}
impl Zoo for S33 {
    fn gen(g: &mut Gen) -> Self {
        S33 { f0: <FixedBytes<1> as Zoo>::gen(g), f1: <BTreeMap<u16, Vec<u8>> as Zoo>::gen(g), f2: <SmallVec<[u64; 4]> as Zoo>::gen(g), f3: <BitVector<U4096> as Zoo>::gen(g), f4: <Vec<S7> as Zoo>::gen(g), f5: <FixedBytes<48> as Zoo>::gen(g), f6: <u8 as Zoo>::gen(g), f7: <U128 as Zoo>::gen(g), f8: <Bloom as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<FixedBytes<1> as Zoo>::mem(), <BTreeMap<u16, Vec<u8>> as Zoo>::mem(), <SmallVec<[u64; 4]> as Zoo>::mem(), <BitVector<U4096> as Zoo>::mem(), <Vec<S7> as Zoo>::mem(), <FixedBytes<48> as Zoo>::mem(), <u8 as Zoo>::mem(), <U128 as Zoo>::mem(), <Bloom as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BTreeMap<u16, Vec<u8>> as Zoo>::nofail() || <BitVector<U4096> as Zoo>::nofail() || <Bloom as Zoo>::nofail() || <FixedBytes<1> as Zoo>::nofail() || <FixedBytes<48> as Zoo>::nofail() || <SmallVec<[u64; 4]> as Zoo>::nofail() || <U128 as Zoo>::nofail() || <Vec<S7> as Zoo>::nofail() || <u8 as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <FixedBytes<1> as ssz::Encode>::ssz_fixed_len() + <BTreeMap<u16, Vec<u8>> as ssz::Encode>::ssz_fixed_len() + <SmallVec<[u64; 4]> as ssz::Encode>::ssz_fixed_len() + <BitVector<U4096> as ssz::Encode>::ssz_fixed_len() + <Vec<S7> as ssz::Encode>::ssz_fixed_len() + <FixedBytes<48> as ssz::Encode>::ssz_fixed_len() + <u8 as ssz::Encode>::ssz_fixed_len() + <U128 as ssz::Encode>::ssz_fixed_len() + <Bloom as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        field(&mut e, &self.f6, style.wrapping_add(6));
        field(&mut e, &self.f7, style.wrapping_add(7));
        field(&mut e, &self.f8, style.wrapping_add(8));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S34 {
    pub f0: u128,
    pub f1: BitVector<U64>,
    pub f2: usize,
    pub f3: Address,
    pub f4: u64,
    pub f5: Vec<S2>,
    pub f6: Address,
    pub f7: FixedBytes<48>,
    pub f8: FixedBytes<32>,
}
impl Zoo for S34 {
    fn gen(g: &mut Gen) -> Self {
        S34 { f0: <u128 as Zoo>::gen(g), f1: <BitVector<U64> as Zoo>::gen(g), f2: <usize as Zoo>::gen(g), f3: <Address as Zoo>::gen(g), f4: <u64 as Zoo>::gen(g), f5: <Vec<S2> as Zoo>::gen(g), f6: <Address as Zoo>::gen(g), f7: <FixedBytes<48> as Zoo>::gen(g), f8: <FixedBytes<32> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<u128 as Zoo>::mem(), <BitVector<U64> as Zoo>::mem(), <usize as Zoo>::mem(), <Address as Zoo>::mem(), <u64 as Zoo>::mem(), <Vec<S2> as Zoo>::mem(), <Address as Zoo>::mem(), <FixedBytes<48> as Zoo>::mem(), <FixedBytes<32> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Address as Zoo>::nofail() || <BitVector<U64> as Zoo>::nofail() || <FixedBytes<32> as Zoo>::nofail() || <FixedBytes<48> as Zoo>::nofail() || <Vec<S2> as Zoo>::nofail() || <u128 as Zoo>::nofail() || <u64 as Zoo>::nofail() || <usize as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <u128 as ssz::Encode>::ssz_fixed_len() + <BitVector<U64> as ssz::Encode>::ssz_fixed_len() + <usize as ssz::Encode>::ssz_fixed_len() + <Address as ssz::Encode>::ssz_fixed_len() + <u64 as ssz::Encode>::ssz_fixed_len() + <Vec<S2> as ssz::Encode>::ssz_fixed_len() + <Address as ssz::Encode>::ssz_fixed_len() + <FixedBytes<48> as ssz::Encode>::ssz_fixed_len() + <FixedBytes<32> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        field(&mut e, &self.f6, style.wrapping_add(6));
        field(&mut e, &self.f7, style.wrapping_add(7));
        field(&mut e, &self.f8, style.wrapping_add(8));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S35 {
    pub f0: BitVector<U12>,
    pub f1: Vec<Bytes>,
    pub f2: Arc<[u8; 32]>,
    pub f3: Option<Vec<u8>>,
    pub f4: u16,
    pub f5: BTreeSet<u16>,
    pub f6: S33,
    pub f7: u64,
    pub f8: FixedBytes<4>,
}
impl Zoo for S35 {
    fn gen(g: &mut Gen) -> Self {
        S35 { f0: <BitVector<U12> as Zoo>::gen(g), f1: <Vec<Bytes> as Zoo>::gen(g), f2: <Arc<[u8; 32]> as Zoo>::gen(g), f3: <Option<Vec<u8>> as Zoo>::gen(g), f4: <u16 as Zoo>::gen(g), f5: <BTreeSet<u16> as Zoo>::gen(g), f6: <S33 as Zoo>::gen(g), f7: <u64 as Zoo>::gen(g), f8: <FixedBytes<4> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<BitVector<U12> as Zoo>::mem(), <Vec<Bytes> as Zoo>::mem(), <Arc<[u8; 32]> as Zoo>::mem(), <Option<Vec<u8>> as Zoo>::mem(), <u16 as Zoo>::mem(), <BTreeSet<u16> as Zoo>::mem(), <S33 as Zoo>::mem(), <u64 as Zoo>::mem(), <FixedBytes<4> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Arc<[u8; 32]> as Zoo>::nofail() || <BTreeSet<u16> as Zoo>::nofail() || <BitVector<U12> as Zoo>::nofail() || <FixedBytes<4> as Zoo>::nofail() || <Option<Vec<u8>> as Zoo>::nofail() || <S33 as Zoo>::nofail() || <Vec<Bytes> as Zoo>::nofail() || <u16 as Zoo>::nofail() || <u64 as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <BitVector<U12> as ssz::Encode>::ssz_fixed_len() + <Vec<Bytes> as ssz::Encode>::ssz_fixed_len() + <Arc<[u8; 32]> as ssz::Encode>::ssz_fixed_len() + <Option<Vec<u8>> as ssz::Encode>::ssz_fixed_len() + <u16 as ssz::Encode>::ssz_fixed_len() + <BTreeSet<u16> as ssz::Encode>::ssz_fixed_len() + <S33 as ssz::Encode>::ssz_fixed_len() + <u64 as ssz::Encode>::ssz_fixed_len() + <FixedBytes<4> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        field(&mut e, &self.f6, style.wrapping_add(6));
        field(&mut e, &self.f7, style.wrapping_add(7));
        field(&mut e, &self.f8, style.wrapping_add(8));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S36 {
    pub f0: FixedBytes<1>,
    pub f1: NonZeroUsize,
    pub f2: u8,
    pub f3: U128,
    pub f4: u128,
    pub f5: FixedBytes<1>,
    pub f6: Address,
    pub f7: Address,
    pub f8: (u8, u16),
    pub f9: [u8; 33],
}
impl Zoo for S36 {
    fn gen(g: &mut Gen) -> Self {
        S36 { f0: <FixedBytes<1> as Zoo>::gen(g), f1: <NonZeroUsize as Zoo>::gen(g), f2: <u8 as Zoo>::gen(g), f3: <U128 as Zoo>::gen(g), f4: <u128 as Zoo>::gen(g), f5: <FixedBytes<1> as Zoo>::gen(g), f6: <Address as Zoo>::gen(g), f7: <Address as Zoo>::gen(g), f8: <(u8, u16) as Zoo>::gen(g), f9: <[u8; 33] as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<FixedBytes<1> as Zoo>::mem(), <NonZeroUsize as Zoo>::mem(), <u8 as Zoo>::mem(), <U128 as Zoo>::mem(), <u128 as Zoo>::mem(), <FixedBytes<1> as Zoo>::mem(), <Address as Zoo>::mem(), <Address as Zoo>::mem(), <(u8, u16) as Zoo>::mem(), <[u8; 33] as Zoo>::mem()]) }
    fn nofail() -> bool { false || <(u8, u16) as Zoo>::nofail() || <Address as Zoo>::nofail() || <FixedBytes<1> as Zoo>::nofail() || <NonZeroUsize as Zoo>::nofail() || <U128 as Zoo>::nofail() || <[u8; 33] as Zoo>::nofail() || <u128 as Zoo>::nofail() || <u8 as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <FixedBytes<1> as ssz::Encode>::ssz_fixed_len() + <NonZeroUsize as ssz::Encode>::ssz_fixed_len() + <u8 as ssz::Encode>::ssz_fixed_len() + <U128 as ssz::Encode>::ssz_fixed_len() + <u128 as ssz::Encode>::ssz_fixed_len() + <FixedBytes<1> as ssz::Encode>::ssz_fixed_len() + <Address as ssz::Encode>::ssz_fixed_len() + <Address as ssz::Encode>::ssz_fixed_len() + <(u8, u16) as ssz::Encode>::ssz_fixed_len() + <[u8; 33] as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        field(&mut e, &self.f6, style.wrapping_add(6));
        field(&mut e, &self.f7, style.wrapping_add(7));
        field(&mut e, &self.f8, style.wrapping_add(8));
        field(&mut e, &self.f9, style.wrapping_add(9));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S37 {
    pub f0: Arc<Vec<Vec<u8>>>,
    pub f1: Vec<S12>,
    pub f2: (u16, Vec<u8>),
    pub f3: U256,
    pub f4: BitVector<U4096>,
    pub f5: FixedBytes<4>,
    pub f6: [u8; 1],
    pub f7: u8,
    pub f8: Arc<[u8; 32]>,
    pub f9: FixedBytes<4>,
}
impl Zoo for S37 {
    fn gen(g: &mut Gen) -> Self {
        S37 { f0: <Arc<Vec<Vec<u8>>> as Zoo>::gen(g), f1: <Vec<S12> as Zoo>::gen(g), f2: <(u16, Vec<u8>) as Zoo>::gen(g), f3: <U256 as Zoo>::gen(g), f4: <BitVector<U4096> as Zoo>::gen(g), f5: <FixedBytes<4> as Zoo>::gen(g), f6: <[u8; 1] as Zoo>::gen(g), f7: <u8 as Zoo>::gen(g), f8: <Arc<[u8; 32]> as Zoo>::gen(g), f9: <FixedBytes<4> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Arc<Vec<Vec<u8>>> as Zoo>::mem(), <Vec<S12> as Zoo>::mem(), <(u16, Vec<u8>) as Zoo>::mem(), <U256 as Zoo>::mem(), <BitVector<U4096> as Zoo>::mem(), <FixedBytes<4> as Zoo>::mem(), <[u8; 1] as Zoo>::mem(), <u8 as Zoo>::mem(), <Arc<[u8; 32]> as Zoo>::mem(), <FixedBytes<4> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <(u16, Vec<u8>) as Zoo>::nofail() || <Arc<Vec<Vec<u8>>> as Zoo>::nofail() || <Arc<[u8; 32]> as Zoo>::nofail() || <BitVector<U4096> as Zoo>::nofail() || <FixedBytes<4> as Zoo>::nofail() || <U256 as Zoo>::nofail() || <Vec<S12> as Zoo>::nofail() || <[u8; 1] as Zoo>::nofail() || <u8 as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <Arc<Vec<Vec<u8>>> as ssz::Encode>::ssz_fixed_len() + <Vec<S12> as ssz::Encode>::ssz_fixed_len() + <(u16, Vec<u8>) as ssz::Encode>::ssz_fixed_len() + <U256 as ssz::Encode>::ssz_fixed_len() + <BitVector<U4096> as ssz::Encode>::ssz_fixed_len() + <FixedBytes<4> as ssz::Encode>::ssz_fixed_len() + <[u8; 1] as ssz::Encode>::ssz_fixed_len() + <u8 as ssz::Encode>::ssz_fixed_len() + <Arc<[u8; 32]> as ssz::Encode>::ssz_fixed_len() + <FixedBytes<4> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        field(&mut e, &self.f6, style.wrapping_add(6));
        field(&mut e, &self.f7, style.wrapping_add(7));
        field(&mut e, &self.f8, style.wrapping_add(8));
        field(&mut e, &self.f9, style.wrapping_add(9));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S38 {
    pub f0: S4,
    pub f1: S5,
    pub f2: YFix,
    pub f3: u32,
    pub f4: BitVector<U1024>,
    pub f5: U256,
    pub f6: u32,
    pub f7: Vec<S22>,
    pub f8: FixedBytes<4>,
    pub f9: BitVector<U64>,
    pub f10: u64,
    pub f11: S35,
}
impl Zoo for S38 {
    fn gen(g: &mut Gen) -> Self {
        S38 { f0: <S4 as Zoo>::gen(g), f1: <S5 as Zoo>::gen(g), f2: <YFix as Zoo>::gen(g), f3: <u32 as Zoo>::gen(g), f4: <BitVector<U1024> as Zoo>::gen(g), f5: <U256 as Zoo>::gen(g), f6: <u32 as Zoo>::gen(g), f7: <Vec<S22> as Zoo>::gen(g), f8: <FixedBytes<4> as Zoo>::gen(g), f9: <BitVector<U64> as Zoo>::gen(g), f10: <u64 as Zoo>::gen(g), f11: <S35 as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<S4 as Zoo>::mem(), <S5 as Zoo>::mem(), <YFix as Zoo>::mem(), <u32 as Zoo>::mem(), <BitVector<U1024> as Zoo>::mem(), <U256 as Zoo>::mem(), <u32 as Zoo>::mem(), <Vec<S22> as Zoo>::mem(), <FixedBytes<4> as Zoo>::mem(), <BitVector<U64> as Zoo>::mem(), <u64 as Zoo>::mem(), <S35 as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BitVector<U1024> as Zoo>::nofail() || <BitVector<U64> as Zoo>::nofail() || <FixedBytes<4> as Zoo>::nofail() || <S35 as Zoo>::nofail() || <S4 as Zoo>::nofail() || <S5 as Zoo>::nofail() || <U256 as Zoo>::nofail() || <Vec<S22> as Zoo>::nofail() || <YFix as Zoo>::nofail() || <u32 as Zoo>::nofail() || <u64 as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <S4 as ssz::Encode>::ssz_fixed_len() + <S5 as ssz::Encode>::ssz_fixed_len() + <YFix as ssz::Encode>::ssz_fixed_len() + <u32 as ssz::Encode>::ssz_fixed_len() + <BitVector<U1024> as ssz::Encode>::ssz_fixed_len() + <U256 as ssz::Encode>::ssz_fixed_len() + <u32 as ssz::Encode>::ssz_fixed_len() + <Vec<S22> as ssz::Encode>::ssz_fixed_len() + <FixedBytes<4> as ssz::Encode>::ssz_fixed_len() + <BitVector<U64> as ssz::Encode>::ssz_fixed_len() + <u64 as ssz::Encode>::ssz_fixed_len() + <S35 as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        field(&mut e, &self.f6, style.wrapping_add(6));
        field(&mut e, &self.f7, style.wrapping_add(7));
        field(&mut e, &self.f8, style.wrapping_add(8));
        field(&mut e, &self.f9, style.wrapping_add(9));
        field(&mut e, &self.f10, style.wrapping_add(10));
        field(&mut e, &self.f11, style.wrapping_add(11));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S39 {
    pub f0: (u64, [u8; 4], bool),
    pub f1: u16,
    pub f2: u8,
    pub f3: FixedBytes<4>,
    pub f4: Vec<BitVector<U12>>,
    pub f5: S10,
    pub f6: FixedBytes<96>,
    pub f7: u64,
    pub f8: Vec<S7>,
    pub f9: Bloom,
    pub f10: usize,
    pub f11: Vec<FixedBytes<32>>,
}
impl Zoo for S39 {
    fn gen(g: &mut Gen) -> Self {
        S39 { f0: <(u64, [u8; 4], bool) as Zoo>::gen(g), f1: <u16 as Zoo>::gen(g), f2: <u8 as Zoo>::gen(g), f3: <FixedBytes<4> as Zoo>::gen(g), f4: <Vec<BitVector<U12>> as Zoo>::gen(g), f5: <S10 as Zoo>::gen(g), f6: <FixedBytes<96> as Zoo>::gen(g), f7: <u64 as Zoo>::gen(g), f8: <Vec<S7> as Zoo>::gen(g), f9: <Bloom as Zoo>::gen(g), f10: <usize as Zoo>::gen(g), f11: <Vec<FixedBytes<32>> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<(u64, [u8; 4], bool) as Zoo>::mem(), <u16 as Zoo>::mem(), <u8 as Zoo>::mem(), <FixedBytes<4> as Zoo>::mem(), <Vec<BitVector<U12>> as Zoo>::mem(), <S10 as Zoo>::mem(), <FixedBytes<96> as Zoo>::mem(), <u64 as Zoo>::mem(), <Vec<S7> as Zoo>::mem(), <Bloom as Zoo>::mem(), <usize as Zoo>::mem(), <Vec<FixedBytes<32>> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <(u64, [u8; 4], bool) as Zoo>::nofail() || <Bloom as Zoo>::nofail() || <FixedBytes<4> as Zoo>::nofail() || <FixedBytes<96> as Zoo>::nofail() || <S10 as Zoo>::nofail() || <Vec<BitVector<U12>> as Zoo>::nofail() || <Vec<FixedBytes<32>> as Zoo>::nofail() || <Vec<S7> as Zoo>::nofail() || <u16 as Zoo>::nofail() || <u64 as Zoo>::nofail() || <u8 as Zoo>::nofail() || <usize as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <(u64, [u8; 4], bool) as ssz::Encode>::ssz_fixed_len() + <u16 as ssz::Encode>::ssz_fixed_len() + <u8 as ssz::Encode>::ssz_fixed_len() + <FixedBytes<4> as ssz::Encode>::ssz_fixed_len() + <Vec<BitVector<U12>> as ssz::Encode>::ssz_fixed_len() + <S10 as ssz::Encode>::ssz_fixed_len() + <FixedBytes<96> as ssz::Encode>::ssz_fixed_len() + <u64 as ssz::Encode>::ssz_fixed_len() + <Vec<S7> as ssz::Encode>::ssz_fixed_len() + <Bloom as ssz::Encode>::ssz_fixed_len() + <usize as ssz::Encode>::ssz_fixed_len() + <Vec<FixedBytes<32>> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        field(&mut e, &self.f6, style.wrapping_add(6));
        field(&mut e, &self.f7, style.wrapping_add(7));
        field(&mut e, &self.f8, style.wrapping_add(8));
        field(&mut e, &self.f9, style.wrapping_add(9));
        field(&mut e, &self.f10, style.wrapping_add(10));
        field(&mut e, &self.f11, style.wrapping_add(11));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S40 {
    pub f0: Bloom,
    pub f1: FixedBytes<96>,
    pub f2: (u8, u16),
    pub f3: u8,
    pub f4: u128,
    pub f5: [u8; 4],
    pub f6: S11,
    pub f7: u128,
    pub f8: bool,
    pub f9: BitVector<U12>,
    pub f10: U128,
    pub f11: YFix,
    pub f12: FixedBytes<1>,
    pub f13: S34,
    pub f14: Arc<[u8; 32]>,
    pub f15: FixedBytes<32>,
}
impl Zoo for S40 {
    fn gen(g: &mut Gen) -> Self {
        S40 { f0: <Bloom as Zoo>::gen(g), f1: <FixedBytes<96> as Zoo>::gen(g), f2: <(u8, u16) as Zoo>::gen(g), f3: <u8 as Zoo>::gen(g), f4: <u128 as Zoo>::gen(g), f5: <[u8; 4] as Zoo>::gen(g), f6: <S11 as Zoo>::gen(g), f7: <u128 as Zoo>::gen(g), f8: <bool as Zoo>::gen(g), f9: <BitVector<U12> as Zoo>::gen(g), f10: <U128 as Zoo>::gen(g), f11: <YFix as Zoo>::gen(g), f12: <FixedBytes<1> as Zoo>::gen(g), f13: <S34 as Zoo>::gen(g), f14: <Arc<[u8; 32]> as Zoo>::gen(g), f15: <FixedBytes<32> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Bloom as Zoo>::mem(), <FixedBytes<96> as Zoo>::mem(), <(u8, u16) as Zoo>::mem(), <u8 as Zoo>::mem(), <u128 as Zoo>::mem(), <[u8; 4] as Zoo>::mem(), <S11 as Zoo>::mem(), <u128 as Zoo>::mem(), <bool as Zoo>::mem(), <BitVector<U12> as Zoo>::mem(), <U128 as Zoo>::mem(), <YFix as Zoo>::mem(), <FixedBytes<1> as Zoo>::mem(), <S34 as Zoo>::mem(), <Arc<[u8; 32]> as Zoo>::mem(), <FixedBytes<32> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <(u8, u16) as Zoo>::nofail() || <Arc<[u8; 32]> as Zoo>::nofail() || <BitVector<U12> as Zoo>::nofail() || <Bloom as Zoo>::nofail() || <FixedBytes<1> as Zoo>::nofail() || <FixedBytes<32> as Zoo>::nofail() || <FixedBytes<96> as Zoo>::nofail() || <S11 as Zoo>::nofail() || <S34 as Zoo>::nofail() || <U128 as Zoo>::nofail() || <YFix as Zoo>::nofail() || <[u8; 4] as Zoo>::nofail() || <bool as Zoo>::nofail() || <u128 as Zoo>::nofail() || <u8 as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <Bloom as ssz::Encode>::ssz_fixed_len() + <FixedBytes<96> as ssz::Encode>::ssz_fixed_len() + <(u8, u16) as ssz::Encode>::ssz_fixed_len() + <u8 as ssz::Encode>::ssz_fixed_len() + <u128 as ssz::Encode>::ssz_fixed_len() + <[u8; 4] as ssz::Encode>::ssz_fixed_len() + <S11 as ssz::Encode>::ssz_fixed_len() + <u128 as ssz::Encode>::ssz_fixed_len() + <bool as ssz::Encode>::ssz_fixed_len() + <BitVector<U12> as ssz::Encode>::ssz_fixed_len() + <U128 as ssz::Encode>::ssz_fixed_len() + <YFix as ssz::Encode>::ssz_fixed_len() + <FixedBytes<1> as ssz::Encode>::ssz_fixed_len() + <S34 as ssz::Encode>::ssz_fixed_len() + <Arc<[u8; 32]> as ssz::Encode>::ssz_fixed_len() + <FixedBytes<32> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        field(&mut e, &self.f6, style.wrapping_add(6));
        field(&mut e, &self.f7, style.wrapping_add(7));
        field(&mut e, &self.f8, style.wrapping_add(8));
        field(&mut e, &self.f9, style.wrapping_add(9));
        field(&mut e, &self.f10, style.wrapping_add(10));
        field(&mut e, &self.f11, style.wrapping_add(11));
        field(&mut e, &self.f12, style.wrapping_add(12));
        field(&mut e, &self.f13, style.wrapping_add(13));
        field(&mut e, &self.f14, style.wrapping_add(14));
        field(&mut e, &self.f15, style.wrapping_add(15));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct S41 {
    pub f0: Vec<FixedBytes<32>>,
    pub f1: (u64, [u8; 4], bool),
    pub f2: S28,
    pub f3: (u16, Vec<u8>),
    pub f4: BTreeSet<u16>,
    pub f5: Bytes,
    pub f6: Vec<S18>,
    pub f7: usize,
    pub f8: Vec<YItem>,
    pub f9: Vec<Vec<u16>>,
    pub f10: FixedBytes<96>,
    pub f11: FixedBytes<96>,
    pub f12: BitVector<U1024>,
    pub f13: FixedBytes<96>,
    pub f14: [u8; 33],
    pub f15: YItem,
}
impl Zoo for S41 {
    fn gen(g: &mut Gen) -> Self {
        S41 { f0: <Vec<FixedBytes<32>> as Zoo>::gen(g), f1: <(u64, [u8; 4], bool) as Zoo>::gen(g), f2: <S28 as Zoo>::gen(g), f3: <(u16, Vec<u8>) as Zoo>::gen(g), f4: <BTreeSet<u16> as Zoo>::gen(g), f5: <Bytes as Zoo>::gen(g), f6: <Vec<S18> as Zoo>::gen(g), f7: <usize as Zoo>::gen(g), f8: <Vec<YItem> as Zoo>::gen(g), f9: <Vec<Vec<u16>> as Zoo>::gen(g), f10: <FixedBytes<96> as Zoo>::gen(g), f11: <FixedBytes<96> as Zoo>::gen(g), f12: <BitVector<U1024> as Zoo>::gen(g), f13: <FixedBytes<96> as Zoo>::gen(g), f14: <[u8; 33] as Zoo>::gen(g), f15: <YItem as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Vec<FixedBytes<32>> as Zoo>::mem(), <(u64, [u8; 4], bool) as Zoo>::mem(), <S28 as Zoo>::mem(), <(u16, Vec<u8>) as Zoo>::mem(), <BTreeSet<u16> as Zoo>::mem(), <Bytes as Zoo>::mem(), <Vec<S18> as Zoo>::mem(), <usize as Zoo>::mem(), <Vec<YItem> as Zoo>::mem(), <Vec<Vec<u16>> as Zoo>::mem(), <FixedBytes<96> as Zoo>::mem(), <FixedBytes<96> as Zoo>::mem(), <BitVector<U1024> as Zoo>::mem(), <FixedBytes<96> as Zoo>::mem(), <[u8; 33] as Zoo>::mem(), <YItem as Zoo>::mem()]) }
    fn nofail() -> bool { false || <(u16, Vec<u8>) as Zoo>::nofail() || <(u64, [u8; 4], bool) as Zoo>::nofail() || <BTreeSet<u16> as Zoo>::nofail() || <BitVector<U1024> as Zoo>::nofail() || <Bytes as Zoo>::nofail() || <FixedBytes<96> as Zoo>::nofail() || <S28 as Zoo>::nofail() || <Vec<FixedBytes<32>> as Zoo>::nofail() || <Vec<S18> as Zoo>::nofail() || <Vec<Vec<u16>> as Zoo>::nofail() || <Vec<YItem> as Zoo>::nofail() || <YItem as Zoo>::nofail() || <[u8; 33] as Zoo>::nofail() || <usize as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <Vec<FixedBytes<32>> as ssz::Encode>::ssz_fixed_len() + <(u64, [u8; 4], bool) as ssz::Encode>::ssz_fixed_len() + <S28 as ssz::Encode>::ssz_fixed_len() + <(u16, Vec<u8>) as ssz::Encode>::ssz_fixed_len() + <BTreeSet<u16> as ssz::Encode>::ssz_fixed_len() + <Bytes as ssz::Encode>::ssz_fixed_len() + <Vec<S18> as ssz::Encode>::ssz_fixed_len() + <usize as ssz::Encode>::ssz_fixed_len() + <Vec<YItem> as ssz::Encode>::ssz_fixed_len() + <Vec<Vec<u16>> as ssz::Encode>::ssz_fixed_len() + <FixedBytes<96> as ssz::Encode>::ssz_fixed_len() + <FixedBytes<96> as ssz::Encode>::ssz_fixed_len() + <BitVector<U1024> as ssz::Encode>::ssz_fixed_len() + <FixedBytes<96> as ssz::Encode>::ssz_fixed_len() + <[u8; 33] as ssz::Encode>::ssz_fixed_len() + <YItem as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        field(&mut e, &self.f6, style.wrapping_add(6));
        field(&mut e, &self.f7, style.wrapping_add(7));
        field(&mut e, &self.f8, style.wrapping_add(8));
        field(&mut e, &self.f9, style.wrapping_add(9));
        field(&mut e, &self.f10, style.wrapping_add(10));
        field(&mut e, &self.f11, style.wrapping_add(11));
        field(&mut e, &self.f12, style.wrapping_add(12));
        field(&mut e, &self.f13, style.wrapping_add(13));
        field(&mut e, &self.f14, style.wrapping_add(14));
        field(&mut e, &self.f15, style.wrapping_add(15));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct L0 {
    pub f0: usize,
    pub f1: Vec<YItem>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f2: u8,
    #[ssz(with = "leg_vec")]
    pub f3: Option<VecU8>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f4: u8,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f5: Vec<u8>,
    pub f6: SmallVec<[u64; 4]>,
}
impl Zoo for L0 {
    fn gen(g: &mut Gen) -> Self {
        L0 { f0: <usize as Zoo>::gen(g), f1: <Vec<YItem> as Zoo>::gen(g), f2: Default::default(), f3: <Option<VecU8> as Zoo>::gen(g), f4: Default::default(), f5: Default::default(), f6: <SmallVec<[u64; 4]> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<usize as Zoo>::mem(), <Vec<YItem> as Zoo>::mem(), <Option<VecU8> as Zoo>::mem(), <SmallVec<[u64; 4]> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Option<VecU8> as Zoo>::nofail() || <SmallVec<[u64; 4]> as Zoo>::nofail() || <Vec<YItem> as Zoo>::nofail() || <usize as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <usize as ssz::Encode>::ssz_fixed_len() + <Vec<YItem> as ssz::Encode>::ssz_fixed_len() + leg_vec::encode::ssz_fixed_len() + <SmallVec<[u64; 4]> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        e.append_parameterized(leg_vec::encode::is_ssz_fixed_len(), |b| if style % 2 == 0 { leg_vec::encode::ssz_append(&self.f3, b) } else { b.extend_from_slice(&leg_vec::encode::as_ssz_bytes(&self.f3)) });
        field(&mut e, &self.f6, style.wrapping_add(6));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct L1 {
    #[ssz(skip_serializing, skip_deserializing)]
    pub f0: u64,
    pub f1: Arc<u32>,
    pub f2: [u8; 4],
    pub f3: u128,
}
impl Zoo for L1 {
    fn gen(g: &mut Gen) -> Self {
        L1 { f0: Default::default(), f1: <Arc<u32> as Zoo>::gen(g), f2: <[u8; 4] as Zoo>::gen(g), f3: <u128 as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Arc<u32> as Zoo>::mem(), <[u8; 4] as Zoo>::mem(), <u128 as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Arc<u32> as Zoo>::nofail() || <[u8; 4] as Zoo>::nofail() || <u128 as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <Arc<u32> as ssz::Encode>::ssz_fixed_len() + <[u8; 4] as ssz::Encode>::ssz_fixed_len() + <u128 as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct L2 {
    #[ssz(with = "leg_u16")]
    pub f0: Option<u16>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f1: u64,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f2: Vec<u8>,
    pub f3: Vec<Vec<u16>>,
}
impl Zoo for L2 {
    fn gen(g: &mut Gen) -> Self {
        L2 { f0: <Option<u16> as Zoo>::gen(g), f1: Default::default(), f2: Default::default(), f3: <Vec<Vec<u16>> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Option<u16> as Zoo>::mem(), <Vec<Vec<u16>> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <Option<u16> as Zoo>::nofail() || <Vec<Vec<u16>> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = leg_u16::encode::ssz_fixed_len() + <Vec<Vec<u16>> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        e.append_parameterized(leg_u16::encode::is_ssz_fixed_len(), |b| if style % 2 == 0 { leg_u16::encode::ssz_append(&self.f0, b) } else { b.extend_from_slice(&leg_u16::encode::as_ssz_bytes(&self.f0)) });
        field(&mut e, &self.f3, style.wrapping_add(3));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct L3 {
    #[ssz(with = "leg_u16")]
    pub f0: Option<u16>,
    #[ssz(with = "leg_u16")]
    pub f1: Option<u16>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f2: Vec<u8>,
    #[ssz(with = "leg_u64")]
    pub f3: Option<u64>,
    pub f4: BitVector<U12>,
}
impl Zoo for L3 {
    fn gen(g: &mut Gen) -> Self {
        L3 { f0: <Option<u16> as Zoo>::gen(g), f1: <Option<u16> as Zoo>::gen(g), f2: Default::default(), f3: <Option<u64> as Zoo>::gen(g), f4: <BitVector<U12> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Option<u16> as Zoo>::mem(), <Option<u16> as Zoo>::mem(), <Option<u64> as Zoo>::mem(), <BitVector<U12> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BitVector<U12> as Zoo>::nofail() || <Option<u16> as Zoo>::nofail() || <Option<u64> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = leg_u16::encode::ssz_fixed_len() + leg_u16::encode::ssz_fixed_len() + leg_u64::encode::ssz_fixed_len() + <BitVector<U12> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        e.append_parameterized(leg_u16::encode::is_ssz_fixed_len(), |b| if style % 2 == 0 { leg_u16::encode::ssz_append(&self.f0, b) } else { b.extend_from_slice(&leg_u16::encode::as_ssz_bytes(&self.f0)) });
        e.append_parameterized(leg_u16::encode::is_ssz_fixed_len(), |b| if style % 2 == 0 { leg_u16::encode::ssz_append(&self.f1, b) } else { b.extend_from_slice(&leg_u16::encode::as_ssz_bytes(&self.f1)) });
        e.append_parameterized(leg_u64::encode::is_ssz_fixed_len(), |b| if style % 2 == 0 { leg_u64::encode::ssz_append(&self.f3, b) } else { b.extend_from_slice(&leg_u64::encode::as_ssz_bytes(&self.f3)) });
        field(&mut e, &self.f4, style.wrapping_add(4));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct L4 {
    pub f0: [u8; 33],
    pub f1: FixedBytes<32>,
    #[ssz(with = "leg_vec")]
    pub f2: Option<VecU8>,
    pub f3: BitVector<U1024>,
}
impl Zoo for L4 {
    fn gen(g: &mut Gen) -> Self {
        L4 { f0: <[u8; 33] as Zoo>::gen(g), f1: <FixedBytes<32> as Zoo>::gen(g), f2: <Option<VecU8> as Zoo>::gen(g), f3: <BitVector<U1024> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<[u8; 33] as Zoo>::mem(), <FixedBytes<32> as Zoo>::mem(), <Option<VecU8> as Zoo>::mem(), <BitVector<U1024> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BitVector<U1024> as Zoo>::nofail() || <FixedBytes<32> as Zoo>::nofail() || <Option<VecU8> as Zoo>::nofail() || <[u8; 33] as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <[u8; 33] as ssz::Encode>::ssz_fixed_len() + <FixedBytes<32> as ssz::Encode>::ssz_fixed_len() + leg_vec::encode::ssz_fixed_len() + <BitVector<U1024> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        e.append_parameterized(leg_vec::encode::is_ssz_fixed_len(), |b| if style % 2 == 0 { leg_vec::encode::ssz_append(&self.f2, b) } else { b.extend_from_slice(&leg_vec::encode::as_ssz_bytes(&self.f2)) });
        field(&mut e, &self.f3, style.wrapping_add(3));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct L5 {
    pub f0: Vec<(u8, Vec<u8>)>,
    pub f1: BitVector<U1024>,
    pub f2: u16,
    #[ssz(with = "leg_vv")]
    pub f3: Option<VecVec>,
    #[ssz(with = "leg_u16")]
    pub f4: Option<u16>,
    pub f5: FixedBytes<48>,
}
impl Zoo for L5 {
    fn gen(g: &mut Gen) -> Self {
        L5 { f0: <Vec<(u8, Vec<u8>)> as Zoo>::gen(g), f1: <BitVector<U1024> as Zoo>::gen(g), f2: <u16 as Zoo>::gen(g), f3: <Option<VecVec> as Zoo>::gen(g), f4: <Option<u16> as Zoo>::gen(g), f5: <FixedBytes<48> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Vec<(u8, Vec<u8>)> as Zoo>::mem(), <BitVector<U1024> as Zoo>::mem(), <u16 as Zoo>::mem(), <Option<VecVec> as Zoo>::mem(), <Option<u16> as Zoo>::mem(), <FixedBytes<48> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BitVector<U1024> as Zoo>::nofail() || <FixedBytes<48> as Zoo>::nofail() || <Option<VecVec> as Zoo>::nofail() || <Option<u16> as Zoo>::nofail() || <Vec<(u8, Vec<u8>)> as Zoo>::nofail() || <u16 as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <Vec<(u8, Vec<u8>)> as ssz::Encode>::ssz_fixed_len() + <BitVector<U1024> as ssz::Encode>::ssz_fixed_len() + <u16 as ssz::Encode>::ssz_fixed_len() + leg_vv::encode::ssz_fixed_len() + leg_u16::encode::ssz_fixed_len() + <FixedBytes<48> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        field(&mut e, &self.f2, style.wrapping_add(2));
        e.append_parameterized(leg_vv::encode::is_ssz_fixed_len(), |b| if style % 2 == 0 { leg_vv::encode::ssz_append(&self.f3, b) } else { b.extend_from_slice(&leg_vv::encode::as_ssz_bytes(&self.f3)) });
        e.append_parameterized(leg_u16::encode::is_ssz_fixed_len(), |b| if style % 2 == 0 { leg_u16::encode::ssz_append(&self.f4, b) } else { b.extend_from_slice(&leg_u16::encode::as_ssz_bytes(&self.f4)) });
        field(&mut e, &self.f5, style.wrapping_add(5));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct L6 {
    #[ssz(with = "leg_vec")]
    pub f0: Option<VecU8>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f1: u8,
    pub f2: BTreeSet<Vec<u8>>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f3: u8,
    pub f4: BTreeMap<u8, u16>,
}
impl Zoo for L6 {
    fn gen(g: &mut Gen) -> Self {
        L6 { f0: <Option<VecU8> as Zoo>::gen(g), f1: Default::default(), f2: <BTreeSet<Vec<u8>> as Zoo>::gen(g), f3: Default::default(), f4: <BTreeMap<u8, u16> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Option<VecU8> as Zoo>::mem(), <BTreeSet<Vec<u8>> as Zoo>::mem(), <BTreeMap<u8, u16> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <BTreeMap<u8, u16> as Zoo>::nofail() || <BTreeSet<Vec<u8>> as Zoo>::nofail() || <Option<VecU8> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = leg_vec::encode::ssz_fixed_len() + <BTreeSet<Vec<u8>> as ssz::Encode>::ssz_fixed_len() + <BTreeMap<u8, u16> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        e.append_parameterized(leg_vec::encode::is_ssz_fixed_len(), |b| if style % 2 == 0 { leg_vec::encode::ssz_append(&self.f0, b) } else { b.extend_from_slice(&leg_vec::encode::as_ssz_bytes(&self.f0)) });
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f4, style.wrapping_add(4));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct L7 {
    pub f0: (Vec<u8>, u16, Vec<u16>),
    #[ssz(with = "leg_vec")]
    pub f1: Option<VecU8>,
    pub f2: BTreeSet<u16>,
    #[ssz(with = "leg_u16")]
    pub f3: Option<u16>,
    pub f4: [u8; 4],
}
impl Zoo for L7 {
    fn gen(g: &mut Gen) -> Self {
        L7 { f0: <(Vec<u8>, u16, Vec<u16>) as Zoo>::gen(g), f1: <Option<VecU8> as Zoo>::gen(g), f2: <BTreeSet<u16> as Zoo>::gen(g), f3: <Option<u16> as Zoo>::gen(g), f4: <[u8; 4] as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<(Vec<u8>, u16, Vec<u16>) as Zoo>::mem(), <Option<VecU8> as Zoo>::mem(), <BTreeSet<u16> as Zoo>::mem(), <Option<u16> as Zoo>::mem(), <[u8; 4] as Zoo>::mem()]) }
    fn nofail() -> bool { false || <(Vec<u8>, u16, Vec<u16>) as Zoo>::nofail() || <BTreeSet<u16> as Zoo>::nofail() || <Option<VecU8> as Zoo>::nofail() || <Option<u16> as Zoo>::nofail() || <[u8; 4] as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <(Vec<u8>, u16, Vec<u16>) as ssz::Encode>::ssz_fixed_len() + leg_vec::encode::ssz_fixed_len() + <BTreeSet<u16> as ssz::Encode>::ssz_fixed_len() + leg_u16::encode::ssz_fixed_len() + <[u8; 4] as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        e.append_parameterized(leg_vec::encode::is_ssz_fixed_len(), |b| if style % 2 == 0 { leg_vec::encode::ssz_append(&self.f1, b) } else { b.extend_from_slice(&leg_vec::encode::as_ssz_bytes(&self.f1)) });
        field(&mut e, &self.f2, style.wrapping_add(2));
        e.append_parameterized(leg_u16::encode::is_ssz_fixed_len(), |b| if style % 2 == 0 { leg_u16::encode::ssz_append(&self.f3, b) } else { b.extend_from_slice(&leg_u16::encode::as_ssz_bytes(&self.f3)) });
        field(&mut e, &self.f4, style.wrapping_add(4));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct L8 {
    pub f0: Vec<YFix>,
    pub f1: (u16, Vec<u8>),
    #[ssz(with = "leg_u64")]
    pub f2: Option<u64>,
    pub f3: Vec<Arc<u64>>,
}
impl Zoo for L8 {
    fn gen(g: &mut Gen) -> Self {
        L8 { f0: <Vec<YFix> as Zoo>::gen(g), f1: <(u16, Vec<u8>) as Zoo>::gen(g), f2: <Option<u64> as Zoo>::gen(g), f3: <Vec<Arc<u64>> as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Vec<YFix> as Zoo>::mem(), <(u16, Vec<u8>) as Zoo>::mem(), <Option<u64> as Zoo>::mem(), <Vec<Arc<u64>> as Zoo>::mem()]) }
    fn nofail() -> bool { false || <(u16, Vec<u8>) as Zoo>::nofail() || <Option<u64> as Zoo>::nofail() || <Vec<Arc<u64>> as Zoo>::nofail() || <Vec<YFix> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = <Vec<YFix> as ssz::Encode>::ssz_fixed_len() + <(u16, Vec<u8>) as ssz::Encode>::ssz_fixed_len() + leg_u64::encode::ssz_fixed_len() + <Vec<Arc<u64>> as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.f0, style.wrapping_add(0));
        field(&mut e, &self.f1, style.wrapping_add(1));
        e.append_parameterized(leg_u64::encode::is_ssz_fixed_len(), |b| if style % 2 == 0 { leg_u64::encode::ssz_append(&self.f2, b) } else { b.extend_from_slice(&leg_u64::encode::as_ssz_bytes(&self.f2)) });
        field(&mut e, &self.f3, style.wrapping_add(3));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct L9 {
    #[ssz(with = "leg_vec")]
    pub f0: Option<VecU8>,
    #[ssz(with = "leg_vv")]
    pub f1: Option<VecVec>,
    pub f2: Vec<u64>,
    pub f3: FixedBytes<1>,
    pub f4: U256,
    pub f5: (u8, u16),
}
impl Zoo for L9 {
    fn gen(g: &mut Gen) -> Self {
        L9 { f0: <Option<VecU8> as Zoo>::gen(g), f1: <Option<VecVec> as Zoo>::gen(g), f2: <Vec<u64> as Zoo>::gen(g), f3: <FixedBytes<1> as Zoo>::gen(g), f4: <U256 as Zoo>::gen(g), f5: <(u8, u16) as Zoo>::gen(g) }
    }
    fn mem() -> Mem { fields_mem(&[<Option<VecU8> as Zoo>::mem(), <Option<VecVec> as Zoo>::mem(), <Vec<u64> as Zoo>::mem(), <FixedBytes<1> as Zoo>::mem(), <U256 as Zoo>::mem(), <(u8, u16) as Zoo>::mem()]) }
    fn nofail() -> bool { false || <(u8, u16) as Zoo>::nofail() || <FixedBytes<1> as Zoo>::nofail() || <Option<VecU8> as Zoo>::nofail() || <Option<VecVec> as Zoo>::nofail() || <U256 as Zoo>::nofail() || <Vec<u64> as Zoo>::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = leg_vec::encode::ssz_fixed_len() + leg_vv::encode::ssz_fixed_len() + <Vec<u64> as ssz::Encode>::ssz_fixed_len() + <FixedBytes<1> as ssz::Encode>::ssz_fixed_len() + <U256 as ssz::Encode>::ssz_fixed_len() + <(u8, u16) as ssz::Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        e.append_parameterized(leg_vec::encode::is_ssz_fixed_len(), |b| if style % 2 == 0 { leg_vec::encode::ssz_append(&self.f0, b) } else { b.extend_from_slice(&leg_vec::encode::as_ssz_bytes(&self.f0)) });
        e.append_parameterized(leg_vv::encode::is_ssz_fixed_len(), |b| if style % 2 == 0 { leg_vv::encode::ssz_append(&self.f1, b) } else { b.extend_from_slice(&leg_vv::encode::as_ssz_bytes(&self.f1)) });
        field(&mut e, &self.f2, style.wrapping_add(2));
        field(&mut e, &self.f3, style.wrapping_add(3));
        field(&mut e, &self.f4, style.wrapping_add(4));
        field(&mut e, &self.f5, style.wrapping_add(5));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct Wrap<T: ssz::Encode + ssz::Decode> { pub a: u16, pub t: T, pub c: Vec<u8> }
impl<T: Zoo> Zoo for Wrap<T> {
    fn gen(g: &mut Gen) -> Self { Wrap { a: u16::gen(g), t: T::gen(g), c: <Vec<u8>>::gen(g) } }
    fn mem() -> Mem { fields_mem(&[T::mem(), <Vec<u8>>::mem()]) }
    fn nofail() -> bool { T::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = 2 + <T as ssz::Encode>::ssz_fixed_len() + 4;
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.a, style);
        field(&mut e, &self.t, style.wrapping_add(1));
        field(&mut e, &self.c, style.wrapping_add(2));
        e.finalize();
        true
    }
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct T0 { pub x: u16 }
impl Zoo for T0 { fn gen(g: &mut Gen) -> Self { T0 { x: <u16 as Zoo>::gen(g) } } fn mem() -> Mem { <u16 as Zoo>::mem() } fn nofail() -> bool { <u16 as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct T1(pub Vec<u8>);
impl Zoo for T1 { fn gen(g: &mut Gen) -> Self { T1(<Vec<u8> as Zoo>::gen(g)) } fn mem() -> Mem { <Vec<u8> as Zoo>::mem() } fn nofail() -> bool { <Vec<u8> as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct T2(#[ssz(skip_serializing, skip_deserializing)] pub u8, pub Vec<Vec<u8>>);
impl Zoo for T2 { fn gen(g: &mut Gen) -> Self { T2(0, <Vec<Vec<u8>> as Zoo>::gen(g)) } fn mem() -> Mem { <Vec<Vec<u8>> as Zoo>::mem() } fn nofail() -> bool { <Vec<Vec<u8>> as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct T3 { pub x: S3 }
impl Zoo for T3 { fn gen(g: &mut Gen) -> Self { T3 { x: <S3 as Zoo>::gen(g) } } fn mem() -> Mem { <S3 as Zoo>::mem() } fn nofail() -> bool { <S3 as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct T4(pub BitList<U8>);
impl Zoo for T4 { fn gen(g: &mut Gen) -> Self { T4(<BitList<U8> as Zoo>::gen(g)) } fn mem() -> Mem { <BitList<U8> as Zoo>::mem() } fn nofail() -> bool { <BitList<U8> as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct T5(#[ssz(skip_serializing, skip_deserializing)] pub u8, pub Option<u16>);
impl Zoo for T5 { fn gen(g: &mut Gen) -> Self { T5(0, <Option<u16> as Zoo>::gen(g)) } fn mem() -> Mem { <Option<u16> as Zoo>::mem() } fn nofail() -> bool { <Option<u16> as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct T6 { pub x: YItem }
impl Zoo for T6 { fn gen(g: &mut Gen) -> Self { T6 { x: <YItem as Zoo>::gen(g) } } fn mem() -> Mem { <YItem as Zoo>::mem() } fn nofail() -> bool { <YItem as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct T7(pub (u8, Vec<u8>));
impl Zoo for T7 { fn gen(g: &mut Gen) -> Self { T7(<(u8, Vec<u8>) as Zoo>::gen(g)) } fn mem() -> Mem { <(u8, Vec<u8>) as Zoo>::mem() } fn nofail() -> bool { <(u8, Vec<u8>) as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct T8(#[ssz(skip_serializing, skip_deserializing)] pub u8, pub FixedBytes<32>);
impl Zoo for T8 { fn gen(g: &mut Gen) -> Self { T8(0, <FixedBytes<32> as Zoo>::gen(g)) } fn mem() -> Mem { <FixedBytes<32> as Zoo>::mem() } fn nofail() -> bool { <FixedBytes<32> as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct T9 { pub x: Bytes }
impl Zoo for T9 { fn gen(g: &mut Gen) -> Self { T9 { x: <Bytes as Zoo>::gen(g) } } fn mem() -> Mem { <Bytes as Zoo>::mem() } fn nofail() -> bool { <Bytes as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum U0x { V0(Arc<Vec<Vec<u8>>>) }
impl Zoo for U0x { fn gen(g: &mut Gen) -> Self { g.take(1); match g.r.below(1) { 0 => U0x::V0(<Arc<Vec<Vec<u8>>> as Zoo>::gen(g)), _ => unreachable!() } } fn mem() -> Mem { union_mem(&[<Arc<Vec<Vec<u8>>> as Zoo>::mem()]) } fn nofail() -> bool { false || <Arc<Vec<Vec<u8>>> as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum U1x { V0(Vec<Arc<u64>>), V1(BitVectorDynamic) }
impl Zoo for U1x { fn gen(g: &mut Gen) -> Self { g.take(1); match g.r.below(2) { 0 => U1x::V0(<Vec<Arc<u64>> as Zoo>::gen(g)), 1 => U1x::V1(<BitVectorDynamic as Zoo>::gen(g)), _ => unreachable!() } } fn mem() -> Mem { union_mem(&[<BitVectorDynamic as Zoo>::mem(), <Vec<Arc<u64>> as Zoo>::mem()]) } fn nofail() -> bool { false || <BitVectorDynamic as Zoo>::nofail() || <Vec<Arc<u64>> as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum U2x { V0(Arc<[u8; 32]>), V1((u16, Vec<u8>)), V2(u8) }
impl Zoo for U2x { fn gen(g: &mut Gen) -> Self { g.take(1); match g.r.below(3) { 0 => U2x::V0(<Arc<[u8; 32]> as Zoo>::gen(g)), 1 => U2x::V1(<(u16, Vec<u8>) as Zoo>::gen(g)), 2 => U2x::V2(<u8 as Zoo>::gen(g)), _ => unreachable!() } } fn mem() -> Mem { union_mem(&[<(u16, Vec<u8>) as Zoo>::mem(), <Arc<[u8; 32]> as Zoo>::mem(), <u8 as Zoo>::mem()]) } fn nofail() -> bool { false || <(u16, Vec<u8>) as Zoo>::nofail() || <Arc<[u8; 32]> as Zoo>::nofail() || <u8 as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum U3x { V0(Arc<u32>), V1(SmallVec<[u64; 4]>), V2(Vec<U256>), V3(Arc<Vec<u8>>) }
impl Zoo for U3x { fn gen(g: &mut Gen) -> Self { g.take(1); match g.r.below(4) { 0 => U3x::V0(<Arc<u32> as Zoo>::gen(g)), 1 => U3x::V1(<SmallVec<[u64; 4]> as Zoo>::gen(g)), 2 => U3x::V2(<Vec<U256> as Zoo>::gen(g)), 3 => U3x::V3(<Arc<Vec<u8>> as Zoo>::gen(g)), _ => unreachable!() } } fn mem() -> Mem { union_mem(&[<Arc<Vec<u8>> as Zoo>::mem(), <Arc<u32> as Zoo>::mem(), <SmallVec<[u64; 4]> as Zoo>::mem(), <Vec<U256> as Zoo>::mem()]) } fn nofail() -> bool { false || <Arc<Vec<u8>> as Zoo>::nofail() || <Arc<u32> as Zoo>::nofail() || <SmallVec<[u64; 4]> as Zoo>::nofail() || <Vec<U256> as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum U4x { V0(Option<Arc<Vec<u8>>>), V1(FixedBytes<48>), V2(BTreeMap<u16, Vec<u8>>), V3(Arc<Vec<Vec<u8>>>), V4(BitList<U8>), V5(Option<Arc<Vec<u8>>>) }
impl Zoo for U4x { fn gen(g: &mut Gen) -> Self { g.take(1); match g.r.below(6) { 0 => U4x::V0(<Option<Arc<Vec<u8>>> as Zoo>::gen(g)), 1 => U4x::V1(<FixedBytes<48> as Zoo>::gen(g)), 2 => U4x::V2(<BTreeMap<u16, Vec<u8>> as Zoo>::gen(g)), 3 => U4x::V3(<Arc<Vec<Vec<u8>>> as Zoo>::gen(g)), 4 => U4x::V4(<BitList<U8> as Zoo>::gen(g)), 5 => U4x::V5(<Option<Arc<Vec<u8>>> as Zoo>::gen(g)), _ => unreachable!() } } fn mem() -> Mem { union_mem(&[<Arc<Vec<Vec<u8>>> as Zoo>::mem(), <BTreeMap<u16, Vec<u8>> as Zoo>::mem(), <BitList<U8> as Zoo>::mem(), <FixedBytes<48> as Zoo>::mem(), <Option<Arc<Vec<u8>>> as Zoo>::mem()]) } fn nofail() -> bool { false || <Arc<Vec<Vec<u8>>> as Zoo>::nofail() || <BTreeMap<u16, Vec<u8>> as Zoo>::nofail() || <BitList<U8> as Zoo>::nofail() || <FixedBytes<48> as Zoo>::nofail() || <Option<Arc<Vec<u8>>> as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum U5x { V0(Arc<u32>), V1(Arc<u32>), V2((Vec<u8>, u16, Vec<u16>)), V3((Vec<u8>, u16, Vec<u16>)), V4(Vec<(u16, u32)>), V5(Vec<(u16, u32)>), V6(Bytes), V7(Arc<Vec<u8>>), V8(U256) }
impl Zoo for U5x { fn gen(g: &mut Gen) -> Self { g.take(1); match g.r.below(9) { 0 => U5x::V0(<Arc<u32> as Zoo>::gen(g)), 1 => U5x::V1(<Arc<u32> as Zoo>::gen(g)), 2 => U5x::V2(<(Vec<u8>, u16, Vec<u16>) as Zoo>::gen(g)), 3 => U5x::V3(<(Vec<u8>, u16, Vec<u16>) as Zoo>::gen(g)), 4 => U5x::V4(<Vec<(u16, u32)> as Zoo>::gen(g)), 5 => U5x::V5(<Vec<(u16, u32)> as Zoo>::gen(g)), 6 => U5x::V6(<Bytes as Zoo>::gen(g)), 7 => U5x::V7(<Arc<Vec<u8>> as Zoo>::gen(g)), 8 => U5x::V8(<U256 as Zoo>::gen(g)), _ => unreachable!() } } fn mem() -> Mem { union_mem(&[<(Vec<u8>, u16, Vec<u16>) as Zoo>::mem(), <Arc<Vec<u8>> as Zoo>::mem(), <Arc<u32> as Zoo>::mem(), <Bytes as Zoo>::mem(), <U256 as Zoo>::mem(), <Vec<(u16, u32)> as Zoo>::mem()]) } fn nofail() -> bool { false || <(Vec<u8>, u16, Vec<u16>) as Zoo>::nofail() || <Arc<Vec<u8>> as Zoo>::nofail() || <Arc<u32> as Zoo>::nofail() || <Bytes as Zoo>::nofail() || <U256 as Zoo>::nofail() || <Vec<(u16, u32)> as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum U6x { V0(u8), V1(Vec<u8>), V2(u64), V3(u64), V4(Vec<u8>), V5(u64), V6(Vec<u8>), V7(Vec<u8>), V8(u64), V9(u64), V10(Vec<u8>), V11(u64), V12(u8), V13(u8), V14(Vec<u8>), V15(Vec<u8>), V16(u8), V17(Vec<u8>), V18(Vec<u8>), V19(u8), V20(u64), V21(Vec<u8>), V22(Vec<u8>), V23(u8), V24(u8), V25(u8), V26(Vec<u8>), V27(Vec<u8>), V28(u8), V29(Vec<u8>), V30(u8), V31(u64), V32(Vec<u8>), V33(Vec<u8>), V34(Vec<u8>), V35(u64), V36(Vec<u8>), V37(Vec<u8>), V38(u8), V39(u64), V40(Vec<u8>), V41(u8), V42(u64), V43(u64), V44(Vec<u8>), V45(u64), V46(u64), V47(u64), V48(u64), V49(Vec<u8>), V50(Vec<u8>), V51(u64), V52(u64), V53(Vec<u8>), V54(u8), V55(u8), V56(u64), V57(Vec<u8>), V58(u64), V59(Vec<u8>), V60(u64), V61(u8), V62(u8), V63(Vec<u8>), V64(u64), V65(u64), V66(Vec<u8>), V67(u64), V68(u8), V69(u64), V70(u8), V71(Vec<u8>), V72(u8), V73(u8), V74(u8), V75(u64), V76(u8), V77(Vec<u8>), V78(u64), V79(u64), V80(Vec<u8>), V81(u8), V82(u8), V83(u8), V84(u8), V85(Vec<u8>), V86(u8), V87(u64), V88(u8), V89(u64), V90(Vec<u8>), V91(u8), V92(u64), V93(u64), V94(Vec<u8>), V95(Vec<u8>), V96(u64), V97(u8), V98(u64), V99(Vec<u8>), V100(u64), V101(u64), V102(Vec<u8>), V103(u64), V104(Vec<u8>), V105(u8), V106(u8), V107(u8), V108(Vec<u8>), V109(Vec<u8>), V110(u64), V111(Vec<u8>), V112(u8), V113(u8), V114(Vec<u8>), V115(u8), V116(Vec<u8>), V117(u8), V118(u8), V119(u8), V120(u64), V121(u8), V122(u64), V123(Vec<u8>), V124(u64), V125(u8), V126(u8), V127(u8) }
impl Zoo for U6x { fn gen(g: &mut Gen) -> Self { g.take(1); match g.r.below(128) { 0 => U6x::V0(<u8 as Zoo>::gen(g)), 1 => U6x::V1(<Vec<u8> as Zoo>::gen(g)), 2 => U6x::V2(<u64 as Zoo>::gen(g)), 3 => U6x::V3(<u64 as Zoo>::gen(g)), 4 => U6x::V4(<Vec<u8> as Zoo>::gen(g)), 5 => U6x::V5(<u64 as Zoo>::gen(g)), 6 => U6x::V6(<Vec<u8> as Zoo>::gen(g)), 7 => U6x::V7(<Vec<u8> as Zoo>::gen(g)), 8 => U6x::V8(<u64 as Zoo>::gen(g)), 9 => U6x::V9(<u64 as Zoo>::gen(g)), 10 => U6x::V10(<Vec<u8> as Zoo>::gen(g)), 11 => U6x::V11(<u64 as Zoo>::gen(g)), 12 => U6x::V12(<u8 as Zoo>::gen(g)), 13 => U6x::V13(<u8 as Zoo>::gen(g)), 14 => U6x::V14(<Vec<u8> as Zoo>::gen(g)), 15 => U6x::V15(<Vec<u8> as Zoo>::gen(g)), 16 => U6x::V16(<u8 as Zoo>::gen(g)), 17 => U6x::V17(<Vec<u8> as Zoo>::gen(g)), 18 => U6x::V18(<Vec<u8> as Zoo>::gen(g)), 19 => U6x::V19(<u8 as Zoo>::gen(g)), 20 => U6x::V20(<u64 as Zoo>::gen(g)), 21 => U6x::V21(<Vec<u8> as Zoo>::gen(g)), 22 => U6x::V22(<Vec<u8> as Zoo>::gen(g)), 23 => U6x::V23(<u8 as Zoo>::gen(g)), 24 => U6x::V24(<u8 as Zoo>::gen(g)), 25 => U6x::V25(<u8 as Zoo>::gen(g)), 26 => U6x::V26(<Vec<u8> as Zoo>::gen(g)), 27 => U6x::V27(<Vec<u8> as Zoo>::gen(g)), 28 => U6x::V28(<u8 as Zoo>::gen(g)), 29 => U6x::V29(<Vec<u8> as Zoo>::gen(g)), 30 => U6x::V30(<u8 as Zoo>::gen(g)), 31 => U6x::V31(<u64 as Zoo>::gen(g)), 32 => U6x::V32(<Vec<u8> as Zoo>::gen(g)), 33 => U6x::V33(<Vec<u8> as Zoo>::gen(g)), 34 => U6x::V34(<Vec<u8> as Zoo>::gen(g)), 35 => U6x::V35(<u64 as Zoo>::gen(g)), 36 => U6x::V36(<Vec<u8> as Zoo>::gen(g)), 37 => U6x::V37(<Vec<u8> as Zoo>::gen(g)), 38 => U6x::V38(<u8 as Zoo>::gen(g)), 39 => U6x::V39(<u64 as Zoo>::gen(g)), 40 => U6x::V40(<Vec<u8> as Zoo>::gen(g)), 41 => U6x::V41(<u8 as Zoo>::gen(g)), 42 => U6x::V42(<u64 as Zoo>::gen(g)), 43 => U6x::V43(<u64 as Zoo>::gen(g)), 44 => U6x::V44(<Vec<u8> as Zoo>::gen(g)), 45 => U6x::V45(<u64 as Zoo>::gen(g)), 46 => U6x::V46(<u64 as Zoo>::gen(g)), 47 => U6x::V47(<u64 as Zoo>::gen(g)), 48 => U6x::V48(<u64 as Zoo>::gen(g)), 49 => U6x::V49(<Vec<u8> as Zoo>::gen(g)), 50 => U6x::V50(<Vec<u8> as Zoo>::gen(g)), 51 => U6x::V51(<u64 as Zoo>::gen(g)), 52 => U6x::V52(<u64 as Zoo>::gen(g)), 53 => U6x::V53(<Vec<u8> as Zoo>::gen(g)), 54 => U6x::V54(<u8 as Zoo>::gen(g)), 55 => U6x::V55(<u8 as Zoo>::gen(g)), 56 => U6x::V56(<u64 as Zoo>::gen(g)), 57 => U6x::V57(<Vec<u8> as Zoo>::gen(g)), 58 => U6x::V58(<u64 as Zoo>::gen(g)), 59 => U6x::V59(<Vec<u8> as Zoo>::gen(g)), 60 => U6x::V60(<u64 as Zoo>::gen(g)), 61 => U6x::V61(<u8 as Zoo>::gen(g)), 62 => U6x::V62(<u8 as Zoo>::gen(g)), 63 => U6x::V63(<Vec<u8> as Zoo>::gen(g)), 64 => U6x::V64(<u64 as Zoo>::gen(g)), 65 => U6x::V65(<u64 as Zoo>::gen(g)), 66 => U6x::V66(<Vec<u8> as Zoo>::gen(g)), 67 => U6x::V67(<u64 as Zoo>::gen(g)), 68 => U6x::V68(<u8 as Zoo>::gen(g)), 69 => U6x::V69(<u64 as Zoo>::gen(g)), 70 => U6x::V70(<u8 as Zoo>::gen(g)), 71 => U6x::V71(<Vec<u8> as Zoo>::gen(g)), 72 => U6x::V72(<u8 as Zoo>::gen(g)), 73 => U6x::V73(<u8 as Zoo>::gen(g)), 74 => U6x::V74(<u8 as Zoo>::gen(g)), 75 => U6x::V75(<u64 as Zoo>::gen(g)), 76 => U6x::V76(<u8 as Zoo>::gen(g)), 77 => U6x::V77(<Vec<u8> as Zoo>::gen(g)), 78 => U6x::V78(<u64 as Zoo>::gen(g)), 79 => U6x::V79(<u64 as Zoo>::gen(g)), 80 => U6x::V80(<Vec<u8> as Zoo>::gen(g)), 81 => U6x::V81(<u8 as Zoo>::gen(g)), 82 => U6x::V82(<u8 as Zoo>::gen(g)), 83 => U6x::V83(<u8 as Zoo>::gen(g)), 84 => U6x::V84(<u8 as Zoo>::gen(g)), 85 => U6x::V85(<Vec<u8> as Zoo>::gen(g)), 86 => U6x::V86(<u8 as Zoo>::gen(g)), 87 => U6x::V87(<u64 as Zoo>::gen(g)), 88 => U6x::V88(<u8 as Zoo>::gen(g)), 89 => U6x::V89(<u64 as Zoo>::gen(g)), 90 => U6x::V90(<Vec<u8> as Zoo>::gen(g)), 91 => U6x::V91(<u8 as Zoo>::gen(g)), 92 => U6x::V92(<u64 as Zoo>::gen(g)), 93 => U6x::V93(<u64 as Zoo>::gen(g)), 94 => U6x::V94(<Vec<u8> as Zoo>::gen(g)), 95 => U6x::V95(<Vec<u8> as Zoo>::gen(g)), 96 => U6x::V96(<u64 as Zoo>::gen(g)), 97 => U6x::V97(<u8 as Zoo>::gen(g)), 98 => U6x::V98(<u64 as Zoo>::gen(g)), 99 => U6x::V99(<Vec<u8> as Zoo>::gen(g)), 100 => U6x::V100(<u64 as Zoo>::gen(g)), 101 => U6x::V101(<u64 as Zoo>::gen(g)), 102 => U6x::V102(<Vec<u8> as Zoo>::gen(g)), 103 => U6x::V103(<u64 as Zoo>::gen(g)), 104 => U6x::V104(<Vec<u8> as Zoo>::gen(g)), 105 => U6x::V105(<u8 as Zoo>::gen(g)), 106 => U6x::V106(<u8 as Zoo>::gen(g)), 107 => U6x::V107(<u8 as Zoo>::gen(g)), 108 => U6x::V108(<Vec<u8> as Zoo>::gen(g)), 109 => U6x::V109(<Vec<u8> as Zoo>::gen(g)), 110 => U6x::V110(<u64 as Zoo>::gen(g)), 111 => U6x::V111(<Vec<u8> as Zoo>::gen(g)), 112 => U6x::V112(<u8 as Zoo>::gen(g)), 113 => U6x::V113(<u8 as Zoo>::gen(g)), 114 => U6x::V114(<Vec<u8> as Zoo>::gen(g)), 115 => U6x::V115(<u8 as Zoo>::gen(g)), 116 => U6x::V116(<Vec<u8> as Zoo>::gen(g)), 117 => U6x::V117(<u8 as Zoo>::gen(g)), 118 => U6x::V118(<u8 as Zoo>::gen(g)), 119 => U6x::V119(<u8 as Zoo>::gen(g)), 120 => U6x::V120(<u64 as Zoo>::gen(g)), 121 => U6x::V121(<u8 as Zoo>::gen(g)), 122 => U6x::V122(<u64 as Zoo>::gen(g)), 123 => U6x::V123(<Vec<u8> as Zoo>::gen(g)), 124 => U6x::V124(<u64 as Zoo>::gen(g)), 125 => U6x::V125(<u8 as Zoo>::gen(g)), 126 => U6x::V126(<u8 as Zoo>::gen(g)), 127 => U6x::V127(<u8 as Zoo>::gen(g)), _ => unreachable!() } } fn mem() -> Mem { union_mem(&[<Vec<u8> as Zoo>::mem(), <u64 as Zoo>::mem(), <u8 as Zoo>::mem()]) } fn nofail() -> bool { false || <Vec<u8> as Zoo>::nofail() || <u64 as Zoo>::nofail() || <u8 as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum E0 { V0(Vec<u16>), V1(Vec<u8>) }
impl Zoo for E0 { fn gen(g: &mut Gen) -> Self { match g.r.below(2) { 0 => E0::V0(<Vec<u16> as Zoo>::gen(g)), 1 => E0::V1(<Vec<u8> as Zoo>::gen(g)), _ => unreachable!() } } fn mem() -> Mem { union_mem(&[<Vec<u16> as Zoo>::mem(), <Vec<u8> as Zoo>::mem()]) } fn nofail() -> bool { false || <Vec<u16> as Zoo>::nofail() || <Vec<u8> as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum E1 { V0((u8, Vec<u16>)), V1(Vec<u64>), V2(YItem) }
impl Zoo for E1 { fn gen(g: &mut Gen) -> Self { match g.r.below(3) { 0 => E1::V0(<(u8, Vec<u16>) as Zoo>::gen(g)), 1 => E1::V1(<Vec<u64> as Zoo>::gen(g)), 2 => E1::V2(<YItem as Zoo>::gen(g)), _ => unreachable!() } } fn mem() -> Mem { union_mem(&[<(u8, Vec<u16>) as Zoo>::mem(), <Vec<u64> as Zoo>::mem(), <YItem as Zoo>::mem()]) } fn nofail() -> bool { false || <(u8, Vec<u16>) as Zoo>::nofail() || <Vec<u64> as Zoo>::nofail() || <YItem as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum E2 { V0(BitList<U8>), V1(BitList<U100>), V2(Bytes) }
impl Zoo for E2 { fn gen(g: &mut Gen) -> Self { match g.r.below(3) { 0 => E2::V0(<BitList<U8> as Zoo>::gen(g)), 1 => E2::V1(<BitList<U100> as Zoo>::gen(g)), 2 => E2::V2(<Bytes as Zoo>::gen(g)), _ => unreachable!() } } fn mem() -> Mem { union_mem(&[<BitList<U8> as Zoo>::mem(), <BitList<U100> as Zoo>::mem(), <Bytes as Zoo>::mem()]) } fn nofail() -> bool { false || <BitList<U100> as Zoo>::nofail() || <BitList<U8> as Zoo>::nofail() || <Bytes as Zoo>::nofail() } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum E3 { V0(Vec<Vec<u8>>), V1((u16, Vec<u8>)), V2(Vec<u8>) }
impl Zoo for E3 { fn gen(g: &mut Gen) -> Self { match g.r.below(3) { 0 => E3::V0(<Vec<Vec<u8>> as Zoo>::gen(g)), 1 => E3::V1(<(u16, Vec<u8>) as Zoo>::gen(g)), 2 => E3::V2(<Vec<u8> as Zoo>::gen(g)), _ => unreachable!() } } fn mem() -> Mem { union_mem(&[<Vec<Vec<u8>> as Zoo>::mem(), <(u16, Vec<u8>) as Zoo>::mem(), <Vec<u8> as Zoo>::mem()]) } fn nofail() -> bool { false || <(u16, Vec<u8>) as Zoo>::nofail() || <Vec<Vec<u8>> as Zoo>::nofail() || <Vec<u8> as Zoo>::nofail() } }

#[derive(Clone, Copy, Debug, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum G0 { V0 }
impl Zoo for G0 { fn gen(g: &mut Gen) -> Self { g.take(1); match g.r.below(1) { 0 => G0::V0, _ => unreachable!() } } fn mem() -> Mem { Mem { a: 0, b: 0 } } }

#[derive(Clone, Copy, Debug, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum G1 { V0, V1, V2 }
impl Zoo for G1 { fn gen(g: &mut Gen) -> Self { g.take(1); match g.r.below(3) { 0 => G1::V0, 1 => G1::V1, 2 => G1::V2, _ => unreachable!() } } fn mem() -> Mem { Mem { a: 0, b: 0 } } }

#[derive(Clone, Copy, Debug, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum G2 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
impl Zoo for G2 { fn gen(g: &mut Gen) -> Self { g.take(1); match g.r.below(128) { 0 => G2::V0, 1 => G2::V1, 2 => G2::V2, 3 => G2::V3, 4 => G2::V4, 5 => G2::V5, 6 => G2::V6, 7 => G2::V7, 8 => G2::V8, 9 => G2::V9, 10 => G2::V10, 11 => G2::V11, 12 => G2::V12, 13 => G2::V13, 14 => G2::V14, 15 => G2::V15, 16 => G2::V16, 17 => G2::V17, 18 => G2::V18, 19 => G2::V19, 20 => G2::V20, 21 => G2::V21, 22 => G2::V22, 23 => G2::V23, 24 => G2::V24, 25 => G2::V25, 26 => G2::V26, 27 => G2::V27, 28 => G2::V28, 29 => G2::V29, 30 => G2::V30, 31 => G2::V31, 32 => G2::V32, 33 => G2::V33, 34 => G2::V34, 35 => G2::V35, 36 => G2::V36, 37 => G2::V37, 38 => G2::V38, 39 => G2::V39, 40 => G2::V40, 41 => G2::V41, 42 => G2::V42, 43 => G2::V43, 44 => G2::V44, 45 => G2::V45, 46 => G2::V46, 47 => G2::V47, 48 => G2::V48, 49 => G2::V49, 50 => G2::V50, 51 => G2::V51, 52 => G2::V52, 53 => G2::V53, 54 => G2::V54, 55 => G2::V55, 56 => G2::V56, 57 => G2::V57, 58 => G2::V58, 59 => G2::V59, 60 => G2::V60, 61 => G2::V61, 62 => G2::V62, 63 => G2::V63, 64 => G2::V64, 65 => G2::V65, 66 => G2::V66, 67 => G2::V67, 68 => G2::V68, 69 => G2::V69, 70 => G2::V70, 71 => G2::V71, 72 => G2::V72, 73 => G2::V73, 74 => G2::V74, 75 => G2::V75, 76 => G2::V76, 77 => G2::V77, 78 => G2::V78, 79 => G2::V79, 80 => G2::V80, 81 => G2::V81, 82 => G2::V82, 83 => G2::V83, 84 => G2::V84, 85 => G2::V85, 86 => G2::V86, 87 => G2::V87, 88 => G2::V88, 89 => G2::V89, 90 => G2::V90, 91 => G2::V91, 92 => G2::V92, 93 => G2::V93, 94 => G2::V94, 95 => G2::V95, 96 => G2::V96, 97 => G2::V97, 98 => G2::V98, 99 => G2::V99, 100 => G2::V100, 101 => G2::V101, 102 => G2::V102, 103 => G2::V103, 104 => G2::V104, 105 => G2::V105, 106 => G2::V106, 107 => G2::V107, 108 => G2::V108, 109 => G2::V109, 110 => G2::V110, 111 => G2::V111, 112 => G2::V112, 113 => G2::V113, 114 => G2::V114, 115 => G2::V115, 116 => G2::V116, 117 => G2::V117, 118 => G2::V118, 119 => G2::V119, 120 => G2::V120, 121 => G2::V121, 122 => G2::V122, 123 => G2::V123, 124 => G2::V124, 125 => G2::V125, 126 => G2::V126, 127 => G2::V127, _ => unreachable!() } } fn mem() -> Mem { Mem { a: 0, b: 0 } } }

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct Rec { pub x: u8, pub kids: Vec<Rec> }
impl Zoo for Rec {
    fn gen(g: &mut Gen) -> Self {
        g.take(5);
        g.depth += 1;
        let n = if g.depth > 24 || g.budget == 0 { 0 } else { g.r.below(4) };
        let kids = (0..n).map(|_| Rec::gen(g)).collect();
        g.depth -= 1;
        Rec { x: u8::gen(g), kids }
    }
    // one level costs 32 bytes per offset word of 4 and at least 9 bytes of input
    fn mem() -> Mem { Mem { a: 64, b: 512 } }
    fn recursive() -> bool { true }
}
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum RecU { Leaf(Vec<u8>), Node(Vec<RecU>), Opt(Option<Arc<RecU>>) }
impl Zoo for RecU {
    fn gen(g: &mut Gen) -> Self {
        g.take(2);
        g.depth += 1;
        let v = match if g.depth > 24 || g.budget == 0 { 0 } else { g.r.below(4) } {
            0 => RecU::Leaf(<Vec<u8>>::gen(g)),
            1 => RecU::Opt(Some(Arc::new(RecU::gen(g)))),
            _ => {
                let n = g.r.below(5);
                RecU::Node((0..n).map(|_| RecU::gen(g)).collect())
            }
        };
        g.depth -= 1;
        v
    }
    fn mem() -> Mem { Mem { a: 96, b: 512 } }
    fn recursive() -> bool { true }
}

pub fn registry() -> Vec<Box<dyn Erased>> {
    vec![
        ty::<u8>("u8"),
        ty::<u16>("u16"),
        ty::<u32>("u32"),
        ty::<u64>("u64"),
        ty::<u128>("u128"),
        ty::<usize>("usize"),
        ty::<bool>("bool"),
        ty::<NonZeroUsize>("NonZeroUsize"),
        ty::<U256>("U256"),
        ty::<U128>("U128"),
        ty::<Address>("Address"),
        ty::<[u8; 4]>("[u8; 4]"),
        ty::<[u8; 1]>("[u8; 1]"),
        ty::<[u8; 33]>("[u8; 33]"),
        ty::<FixedBytes<1>>("FixedBytes<1>"),
        ty::<FixedBytes<4>>("FixedBytes<4>"),
        ty::<FixedBytes<32>>("FixedBytes<32>"),
        ty::<FixedBytes<48>>("FixedBytes<48>"),
        ty::<FixedBytes<96>>("FixedBytes<96>"),
        ty::<Bloom>("Bloom"),
        ty::<YFix>("YFix"),
        ty::<BitVector<U1>>("BitVector<U1>"),
        ty::<BitVector<U8>>("BitVector<U8>"),
        ty::<BitVector<U12>>("BitVector<U12>"),
        ty::<BitVector<U64>>("BitVector<U64>"),
        ty::<BitVector<U1024>>("BitVector<U1024>"),
        ty::<BitVector<U4096>>("BitVector<U4096>"),
        ty::<(u8, u16)>("(u8, u16)"),
        ty::<(u64, [u8; 4], bool)>("(u64, [u8; 4], bool)"),
        ty::<Arc<u32>>("Arc<u32>"),
        ty::<Arc<[u8; 32]>>("Arc<[u8; 32]>"),
        ty::<Vec<u8>>("Vec<u8>"),
        ty::<Vec<u16>>("Vec<u16>"),
        ty::<Vec<u64>>("Vec<u64>"),
        ty::<Vec<bool>>("Vec<bool>"),
        ty::<Bytes>("Bytes"),
        ty::<Vec<Vec<u8>>>("Vec<Vec<u8>>"),
        ty::<Vec<Vec<u16>>>("Vec<Vec<u16>>"),
        ty::<Vec<Bytes>>("Vec<Bytes>"),
        ty::<Option<u16>>("Option<u16>"),
        ty::<Option<Vec<u8>>>("Option<Vec<u8>>"),
        ty::<Vec<Option<u32>>>("Vec<Option<u32>>"),
        ty::<BitList<U0>>("BitList<U0>"),
        ty::<BitList<U1>>("BitList<U1>"),
        ty::<BitList<U8>>("BitList<U8>"),
        ty::<BitList<U100>>("BitList<U100>"),
        ty::<BitList<U2048>>("BitList<U2048>"),
        ty::<BitList<Huge>>("BitList<Huge>"),
        ty::<BitVectorDynamic>("BitVectorDynamic"),
        ty::<SmallVec<[u8; 8]>>("SmallVec<[u8; 8]>"),
        ty::<SmallVec<[Vec<u8>; 2]>>("SmallVec<[Vec<u8>; 2]>"),
        ty::<SmallVec<[u64; 4]>>("SmallVec<[u64; 4]>"),
        ty::<Vec<FixedBytes<32>>>("Vec<FixedBytes<32>>"),
        ty::<Vec<U256>>("Vec<U256>"),
        ty::<BTreeSet<u16>>("BTreeSet<u16>"),
        ty::<BTreeMap<u8, u16>>("BTreeMap<u8, u16>"),
        ty::<BTreeMap<u16, Vec<u8>>>("BTreeMap<u16, Vec<u8>>"),
        ty::<BTreeSet<Vec<u8>>>("BTreeSet<Vec<u8>>"),
        ty::<YItem>("YItem"),
        ty::<Vec<YItem>>("Vec<YItem>"),
        ty::<Vec<YFix>>("Vec<YFix>"),
        ty::<Arc<Vec<u8>>>("Arc<Vec<u8>>"),
        ty::<Arc<Vec<Vec<u8>>>>("Arc<Vec<Vec<u8>>>"),
        ty::<(u16, Vec<u8>)>("(u16, Vec<u8>)"),
        ty::<(Vec<u8>, u16, Vec<u16>)>("(Vec<u8>, u16, Vec<u16>)"),
        ty::<Vec<(u8, Vec<u8>)>>("Vec<(u8, Vec<u8>)>"),
        ty::<Vec<(u16, u32)>>("Vec<(u16, u32)>"),
        ty::<Vec<BitList<U8>>>("Vec<BitList<U8>>"),
        ty::<Vec<BitVector<U12>>>("Vec<BitVector<U12>>"),
        ty::<Option<Arc<Vec<u8>>>>("Option<Arc<Vec<u8>>>"),
        ty::<Vec<Arc<u64>>>("Vec<Arc<u64>>"),
        ty::<[u8; 0]>("[u8; 0]"),
        ty::<[u8; 256]>("[u8; 256]"),
        ty::<FixedBytes<0>>("FixedBytes<0>"),
        ty::<FixedBytes<8>>("FixedBytes<8>"),
        ty::<FixedBytes<20>>("FixedBytes<20>"),
        ty::<FixedBytes<31>>("FixedBytes<31>"),
        ty::<FixedBytes<33>>("FixedBytes<33>"),
        ty::<FixedBytes<256>>("FixedBytes<256>"),
        ty::<Vec<u32>>("Vec<u32>"),
        ty::<Vec<u128>>("Vec<u128>"),
        ty::<Vec<usize>>("Vec<usize>"),
        ty::<Vec<NonZeroUsize>>("Vec<NonZeroUsize>"),
        ty::<Vec<Address>>("Vec<Address>"),
        ty::<Vec<Bloom>>("Vec<Bloom>"),
        ty::<Vec<FixedBytes<1>>>("Vec<FixedBytes<1>>"),
        ty::<Vec<FixedBytes<48>>>("Vec<FixedBytes<48>>"),
        ty::<Vec<FixedBytes<96>>>("Vec<FixedBytes<96>>"),
        ty::<Vec<[u8; 4]>>("Vec<[u8; 4]>"),
        ty::<Vec<[u8; 33]>>("Vec<[u8; 33]>"),
        ty::<Vec<U128>>("Vec<U128>"),
        ty::<Vec<Vec<Vec<u8>>>>("Vec<Vec<Vec<u8>>>"),
        ty::<Vec<Vec<Vec<Vec<u16>>>>>("Vec<Vec<Vec<Vec<u16>>>>"),
        ty::<Vec<Vec<FixedBytes<32>>>>("Vec<Vec<FixedBytes<32>>>"),
        ty::<Vec<SmallVec<[u8; 8]>>>("Vec<SmallVec<[u8; 8]>>"),
        ty::<SmallVec<[SmallVec<[u16; 2]>; 3]>>("SmallVec<[SmallVec<[u16; 2]>; 3]>"),
        ty::<SmallVec<[Vec<Vec<u8>>; 1]>>("SmallVec<[Vec<Vec<u8>>; 1]>"),
        ty::<SmallVec<[Bytes; 4]>>("SmallVec<[Bytes; 4]>"),
        ty::<SmallVec<[FixedBytes<32>; 4]>>("SmallVec<[FixedBytes<32>; 4]>"),
        ty::<SmallVec<[u8; 128]>>("SmallVec<[u8; 128]>"),
        ty::<Option<u8>>("Option<u8>"),
        ty::<Option<Option<u16>>>("Option<Option<u16>>"),
        ty::<Option<Vec<Vec<u8>>>>("Option<Vec<Vec<u8>>>"),
        ty::<Option<FixedBytes<32>>>("Option<FixedBytes<32>>"),
        ty::<Option<U256>>("Option<U256>"),
        ty::<Option<Bytes>>("Option<Bytes>"),
        ty::<Option<BitList<U8>>>("Option<BitList<U8>>"),
        ty::<Vec<Option<Vec<u8>>>>("Vec<Option<Vec<u8>>>"),
        ty::<BTreeMap<u64, u64>>("BTreeMap<u64, u64>"),
        ty::<BTreeMap<Vec<u8>, u8>>("BTreeMap<Vec<u8>, u8>"),
        ty::<BTreeMap<Vec<u8>, Vec<u8>>>("BTreeMap<Vec<u8>, Vec<u8>>"),
        ty::<BTreeMap<U256, Bytes>>("BTreeMap<U256, Bytes>"),
        ty::<BTreeMap<u8, Vec<Vec<u16>>>>("BTreeMap<u8, Vec<Vec<u16>>>"),
        ty::<BTreeMap<u16, BTreeMap<u8, Vec<u8>>>>("BTreeMap<u16, BTreeMap<u8, Vec<u8>>>"),
        ty::<BTreeSet<u8>>("BTreeSet<u8>"),
        ty::<BTreeSet<U256>>("BTreeSet<U256>"),
        ty::<BTreeSet<(u8, Vec<u8>)>>("BTreeSet<(u8, Vec<u8>)>"),
        ty::<BTreeSet<BTreeSet<u8>>>("BTreeSet<BTreeSet<u8>>"),
        ty::<BTreeSet<YItem>>("BTreeSet<YItem>"),
        ty::<BTreeMap<u8, YItem>>("BTreeMap<u8, YItem>"),
        ty::<BTreeSet<Bytes>>("BTreeSet<Bytes>"),
        ty::<BTreeSet<Vec<Vec<u8>>>>("BTreeSet<Vec<Vec<u8>>>"),
        ty::<Arc<Vec<Arc<u16>>>>("Arc<Vec<Arc<u16>>>"),
        ty::<Arc<Arc<Vec<u8>>>>("Arc<Arc<Vec<u8>>>"),
        ty::<Arc<Option<Vec<u8>>>>("Arc<Option<Vec<u8>>>"),
        ty::<Vec<Arc<Vec<u8>>>>("Vec<Arc<Vec<u8>>>"),
        ty::<Arc<S3>>("Arc<S3>"),
        ty::<Vec<Arc<S5>>>("Vec<Arc<S5>>"),
        ty::<Arc<Bytes>>("Arc<Bytes>"),
        ty::<Arc<FixedBytes<32>>>("Arc<FixedBytes<32>>"),
        ty::<Arc<BitList<U8>>>("Arc<BitList<U8>>"),
        ty::<Arc<Bloom>>("Arc<Bloom>"),
        ty::<BitList<U7>>("BitList<U7>"),
        ty::<BitList<U16>>("BitList<U16>"),
        ty::<BitList<U17>>("BitList<U17>"),
        ty::<BitList<U1024>>("BitList<U1024>"),
        ty::<BitVector<U2>>("BitVector<U2>"),
        ty::<BitVector<U16>>("BitVector<U16>"),
        ty::<BitVector<U513>>("BitVector<U513>"),
        ty::<Vec<BitVectorDynamic>>("Vec<BitVectorDynamic>"),
        ty::<Vec<BitList<Huge>>>("Vec<BitList<Huge>>"),
        ty::<Vec<BitVector<U1>>>("Vec<BitVector<U1>>"),
        ty::<Vec<BitVector<U1024>>>("Vec<BitVector<U1024>>"),
        ty::<(u8, u8)>("(u8, u8)"),
        ty::<(Vec<u8>, Vec<u8>)>("(Vec<u8>, Vec<u8>)"),
        ty::<(Vec<u8>, Vec<u16>, Vec<u32>)>("(Vec<u8>, Vec<u16>, Vec<u32>)"),
        ty::<(u8, Vec<u8>, u16, Vec<u16>)>("(u8, Vec<u8>, u16, Vec<u16>)"),
        ty::<(bool, U256, Bytes, Option<u8>, Address)>("(bool, U256, Bytes, Option<u8>, Address)"),
        ty::<(u8, u16, u32, u64, u128, Vec<u8>)>("(u8, u16, u32, u64, u128, Vec<u8>)"),
        ty::<(Vec<u8>, u16, u32, Vec<u8>, u8, u16, Bytes)>("(Vec<u8>, u16, u32, Vec<u8>, u8, u16, Bytes)"),
        ty::<(u8, u8, u8, u8, u8, u8, u8, u8)>("(u8, u8, u8, u8, u8, u8, u8, u8)"),
        ty::<(Vec<u8>, u8, Vec<u8>, u8, Vec<u8>, u8, Vec<u8>, u8, Vec<u8>)>("(Vec<u8>, u8, Vec<u8>, u8, Vec<u8>, u8, Vec<u8>, u8, Vec<u8>)"),
        ty::<(u8, u16, u32, u64, Vec<u8>, Vec<u16>, Vec<Vec<u8>>, bool, Bytes, U256)>("(u8, u16, u32, u64, Vec<u8>, Vec<u16>, Vec<Vec<u8>>, bool, Bytes, U256)"),
        ty::<(u8, u8, u8, Vec<u8>, u8, u8, u8, Vec<u8>, u8, u8, u8)>("(u8, u8, u8, Vec<u8>, u8, u8, u8, Vec<u8>, u8, u8, u8)"),
        ty::<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)>("(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)"),
        ty::<(u16, u16, u16, u16, u16, u16, u16, u16, u16, u16, u16, u16)>("(u16, u16, u16, u16, u16, u16, u16, u16, u16, u16, u16, u16)"),
        ty::<((u8, Vec<u8>), (Vec<u8>, u8))>("((u8, Vec<u8>), (Vec<u8>, u8))"),
        ty::<(u8, (u8, (u8, (u8, Vec<u8>))))>("(u8, (u8, (u8, (u8, Vec<u8>))))"),
        ty::<((u8, u16), (u32, Vec<u8>), u8)>("((u8, u16), (u32, Vec<u8>), u8)"),
        ty::<Wrap<u16>>("Wrap<u16>"),
        ty::<Wrap<Vec<u8>>>("Wrap<Vec<u8>>"),
        ty::<Wrap<Wrap<Vec<u8>>>>("Wrap<Wrap<Vec<u8>>>"),
        ty::<Wrap<Wrap<Wrap<Vec<YItem>>>>>("Wrap<Wrap<Wrap<Vec<YItem>>>>"),
        ty::<Wrap<Wrap<Wrap<Wrap<Wrap<u8>>>>>>("Wrap<Wrap<Wrap<Wrap<Wrap<u8>>>>>"),
        ty::<Vec<Wrap<Vec<Wrap<Bytes>>>>>("Vec<Wrap<Vec<Wrap<Bytes>>>>"),
        ty::<Wrap<FixedBytes<32>>>("Wrap<FixedBytes<32>>"),
        ty::<Wrap<BitList<U100>>>("Wrap<BitList<U100>>"),
        ty::<Wrap<Option<Vec<u8>>>>("Wrap<Option<Vec<u8>>>"),
        ty::<Wrap<BTreeMap<u8, Vec<u8>>>>("Wrap<BTreeMap<u8, Vec<u8>>>"),
        ty::<Wrap<SmallVec<[Vec<u8>; 2]>>>("Wrap<SmallVec<[Vec<u8>; 2]>>"),
        ty::<Wrap<Vec<Vec<u8>>>>("Wrap<Vec<Vec<u8>>>"),
        ty::<Wrap<Arc<Vec<Vec<u8>>>>>("Wrap<Arc<Vec<Vec<u8>>>>"),
        ty::<Wrap<RecU>>("Wrap<RecU>"),
        ty::<Vec<U2x>>("Vec<U2x>"),
        ty::<Vec<E0>>("Vec<E0>"),
        ty::<Vec<G1>>("Vec<G1>"),
        ty::<Vec<T2>>("Vec<T2>"),
        ty::<Vec<S0>>("Vec<S0>"),
        ty::<Vec<S1>>("Vec<S1>"),
        ty::<Vec<S5>>("Vec<S5>"),
        ty::<Vec<S8>>("Vec<S8>"),
        ty::<Option<S5>>("Option<S5>"),
        ty::<BTreeMap<u8, S4>>("BTreeMap<u8, S4>"),
        ty::<SmallVec<[S2; 2]>>("SmallVec<[S2; 2]>"),
        ty::<Vec<L1>>("Vec<L1>"),
        ty::<Vec<L3>>("Vec<L3>"),
        ty::<Option<U3x>>("Option<U3x>"),
        ty::<Vec<Vec<S4>>>("Vec<Vec<S4>>"),
        ty::<Vec<Vec<YItem>>>("Vec<Vec<YItem>>"),
        ty::<S0>("S0"),
        ty::<S1>("S1"),
        ty::<S2>("S2"),
        ty::<S3>("S3"),
        ty::<S4>("S4"),
        ty::<S5>("S5"),
        ty::<S6>("S6"),
        ty::<S7>("S7"),
        ty::<S8>("S8"),
        ty::<S9>("S9"),
        ty::<S10>("S10"),
        ty::<S11>("S11"),
        ty::<S12>("S12"),
        ty::<S13>("S13"),
        ty::<S14>("S14"),
        ty::<S15>("S15"),
        ty::<S16>("S16"),
        ty::<S17>("S17"),
        ty::<S18>("S18"),
        ty::<S19>("S19"),
        ty::<S20>("S20"),
        ty::<S21>("S21"),
        ty::<S22>("S22"),
        ty::<S23>("S23"),
        ty::<S24>("S24"),
        ty::<S25>("S25"),
        ty::<S26>("S26"),
        ty::<S27>("S27"),
        ty::<S28>("S28"),
        ty::<S29>("S29"),
        ty::<S30>("S30"),
        ty::<S31>("S31"),
        ty::<S32>("S32"),
        ty::<S33>("S33"),
        ty::<S34>("S34"),
        ty::<S35>("S35"),
        ty::<S36>("S36"),
        ty::<S37>("S37"),
        ty::<S38>("S38"),
        ty::<S39>("S39"),
        ty::<S40>("S40"),
        ty::<S41>("S41"),
        ty::<L0>("L0"),
        ty::<L1>("L1"),
        ty::<L2>("L2"),
        ty::<L3>("L3"),
        ty::<L4>("L4"),
        ty::<L5>("L5"),
        ty::<L6>("L6"),
        ty::<L7>("L7"),
        ty::<L8>("L8"),
        ty::<L9>("L9"),
        ty::<T0>("T0"),
        ty::<T1>("T1"),
        ty::<T2>("T2"),
        ty::<T3>("T3"),
        ty::<T4>("T4"),
        ty::<T5>("T5"),
        ty::<T6>("T6"),
        ty::<T7>("T7"),
        ty::<T8>("T8"),
        ty::<T9>("T9"),
        ty::<U0x>("U0x"),
        ty::<U1x>("U1x"),
        ty::<U2x>("U2x"),
        ty::<U3x>("U3x"),
        ty::<U4x>("U4x"),
        ty::<U5x>("U5x"),
        ty::<U6x>("U6x"),
        ty::<E0>("E0"),
        ty::<E1>("E1"),
        ty::<E2>("E2"),
        ty::<E3>("E3"),
        ty::<G0>("G0"),
        ty::<G1>("G1"),
        ty::<G2>("G2"),
        ty::<Rec>("Rec"),
        ty::<RecU>("RecU"),
    ]
}

