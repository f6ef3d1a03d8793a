//! The types the simulated system stores and sends: generators, and how much memory decoding one
//! may take (used by C06 only).

use ssz_sim::core::Rng;
use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, Decode, DecodeError, Encode, SszEncoder};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::num::NonZeroUsize;
use std::sync::Arc;
use typenum::Unsigned;

/// Peak heap while decoding `n` bytes is at most `a * n + b`.
#[derive(Clone, Copy, Debug)]
pub struct Mem {
    pub a: u64,
    pub b: u64,
}

pub struct Gen {
    pub r: Rng,
    /// bytes this value may still spend
    pub budget: usize,
    pub depth: usize,
}
impl Gen {
    pub fn new(seed: u64, budget: usize) -> Gen {
        Gen { r: Rng::new(seed), budget, depth: 0 }
    }
    pub fn take(&mut self, n: usize) {
        self.budget = self.budget.saturating_sub(n);
    }
    /// Number of items of a list.
    pub fn len(&mut self) -> usize {
        if self.budget == 0 || self.depth > 10 {
            return 0;
        }
        let n = match self.r.below(12) {
            0 | 1 => 0,
            2 | 3 => 1,
            4 => 2,
            5 => 3,
            6 => 4 + self.r.below(6) as usize,
            7 => self.r.below(40) as usize,
            8 => self.budget.min(8 + self.budget / 8),
            9 => self.r.below(1 + self.budget as u64 / 4) as usize,
            10 => self.budget,
            _ => 2 + self.r.below(3) as usize,
        };
        n.min(self.budget)
    }
    pub fn word(&mut self) -> u64 {
        match self.r.below(8) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => 1 << self.r.below(64),
            4 => self.r.below(256),
            5 => (1u64 << self.r.below(64)).wrapping_sub(1),
            _ => self.r.next(),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        self.take(n);
        match self.r.below(6) {
            0 => vec![0; n],
            1 => vec![0xFF; n],
            _ => self.r.bytes(n),
        }
    }
}

pub trait Zoo: Encode + Decode + Clone + PartialEq + Debug + Send + 'static {
    fn gen(g: &mut Gen) -> Self;
    fn mem() -> Mem;
    /// Decoding builds a BTree collection: std aborts when an allocation fails inside one.
    fn nofail() -> bool {
        false
    }
    /// The same fields through the manual container encoder. False: not a container.
    fn manual(&self, _buf: &mut Vec<u8>, _style: u64) -> bool {
        false
    }
    /// The shape is recursive: decoding uses stack in proportion to the input.
    fn recursive() -> bool {
        false
    }
}

const M0: Mem = Mem { a: 0, b: 0 };

macro_rules! zoo_int {
    ($($t:ty),*) => {$(
        impl Zoo for $t {
            fn gen(g: &mut Gen) -> Self {
                g.take(std::mem::size_of::<$t>());
                (g.word() as u128 | ((g.word() as u128) << 64)) as $t
            }
            fn mem() -> Mem { M0 }
        }
    )*};
}
zoo_int!(u8, u16, u32, u64, u128, usize);

impl Zoo for bool {
    fn gen(g: &mut Gen) -> Self {
        g.take(1);
        g.r.below(2) == 1
    }
    fn mem() -> Mem {
        M0
    }
}
impl Zoo for NonZeroUsize {
    fn gen(g: &mut Gen) -> Self {
        g.take(8);
        NonZeroUsize::new((g.word() as usize).max(1)).unwrap()
    }
    fn mem() -> Mem {
        M0
    }
}
impl<const N: usize> Zoo for [u8; N] {
    fn gen(g: &mut Gen) -> Self {
        let b = g.bytes(N);
        let mut a = [0; N];
        a.copy_from_slice(&b);
        a
    }
    fn mem() -> Mem {
        M0
    }
}
impl<const N: usize> Zoo for FixedBytes<N> {
    fn gen(g: &mut Gen) -> Self {
        FixedBytes(<[u8; N]>::gen(g))
    }
    fn mem() -> Mem {
        M0
    }
}
impl Zoo for Address {
    fn gen(g: &mut Gen) -> Self {
        Address::from_slice(&g.bytes(20))
    }
    fn mem() -> Mem {
        M0
    }
}
impl Zoo for Bloom {
    fn gen(g: &mut Gen) -> Self {
        Bloom::from_slice(&g.bytes(256))
    }
    fn mem() -> Mem {
        M0
    }
}
impl Zoo for U256 {
    fn gen(g: &mut Gen) -> Self {
        U256::from_le_slice(&g.bytes(32))
    }
    fn mem() -> Mem {
        M0
    }
}
impl Zoo for U128 {
    fn gen(g: &mut Gen) -> Self {
        U128::from_le_slice(&g.bytes(16))
    }
    fn mem() -> Mem {
        M0
    }
}
impl Zoo for Bytes {
    fn gen(g: &mut Gen) -> Self {
        let n = g.len();
        g.bytes(n).into()
    }
    fn mem() -> Mem {
        Mem { a: 2, b: 64 }
    }
}

fn min_len<T: Zoo>() -> u64 {
    if <T as Decode>::is_ssz_fixed_len() {
        (<T as Decode>::ssz_fixed_len() as u64).max(1)
    } else {
        4
    }
}
/// A list whose collection costs `per` heap bytes per item.
fn list_mem<T: Zoo>(per: u64) -> Mem {
    let m = T::mem();
    Mem { a: (per + m.b).div_ceil(min_len::<T>()) + m.a, b: 8 * std::mem::size_of::<T>() as u64 }
}

fn items<T: Zoo>(g: &mut Gen) -> Vec<T> {
    g.depth += 1;
    let n = g.len();
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(T::gen(g));
        g.take(1);
        if g.budget == 0 {
            break;
        }
    }
    g.depth -= 1;
    v
}

impl<T: Zoo> Zoo for Vec<T> {
    fn gen(g: &mut Gen) -> Self {
        items(g)
    }
    fn mem() -> Mem {
        list_mem::<T>(3 * std::mem::size_of::<T>() as u64)
    }
    fn nofail() -> bool {
        T::nofail()
    }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        // A list is a container of its items.
        let n = self.len() * <T as Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        for x in self {
            field(&mut e, x, style);
        }
        e.finalize();
        true
    }
}
impl<T: Zoo, const N: usize> Zoo for SmallVec<[T; N]> {
    fn gen(g: &mut Gen) -> Self {
        items(g).into_iter().collect()
    }
    fn mem() -> Mem {
        let s = std::mem::size_of::<T>() as u64;
        let mut m = list_mem::<T>(5 * s);
        m.b += 4 * N as u64 * s;
        m
    }
    fn nofail() -> bool {
        T::nofail()
    }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = self.len() * <T as Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        for x in self {
            field(&mut e, x, style);
        }
        e.finalize();
        true
    }
}
impl<T: Zoo + Ord> Zoo for BTreeSet<T> {
    fn gen(g: &mut Gen) -> Self {
        items(g).into_iter().collect()
    }
    fn mem() -> Mem {
        let s = std::mem::size_of::<T>() as u64;
        let mut m = list_mem::<T>(10 * s + 64);
        m.b += 24 * s + 512;
        m
    }
    fn nofail() -> bool {
        true
    }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = self.len() * <T as Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        for x in self {
            field(&mut e, x, style);
        }
        e.finalize();
        true
    }
}
impl<K: Zoo + Ord, V: Zoo> Zoo for BTreeMap<K, V> {
    fn gen(g: &mut Gen) -> Self {
        items::<(K, V)>(g).into_iter().collect()
    }
    fn mem() -> Mem {
        let s = std::mem::size_of::<(K, V)>() as u64;
        let mut m = list_mem::<(K, V)>(10 * s + 64);
        m.b += 24 * s + 512;
        m
    }
    fn nofail() -> bool {
        true
    }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = self.len() * <(K, V) as Encode>::ssz_fixed_len();
        let mut e = SszEncoder::container(buf, n);
        for x in self {
            field(&mut e, &x, style);
        }
        e.finalize();
        true
    }
}
impl<T: Zoo> Zoo for Option<T> {
    fn gen(g: &mut Gen) -> Self {
        g.take(1);
        if g.r.below(3) == 0 {
            None
        } else {
            Some(T::gen(g))
        }
    }
    fn mem() -> Mem {
        T::mem()
    }
    fn nofail() -> bool {
        T::nofail()
    }
}
impl<T: Zoo + Sync> Zoo for Arc<T> {
    fn gen(g: &mut Gen) -> Self {
        Arc::new(T::gen(g))
    }
    fn mem() -> Mem {
        let m = T::mem();
        Mem { a: m.a, b: m.b + std::mem::size_of::<T>() as u64 + 32 }
    }
    fn nofail() -> bool {
        T::nofail()
    }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        self.as_ref().manual(buf, style)
    }
}

/// Memory of a container with these fields.
pub fn fields_mem(f: &[Mem]) -> Mem {
    let mut m = M0;
    for x in f {
        m.a = m.a.max(x.a);
        m.b += x.b;
    }
    if f.len() > 8 {
        m.b += 120 * f.len() as u64;
    }
    m
}
/// Memory of a union of these.
pub fn union_mem(f: &[Mem]) -> Mem {
    let mut m = M0;
    for x in f {
        m.a = m.a.max(x.a);
        m.b = m.b.max(x.b);
    }
    m
}

/// Give one field to the manual encoder, through one of its entry points.
pub fn field<T: Encode>(e: &mut SszEncoder, x: &T, style: u64) {
    match style % 5 {
        0 => e.append(x),
        1 => e.append_parameterized(<T as Encode>::is_ssz_fixed_len(), |b| x.ssz_append(b)),
        2 => e.append(&x),
        3 => e.append_parameterized(<T as Encode>::is_ssz_fixed_len(), |b| b.extend_from_slice(&x.as_ssz_bytes())),
        _ => e.append(&&x),
    }
}

macro_rules! zoo_tuple {
    ($(($($T:ident $i:tt),+))*) => {$(
        impl<$($T: Zoo),+> Zoo for ($($T,)+) {
            fn gen(g: &mut Gen) -> Self { ($($T::gen(g),)+) }
            fn mem() -> Mem { fields_mem(&[$($T::mem()),+]) }
            fn nofail() -> bool { false $(|| $T::nofail())+ }
            fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
                let n = 0 $(+ <$T as Encode>::ssz_fixed_len())+;
                let mut e = SszEncoder::container(buf, n);
                $( field(&mut e, &self.$i, style.wrapping_add($i)); )+
                e.finalize();
                true
            }
        }
    )*};
}
zoo_tuple! {
    (A 0, B 1)
    (A 0, B 1, C 2)
    (A 0, B 1, C 2, D 3)
    (A 0, B 1, C 2, D 3, E 4)
    (A 0, B 1, C 2, D 3, E 4, F 5)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11)
}

impl<N: Unsigned + Clone + Send + Debug + 'static> Zoo for BitList<N> {
    fn gen(g: &mut Gen) -> Self {
        let max = N::to_usize().min(g.budget.saturating_mul(8)).min(1 << 16);
        let n = match g.r.below(4) {
            0 => max,
            1 => max.min(8 * (g.r.below(20) as usize)),
            _ => g.r.below(max as u64 + 1) as usize,
        };
        let mut b = BitList::with_capacity(n).unwrap();
        let ones = g.r.below(3);
        for i in 0..n {
            if ones == 1 || (ones == 2 && g.r.below(2) == 1) {
                b.set(i, true).unwrap();
            }
        }
        g.take(n / 8 + 1);
        b
    }
    fn mem() -> Mem {
        Mem { a: 4, b: 512 }
    }
}
impl<N: Unsigned + Clone + Send + Debug + 'static> Zoo for BitVector<N> {
    fn gen(g: &mut Gen) -> Self {
        let mut b = BitVector::new();
        let ones = g.r.below(3);
        for i in 0..N::to_usize() {
            if ones == 1 || (ones == 2 && g.r.below(2) == 1) {
                b.set(i, true).unwrap();
            }
        }
        g.take(N::to_usize() / 8 + 1);
        b
    }
    fn mem() -> Mem {
        Mem { a: 4, b: 512 }
    }
}
impl Zoo for BitVectorDynamic {
    fn gen(g: &mut Gen) -> Self {
        let n = 8 * (1 + g.len());
        let mut b = BitVectorDynamic::new(n).unwrap();
        for i in 0..n {
            if g.r.below(2) == 1 {
                b.set(i, true).unwrap();
            }
        }
        g.take(n / 8);
        b
    }
    fn mem() -> Mem {
        Mem { a: 4, b: 512 }
    }
}

// ---------------------------------------------------------------------------------------------
// Items that call back into the simulator while the library works on them.

/// Variable-size item of a caller: may be preempted, cancelled, or fail while it is (de)serialised.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct YItem(pub Vec<u8>);
impl Encode for YItem {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        let h = self.0.len() / 2;
        buf.extend_from_slice(&self.0[..h]);
        ssz_sim::core::ctx().callback();
        buf.extend_from_slice(&self.0[h..]);
    }
    fn ssz_bytes_len(&self) -> usize {
        self.0.len()
    }
}
impl Decode for YItem {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        if ssz_sim::core::ctx().callback() {
            return Err(DecodeError::BytesInvalid("item refused by its caller".into()));
        }
        Ok(YItem(b.to_vec()))
    }
}
impl Zoo for YItem {
    fn gen(g: &mut Gen) -> Self {
        let n = g.len().min(400);
        YItem(g.bytes(n))
    }
    fn mem() -> Mem {
        Mem { a: 1, b: 64 }
    }
}

/// Fixed-size item of a caller.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct YFix(pub [u8; 3]);
impl Encode for YFix {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        3
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.push(self.0[0]);
        ssz_sim::core::ctx().callback();
        buf.push(self.0[1]);
        buf.push(self.0[2]);
    }
    fn ssz_bytes_len(&self) -> usize {
        3
    }
}
impl Decode for YFix {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        3
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        if ssz_sim::core::ctx().callback() {
            return Err(DecodeError::BytesInvalid("item refused by its caller".into()));
        }
        <[u8; 3]>::from_ssz_bytes(b).map(YFix)
    }
}
impl Zoo for YFix {
    fn gen(g: &mut Gen) -> Self {
        YFix(<[u8; 3]>::gen(g))
    }
    fn mem() -> Mem {
        M0
    }
}
