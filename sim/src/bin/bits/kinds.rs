//! The bitfield types under test, behind one object-safe interface.

use crate::format::Format;
use arbitrary::{Arbitrary, Unstructured};
use serde::Deserialize;
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, Decode, Encode};
use std::any::Any;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use typenum::{consts::*, UInt, Unsigned, B1};

pub type Bytes = SmallVec<[u8; 128]>;
pub type Bx = Box<dyn AnyBits>;
pub type Made = Result<Bx, String>;

/// A second hash function, sensitive to how the input is split up.
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.0 = self.0.rotate_left(9) ^ 0x9E37;
    }
}

pub trait AnyBits: Any + Send {
    fn cl(&self) -> Bx;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn get(&self, i: usize) -> Result<bool, String>;
    fn set(&mut self, i: usize, v: bool) -> Result<(), String>;
    fn bits(&self, most: usize) -> Vec<bool>;
    fn ones(&self) -> usize;
    fn top(&self) -> Option<usize>;
    fn is_zero(&self) -> bool;
    fn slice(&self) -> Vec<u8>;
    fn same(&self, o: &dyn AnyBits) -> bool;
    fn hashes(&self) -> (u64, u64);
    fn ssz(&self) -> Vec<u8>;
    fn ssz_after(&self, buf: &mut Vec<u8>);
    fn into_bytes(self: Box<Self>) -> Vec<u8>;
    fn into_raw(self: Box<Self>) -> Vec<u8>;
    fn display(&self) -> Option<String>;
    fn shift_up(&mut self, n: usize) -> Result<(), String>;
    fn diff_in(&mut self, o: &dyn AnyBits);
    fn diff(&self, o: &dyn AnyBits) -> Bx;
    fn un(&self, o: &dyn AnyBits) -> Made;
    fn inter(&self, o: &dyn AnyBits) -> Made;
    fn subset(&self, o: &dyn AnyBits) -> Option<bool>;
    /// Resize to the `k`-th target capacity: the capacity and what came of it.
    fn resize(&self, k: usize) -> Option<(usize, Made)>;
    fn json(&self, w: &mut dyn std::io::Write) -> Result<(), String>;
    fn any(&self) -> &dyn Any;
    /// `clone_from` another of the same type.
    fn assign(&mut self, o: &dyn AnyBits);
    /// Read the iterator in another way than front to back: what it gave.
    fn walk(&self, how: u64, k: usize) -> Vec<bool>;
}

pub const WALKS: u64 = 12;

/// One way to read a sequence, for any iterator: the library's and the plain one's.
pub fn walk(mut it: impl Iterator<Item = bool>, how: u64, k: usize) -> Vec<bool> {
    let bin = |n: usize| (0..32).map(|i| n >> i & 1 == 1).collect::<Vec<bool>>();
    match how {
        0 => it.skip(k).collect(),
        1 => it.step_by(k % 9 + 1).collect(),
        2 => {
            let mut v: Vec<bool> = it.nth(k).into_iter().collect();
            v.extend(it);
            v
        }
        3 => it.last().into_iter().collect(),
        4 => bin(it.count()),
        5 => {
            let mut v: Vec<bool> = it.by_ref().take(k).collect();
            v.push(true);
            v.extend(it.nth(k % 5));
            v.push(false);
            v.extend(it);
            v
        }
        6 => it.fold(vec![], |mut v, x| {
            v.push(x);
            v
        }),
        7 => {
            // the size hint, as the contract of iterators has it
            let mut v = vec![];
            let mut hints = vec![];
            loop {
                hints.push(it.size_hint());
                match it.next() {
                    Some(x) => v.push(x),
                    None => break,
                }
            }
            let n = v.len();
            for (i, (lo, hi)) in hints.into_iter().enumerate() {
                if lo > n - i || hi.is_some_and(|h| h < n - i) {
                    return bin(usize::MAX);
                }
            }
            v
        }
        8 => bin(it.position(|x| x).unwrap_or(9999)),
        9 => vec![it.any(|x| x), it.all(|x| x)],
        10 => it.zip(0..k).map(|x| x.0).collect(),
        _ => {
            it.nth(k);
            it.step_by(2).skip(1).collect()
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    List,
    Vector,
    Dynamic,
}

pub struct Kind {
    pub class: Class,
    /// the type-level bound
    pub n: usize,
    /// construct with `len` bits (ignored by vectors)
    pub new: fn(usize) -> Made,
    pub default: Option<fn() -> Bx>,
    /// the second argument: spare capacity of the storage handed over
    pub from_bytes: fn(&[u8], usize) -> Made,
    pub from_ssz: fn(&[u8]) -> Made,
    pub with_len: Option<fn(&[u8], usize, usize) -> Made>,
    pub from_json: fn(&str) -> Made,
    pub from_reader: fn(&mut dyn std::io::Read) -> Made,
    pub from_value: fn(serde_json::Value) -> Made,
    pub from_format: fn(Format) -> Made,
    pub arbitrary: Option<fn(&mut Unstructured) -> Made>,
    pub bound: fn() -> usize,
}
impl Kind {
    pub fn name(&self) -> String {
        match self.class {
            Class::List => format!("BitList<{}>", self.n),
            Class::Vector => format!("BitVector<{}>", self.n),
            Class::Dynamic => "BitVectorDynamic".into(),
        }
    }
}

fn e<E: std::fmt::Debug>(x: E) -> String {
    format!("{x:?}")
}
fn bx<T: AnyBits>(x: T) -> Bx {
    Box::new(x)
}

fn stored(b: &[u8], spare: usize) -> Bytes {
    let mut v = Bytes::with_capacity(b.len() + spare);
    v.extend_from_slice(b);
    v
}

pub const RESIZES: usize = 20;

macro_rules! common {
    ($T:ty) => {
        fn cl(&self) -> Bx {
            bx(self.clone())
        }
        fn len(&self) -> usize {
            <$T>::len(self)
        }
        fn is_empty(&self) -> bool {
            <$T>::is_empty(self)
        }
        fn get(&self, i: usize) -> Result<bool, String> {
            <$T>::get(self, i).map_err(e)
        }
        fn set(&mut self, i: usize, v: bool) -> Result<(), String> {
            <$T>::set(self, i, v).map_err(e)
        }
        fn bits(&self, most: usize) -> Vec<bool> {
            self.iter().take(most).collect()
        }
        fn ones(&self) -> usize {
            self.num_set_bits()
        }
        fn top(&self) -> Option<usize> {
            self.highest_set_bit()
        }
        fn is_zero(&self) -> bool {
            <$T>::is_zero(self)
        }
        fn slice(&self) -> Vec<u8> {
            self.as_slice().to_vec()
        }
        fn same(&self, o: &dyn AnyBits) -> bool {
            !(self != o.any().downcast_ref::<$T>().expect("same kind")) && self == o.any().downcast_ref::<$T>().expect("same kind")
        }
        fn hashes(&self) -> (u64, u64) {
            let mut a = DefaultHasher::new();
            self.hash(&mut a);
            let mut b = Fnv(0xcbf2_9ce4_8422_2325);
            self.hash(&mut b);
            (a.finish(), b.finish())
        }
        fn ssz(&self) -> Vec<u8> {
            self.as_ssz_bytes()
        }
        fn ssz_after(&self, buf: &mut Vec<u8>) {
            self.ssz_append(buf)
        }
        fn into_bytes(self: Box<Self>) -> Vec<u8> {
            <$T>::into_bytes(*self).to_vec()
        }
        fn into_raw(self: Box<Self>) -> Vec<u8> {
            self.into_raw_bytes().to_vec()
        }
        fn shift_up(&mut self, n: usize) -> Result<(), String> {
            <$T>::shift_up(self, n).map_err(e)
        }
        fn diff_in(&mut self, o: &dyn AnyBits) {
            self.difference_inplace(o.any().downcast_ref().expect("same kind"))
        }
        fn diff(&self, o: &dyn AnyBits) -> Bx {
            bx(self.difference(o.any().downcast_ref().expect("same kind")))
        }
        fn json(&self, w: &mut dyn std::io::Write) -> Result<(), String> {
            serde_json::to_writer(w, self).map_err(|x| x.to_string())
        }
        fn any(&self) -> &dyn Any {
            self
        }
        fn assign(&mut self, o: &dyn AnyBits) {
            self.clone_from(o.any().downcast_ref().expect("same kind"))
        }
        fn walk(&self, how: u64, k: usize) -> Vec<bool> {
            walk(self.iter(), how, k)
        }
    };
}

impl AnyBits for BitVectorDynamic {
    common!(BitVectorDynamic);
    fn display(&self) -> Option<String> {
        None
    }
    fn un(&self, o: &dyn AnyBits) -> Made {
        self.union(o.any().downcast_ref().expect("same kind")).map(bx).map_err(e)
    }
    fn inter(&self, o: &dyn AnyBits) -> Made {
        self.intersection(o.any().downcast_ref().expect("same kind")).map(bx).map_err(e)
    }
    fn subset(&self, _: &dyn AnyBits) -> Option<bool> {
        None
    }
    fn resize(&self, _: usize) -> Option<(usize, Made)> {
        None
    }
}

macro_rules! vector {
    ($($N:ty),* $(,)?) => {$(
        impl AnyBits for BitVector<$N> {
            common!(BitVector<$N>);
            fn display(&self) -> Option<String> {
                Some(self.to_string())
            }
            fn un(&self, o: &dyn AnyBits) -> Made {
                Ok(bx(self.union(o.any().downcast_ref().expect("same kind"))))
            }
            fn inter(&self, o: &dyn AnyBits) -> Made {
                Ok(bx(self.intersection(o.any().downcast_ref().expect("same kind"))))
            }
            fn subset(&self, o: &dyn AnyBits) -> Option<bool> {
                Some(self.is_subset(o.any().downcast_ref().expect("same kind")))
            }
            fn resize(&self, _: usize) -> Option<(usize, Made)> {
                None
            }
        }
    )*
        fn vectors(v: &mut Vec<Kind>) {$(
            v.push(Kind {
                class: Class::Vector,
                n: <$N>::to_usize(),
                new: |_| Ok(bx(BitVector::<$N>::new())),
                default: Some(|| bx(BitVector::<$N>::default())),
                from_bytes: |b, s| BitVector::<$N>::from_bytes(stored(b, s)).map(bx).map_err(e),
                from_ssz: |b| BitVector::<$N>::from_ssz_bytes(b).map(bx).map_err(e),
                with_len: None,
                from_json: |s| serde_json::from_str::<BitVector<$N>>(s).map(bx).map_err(e),
                from_reader: |r| serde_json::from_reader::<_, BitVector<$N>>(r).map(bx).map_err(e),
                from_value: |v| serde_json::from_value::<BitVector<$N>>(v).map(bx).map_err(e),
                from_format: |f| <BitVector<$N>>::deserialize(f).map(bx).map_err(e),
                arbitrary: Some(|u| BitVector::<$N>::arbitrary(u).map(bx).map_err(e)),
                bound: || BitVector::<$N>::capacity(),
            });
        )*}
    };
}

macro_rules! targets {
    ($self:ident $k:ident $($i:literal $M:ty),*) => {
        match $k {
            $($i => Some((<$M>::to_usize(), $self.resize::<$M>().map(bx).map_err(e))),)*
            _ => None,
        }
    };
}

macro_rules! list {
    ($($N:ty, $Less:ty, $More:ty;)*) => {$(
        impl AnyBits for BitList<$N> {
            common!(BitList<$N>);
            fn display(&self) -> Option<String> {
                None
            }
            fn un(&self, o: &dyn AnyBits) -> Made {
                Ok(bx(self.union(o.any().downcast_ref().expect("same kind"))))
            }
            fn inter(&self, o: &dyn AnyBits) -> Made {
                Ok(bx(self.intersection(o.any().downcast_ref().expect("same kind"))))
            }
            fn subset(&self, o: &dyn AnyBits) -> Option<bool> {
                Some(self.is_subset(o.any().downcast_ref().expect("same kind")))
            }
            fn resize(&self, k: usize) -> Option<(usize, Made)> {
                // Growing a list to a huge capacity would need a huge machine.
                if <$N>::to_usize() > 1 << 20 && k < 3 {
                    return None;
                }
                targets!(self k 0 $N, 1 $Less, 2 $More, 3 U0, 4 U1, 5 U3, 6 U7, 7 U8, 8 U9, 9 U16, 10 U17, 11 U63,
                    12 U64, 13 U65, 14 U256, 15 U1023, 16 U1024, 17 N1025, 18 N1031, 19 U2048)
            }
        }
    )*
        fn lists(v: &mut Vec<Kind>) {$(
            v.push(Kind {
                class: Class::List,
                n: <$N>::to_usize(),
                new: |n| BitList::<$N>::with_capacity(n).map(bx).map_err(e),
                default: None,
                from_bytes: |b, s| BitList::<$N>::from_bytes(stored(b, s)).map(bx).map_err(e),
                from_ssz: |b| BitList::<$N>::from_ssz_bytes(b).map(bx).map_err(e),
                with_len: None,
                from_json: |s| serde_json::from_str::<BitList<$N>>(s).map(bx).map_err(e),
                from_reader: |r| serde_json::from_reader::<_, BitList<$N>>(r).map(bx).map_err(e),
                from_value: |v| serde_json::from_value::<BitList<$N>>(v).map(bx).map_err(e),
                from_format: |f| <BitList<$N>>::deserialize(f).map(bx).map_err(e),
                arbitrary: Some(|u| BitList::<$N>::arbitrary(u).map(bx).map_err(e)),
                bound: || BitList::<$N>::max_len(),
            });
        )*}
    };
}

type N1025 = UInt<U512, B1>;
type N1031 = UInt<U515, B1>;
type N2047 = UInt<U1023, B1>;
type N2049 = UInt<U1024, B1>;
type Huge = U1099511627776;
type N65535 = UInt<UInt<UInt<UInt<UInt<N2047, B1>, B1>, B1>, B1>, B1>;
type N65537 = UInt<U32768, B1>;
type N524289 = UInt<U262144, B1>;
/// Types from this length on are left to the very few runs that are there for them.
pub const LONGER: usize = 500_000;
/// Types from this length on are left to the runs that are there for them.
pub const LONG: usize = 60_000;

vector!(
    U0, U1, U2, U3, U4, U5, U6, U7, U8, U9, U12, U15, U16, U17, U24, U31, U32, U33, U48, U63, U64, U65, U127, U128, U129, U255, U256, U257, U511,
    U512, U513, U1023, U1024, N1025, N1031, N2047, U2048, N2049, U4096, N65535, U65536, N65537, U524288, N524289
);

list! {
    U0, U0, U1; U1, U0, U2; U2, U1, U3; U3, U2, U4; U4, U3, U5; U5, U4, U6; U6, U5, U7; U7, U6, U8; U8, U7, U9;
    U9, U8, U12; U12, U9, U15; U15, U12, U16; U16, U15, U17; U17, U16, U24; U24, U17, U31; U31, U24, U32;
    U32, U31, U33; U33, U32, U63; U63, U33, U64; U64, U63, U65; U65, U64, U127; U127, U65, U128;
    U128, U127, U129; U129, U128, U255; U255, U129, U256; U256, U255, U257; U257, U256, U511; U511, U257, U512;
    U512, U511, U513; U513, U512, U1023; U1023, U513, U1024; U1024, U1023, N1025; N1025, U1024, N1031;
    N1031, N1025, N2047; N2047, N1031, U2048; U2048, N2047, N2049; N2049, U2048, U4096; U4096, N2049, U65536;
    N65535, U4096, U65536; U65536, N65535, N65537; N65537, U65536, N65537;
    Huge, U4096, U4096;
}

pub fn kinds() -> &'static [Kind] {
    static K: std::sync::OnceLock<Vec<Kind>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        let mut v = vec![];
        for _ in 0..4 {
            // drawn as often as four of the others
            v.push(Kind {
                class: Class::Dynamic,
                n: 0,
                new: |n| BitVectorDynamic::new(n).map(bx).map_err(e),
                default: None,
                from_bytes: |b, s| BitVectorDynamic::from_bytes_with_len(stored(b, s), b.len() * 8).map(bx).map_err(e),
                from_ssz: |b| BitVectorDynamic::from_ssz_bytes(b).map(bx).map_err(e),
                with_len: Some(|b, n, s| BitVectorDynamic::from_bytes_with_len(stored(b, s), n).map(bx).map_err(e)),
                from_json: |s| serde_json::from_str::<BitVectorDynamic>(s).map(bx).map_err(e),
                from_reader: |r| serde_json::from_reader::<_, BitVectorDynamic>(r).map(bx).map_err(e),
                from_value: |v| serde_json::from_value::<BitVectorDynamic>(v).map(bx).map_err(e),
                from_format: |f| <BitVectorDynamic>::deserialize(f).map(bx).map_err(e),
                arbitrary: None,
            bound: || 0,
            });
        }
        lists(&mut v);
        vectors(&mut v);
        v
    })
}
