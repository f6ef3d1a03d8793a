//! Decodable items that record exactly the bytes they were handed.

use crate::core::{lib_call, CallOpts, Called, Ctx};
use ssz::{Decode, DecodeError, Encode};
use std::cell::Cell;

thread_local! {
    /// number of item decodes since the counter was reset
    pub static DECODES: Cell<u64> = const { Cell::new(0) };
}

/// Captured bytes of a field decoded through a `with` module.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Cap(pub Vec<u8>);
impl Cap {
    pub fn of(b: &[u8]) -> Cap {
        Cap(b.to_vec())
    }
}
/// Variable-size probe.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct PV(pub Vec<u8>);
/// Probe of `N` bytes. It accepts any slice, so that a wrong slice shows as a wrong value.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct PF<const N: usize>(pub Vec<u8>);

pub trait Take {
    fn take(self) -> Vec<u8>;
}
impl Take for Cap {
    fn take(self) -> Vec<u8> {
        self.0
    }
}
impl Take for PV {
    fn take(self) -> Vec<u8> {
        self.0
    }
}
impl<const N: usize> Take for PF<N> {
    fn take(self) -> Vec<u8> {
        self.0
    }
}

impl Decode for PV {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        DECODES.with(|d| d.set(d.get() + 1));
        if crate::core::ctx().callback() {
            return Err(DecodeError::BytesInvalid("probe refuses".into()));
        }
        Ok(PV(b.to_vec()))
    }
}
impl Encode for PV {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(&self.0)
    }
    fn ssz_bytes_len(&self) -> usize {
        self.0.len()
    }
}
impl<const N: usize> Decode for PF<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        DECODES.with(|d| d.set(d.get() + 1));
        if crate::core::ctx().callback() {
            return Err(DecodeError::BytesInvalid("probe refuses".into()));
        }
        Ok(PF(b.to_vec()))
    }
}
impl<const N: usize> Encode for PF<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(&self.0)
    }
    fn ssz_bytes_len(&self) -> usize {
        N
    }
}

pub trait ProbeFields: Decode {
    fn fields(self) -> Vec<Vec<u8>>;
}
macro_rules! probe_tuple {
    ($(($($T:ident $i:tt),+))*) => {$(
        impl<$($T: Take + Decode),+> ProbeFields for ($($T,)+) {
            fn fields(self) -> Vec<Vec<u8>> { vec![$(self.$i.take()),+] }
        }
    )*};
}
probe_tuple! {
    (A 0, B 1)
    (A 0, B 1, C 2)
    (A 0, B 1, C 2, D 3)
    (A 0, B 1, C 2, D 3, E 4)
    (A 0, B 1, C 2, D 3, E 4, F 5)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11)
}

type DecodeFields = Box<dyn Fn(&Ctx, CallOpts, &[u8]) -> Called<Result<Vec<Vec<u8>>, DecodeError>> + Send + Sync>;

pub struct ProbeContainer {
    pub name: &'static str,
    /// per item: its fixed length, or 0 when it is variable
    pub schema: &'static [usize],
    pub decode: DecodeFields,
}
pub fn pc<T: ProbeFields + 'static>(name: &'static str, schema: &'static [usize]) -> ProbeContainer {
    ProbeContainer {
        name,
        schema,
        decode: Box::new(|c, o, b| {
            let r = lib_call(c, o, || T::from_ssz_bytes(b));
            Called { out: r.out.map(|x| x.map(|v| v.fields())), acc: r.acc }
        }),
    }
}
