//! Type-erased access to the types of the zoo.

use ssz_sim::core::{lib_call, CallOpts, Called, Ctx};
use crate::zoo::{Gen, Mem, Zoo};
use ssz::{DecodeError, Encode};
use std::any::Any;
use std::marker::PhantomData;
use std::sync::Arc;

pub type Val = Box<dyn Any + Send>;

/// Ways to append a value to a buffer.
pub const APPENDS: u64 = 5;
/// Ways to obtain fresh bytes.
pub const FRESH: u64 = 9;
/// Ways to hold a value inside another: three tuples, then three lists.
pub const HELD: u64 = 6;

pub trait Erased: Send + Sync {
    fn name(&self) -> &'static str;
    fn mem(&self) -> Mem;
    fn nofail(&self) -> bool;
    fn recursive(&self) -> bool;
    fn fixed(&self) -> bool;
    fn gen(&self, g: &mut Gen) -> Val;
    /// Append inside library code (no call wrapper).
    fn append_raw(&self, v: &Val, buf: &mut Vec<u8>);
    fn append(&self, c: &Ctx, o: CallOpts, v: &Val, buf: &mut Vec<u8>, how: u64) -> Called<()>;
    fn fresh(&self, c: &Ctx, o: CallOpts, v: &Val, how: u64) -> Called<Vec<u8>>;
    /// The value as a field and as an item, held directly, by reference and by Arc.
    fn held(&self, c: &Ctx, o: CallOpts, v: &Val, buf: &mut Vec<u8>, how: u64) -> Called<()>;
    fn manual(&self, c: &Ctx, o: CallOpts, v: &Val, buf: &mut Vec<u8>, style: u64) -> Called<bool>;
    fn decode(&self, c: &Ctx, o: CallOpts, b: &[u8]) -> Called<Result<Val, DecodeError>>;
    fn show(&self, v: &Val) -> String;
}

pub fn held_name(how: u64) -> &'static str {
    ["(T, Vec<u8>)", "(&T, &Vec<u8>)", "(Arc<T>, Arc<Vec<u8>>)", "Vec<T>", "Vec<&T>", "Vec<Arc<T>>"][(how % HELD) as usize]
}

struct Ty<T>(&'static str, PhantomData<fn() -> T>);

pub fn ty<T: Zoo + Sync>(name: &'static str) -> Box<dyn Erased> {
    Box::new(Ty::<T>(name, PhantomData))
}

pub fn append_name(how: u64) -> &'static str {
    ["T::ssz_append", "<&T>::ssz_append", "<&&T>::ssz_append", "<Arc<T>>::ssz_append", "<Arc<&T>>::ssz_append"][(how % APPENDS) as usize]
}
pub fn fresh_name(how: u64) -> &'static str {
    [
        "T::as_ssz_bytes",
        "ssz_encode(&T)",
        "ssz_append to a fresh buffer",
        "<&T>::as_ssz_bytes",
        "ssz_encode(&&T)",
        "<Arc<T>>::as_ssz_bytes",
        "ssz_encode(&Arc<T>)",
        "<&&T>::as_ssz_bytes",
        "<Arc<Arc<T>>>::as_ssz_bytes",
    ][(how % FRESH) as usize]
}

impl<T: Zoo + Sync> Ty<T> {
    fn get<'a>(&self, v: &'a Val) -> &'a T {
        v.downcast_ref::<T>().expect("value of another type")
    }
}

impl<T: Zoo + Sync> Erased for Ty<T> {
    fn name(&self) -> &'static str {
        self.0
    }
    fn mem(&self) -> Mem {
        T::mem()
    }
    fn nofail(&self) -> bool {
        T::nofail()
    }
    fn recursive(&self) -> bool {
        T::recursive()
    }
    fn fixed(&self) -> bool {
        <T as Encode>::is_ssz_fixed_len()
    }
    fn gen(&self, g: &mut Gen) -> Val {
        Box::new(T::gen(g))
    }
    fn append_raw(&self, v: &Val, buf: &mut Vec<u8>) {
        self.get(v).ssz_append(buf)
    }
    fn append(&self, c: &Ctx, o: CallOpts, v: &Val, buf: &mut Vec<u8>, how: u64) -> Called<()> {
        let v = self.get(v);
        match how % APPENDS {
            0 => lib_call(c, o, || v.ssz_append(buf)),
            1 => lib_call(c, o, || Encode::ssz_append(&v, buf)),
            2 => lib_call(c, o, || Encode::ssz_append(&&v, buf)),
            3 => {
                let a = Arc::new(v.clone());
                lib_call(c, o, || a.ssz_append(buf))
            }
            _ => {
                let a = Arc::new(v);
                lib_call(c, o, || a.ssz_append(buf))
            }
        }
    }
    fn fresh(&self, c: &Ctx, o: CallOpts, v: &Val, how: u64) -> Called<Vec<u8>> {
        let v = self.get(v);
        match how % FRESH {
            0 => lib_call(c, o, || v.as_ssz_bytes()),
            1 => lib_call(c, o, || ssz::ssz_encode(v)),
            2 => lib_call(c, o, || {
                let mut b = Vec::new();
                v.ssz_append(&mut b);
                b
            }),
            3 => lib_call(c, o, || Encode::as_ssz_bytes(&v)),
            4 => lib_call(c, o, || ssz::ssz_encode(&v)),
            5 => {
                let a = Arc::new(v.clone());
                lib_call(c, o, || a.as_ssz_bytes())
            }
            6 => {
                let a = Arc::new(v.clone());
                lib_call(c, o, || ssz::ssz_encode(&a))
            }
            7 => lib_call(c, o, || Encode::as_ssz_bytes(&&v)),
            _ => {
                let a = Arc::new(Arc::new(v.clone()));
                lib_call(c, o, || a.as_ssz_bytes())
            }
        }
    }
    fn held(&self, c: &Ctx, o: CallOpts, v: &Val, buf: &mut Vec<u8>, how: u64) -> Called<()> {
        let v = self.get(v);
        let t: Vec<u8> = vec![0x7A, 0x11, 0xE0];
        match how % HELD {
            0 => {
                let x = (v.clone(), t);
                lib_call(c, o, || x.ssz_append(buf))
            }
            1 => lib_call(c, o, || (v, &t).ssz_append(buf)),
            2 => {
                let x = (Arc::new(v.clone()), Arc::new(t));
                lib_call(c, o, || x.ssz_append(buf))
            }
            3 => {
                let x = vec![v.clone(), v.clone()];
                lib_call(c, o, || x.ssz_append(buf))
            }
            4 => {
                let x = vec![v, v];
                lib_call(c, o, || x.ssz_append(buf))
            }
            _ => {
                let a = Arc::new(v.clone());
                let x = vec![a.clone(), a];
                lib_call(c, o, || x.ssz_append(buf))
            }
        }
    }
    fn manual(&self, c: &Ctx, o: CallOpts, v: &Val, buf: &mut Vec<u8>, style: u64) -> Called<bool> {
        let v = self.get(v);
        lib_call(c, o, || v.manual(buf, style))
    }
    fn decode(&self, c: &Ctx, o: CallOpts, b: &[u8]) -> Called<Result<Val, DecodeError>> {
        let r = lib_call(c, o, || T::from_ssz_bytes(b));
        Called { out: r.out.map(|x| x.map(|v| Box::new(v) as Val)), acc: r.acc }
    }
    fn show(&self, v: &Val) -> String {
        let mut s = format!("{:?}", self.get(v));
        if s.len() > 300 {
            let mut k = 300;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            s.truncate(k);
            s.push_str("..");
        }
        s
    }
}
