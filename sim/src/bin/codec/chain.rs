//! C06: types whose values nest as deep as the message is long, the messages that nest so, and wide
//! bit vectors. All are only decoded.

use crate::zoo::Mem;
use smallvec::SmallVec;
use ssz::{four_byte_option_impl, BitList, BitVector, Decode};
use ssz_derive::{Decode as SszDecode, Encode};
use ssz_sim::core::{lib_call, CallOpts, Called, Ctx};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use typenum::{U1, U1073741824, U16777216, U8};

/// Longest nested message, so that recursion fits the stack of a simulated task.
pub const MAX: usize = 4096;

#[derive(Encode, SszDecode)]
#[ssz(enum_behaviour = "union")]
pub enum Link {
    End(BitList<U8>),
    Next(Arc<Link>),
    Short(u16),
}
#[derive(Encode, SszDecode)]
#[ssz(enum_behaviour = "union")]
pub enum Tree {
    Leaf(BitList<U8>),
    Node(Vec<Tree>),
    Small(SmallVec<[Arc<Tree>; 1]>),
    Flag(bool),
    Vector(BitVector<U8>),
    Text(Vec<u8>),
}
#[derive(Encode, SszDecode)]
pub struct Folder {
    pub name: u8,
    pub kids: Vec<Folder>,
    pub sum: BitVector<U1>,
}
#[derive(Encode, SszDecode)]
#[ssz(struct_behaviour = "transparent")]
pub struct Maybe(pub Option<Arc<Maybe>>);
#[derive(Encode, SszDecode)]
pub struct Pair {
    pub left: Vec<Pair>,
    pub right: Option<Arc<Pair>>,
}
#[derive(Encode, SszDecode)]
#[ssz(struct_behaviour = "transparent")]
pub struct Lists(pub Vec<Lists>);
#[derive(Encode, SszDecode)]
pub struct Legacy {
    #[ssz(with = "leg_legacy")]
    pub next: Option<ArcLegacy>,
}
type ArcLegacy = Arc<Legacy>;
four_byte_option_impl!(leg_legacy, ArcLegacy);
#[derive(Encode, SszDecode)]
pub struct Maps {
    pub kids: BTreeMap<u8, Maps>,
}
#[derive(Encode, SszDecode, PartialEq, Eq, PartialOrd, Ord)]
#[ssz(struct_behaviour = "transparent")]
pub struct Sets(pub BTreeSet<Sets>);
#[derive(Encode, SszDecode)]
pub struct Tuples {
    pub t: (Vec<Tuples>, u8),
}
#[derive(Encode, SszDecode)]
#[ssz(enum_behaviour = "transparent")]
pub enum Guess {
    List(Vec<Guess>),
    Num(u64),
    Flag(bool),
}
#[derive(Encode, SszDecode)]
pub struct Wide {
    pub a: Vec<u8>,
    pub v: BitVector<U16777216>,
}
#[derive(Encode, SszDecode)]
#[ssz(enum_behaviour = "union")]
pub enum WideU {
    A(Vec<u8>),
    V(BitVector<U1073741824>),
}

pub type Run = fn(&Ctx, CallOpts, &[u8]) -> Called<bool>;
pub struct Target {
    pub name: &'static str,
    pub run: Run,
    pub mem: Mem,
    /// one level of nesting, in every form a sender may give it
    pub units: &'static [&'static [u8]],
    pub leaves: &'static [&'static [u8]],
}

fn run<T: Decode>(c: &Ctx, o: CallOpts, b: &[u8]) -> Called<bool> {
    lib_call(c, o, || T::from_ssz_bytes(b).is_ok())
}

const L: &[&[u8]] = &[&[], &[0], &[1], &[0, 1], &[0, 0], &[0, 1, 2], &[0, 0xFF, 0xFF], &[2, 1, 2], &[3, 2], &[4, 1, 1], &[1], &[3], &[0x80], &[5], &[5, 1, 2, 3], &[1, 0, 0, 0, 0], &[1, 0xFC, 0xFF, 0xFF, 0xFF]];
const W: Mem = Mem { a: 4, b: 512 };

/// Messages for a `BitVector` of N bits are as long as it: it may cost a few times N/8 once any
/// byte of one is there (a constant of the type times the length), and nothing before.
const fn wide(bits: u64, n: u64) -> Mem {
    Mem { a: if n == 0 { 4 } else { bits / 8 }, b: 512 }
}

pub fn mem(t: &Target, n: usize) -> Mem {
    if t.mem.a > 1 << 20 && n == 0 {
        W
    } else {
        t.mem
    }
}

pub fn targets() -> &'static [Target] {
    const T: &[Target] = &[
        Target { name: "chain of unions", run: run::<Link>, mem: Mem { a: 96, b: 512 }, units: &[&[1]], leaves: L },
        Target {
            name: "tree of unions and lists",
            run: run::<Tree>,
            mem: Mem { a: 96, b: 512 },
            units: &[&[1, 4, 0, 0, 0], &[2, 4, 0, 0, 0], &[1, 8, 0, 0, 0, 10, 0, 0, 0, 3, 1], &[2, 8, 0, 0, 0, 10, 0, 0, 0, 0, 1], &[1, 12, 0, 0, 0, 13, 0, 0, 0, 15, 0, 0, 0, 5, 3, 1]],
            leaves: L,
        },
        Target {
            name: "tree of containers",
            run: run::<Folder>,
            mem: Mem { a: 64, b: 512 },
            units: &[&[9, 6, 0, 0, 0, 1, 4, 0, 0, 0], &[9, 6, 0, 0, 0, 0, 4, 0, 0, 0], &[9, 6, 0, 0, 0, 1, 8, 0, 0, 0, 14, 0, 0, 0, 9, 6, 0, 0, 0, 1]],
            leaves: &[&[9, 6, 0, 0, 0, 1], &[9, 6, 0, 0, 0, 2], &[9, 6, 0, 0, 0], &[], &[9, 7, 0, 0, 0, 1, 0]],
        },
        Target { name: "chain of options", run: run::<Maybe>, mem: Mem { a: 96, b: 512 }, units: &[&[1]], leaves: &[&[0], &[], &[2], &[0, 0]] },
        Target {
            name: "tree of containers and options",
            run: run::<Pair>,
            mem: Mem { a: 96, b: 512 },
            units: &[&[8, 0, 0, 0, 8, 0, 0, 0, 1]],
            leaves: &[&[8, 0, 0, 0, 8, 0, 0, 0, 0], &[8, 0, 0, 0, 8, 0, 0, 0], &[8, 0, 0, 0, 8, 0, 0, 0, 7], &[]],
        },
        Target { name: "lists of lists", run: run::<Lists>, mem: Mem { a: 64, b: 512 }, units: &[&[4, 0, 0, 0], &[8, 0, 0, 0, 8, 0, 0, 0], &[12, 0, 0, 0, 12, 0, 0, 0, 12, 0, 0, 0]], leaves: &[&[], &[4, 0, 0, 0], &[0, 0, 0, 0], &[1], &[0xFC, 0xFF, 0xFF, 0xFF]] },
        Target {
            name: "chain of legacy options",
            run: run::<Legacy>,
            mem: Mem { a: 96, b: 512 },
            units: &[&[4, 0, 0, 0, 1, 0, 0, 0]],
            leaves: &[&[4, 0, 0, 0, 0, 0, 0, 0], &[4, 0, 0, 0, 2, 0, 0, 0], &[4, 0, 0, 0, 1, 0, 0], &[4, 0, 0, 0], &[]],
        },
        Target {
            name: "tree of maps",
            run: run::<Maps>,
            mem: Mem { a: 96, b: 1024 },
            units: &[&[4, 0, 0, 0, 4, 0, 0, 0, 7, 5, 0, 0, 0], &[4, 0, 0, 0, 8, 0, 0, 0, 17, 0, 0, 0, 7, 5, 0, 0, 0, 4, 0, 0, 0, 9, 5, 0, 0, 0]],
            leaves: &[&[4, 0, 0, 0], &[], &[5, 0, 0, 0], &[4, 0, 0, 0, 0xFC, 0xFF, 0xFF, 0xFF]],
        },
        Target { name: "sets of sets", run: run::<Sets>, mem: Mem { a: 96, b: 1024 }, units: &[&[4, 0, 0, 0], &[8, 0, 0, 0, 8, 0, 0, 0], &[12, 0, 0, 0, 12, 0, 0, 0, 12, 0, 0, 0]], leaves: &[&[], &[4, 0, 0, 0], &[0, 0, 0, 0], &[1], &[0xFC, 0xFF, 0xFF, 0xFF]] },
        Target {
            name: "tree of tuples",
            run: run::<Tuples>,
            mem: Mem { a: 96, b: 512 },
            units: &[&[4, 0, 0, 0, 5, 0, 0, 0, 9, 4, 0, 0, 0], &[4, 0, 0, 0, 5, 0, 0, 0, 9, 8, 0, 0, 0, 17, 0, 0, 0, 4, 0, 0, 0, 5, 0, 0, 0, 9]],
            leaves: &[&[4, 0, 0, 0, 5, 0, 0, 0, 9], &[], &[4, 0, 0, 0, 6, 0, 0, 0, 9, 1], &[4, 0, 0, 0, 5, 0, 0]],
        },
        Target { name: "guessed lists", run: run::<Guess>, mem: Mem { a: 96, b: 512 }, units: &[&[4, 0, 0, 0], &[8, 0, 0, 0, 8, 0, 0, 0]], leaves: &[&[], &[1], &[2], &[0; 8], &[4, 0, 0, 0], &[0xFC, 0xFF, 0xFF, 0xFF]] },
        Target { name: "BitVector<2^30>", run: run::<BitVector<U1073741824>>, mem: wide(1 << 30, 1), units: &[&[0]], leaves: &[&[], &[1]] },
        Target { name: "BitVector<2^24>", run: run::<BitVector<U16777216>>, mem: wide(1 << 24, 1), units: &[&[0]], leaves: &[&[], &[1]] },
        Target { name: "list of BitVector<2^30>", run: run::<Vec<BitVector<U1073741824>>>, mem: wide(1 << 30, 1), units: &[&[0]], leaves: &[&[], &[1]] },
        Target { name: "container with a BitVector<2^24>", run: run::<Wide>, mem: wide(1 << 24, 1), units: &[&[4, 0, 2, 0]], leaves: &[&[], &[1]] },
        Target { name: "union with a BitVector<2^30>", run: run::<WideU>, mem: wide(1 << 30, 1), units: &[&[0]], leaves: &[&[], &[1]] },
    ];
    T
}

/// Must memory not be refused? (std aborts in BTree code)
pub fn nofail(t: &Target) -> bool {
    t.name == "tree of maps" || t.name == "sets of sets"
}

/// A message that nests, in the way `t` does, `n` times.
pub fn nested(c: &Ctx, t: &Target) -> Vec<u8> {
    let levels = match c.draw(6) {
        0 => c.draw(3),
        1 => c.draw(20),
        2 => c.draw(200),
        3 => c.draw(1000),
        _ => MAX as u64,
    } as usize;
    let mixed = c.draw(3) == 2;
    let first = c.draw(t.units.len() as u64) as usize;
    let leaf = t.leaves[c.draw(t.leaves.len() as u64) as usize];
    let room = match c.draw(4) {
        0 => 200,
        1 => 1500,
        _ => MAX,
    } - leaf.len();
    let mut r = c.rng();
    let mut b = vec![];
    for _ in 0..levels {
        let u = t.units[if mixed { r.below(t.units.len() as u64) as usize } else { first }];
        if b.len() + u.len() > room {
            break;
        }
        b.extend_from_slice(u);
    }
    b.extend_from_slice(leaf);
    b
}
