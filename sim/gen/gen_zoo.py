#!/usr/bin/env python3
"""Writes src/bin/codec/zoo_gen.rs and src/bin/stream/probe_gen.rs: derived types, and the registries of types the worlds draw from.
Deterministic; the output is committed and only regenerated by hand."""
import random

R = random.Random(20240611)
out = []
W = out.append

FIX = ["u8", "u16", "u32", "u64", "u128", "usize", "bool", "NonZeroUsize", "U256", "U128", "Address", "[u8; 4]",
       "[u8; 1]", "[u8; 33]", "FixedBytes<1>", "FixedBytes<4>", "FixedBytes<32>", "FixedBytes<48>", "FixedBytes<96>", "Bloom", "YFix",
       "BitVector<U1>", "BitVector<U8>", "BitVector<U12>", "BitVector<U64>", "BitVector<U1024>", "BitVector<U4096>", "(u8, u16)",
       "(u64, [u8; 4], bool)", "Arc<u32>", "Arc<[u8; 32]>"]
VAR = ["Vec<u8>", "Vec<u16>", "Vec<u64>", "Vec<bool>", "Bytes", "Vec<Vec<u8>>", "Vec<Vec<u16>>", "Vec<Bytes>", "Option<u16>",
       "Option<Vec<u8>>", "Vec<Option<u32>>", "BitList<U0>", "BitList<U1>", "BitList<U8>", "BitList<U100>", "BitList<U2048>", "BitList<Huge>",
       "BitVectorDynamic", "SmallVec<[u8; 8]>", "SmallVec<[Vec<u8>; 2]>", "SmallVec<[u64; 4]>", "Vec<FixedBytes<32>>", "Vec<U256>",
       "BTreeSet<u16>", "BTreeMap<u8, u16>", "BTreeMap<u16, Vec<u8>>", "BTreeSet<Vec<u8>>", "YItem", "Vec<YItem>", "Vec<YFix>",
       "Arc<Vec<u8>>", "Arc<Vec<Vec<u8>>>", "(u16, Vec<u8>)", "(Vec<u8>, u16, Vec<u16>)", "Vec<(u8, Vec<u8>)>", "Vec<(u16, u32)>",
       "Vec<BitList<U8>>", "Vec<BitVector<U12>>", "Option<Arc<Vec<u8>>>", "Vec<Arc<u64>>"]

W("// @generated by gen/gen_zoo.py. Do not edit.")
W("#![allow(clippy::all, dead_code, unused)]")
W("use crate::zoo::*;\nuse crate::erased::{ty, Erased};\nuse alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};")
W("use smallvec::SmallVec;\nuse ssz::{four_byte_option_impl, BitList, BitVector, BitVectorDynamic, Encode as _, Decode as _, SszEncoder};")
W("use ssz_derive::{Decode, Encode};\nuse std::collections::{BTreeMap, BTreeSet};\nuse std::num::NonZeroUsize;\nuse std::sync::Arc;")
W("use typenum::*;\npub type Huge = typenum::U1099511627776;\n")
W("type VecU8 = Vec<u8>;\ntype VecVec = Vec<Vec<u8>>;\n")
LEG = [("leg_u16", "u16"), ("leg_u64", "u64"), ("leg_vec", "VecU8"), ("leg_vv", "VecVec")]
for m, t in LEG:
    W(f"four_byte_option_impl!({m}, {t});")
W("")
reg = []


def mems(ts):
    return "&[" + ", ".join(f"<{t} as Zoo>::mem()" for t in ts) + "]"


def nofail(ts):
    return " || ".join(["false"] + [f"<{t} as Zoo>::nofail()" for t in sorted(set(ts))])


def struct(name, fields, generics="", bounds="", gname=None):
    """fields: (kind, type); kind in plain, skip, or a legacy module name"""
    W("#[derive(Clone, Debug, PartialEq, Encode, Decode)]")
    W(f"pub struct {name}{bounds} {{")
    for i, (k, t) in enumerate(fields):
        if k == "skip":
            W("    #[ssz(skip_serializing, skip_deserializing)]")
        elif k != "plain":
            W(f'    #[ssz(with = "{k}")]')
        W(f"    pub f{i}: {t},")
    W("}")
    real = [t for k, t in fields if k != "skip"]
    W(f"impl{bounds.replace('Encode + Decode + ', '')} Zoo for {name}{generics} {{")
    W("    fn gen(g: &mut Gen) -> Self {")
    W("        " + name + " { " + ", ".join(
        f"f{i}: Default::default()" if k == "skip" else f"f{i}: <{t} as Zoo>::gen(g)" for i, (k, t) in enumerate(fields)) + " }")
    W("    }")
    W(f"    fn mem() -> Mem {{ fields_mem({mems(real)}) }}")
    W(f"    fn nofail() -> bool {{ {nofail(real)} }}")
    W("    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {")
    terms = []
    for k, t in fields:
        if k == "skip":
            continue
        terms.append(f"<{t} as ssz::Encode>::ssz_fixed_len()" if k == "plain" else f"{k}::encode::ssz_fixed_len()")
    W("        let n = " + (" + ".join(terms) or "0") + ";")
    W("        let mut e = SszEncoder::container(buf, n);")
    for i, (k, t) in enumerate(fields):
        if k == "skip":
            continue
        if k == "plain":
            W(f"        field(&mut e, &self.f{i}, style.wrapping_add({i}));")
        else:
            W(f"        e.append_parameterized({k}::encode::is_ssz_fixed_len(), |b| if style % 2 == 0 {{ {k}::encode::ssz_append(&self.f{i}, b) }} else {{ b.extend_from_slice(&{k}::encode::as_ssz_bytes(&self.f{i})) }});")
    W("        e.finalize();\n        true\n    }")
    W("}\n")


def pick(pvar):
    return R.choice(VAR) if R.random() < pvar else R.choice(FIX)


names = []
n = 0


def add(name):
    names.append(name)
    reg.append(name)


# containers
for size in [1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 9, 10, 12, 16]:
    for p in (0.0, 0.4, 0.8):
        if size > 7 and p == 0.8:
            continue
        fs = []
        for _ in range(size):
            if names and R.random() < 0.12:
                fs.append(("plain", R.choice([x for x in names]) if R.random() < 0.5 else f"Vec<{R.choice(names)}>"))
            else:
                fs.append(("plain", pick(p)))
        struct(f"S{n}", fs)
        add(f"S{n}")
        n += 1
# skipped fields and legacy options
for i in range(10):
    fs = []
    for _ in range(R.randint(2, 6)):
        c = R.random()
        if c < 0.25:
            fs.append(("skip", R.choice(["u8", "Vec<u8>", "u64"])))
        elif c < 0.6:
            m, t = R.choice(LEG)
            fs.append((m, f"Option<{t}>"))
        else:
            fs.append(("plain", pick(0.5)))
    fs.append(("plain", pick(0.5)))
    struct(f"L{i}", fs)
    add(f"L{i}")
# generic
W("#[derive(Clone, Debug, PartialEq, Encode, Decode)]")
W("pub struct Wrap<T: ssz::Encode + ssz::Decode> { pub a: u16, pub t: T, pub c: Vec<u8> }")
W("""impl<T: Zoo> Zoo for Wrap<T> {
    fn gen(g: &mut Gen) -> Self { Wrap { a: u16::gen(g), t: T::gen(g), c: <Vec<u8>>::gen(g) } }
    fn mem() -> Mem { fields_mem(&[T::mem(), <Vec<u8>>::mem()]) }
    fn nofail() -> bool { T::nofail() }
    fn manual(&self, buf: &mut Vec<u8>, style: u64) -> bool {
        let n = 2 + <T as ssz::Encode>::ssz_fixed_len() + 4;
        let mut e = SszEncoder::container(buf, n);
        field(&mut e, &self.a, style);
        field(&mut e, &self.t, style.wrapping_add(1));
        field(&mut e, &self.c, style.wrapping_add(2));
        e.finalize();
        true
    }
}
""")
# transparent structs
for i, t in enumerate(["u16", "Vec<u8>", "Vec<Vec<u8>>", "S3", "BitList<U8>", "Option<u16>", "YItem", "(u8, Vec<u8>)", "FixedBytes<32>", "Bytes"]):
    W('#[derive(Clone, Debug, PartialEq, Encode, Decode)]\n#[ssz(struct_behaviour = "transparent")]')
    if i % 3 == 0:
        W(f"pub struct T{i} {{ pub x: {t} }}")
        g = f"T{i} {{ x: <{t} as Zoo>::gen(g) }}"
    elif i % 3 == 1:
        W(f"pub struct T{i}(pub {t});")
        g = f"T{i}(<{t} as Zoo>::gen(g))"
    else:
        W(f"pub struct T{i}(#[ssz(skip_serializing, skip_deserializing)] pub u8, pub {t});")
        g = f"T{i}(0, <{t} as Zoo>::gen(g))"
    W(f"impl Zoo for T{i} {{ fn gen(g: &mut Gen) -> Self {{ {g} }} fn mem() -> Mem {{ <{t} as Zoo>::mem() }} fn nofail() -> bool {{ <{t} as Zoo>::nofail() }} }}\n")
    add(f"T{i}")
# unions
for i, nv in enumerate([1, 2, 3, 4, 6, 9, 128]):
    vs = [R.choice(["u8", "Vec<u8>", "u64"]) if nv == 128 else pick(0.6) for _ in range(nv)]
    W('#[derive(Clone, Debug, PartialEq, Encode, Decode)]\n#[ssz(enum_behaviour = "union")]')
    W(f"pub enum U{i}x {{ " + ", ".join(f"V{j}({t})" for j, t in enumerate(vs)) + " }")
    W(f"impl Zoo for U{i}x {{ fn gen(g: &mut Gen) -> Self {{ g.take(1); match g.r.below({nv}) {{ " +
      " ".join(f"{j} => U{i}x::V{j}(<{t} as Zoo>::gen(g))," for j, t in enumerate(vs)) +
      f" _ => unreachable!() }} }} fn mem() -> Mem {{ union_mem({mems(sorted(set(vs)))}) }} fn nofail() -> bool {{ {nofail(vs)} }} }}\n")
    add(f"U{i}x")
# transparent enums
for i, vs in enumerate([["Vec<u16>", "Vec<u8>"], ["S1", "Vec<u64>", "YItem"], ["BitList<U8>", "BitList<U100>", "Bytes"], ["Vec<Vec<u8>>", "(u16, Vec<u8>)", "Vec<u8>"]]):
    vs = [v if v != "S1" else "(u8, Vec<u16>)" for v in vs]
    W('#[derive(Clone, Debug, PartialEq, Encode, Decode)]\n#[ssz(enum_behaviour = "transparent")]')
    W(f"pub enum E{i} {{ " + ", ".join(f"V{j}({t})" for j, t in enumerate(vs)) + " }")
    W(f"impl Zoo for E{i} {{ fn gen(g: &mut Gen) -> Self {{ match g.r.below({len(vs)}) {{ " +
      " ".join(f"{j} => E{i}::V{j}(<{t} as Zoo>::gen(g))," for j, t in enumerate(vs)) +
      f" _ => unreachable!() }} }} fn mem() -> Mem {{ union_mem({mems(vs)}) }} fn nofail() -> bool {{ {nofail(vs)} }} }}\n")
    add(f"E{i}")
# tags
for i, nv in enumerate([1, 3, 128]):
    W('#[derive(Clone, Copy, Debug, PartialEq, Encode, Decode)]\n#[ssz(enum_behaviour = "tag")]')
    W(f"pub enum G{i} {{ " + ", ".join(f"V{j}" for j in range(nv)) + " }")
    W(f"impl Zoo for G{i} {{ fn gen(g: &mut Gen) -> Self {{ g.take(1); match g.r.below({nv}) {{ " +
      " ".join(f"{j} => G{i}::V{j}," for j in range(nv)) + " _ => unreachable!() } } fn mem() -> Mem { Mem { a: 0, b: 0 } } }\n")
    add(f"G{i}")
# recursive
W("""#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct Rec { pub x: u8, pub kids: Vec<Rec> }
impl Zoo for Rec {
    fn gen(g: &mut Gen) -> Self {
        g.take(5);
        g.depth += 1;
        let n = if g.depth > 24 || g.budget == 0 { 0 } else { g.r.below(4) };
        let kids = (0..n).map(|_| Rec::gen(g)).collect();
        g.depth -= 1;
        Rec { x: u8::gen(g), kids }
    }
    // one level costs 32 bytes per offset word of 4 and at least 9 bytes of input
    fn mem() -> Mem { Mem { a: 64, b: 512 } }
    fn recursive() -> bool { true }
}
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum RecU { Leaf(Vec<u8>), Node(Vec<RecU>), Opt(Option<Arc<RecU>>) }
impl Zoo for RecU {
    fn gen(g: &mut Gen) -> Self {
        g.take(2);
        g.depth += 1;
        let v = match if g.depth > 24 || g.budget == 0 { 0 } else { g.r.below(4) } {
            0 => RecU::Leaf(<Vec<u8>>::gen(g)),
            1 => RecU::Opt(Some(Arc::new(RecU::gen(g)))),
            _ => {
                let n = g.r.below(5);
                RecU::Node((0..n).map(|_| RecU::gen(g)).collect())
            }
        };
        g.depth -= 1;
        v
    }
    fn mem() -> Mem { Mem { a: 96, b: 512 } }
    fn recursive() -> bool { true }
}
""")
reg += ["Rec", "RecU"]

std = FIX + VAR + [
    "[u8; 0]", "[u8; 256]", "FixedBytes<0>", "FixedBytes<8>", "FixedBytes<20>", "FixedBytes<31>", "FixedBytes<33>", "FixedBytes<256>",
    "Vec<u32>", "Vec<u128>", "Vec<usize>", "Vec<NonZeroUsize>", "Vec<Address>", "Vec<Bloom>", "Vec<FixedBytes<1>>", "Vec<FixedBytes<48>>", "Vec<FixedBytes<96>>", "Vec<[u8; 4]>", "Vec<[u8; 33]>",
    "Vec<U128>", "Vec<Vec<Vec<u8>>>", "Vec<Vec<Vec<Vec<u16>>>>", "Vec<Vec<FixedBytes<32>>>", "Vec<SmallVec<[u8; 8]>>", "SmallVec<[SmallVec<[u16; 2]>; 3]>", "SmallVec<[Vec<Vec<u8>>; 1]>", "SmallVec<[Bytes; 4]>",
    "SmallVec<[FixedBytes<32>; 4]>", "SmallVec<[u8; 128]>", "Option<u8>", "Option<Option<u16>>", "Option<Vec<Vec<u8>>>", "Option<FixedBytes<32>>", "Option<U256>", "Option<Bytes>", "Option<BitList<U8>>", "Vec<Option<Vec<u8>>>",
    "BTreeMap<u64, u64>", "BTreeMap<Vec<u8>, u8>", "BTreeMap<Vec<u8>, Vec<u8>>", "BTreeMap<U256, Bytes>", "BTreeMap<u8, Vec<Vec<u16>>>", "BTreeMap<u16, BTreeMap<u8, Vec<u8>>>", "BTreeSet<u8>", "BTreeSet<U256>", "BTreeSet<(u8, Vec<u8>)>",
    "BTreeSet<BTreeSet<u8>>", "BTreeSet<YItem>", "BTreeMap<u8, YItem>", "BTreeSet<Bytes>", "BTreeSet<Vec<Vec<u8>>>",
    "Arc<Vec<Arc<u16>>>", "Arc<Arc<Vec<u8>>>", "Arc<Option<Vec<u8>>>", "Vec<Arc<Vec<u8>>>", "Arc<S3>", "Vec<Arc<S5>>", "Arc<Bytes>", "Arc<FixedBytes<32>>", "Arc<BitList<U8>>", "Arc<Bloom>",
    "BitList<U7>", "BitList<U16>", "BitList<U17>", "BitList<U1024>", "BitVector<U2>", "BitVector<U16>", "BitVector<U513>", "Vec<BitVectorDynamic>", "Vec<BitList<Huge>>", "Vec<BitVector<U1>>", "Vec<BitVector<U1024>>",
    "(u8, u8)", "(Vec<u8>, Vec<u8>)", "(Vec<u8>, Vec<u16>, Vec<u32>)", "(u8, Vec<u8>, u16, Vec<u16>)", "(bool, U256, Bytes, Option<u8>, Address)",
    "(u8, u16, u32, u64, u128, Vec<u8>)", "(Vec<u8>, u16, u32, Vec<u8>, u8, u16, Bytes)", "(u8, u8, u8, u8, u8, u8, u8, u8)",
    "(Vec<u8>, u8, Vec<u8>, u8, Vec<u8>, u8, Vec<u8>, u8, Vec<u8>)", "(u8, u16, u32, u64, Vec<u8>, Vec<u16>, Vec<Vec<u8>>, bool, Bytes, U256)",
    "(u8, u8, u8, Vec<u8>, u8, u8, u8, Vec<u8>, u8, u8, u8)", "(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)",
    "(u16, u16, u16, u16, u16, u16, u16, u16, u16, u16, u16, u16)", "((u8, Vec<u8>), (Vec<u8>, u8))", "(u8, (u8, (u8, (u8, Vec<u8>))))", "((u8, u16), (u32, Vec<u8>), u8)",
    "Wrap<u16>", "Wrap<Vec<u8>>", "Wrap<Wrap<Vec<u8>>>", "Wrap<Wrap<Wrap<Vec<YItem>>>>", "Wrap<Wrap<Wrap<Wrap<Wrap<u8>>>>>", "Vec<Wrap<Vec<Wrap<Bytes>>>>", "Wrap<FixedBytes<32>>", "Wrap<BitList<U100>>", "Wrap<Option<Vec<u8>>>", "Wrap<BTreeMap<u8, Vec<u8>>>", "Wrap<SmallVec<[Vec<u8>; 2]>>",
    "Wrap<Vec<Vec<u8>>>", "Wrap<Arc<Vec<Vec<u8>>>>", "Wrap<RecU>", "Vec<U2x>", "Vec<E0>", "Vec<G1>", "Vec<T2>", "Vec<S0>", "Vec<S1>", "Vec<S5>", "Vec<S8>", "Option<S5>", "BTreeMap<u8, S4>", "SmallVec<[S2; 2]>", "Vec<L1>", "Vec<L3>", "Option<U3x>", "Vec<Vec<S4>>", "Vec<Vec<YItem>>",
]
seen = set()
allt = []
for t in std + reg:
    if t not in seen:
        seen.add(t)
        allt.append(t)
W("pub fn registry() -> Vec<Box<dyn Erased>> {\n    vec![")
for t in allt:
    W(f'        ty::<{t}>("{t}"),')
W("    ]\n}\n")

# ---------------------------------------------------------------------------------------------
# C09: containers of probes. A schema entry is the fixed length, 0 for variable.
open("src/bin/codec/zoo_gen.rs", "w").write("\n".join(out) + "\n")
out.clear()
W("// @generated by gen/gen_zoo.py. Do not edit.")
W("use ssz_derive::{Decode, Encode};\nuse ssz_sim::probe::*;\n")
W("pub fn probe_containers() -> Vec<ProbeContainer> {\n    let mut v: Vec<ProbeContainer> = vec![];")
schemas = []
for size in [1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 12, 17]:
    for p in (0.0, 0.35, 0.7, 1.0):
        if p in (0.0,) and size > 6:
            continue
        schemas.append([0 if R.random() < p else R.choice([1, 2, 3, 4, 5, 8, 13, 32]) for _ in range(size)])
defs = []
k = 0
for s in schemas:
    D = defs.append
    withs = [R.random() < 0.2 for _ in s]
    skips = [R.random() < 0.1 for _ in s]
    D("#[derive(Clone, Debug, PartialEq, Encode, Decode)]")
    D(f"pub struct P{k} {{")
    for i, f in enumerate(s):
        if skips[i]:
            D("    #[ssz(skip_serializing, skip_deserializing)]")
            D(f"    pub s{i}: u32,")
        if withs[i]:
            m = f"pm{f}"
            D(f'    #[ssz(with = "{m}")]')
            D(f"    pub f{i}: Cap,")
        else:
            D(f"    pub f{i}: " + ("PV," if f == 0 else f"PF<{f}>,"))
    D("}")
    D(f"impl ProbeFields for P{k} {{ fn fields(self) -> Vec<Vec<u8>> {{ vec![" + ", ".join(f"self.f{i}.take()" for i in range(len(s))) + "] } }")
    W(f"    v.push(pc::<P{k}>(\"P{k}\", &{s}));")
    k += 1
# tuples of probes
for size in range(2, 13):
    for p in (0.0, 0.4, 1.0):
        s = [0 if R.random() < p else R.choice([1, 2, 3, 4, 5, 8, 13, 32]) for _ in range(size)]
        t = "(" + ", ".join("PV" if f == 0 else f"PF<{f}>" for f in s) + ",)"
        W(f"    v.push(pc::<{t}>(\"{t}\", &{s}));")
W("    v\n}\n")
for f in sorted({x for s in schemas for x in s}):
    W(f"""#[allow(dead_code)]
mod pm{f} {{
    pub mod encode {{
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool {{ {str(f != 0).lower()} }}
        pub fn ssz_fixed_len() -> usize {{ {f if f else 4} }}
        pub fn ssz_bytes_len(c: &Cap) -> usize {{ c.0.len() }}
        pub fn ssz_append(c: &Cap, buf: &mut Vec<u8>) {{ buf.extend_from_slice(&c.0) }}
    }}
    pub mod decode {{
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool {{ {str(f != 0).lower()} }}
        pub fn ssz_fixed_len() -> usize {{ {f if f else 4} }}
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Cap, ssz::DecodeError> {{ Ok(Cap::of(b)) }}
    }}
}}""")
out += defs
open("src/bin/stream/probe_gen.rs", "w").write("\n".join(out) + "\n")
print(len(allt), "types;", k, "probe containers")
