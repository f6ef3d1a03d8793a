//! C09: builders fed by registration histories, derived containers, tuples and lists, against a
//! tiling reference.

use crate::*;
use smallvec::SmallVec;
use ssz_derive::Decode;
use ssz::{Decode, DecodeError, SszDecoderBuilder};
use ssz_sim::probe::*;
use ssz_sim::runner::World;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, OnceLock};

pub const WORLD: World = World { property: "C09", max_steps: 6000, setup };

pub fn containers() -> &'static [ProbeContainer] {
    static C: OnceLock<Vec<ProbeContainer>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = crate::probe_gen::probe_containers();
        // items that take no bytes at all
        const N: usize = NOTHING;
        v.push(pc::<(PF<0>, PV)>("(PF<0>, PV)", &[N, 0]));
        v.push(pc::<(PV, PF<0>)>("(PV, PF<0>)", &[0, N]));
        v.push(pc::<(PV, PF<0>, PV, PF<0>, PF<2>)>("(PV, PF<0>, PV, PF<0>, PF<2>)", &[0, N, 0, N, 2]));
        v.push(pc::<(PF<0>, PF<3>, PF<0>)>("(PF<0>, PF<3>, PF<0>)", &[N, 3, N]));
        v.push(pc::<(PF<0>, PF<0>)>("(PF<0>, PF<0>)", &[N, N]));
        v.push(pc::<Z0>("Z0", &[N, 0, 0, N, 5]));
        v.push(pc::<Z1>("Z1", &[4, N, 1]));
        v.push(pc::<Z2>("Z2", &[0, N, N]));
        v
    })
}

#[derive(Decode)]
struct Z0 {
    a: PF<0>,
    b: PV,
    c: PV,
    d: PF<0>,
    e: PF<5>,
}
#[derive(Decode)]
struct Z1 {
    a: PF<4>,
    b: PF<0>,
    c: PF<1>,
}
#[derive(Decode)]
struct Z2 {
    a: PV,
    b: PF<0>,
    c: PF<0>,
}
impl ProbeFields for Z0 {
    fn fields(self) -> Vec<Vec<u8>> {
        vec![self.a.take(), self.b.take(), self.c.take(), self.d.take(), self.e.take()]
    }
}
impl ProbeFields for Z1 {
    fn fields(self) -> Vec<Vec<u8>> {
        vec![self.a.take(), self.b.take(), self.c.take()]
    }
}
impl ProbeFields for Z2 {
    fn fields(self) -> Vec<Vec<u8>> {
        vec![self.a.take(), self.b.take(), self.c.take()]
    }
}

/// A real type that takes no bytes.
#[derive(Decode)]
struct Blank {
    #[ssz(skip_deserializing)]
    #[allow(dead_code)]
    left_out: u32,
}

type Items = Result<Vec<Vec<u8>>, DecodeError>;
struct ListType {
    name: &'static str,
    decode: fn(&Ctx, CallOpts, &[u8]) -> Called<Items>,
    /// what the collection holds of the items in list order
    model: fn(Vec<Vec<u8>>) -> Option<Vec<Vec<u8>>>,
    nofail: bool,
}

fn ident(v: Vec<Vec<u8>>) -> Option<Vec<Vec<u8>>> {
    Some(v)
}
fn sorted(v: Vec<Vec<u8>>) -> Option<Vec<Vec<u8>>> {
    Some(v.into_iter().collect::<BTreeSet<_>>().into_iter().collect())
}
/// Every item is itself a container `schema`; its fields are flattened.
fn fields(schema: &[usize], v: Vec<Vec<u8>>) -> Option<Vec<Vec<u8>>> {
    let mut out = vec![];
    for b in v {
        for (s, e) in tile(schema, &b)? {
            out.push(b[s..e].to_vec());
        }
    }
    Some(out)
}
fn map_fields(schema: &[usize], v: Vec<Vec<u8>>) -> Option<Vec<Vec<u8>>> {
    let f = fields(schema, v)?;
    let m: BTreeMap<Vec<u8>, Vec<u8>> = f.chunks(2).map(|p| (p[0].clone(), p[1].clone())).collect();
    Some(m.into_iter().flat_map(|(k, v)| [k, v]).collect())
}
/// Every item is itself a list.
fn lists(v: Vec<Vec<u8>>) -> Option<Vec<Vec<u8>>> {
    let mut out = vec![];
    for b in v {
        out.push(b"[".to_vec());
        for (s, e) in tile_list(&b)? {
            out.push(b[s..e].to_vec());
        }
        out.push(b"]".to_vec());
    }
    Some(out)
}

fn list<T: Decode + 'static>(
    c: &Ctx,
    o: CallOpts,
    b: &[u8],
    f: impl FnOnce(T) -> Vec<Vec<u8>>,
) -> Called<Items> {
    let r = lib_call(c, o, || T::from_ssz_bytes(b));
    Called { out: r.out.map(|x| x.map(f)), acc: r.acc }
}

static LISTS: &[ListType] = &[
    ListType {
        name: "Vec<PV>",
        decode: |c, o, b| list::<Vec<PV>>(c, o, b, |v| v.into_iter().map(Take::take).collect()),
        model: ident,
        nofail: false,
    },
    ListType {
        name: "SmallVec<[PV; 1]>",
        decode: |c, o, b| list::<SmallVec<[PV; 1]>>(c, o, b, |v| v.into_iter().map(Take::take).collect()),
        model: ident,
        nofail: false,
    },
    ListType {
        name: "SmallVec<[PV; 8]>",
        decode: |c, o, b| list::<SmallVec<[PV; 8]>>(c, o, b, |v| v.into_iter().map(Take::take).collect()),
        model: ident,
        nofail: false,
    },
    ListType {
        name: "decode_list_of_variable_length_items into Vec",
        decode: |c, o, b| {
            let r = lib_call(c, o, || ssz::decode_list_of_variable_length_items::<PV, Vec<PV>>(b, None));
            Called { out: r.out.map(|x| x.map(|v| v.into_iter().map(Take::take).collect())), acc: r.acc }
        },
        model: ident,
        nofail: false,
    },
    ListType {
        name: "BTreeSet<PV>",
        decode: |c, o, b| list::<BTreeSet<PV>>(c, o, b, |v| v.into_iter().map(Take::take).collect()),
        model: sorted,
        nofail: true,
    },
    ListType {
        name: "BTreeMap<PF<2>, PV>",
        decode: |c, o, b| {
            list::<BTreeMap<PF<2>, PV>>(c, o, b, |v| v.into_iter().flat_map(|(k, x)| [k.0, x.0]).collect())
        },
        model: |v| map_fields(&[2, 0], v),
        nofail: true,
    },
    ListType {
        name: "BTreeMap<PV, PV>",
        decode: |c, o, b| {
            list::<BTreeMap<PV, PV>>(c, o, b, |v| v.into_iter().flat_map(|(k, x)| [k.0, x.0]).collect())
        },
        model: |v| map_fields(&[0, 0], v),
        nofail: true,
    },
    ListType {
        name: "Vec<(PV, PF<3>)>",
        decode: |c, o, b| list::<Vec<(PV, PF<3>)>>(c, o, b, |v| v.into_iter().flat_map(|(k, x)| [k.0, x.0]).collect()),
        model: |v| fields(&[0, 3], v),
        nofail: false,
    },
    ListType {
        name: "Vec<Vec<PV>>",
        decode: |c, o, b| {
            list::<Vec<Vec<PV>>>(c, o, b, |v| {
                let mut out = vec![];
                for l in v {
                    out.push(b"[".to_vec());
                    out.extend(l.into_iter().map(Take::take));
                    out.push(b"]".to_vec());
                }
                out
            })
        },
        model: lists,
        nofail: false,
    },
];

#[derive(Debug)]
enum Entry {
    Builder(Vec<usize>),
    Container(usize),
    List(usize),
}

struct Cfg {
    entries: Vec<Entry>,
    big: u64,
    nodes: usize,
    ops: u64,
    offsets: bool,
}

fn draw_schema(t: &mut Tape, big: u64) -> Vec<usize> {
    let most = if big > 1 && t.draw(2) == 1 { 59 } else { t.draw(60) };
    let n = match most {
        0..=5 => 0,
        6..=34 => 1 + t.draw(4),
        35..=46 => 5 + t.draw(5),
        47..=52 => 8 + t.draw(3),
        53..=56 => 10 + t.draw(31),
        57 => 30 + t.draw(100),
        58 => 250 + t.draw(16),
        _ => match big {
            0 if t.draw(2) == 0 => notable(|n| t.draw(n), 1100),
            0 => 100 + t.draw(500),
            1 if t.draw(2) == 0 => notable(|n| t.draw(n), 10_000),
            1 => 200 + t.draw(4000),
            _ => [65_530 + t.draw(12), 60_000 + t.draw(12_000), 32_760 + t.draw(12)][t.draw(3) as usize],
        },
    };
    let fixed_of_10 = t.draw(11);
    let mut s: Vec<usize> = (0..n)
        .map(|_| {
            if t.draw(10) >= fixed_of_10 {
                0
            } else {
                match t.draw(8) {
                    // (many items stay small ones: a message is to fit in memory several times)
                    4 | 5 if n > 3000 => 1 + t.draw(3) as usize,
                    0 => 1,
                    1 => 4,
                    2 => 8,
                    3 => 1 + t.draw(if n > 3000 { 9 } else { 40 }) as usize,
                    4 => [255, 256, 257][t.draw(3) as usize],
                    5 if big > 0 && n < 300 && t.draw(8) == 7 => [65_535, 65_536, 65_540, 1 << 20][t.draw(4) as usize],
                    5 => 32,
                    _ => 1 + t.draw(9) as usize,
                }
            }
        })
        .collect();
    if n > 0 && t.draw(10) == 9 {
        // items of no bytes
        for _ in 0..1 + t.draw(4) {
            let k = t.draw(n) as usize;
            s[k] = NOTHING;
        }
    }
    if n > 300 && t.draw(2) == 1 {
        *s.last_mut().unwrap() = 0;
    }
    if n > 0 && t.draw(60) == 59 {
        // an item longer than any message
        let k = t.draw(n) as usize;
        let d = t.draw(80) as usize;
        s[k] = match t.draw(5) {
            0 => usize::MAX - d,
            1 => usize::MAX / 2 + 1 + d,
            2 => (1usize << 32) + d,
            3 => u32::MAX as usize - d,
            _ => isize::MAX as usize - d,
        };
    }
    s
}

fn setup(i: &mut Inner) -> Vec<(String, TaskFn)> {
    swarm(i);
    let t = &mut i.tape;
    let big = match t.draw(800) {
        799 => 2,
        740..=798 => 1,
        _ => 0,
    };
    let n = 1 + t.draw(4);
    let mut entries = vec![];
    for _ in 0..n {
        entries.push(match t.draw(10) {
            0..=4 => Entry::Builder(draw_schema(t, big)),
            5..=7 => Entry::Container(t.draw(containers().len() as u64) as usize),
            _ => Entry::List(t.draw(LISTS.len() as u64) as usize),
        });
    }
    let nodes = 1 + t.draw(3) as usize;
    let ops = 3 + t.draw(12);
    let offsets = t.draw(4) == 3;
    let cfg = Arc::new(Cfg { entries, big, nodes, ops, offsets });
    let mut v: Vec<(String, TaskFn)> = vec![];
    for k in 0..nodes {
        let cfg = cfg.clone();
        v.push((format!("node{k}"), Box::new(move |c| node(&c, |c, life| run_node(c, life, &cfg)))));
    }
    if i.faults.crash + i.faults.partition > 0 {
        v.push(("nemesis".into(), Box::new(move |c| nemesis(&c, nodes))));
    }
    v
}

fn message(c: &Ctx, e: &Entry, big: u64) -> Vec<u8> {
    let sz = size_class(c, big);
    match e {
        Entry::Builder(s) => {
            let s: Vec<usize> = s.iter().map(|n| if *n > 1 << 20 && *n != NOTHING { 5 } else { *n }).collect();
            if s.len() > 3000 {
                layout(c, &s, |r| r.below(3) as usize)
            } else {
                layout(c, &s, sz)
            }
        }
        Entry::Container(k) => layout(c, containers()[*k].schema, sz),
        Entry::List(k) => {
            let n = match c.draw(8) {
                0 => 0,
                1..=4 => 1 + c.draw(5),
                5 | 6 => 1 + c.draw(24),
                _ => match big {
                    0 if c.draw(12) == 0 => notable(|n| c.draw(n), 1100),
                    0 => 1 + c.draw(300),
                    1 if c.draw(2) == 0 => notable(|n| c.draw(n), 20_000),
                    1 => 1 + c.draw(20_000),
                    _ => [1 + c.draw(140_000), 65_530 + c.draw(12), 32_760 + c.draw(12)][c.draw(3) as usize],
                },
            } as usize;
            let schema = vec![0; n];
            let mut b = if n > 30_000 { layout(c, &schema, |r| r.below(3) as usize) } else { layout(c, &schema, sz) };
            // where items have structure of their own, give them one
            let inner: &[usize] = match LISTS[*k].name {
                "BTreeMap<PF<2>, PV>" => &[2, 0],
                "BTreeMap<PV, PV>" => &[0, 0],
                "Vec<(PV, PF<3>)>" => &[0, 3],
                "Vec<Vec<PV>>" => &[0, 0, 0],
                _ => &[],
            };
            if !inner.is_empty() && n > 0 && n <= 300 && c.draw(8) != 0 {
                let nested = LISTS[*k].name == "Vec<Vec<PV>>";
                let parts: Vec<Vec<u8>> = (0..n)
                    .map(|_| {
                        let m = if nested { c.draw(4) as usize } else { inner.len() };
                        layout(c, &inner[..m.min(inner.len())], |r| r.below(5) as usize)
                    })
                    .collect();
                b = vec![];
                let mut o = 4 * n;
                for p in &parts {
                    b.extend_from_slice(&(o as u32).to_le_bytes());
                    o += p.len();
                }
                b.extend(parts.concat());
            }
            b
        }
    }
}

fn offsets_of(e: &Entry, b: &[u8]) -> (Vec<usize>, usize) {
    match e {
        Entry::Builder(s) => offset_positions(s),
        Entry::Container(k) => offset_positions(containers()[*k].schema),
        Entry::List(_) => {
            let f = announced(b).unwrap_or(0);
            let n = (f / 4).min(b.len() / 4);
            ((0..n).map(|k| 4 * k).collect(), f)
        }
    }
}

fn run_node(c: &Ctx, life: u64, cfg: &Cfg) {
    if life > 0 {
        for k in c.disk_keys() {
            if let Some(b) = c.disk_read(k) {
                receive(c, cfg, k as usize & 0xFFFF, &b, true);
            }
        }
    }
    for op in 0..cfg.ops {
        let k = c.draw(cfg.entries.len() as u64) as usize;
        let e = &cfg.entries[k];
        let mut b = message(c, e, cfg.big);
        let mut hostile = false;
        if c.draw(2) == 1 {
            let (o, f) = offsets_of(e, &b);
            tamper(c, &mut b, &o, f);
            hostile = true;
        }
        match c.draw(8) {
            0..=3 => receive(c, cfg, k, &b, hostile),
            4 | 5 if cfg.nodes > 1 => {
                let to = (c.me + 1 + c.draw(cfg.nodes as u64 - 1) as usize) % cfg.nodes;
                c.ev("send", k as u64, b.len() as u64, || format!("entry {k} to node{to}: {}", hex(&b)));
                c.send(to, k as u32, hostile as u64, b);
            }
            6 => {
                let key = (op << 16) | k as u64;
                c.disk_write(key, b);
                if c.draw(2) == 1 {
                    c.disk_sync();
                }
                if let Some(b) = c.disk_read(key) {
                    receive(c, cfg, k, &b, hostile);
                }
            }
            7 if cfg.offsets => offset_words(c),
            _ => receive(c, cfg, k, &b, hostile),
        }
        while let Some(m) = c.recv(if c.draw(3) == 0 { 2500 } else { 0 }) {
            receive(c, cfg, m.kind as usize % cfg.entries.len(), &m.bytes, m.damaged || m.tag == 1);
        }
    }
}

fn verdict(c: &Ctx, what: &str, b: &[u8], want: &Option<Vec<Vec<u8>>>, got: &Result<Result<Vec<Vec<u8>>, DecodeError>, Unwound>, errs: bool) {
    c.eval();
    c.sample(|| format!("{what} over {}: reference says {}", hex(b), match want { Some(v) => format!("{} items", v.len()), None => "does not tile".into() }));
    match got {
        Err(Unwound::Alloc) | Err(Unwound::Cancelled) => c.stat("interrupted", 1),
        Err(Unwound::Panic(m)) => c.violate("decoding-panics", format!("{what} over {}: {m}", hex(b))),
        Ok(Ok(v)) => {
            c.stat("accepted", 1);
            match want {
                None => c.violate("accepts-what-does-not-tile", format!("{what} over {}: accepted as {} items", hex(b), v.len())),
                Some(w) => {
                    if v != w {
                        let k = (0..w.len().max(v.len())).find(|k| v.get(*k) != w.get(*k)).unwrap();
                        let s = |x: Option<&Vec<u8>>| x.map(|x| hex(x)).unwrap_or("nothing".into());
                        c.violate("item-not-its-own-bytes", format!("{what} over {}: item {k} got {} and not {}", hex(b), s(v.get(k)), s(w.get(k))));
                    }
                }
            }
        }
        Ok(Err(e)) => {
            c.stat("rejected", 1);
            if want.is_some() && !errs {
                c.violate("rejects-what-tiles", format!("{what} over {}: {e:?}", hex(b)));
            }
        }
    }
}

fn receive(c: &Ctx, cfg: &Cfg, k: usize, b: &[u8], hostile: bool) {
    let e = &cfg.entries[k % cfg.entries.len()];
    if hostile {
        c.nontrivial();
        c.stat("hostile_input", 1);
    }
    let h = match e {
        Entry::Builder(s) => {
            // how many items the caller takes before it loses interest
            let take = match c.draw(40) {
                39 => s.len(),
                38 => c.draw(s.len() as u64 + 1) as usize,
                _ if s.len() > 3000 => c.draw(400) as usize,
                _ => s.len(),
            };
            let want = tile(s, b).map(|v| v.into_iter().take(take).map(|(s, e)| b[s..e].to_vec()).collect());
            if want.is_some() && s.iter().filter(|n| **n == 0).count() > 1 {
                c.nontrivial();
            }
            let mates: Vec<&Vec<usize>> = cfg.entries.iter().filter_map(|e| if let Entry::Builder(s) = e { Some(s) } else { None }).filter(|s| s.len() < 400).collect();
            if s.len() < 400 && b.len() < 100_000 && c.draw(5) == 4 {
                interleaved(c, cfg, s, b, &mates);
            }
            let (what, got) = build(c, s, b, take);
            c.ev("builder", b.len() as u64, want.is_some() as u64, || format!("{what} over {} -> {}", hex(b), show(&got)));
            verdict(c, &what, b, &want, &got, false);
            mix(s.len() as u64, s.iter().fold(1, |h, n| mix(h, (*n == 0) as u64))) ^ want.is_some() as u64
        }
        Entry::Container(k) => {
            let p = &containers()[*k];
            let want = tile(p.schema, b).map(|v| v.into_iter().map(|(s, e)| b[s..e].to_vec()).collect());
            let o = call_opts(c, true);
            let got = (p.decode)(c, o, b).out;
            c.ev("container", b.len() as u64, want.is_some() as u64, || format!("{} {:?} over {} -> {}", p.name, p.schema, hex(b), show(&got)));
            verdict(c, p.name, b, &want, &got, false);
            mix(1000 + *k as u64, want.is_some() as u64)
        }
        Entry::List(k) => {
            let l = &LISTS[*k];
            let want = tile_list(b).map(|v| v.into_iter().map(|(s, e)| b[s..e].to_vec()).collect()).and_then(l.model);
            let o = call_opts(c, !l.nofail);
            let got = (l.decode)(c, o, b).out;
            c.ev("list", b.len() as u64, want.is_some() as u64, || format!("{} over {} -> {}", l.name, hex(b), show(&got)));
            verdict(c, l.name, b, &want, &got, false);
            mix(2000 + *k as u64, mix(want.as_ref().map(|w: &Vec<Vec<u8>>| w.len()).unwrap_or(99) as u64, b.len().min(64) as u64))
        }
    };
    c.state(h);
}

fn show(g: &Result<Items, Unwound>) -> String {
    match g {
        Ok(Ok(v)) => format!("{} items", v.len()),
        Ok(Err(e)) => format!("{e:?}"),
        Err(u) => format!("{u:?}"),
    }
}

fn register(b: &mut SszDecoderBuilder, n: usize, how: u64) -> Result<(), DecodeError> {
    macro_rules! typed {
        ($($k:literal $($t:ty)?),*) => {
            match n {
                $($k if how == 1 => return b.register_type::<PF<$k>>(),)*
                $($($k if how == 2 => return b.register_type::<$t>(),)?)*
                _ => {}
            }
        };
    }
    if n == 0 {
        match how {
            0 => b.register_type_parameterized(false, 4),
            1 => b.register_type::<PV>(),
            2 => b.register_type::<Vec<u64>>(),
            _ => b.register_anonymous_variable_length_item(),
        }
    } else {
        if n == NOTHING {
            return match how {
                1 => b.register_type::<PF<0>>(),
                2 => b.register_type::<Blank>(),
                _ => b.register_type_parameterized(true, 0),
            };
        }
        typed!(1 u8, 2 u16, 3, 4 u32, 5, 8 u64, 13, 16 u128, 32 [u8; 32]);
        b.register_type_parameterized(true, n)
    }
}

fn brief<T: std::fmt::Debug>(v: &[T]) -> String {
    if v.len() <= 48 {
        format!("{v:?}")
    } else {
        format!("{:?}.. ({} of them)", &v[..48], v.len())
    }
}

/// Drive a builder through a registration history, then hand every item to a callback.
fn build(c: &Ctx, schema: &[usize], b: &[u8], take: usize) -> (String, Result<Items, Unwound>) {
    let hows: Vec<u64> = {
        let w = c.draw(5);
        let mut r = c.rng();
        schema.iter().map(|_| if w < 4 { w } else { r.below(4) }).collect()
    };
    let split = if schema.len() > 5000 { 0 } else { c.draw(3) };
    let o = call_opts(c, true);
    let what = format!("builder {} registered as {}", brief(schema), brief(&hows));
    let with_types = c.draw(3) == 1;
    // a caller that goes on with the next item when one item fails
    let stubborn = c.draw(4) == 3;
    let refuse = |k: usize| stubborn && mix(k as u64, schema.len() as u64) % 3 == 0;
    let slices = |mut d: ssz::SszDecoder<'_>| -> Items {
        let mut v = Vec::new();
        if stubborn {
            for k in 0..take {
                let mut seen = None;
                let r = d.decode_next_with(|s| {
                    seen = Some(s.to_vec());
                    if refuse(k) || c.callback() {
                        return Err(DecodeError::BytesInvalid("callback refuses".into()));
                    }
                    Ok(())
                });
                match seen {
                    Some(s) => v.push(s),
                    None => {
                        r?;
                    }
                }
            }
            return Ok(v);
        }
        for n in &schema[..take] {
            if with_types && *n == 0 {
                v.push(d.decode_next::<PV>()?.0);
            } else if with_types && *n == 8 {
                v.push(d.decode_next::<PF<8>>()?.0);
            } else {
                v.push(d.decode_next_with(|s| {
                    if c.callback() {
                        return Err(DecodeError::BytesInvalid("callback refuses".into()));
                    }
                    Ok(s.to_vec())
                })?);
            }
        }
        Ok(v)
    };
    let got = if split < 2 {
        lib_call(c, o, || {
            let mut builder = SszDecoderBuilder::new(b);
            for (n, how) in schema.iter().zip(&hows) {
                register(&mut builder, *n, *how)?;
            }
            slices(builder.build()?)
        })
        .out
    } else {
        // one call at a time, other tasks in between
        let f = |builder: &mut SszDecoderBuilder<'_>| -> Result<Result<(), DecodeError>, Unwound> {
            for (n, how) in schema.iter().zip(&hows) {
                let r = lib_call(c, CallOpts::default(), || register(builder, *n, *how)).out?;
                if r.is_err() {
                    return Ok(r);
                }
                c.yield_point();
            }
            Ok(Ok(()))
        };
        let mut builder = SszDecoderBuilder::new(b);
        match f(&mut builder) {
            Ok(Ok(())) => lib_call(c, o, || slices(builder.build()?)).out,
            Ok(Err(e)) => Ok(Err(e)),
            Err(u) => Err(u),
        }
    };
    (what, got)
}

/// One of several decoders in use at the same time.
enum Stage<'a> {
    Fresh,
    Registering(SszDecoderBuilder<'a>, usize),
    Decoding(ssz::SszDecoder<'a>, Vec<Vec<u8>>),
    Done(Result<Vec<Vec<u8>>, DecodeError>),
}

struct Job<'a> {
    schema: &'a [usize],
    hows: Vec<u64>,
    b: &'a [u8],
    stage: Stage<'a>,
}

impl<'a> Job<'a> {
    fn step(&mut self) {
        self.stage = match std::mem::replace(&mut self.stage, Stage::Fresh) {
            Stage::Fresh => Stage::Registering(SszDecoderBuilder::new(self.b), 0),
            Stage::Registering(mut d, k) => match self.schema.get(k) {
                Some(n) => match register(&mut d, *n, self.hows[k]) {
                    Ok(()) => Stage::Registering(d, k + 1),
                    Err(e) => Stage::Done(Err(e)),
                },
                None => match d.build() {
                    Ok(d) => Stage::Decoding(d, vec![]),
                    Err(e) => Stage::Done(Err(e)),
                },
            },
            Stage::Decoding(mut d, mut v) => {
                if v.len() == self.schema.len() {
                    Stage::Done(Ok(v))
                } else {
                    match d.decode_next_with(|s| Ok(s.to_vec())) {
                        Ok(x) => {
                            v.push(x);
                            Stage::Decoding(d, v)
                        }
                        Err(e) => Stage::Done(Err(e)),
                    }
                }
            }
            s => s,
        }
    }
    fn done(&self) -> bool {
        matches!(self.stage, Stage::Done(_))
    }
}

/// Several decoders in use at the same time by one caller, which goes back and forth between them, hands them
/// to other threads and gives up some of them half way.
fn interleaved(c: &Ctx, cfg: &Cfg, s: &[usize], b: &[u8], mates: &[&Vec<usize>]) {
    let n = 1 + c.draw(3) as usize;
    let mut work: Vec<(Vec<usize>, Vec<u8>)> = vec![(s.to_vec(), b.to_vec())];
    for _ in 0..n {
        let s = match c.draw(3) {
            0 => s,
            _ => mates[c.draw(mates.len() as u64) as usize],
        };
        let e = Entry::Builder(s.to_vec());
        let mut m = message(c, &e, cfg.big.min(1));
        if c.draw(3) == 2 {
            let (o, f) = offsets_of(&e, &m);
            tamper(c, &mut m, &o, f);
        }
        work.push((s.to_vec(), m));
    }
    let mut r = c.rng();
    let mut jobs: Vec<Job> = work
        .iter()
        .map(|(s, b)| Job { schema: s, hows: s.iter().map(|_| r.below(4)).collect(), b, stage: Stage::Fresh })
        .collect();
    let threads = c.draw(40) == 39;
    let stay = 1 + r.below(6);
    let give_up = if c.draw(4) == 3 { 1 + r.below(40) } else { 0 };
    c.stat("builder.interleaved", 1);
    let got = lib_call(c, CallOpts::default(), || {
        let mut left = give_up;
        let mut hops = 0;
        while let Some(_) = jobs.iter().position(|j| !j.done()) {
            let open: Vec<usize> = (0..jobs.len()).filter(|k| !jobs[*k].done()).collect();
            let k = open[r.below(open.len() as u64) as usize];
            if left > 0 {
                left -= 1;
                if left == 0 && k > 0 {
                    // dropped half way
                    jobs[k].stage = Stage::Done(Err(DecodeError::BytesInvalid("given up".into())));
                    jobs[k].schema = &[];
                    continue;
                }
            }
            let m = 1 + r.below(stay);
            let j = &mut jobs[k];
            if threads && hops < 12 && r.below(2) == 0 {
                hops += 1;
                let ok = std::thread::scope(|s| s.spawn(|| (0..m).for_each(|_| j.step())).join().is_ok());
                if !ok {
                    panic!("a step on another thread panicked");
                }
            } else {
                (0..m).for_each(|_| j.step());
            }
        }
        jobs.into_iter().map(|j| (j.schema, j.hows, j.b, if let Stage::Done(r) = j.stage { r } else { unreachable!() })).collect::<Vec<_>>()
    });
    match got.out {
        Ok(v) => {
            for (k, (schema, hows, b, got)) in v.into_iter().enumerate() {
                if matches!(&got, Err(DecodeError::BytesInvalid(m)) if m == "given up") {
                    continue;
                }
                let want = tile(schema, b).map(|v| v.into_iter().map(|(s, e)| b[s..e].to_vec()).collect());
                verdict(c, &format!("builder {k} of {} in use at once{}, {} registered as {}", n + 1, if threads { " on several threads" } else { "" }, brief(schema), brief(&hows)), b, &want, &Ok(got), false);
            }
        }
        Err(u) => verdict(c, "builders in use at once", b, &None, &Err(u), false),
    }
}

/// The offset word codec, over blocks of values at boundaries and at random places.
fn offset_words(c: &Ctx) {
    let base = match c.draw(5) {
        0 => c.draw(1 << 16) << 16,
        1 => 1u64 << c.draw(33),
        2 => (1u64 << 32) - (1 << 10),
        3 => (c.draw(4) << 24 | c.draw(2) * 0xFF_FFFF) as u64,
        _ => c.draw(1 << 32),
    };
    let n = match c.draw(4) {
        3 => 1u64 << 16,
        _ => 1 << 10,
    };
    let lo = base.saturating_sub(n / 2);
    let hi = (lo + n).min(1 << 32);
    let r = lib_call(c, CallOpts::default(), || {
        let mut tail = [0u8; 9];
        for v in lo..hi {
            let w = ssz::encode_length(v as usize);
            let le = [v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8];
            if w != le {
                return Some(format!("encode_length({v:#x}) = {w:02x?}"));
            }
            match ssz::read_offset(&le) {
                Ok(x) if x as u64 == v => {}
                x => return Some(format!("read_offset of {le:02x?} = {x:?}")),
            }
            let k = (v % 6) as usize;
            tail[..4].copy_from_slice(&le);
            tail[4..].fill(v as u8 ^ 0x5A);
            match ssz::read_offset(&tail[..4 + k]) {
                Ok(x) if x as u64 == v => {}
                x => return Some(format!("read_offset of {:02x?} = {x:?}", &tail[..4 + k])),
            }
            if v % 64 == 0 {
                for s in 0..4 {
                    if let Ok(x) = ssz::read_offset(&le[..s]) {
                        return Some(format!("read_offset of {:02x?} = {x}", &le[..s]));
                    }
                }
            }
        }
        None
    });
    c.eval();
    c.stat("offset_words", hi - lo);
    c.ev("offsets", lo, hi, || format!("offset words {lo:#x}..{hi:#x}"));
    match r.out {
        Ok(None) => {}
        Ok(Some(m)) => c.violate("offset-word-codec", m),
        Err(Unwound::Panic(m)) => c.violate("offset-word-codec", format!("panic: {m}")),
        Err(_) => {}
    }
}
