//! C06: readers decode whatever the network, the disk or a Byzantine peer hands them, on a machine
//! whose every heap request goes through the simulator.

use crate::chain;
use crate::erased::Val;
use crate::zoo::{Mem, Zoo};
use crate::{gen_val, hex, registry, Types};
use smallvec::SmallVec;
use ssz_sim::core::*;
use ssz_sim::runner::World;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const WORLD: World = World { property: "C06", max_steps: 6000, setup };

/// Peak heap that decoding `n` bytes may request. The constants are generous (a factor 3 over what
/// the current decoders need): reserving for items that are not there exceeds it by orders of
/// magnitude on a short input.
pub fn bound(m: Mem, n: usize) -> u64 {
    3 * (m.a * n as u64 + m.b) + 16 * n as u64 + 1024
}

type Limited = (&'static str, fn(&Ctx, CallOpts, &[u8], Option<usize>) -> Called<bool>, Mem, bool);

fn limited() -> Vec<Limited> {
    fn mk<T: Zoo, C: ssz::TryFromIter<T> + Zoo>(name: &'static str) -> Limited {
        (
            name,
            |c, o, b, m| lib_call(c, o, || ssz::decode_list_of_variable_length_items::<T, C>(b, m).is_ok()),
            C::mem(),
            C::nofail(),
        )
    }
    vec![
        mk::<Vec<u8>, Vec<Vec<u8>>>("list<Vec<u8>> into Vec"),
        mk::<Vec<u8>, SmallVec<[Vec<u8>; 4]>>("list<Vec<u8>> into SmallVec"),
        mk::<Vec<u8>, BTreeSet<Vec<u8>>>("list<Vec<u8>> into BTreeSet"),
        mk::<(u8, Vec<u8>), BTreeMap<u8, Vec<u8>>>("list<(u8, Vec<u8>)> into BTreeMap"),
        mk::<alloy_primitives::Bytes, Vec<alloy_primitives::Bytes>>("list<Bytes> into Vec"),
        mk::<Vec<Vec<u8>>, Vec<Vec<Vec<u8>>>>("list<Vec<Vec<u8>>> into Vec"),
        mk::<crate::zoo::YItem, Vec<crate::zoo::YItem>>("list<YItem> into Vec"),
        mk::<crate::zoo_gen::S4, Vec<crate::zoo_gen::S4>>("list<S4> into Vec"),
        mk::<crate::zoo_gen::Wrap<Vec<u8>>, SmallVec<[crate::zoo_gen::Wrap<Vec<u8>>; 2]>>("list<Wrap> into SmallVec"),
    ]
}

fn limited_list() -> &'static [Limited] {
    static L: std::sync::OnceLock<Vec<Limited>> = std::sync::OnceLock::new();
    L.get_or_init(limited)
}

struct Cfg {
    types: Types,
    big: u64,
    nodes: usize,
    ops: u64,
    byz: u64,
}

fn setup(i: &mut Inner) -> Vec<(String, TaskFn)> {
    swarm(i);
    let types = Types::draw(&mut i.tape);
    let nodes = 1 + i.tape.draw(3) as usize;
    let ops = 3 + i.tape.draw(10);
    let big = match i.tape.draw(60) {
        59 => 2,
        50..=58 => 1,
        _ => 0,
    };
    let byz = i.tape.draw(4);
    let cfg = Arc::new(Cfg { types, big, nodes, ops, byz });
    let mut v: Vec<(String, TaskFn)> = vec![];
    for k in 0..nodes {
        let cfg = cfg.clone();
        v.push((format!("node{k}"), Box::new(move |c| node(&c, |c, life| run_node(c, life, &cfg)))));
    }
    if i.faults.crash + i.faults.partition > 0 {
        v.push(("nemesis".into(), Box::new(move |c| nemesis(&c, nodes))));
    }
    v
}

const LIMITED_KIND: u32 = 1 << 12;
const CHAIN_KIND: u32 = 1 << 13;

fn run_node(c: &Ctx, life: u64, cfg: &Cfg) {
    if life > 0 {
        for k in c.disk_keys() {
            if let Some(b) = c.disk_read(k) {
                receive(c, (k & 0xFFFF) as u32, &b, true, "disk");
            }
        }
    }
    for op in 0..cfg.ops {
        let t = cfg.types.pick(c);
        match c.draw(11) {
            // an honest peer sends or stores a value of its own
            0..=2 => {
                let v = gen_val(c, t, cfg.big);
                let b = calm(c, t, &v);
                if cfg.nodes > 1 && c.draw(2) == 0 {
                    let to = (c.me + 1 + c.draw(cfg.nodes as u64 - 1) as usize) % cfg.nodes;
                    c.ev("send", t as u64, b.len() as u64, || format!("{} to node{to}: {}", registry()[t].name(), hex(&b)));
                    c.send(to, t as u32, 0, b);
                } else {
                    c.ev("store", t as u64, b.len() as u64, || format!("{}: {}", registry()[t].name(), hex(&b)));
                    let key = (op << 16) | t as u64;
                    c.disk_write(key, b);
                    if c.draw(2) == 1 {
                        c.disk_sync();
                    }
                    if let Some(b) = c.disk_read(key) {
                        receive(c, t as u32, &b, false, "disk");
                    }
                }
            }
            // a Byzantine peer crafts one
            3..=7 => {
                let mut b = byzantine(c, t, cfg);
                if registry()[t].recursive() {
                    b.truncate(4096);
                }
                if cfg.byz == 3 && cfg.nodes > 1 {
                    let to = (c.me + 1 + c.draw(cfg.nodes as u64 - 1) as usize) % cfg.nodes;
                    c.send(to, t as u32, 1, b);
                } else {
                    receive(c, t as u32, &b, true, "byzantine");
                }
            }
            8 => {
                // a bounded list, as downstream list types decode it
                let l = c.draw(limited_list().len() as u64) as u32;
                let b = byzantine(c, t, cfg);
                receive(c, LIMITED_KIND | l, &b, true, "byzantine");
            }
            9 => {
                // a message nested as deep as it is long
                let k = c.draw(chain::targets().len() as u64) as u32;
                let mut b = chain::nested(c, &chain::targets()[k as usize]);
                if c.draw(3) == 2 {
                    c.with(|i| {
                        if i.tape.draw(2) == 0 {
                            forge_word(&mut i.tape, &mut b)
                        } else {
                            damage(&mut i.tape, &mut b, &mut i.stats)
                        }
                    });
                }
                b.truncate(chain::MAX);
                c.stat("byzantine.nested", 1);
                receive(c, CHAIN_KIND | k, &b, true, "byzantine");
            }
            _ => c.yield_point(),
        }
        while let Some(m) = c.recv(if c.draw(3) == 0 { 2500 } else { 0 }) {
            receive(c, m.kind, &m.bytes, m.damaged || m.tag == 1, "network");
        }
    }
}

fn calm(c: &Ctx, t: usize, v: &Val) -> Vec<u8> {
    match registry()[t].fresh(c, CallOpts::default(), v, 0).out {
        Ok(b) => b,
        // Encoding misbehaves: not what C06 is about.
        Err(_) => {
            c.stat("encode_failed", 1);
            vec![]
        }
    }
}

/// What a malicious peer sends: short messages whose offset and count words announce much.
fn byzantine(c: &Ctx, t: usize, cfg: &Cfg) -> Vec<u8> {
    c.stat("byzantine.messages", 1);
    match c.draw(8) {
        // a word soup of offsets
        0 | 1 => {
            let n = c.draw(12);
            let mut b = vec![];
            for _ in 0..n {
                let w: u32 = match c.draw(8) {
                    0 => 4,
                    1 => 4 * n as u32,
                    2 => 0xFFFF_FFFC,
                    3 => 4 << c.draw(28),
                    4 => 0x7FFF_FFFC,
                    5 => c.draw(64) as u32,
                    6 => 1 << 20,
                    _ => 0,
                };
                b.extend_from_slice(&w.to_le_bytes());
            }
            let extra = c.draw(5);
            b.extend(std::iter::repeat(c.draw(2) as u8 * 0xFF).take(extra as usize));
            b
        }
        // noise
        2 => {
            let n = match c.draw(6) {
                5 if cfg.big > 0 => 1 + c.draw(100_000),
                3 | 4 => c.draw(2000),
                _ => c.draw(40),
            } as usize;
            let mut r = c.rng();
            let mut b = r.bytes(n);
            match c.draw(4) {
                1 => b.iter_mut().for_each(|x| *x &= 1),
                2 => b.iter_mut().for_each(|x| *x = 0),
                3 => b.iter_mut().for_each(|x| *x = 0xFF),
                _ => {}
            }
            b
        }
        // many minimal items: the cheapest bytes per reserved item
        3 => {
            let n = match c.draw(4) {
                0 => 1 + c.draw(8),
                1 => 1 + c.draw(300),
                2 => 1 + c.draw(3000),
                _ => 1 + c.draw(if cfg.big > 0 { 30_000 } else { 3000 }),
            } as u32;
            let mut b = Vec::new();
            for _ in 0..n {
                b.extend_from_slice(&(4 * n).to_le_bytes());
            }
            b
        }
        // a valid message with forged words
        _ => {
            let v = gen_val(c, t, cfg.big);
            let mut b = calm(c, t, &v);
            let k = 1 + c.draw(3);
            c.with(|i| {
                for _ in 0..k {
                    forge_word(&mut i.tape, &mut b);
                }
                if i.tape.draw(4) == 3 {
                    damage(&mut i.tape, &mut b, &mut i.stats);
                }
            });
            b
        }
    }
}

fn receive(c: &Ctx, kind: u32, b: &[u8], hostile: bool, via: &'static str) {
    let (name, mem, nofail, acc, out, desc): (&str, Mem, bool, _, Result<bool, Unwound>, String);
    if kind & CHAIN_KIND != 0 {
        let ts = chain::targets();
        let t = &ts[(kind & 0xFFF) as usize % ts.len()];
        let b = &b[..b.len().min(chain::MAX)];
        let o = call_opts(c, !chain::nofail(t));
        let r = (t.run)(c, o, b);
        (name, mem, nofail, acc, out, desc) = (t.name, chain::mem(t, b.len()), chain::nofail(t), r.acc, r.out, String::new());
    } else if kind & LIMITED_KIND != 0 {
        let l = &limited_list()[(kind & 0xFFF) as usize % limited_list().len()];
        let max = match c.draw(6) {
            0 => None,
            1 => Some(0),
            2 => Some(c.draw(64) as usize),
            3 => Some(1 << 24),
            4 => Some(usize::MAX),
            _ => Some(1 << c.draw(40)),
        };
        let mut o = call_opts(c, !l.3);
        o.err_at = err_at(c);
        let r = (l.1)(c, o, b, max);
        (name, mem, nofail, acc, out, desc) = (l.0, l.2, l.3, r.acc, r.out, format!(" max_len {max:?}"));
    } else {
        let t = kind as usize % registry().len();
        let e = &registry()[t];
        let b = if e.recursive() && b.len() > 4096 { &b[..4096] } else { b };
        let mut o = call_opts(c, !e.nofail());
        o.err_at = err_at(c);
        let r = e.decode(c, o, b);
        (name, mem, nofail, acc, out, desc) = (e.name(), e.mem(), e.nofail(), r.acc, r.out.map(|x| x.is_ok()), String::new());
    }
    let _ = nofail;
    c.eval();
    let lim = bound(mem, b.len());
    c.ev("decode", b.len() as u64 ^ ((kind as u64) << 32), acc.peak as u64, || {
        format!("{name}{desc} from {via}: {} -> {:?}; peak {} largest {} requests {} bound {lim}", hex(b), out, acc.peak, acc.largest, acc.count)
    });
    c.stat(
        match &out {
            Ok(true) => "decode.accepted",
            Ok(false) => "decode.rejected",
            Err(Unwound::Alloc) => "decode.alloc_refused",
            Err(Unwound::Cancelled) => "decode.cancelled",
            Err(Unwound::Panic(_)) => "decode.panicked",
        },
        1,
    );
    if hostile && !b.is_empty() {
        c.nontrivial();
        c.stat("decode.hostile_input", 1);
    }
    c.sample(|| format!("{name}{desc} given {} bytes {} via {via}: {:?}, peak {} of {lim} allowed", b.len(), hex(b), out, acc.peak));
    let lg = |x: u64| 64 - x.leading_zeros() as u64;
    c.state(mix(kind as u64, mix(lg(b.len() as u64) | matches!(out, Ok(true)) as u64 * 64, lg(acc.peak as u64))));
    if acc.oom {
        c.violate("heap-request-beyond-machine", format!("decoding {} bytes as {name}{desc} requested {} bytes at once (input {})", b.len(), acc.largest, hex(b)));
    }
    if let Err(Unwound::Panic(m)) = &out {
        if m.contains("capacity overflow") {
            c.violate("heap-request-beyond-machine", format!("decoding {} bytes as {name}{desc} requested more than the address space: {m} (input {})", b.len(), hex(b)));
        }
    }
    if acc.peak as u64 > lim || acc.largest > lim {
        c.violate(
            "heap-peak-not-linear",
            format!("decoding {} bytes as {name}{desc}: peak {} bytes, largest request {}, allowed {lim} (input {})", b.len(), acc.peak, acc.largest, hex(b)),
        );
    }
}

fn err_at(c: &Ctx) -> u64 {
    let f = c.faults();
    if f.item_err > 0 && c.chance(f.item_err, 2000) {
        c.stat("fault.item_error_armed", 1);
        1 + c.draw(6)
    } else {
        0
    }
}
