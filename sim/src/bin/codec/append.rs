//! C10: nodes append encodings to buffers they already hold, through every entry point, while
//! callbacks are preempted or cancelled, allocations are refused and nodes crash.
//! All oracles are relations between entry points and contexts; none knows the SSZ format.

use crate::erased::{append_name, fresh_name, held_name, Val, APPENDS, FRESH, HELD};
use crate::{gen_val, hex, registry, Types};
use smallvec::SmallVec;
use ssz::{Encode, SszEncoder};
use ssz_sim::core::*;
use ssz_sim::runner::World;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

pub const WORLD: World = World { property: "C10", max_steps: 6000, setup };

struct Cfg {
    types: Types,
    big: u64,
    nodes: usize,
    ops: u64,
}

fn setup(i: &mut Inner) -> Vec<(String, TaskFn)> {
    swarm(i);
    let types = Types::draw(&mut i.tape);
    let nodes = 1 + i.tape.draw(3) as usize;
    let ops = 3 + i.tape.draw(10);
    let big = match i.tape.draw(80) {
        79 => 2,
        68..=78 => 1,
        _ => 0,
    };
    let cfg = Arc::new(Cfg { types, big, nodes, ops });
    let mut v: Vec<(String, TaskFn)> = vec![];
    for k in 0..nodes {
        let cfg = cfg.clone();
        v.push((format!("node{k}"), Box::new(move |c| node(&c, |c, life| run_node(c, life, &cfg)))));
    }
    if i.faults.crash + i.faults.partition > 0 {
        v.push(("nemesis".into(), Box::new(move |c| nemesis(&c, nodes))));
    }
    v
}

/// A buffer of the caller together with what it must still contain.
struct Log {
    buf: Vec<u8>,
    shadow: Vec<u8>,
}
impl Log {
    fn start(c: &Ctx, cfg: &Cfg) -> Log {
        let n = match c.draw(12) {
            0 => 0,
            1..=4 => c.draw(9),
            5 => 4,
            6 => c.draw(300),
            7 => 250 + c.draw(12),
            8 => c.draw(5000),
            9 => 65_500 + c.draw(100),
            10 => 32_700 + c.draw(100),
            _ => {
                if cfg.big == 2 {
                    (if c.draw(4) == 3 { 1 << 24 } else { 1 << 20 }) - 50 + c.draw(100)
                } else {
                    c.draw(40)
                }
            }
        } as usize;
        let mut r = c.rng();
        let mut buf = match c.draw(3) {
            0 => r.bytes(n),
            1 => vec![0; n],
            _ => (0..n).map(|k| if k % 4 == 0 { (k % 251) as u8 } else { 0 }).collect(),
        };
        match c.draw(3) {
            0 => {}
            1 => buf.shrink_to_fit(),
            _ => {
                let extra = [1, 4, 64, 4096, 70_000][c.draw(5) as usize];
                buf.reserve_exact(extra);
            }
        }
        let shadow = buf.clone();
        c.ev("buffer", n as u64, buf.capacity() as u64, || format!("new buffer with {n} bytes {}, capacity {}", hex(&shadow), buf.capacity()));
        Log { buf, shadow }
    }
    /// The last operation was meant to add exactly `add`.
    fn check(&mut self, c: &Ctx, what: &str, add: &[u8]) {
        c.eval();
        if !self.shadow.is_empty() {
            c.nontrivial();
            c.stat("append.into_filled_buffer", 1);
        }
        let n = self.shadow.len();
        if self.buf.len() < n || self.buf[..n] != self.shadow[..] {
            let got = &self.buf[..n.min(self.buf.len())];
            c.violate("existing-bytes-changed", format!("{what}: buffer held {n} bytes, now {} bytes; {}", self.buf.len(), diff(&self.shadow, got)));
        }
        if self.buf[n..] != *add {
            c.violate("appended-bytes-differ", format!("{what} into a buffer of {n} bytes: {}", diff(add, &self.buf[n..])));
        }
        self.shadow.extend_from_slice(add);
    }
    /// The last operation unwound: what it had appended so far is not specified, so start afresh.
    fn discard(&mut self) {
        *self = Log { buf: vec![], shadow: vec![] };
    }
}

fn diff(want: &[u8], got: &[u8]) -> String {
    let k = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    format!("expected {} bytes, got {}; first difference at {k}: expected {} got {}", want.len(), got.len(), hex(&want[k.min(want.len())..]), hex(&got[k.min(got.len())..]))
}

fn run_node(c: &Ctx, life: u64, cfg: &Cfg) {
    let mut log = Log::start(c, cfg);
    if life > 0 {
        for k in c.disk_keys() {
            if let Some(b) = c.disk_read(k) {
                relay(c, &mut log, (k & 0xFFFF) as usize, &b);
            }
        }
    }
    for op in 0..cfg.ops {
        if log.buf.len() > 18 << 20 || c.draw(6) == 5 {
            log = Log::start(c, cfg);
        }
        match c.draw(12) {
            0..=3 => {
                let t = cfg.types.pick(c);
                let v = gen_val(c, t, cfg.big);
                if let Some(b) = append(c, &mut log, t, &v) {
                    if cfg.nodes > 1 && c.draw(2) == 0 {
                        let to = (c.me + 1 + c.draw(cfg.nodes as u64 - 1) as usize) % cfg.nodes;
                        c.send(to, t as u32, 0, b);
                    } else if c.draw(2) == 0 {
                        c.disk_write((op << 16) | t as u64, b);
                        if c.draw(2) == 1 {
                            c.disk_sync();
                        }
                    }
                }
            }
            4 | 5 => {
                let t = cfg.types.pick(c);
                let v = gen_val(c, t, cfg.big);
                entry_points(c, t, &v);
                if c.draw(3) == 0 {
                    held(c, &mut log, t, &v);
                }
            }
            6 | 7 => {
                let t = cfg.types.pick(c);
                let v = gen_val(c, t, cfg.big);
                manual(c, &mut log, t, &v);
            }
            8 if c.draw(3) == 0 => interleaved(c, cfg),
            8 if c.draw(150) == 149 => wide(c, &mut log),
            8 => tree(c, cfg, &mut log),
            9 | 10 => {
                let d = c.draw(3);
                sequence(c, cfg, &mut log, d);
            }
            _ => c.yield_point(),
        }
        while let Some(m) = c.recv(if c.draw(3) == 0 { 2500 } else { 0 }) {
            relay(c, &mut log, m.kind as usize, &m.bytes);
        }
    }
}

/// The value's standalone encoding, undisturbed.
fn standalone(c: &Ctx, t: usize, v: &Val) -> Vec<u8> {
    let e = &registry()[t];
    match e.fresh(c, CallOpts::default(), v, 0).out {
        Ok(b) => b,
        Err(u) => c.violate("encoding-panicked", format!("{} of {} ({}): {u:?}", fresh_name(0), e.name(), e.show(v))),
    }
}

fn append(c: &Ctx, log: &mut Log, t: usize, v: &Val) -> Option<Vec<u8>> {
    let e = &registry()[t];
    let want = standalone(c, t, v);
    let o = call_opts(c, true);
    let how = c.draw(APPENDS);
    let r = e.append(c, o, v, &mut log.buf, how);
    c.ev("append", t as u64, want.len() as u64, || format!("{} of {} {} into {} bytes: {:?}", append_name(how), e.name(), e.show(v), log.shadow.len(), r.out));
    c.sample(|| format!("{} of {} ({} bytes) into a buffer of {} bytes: {:?}", append_name(how), e.name(), want.len(), log.shadow.len(), r.out));
    c.state(mix(mix(t as u64, how), 64 - (log.shadow.len() as u64).leading_zeros() as u64));
    match r.out {
        Ok(()) => {
            log.check(c, &format!("{} of {} {}", append_name(how), e.name(), e.show(v)), &want);
            Some(want)
        }
        Err(u) => {
            unwound(c, u, o, || format!("{} of {} {}", append_name(how), e.name(), e.show(v)));
            log.discard();
            None
        }
    }
}

fn unwound(c: &Ctx, u: Unwound, _o: CallOpts, what: impl FnOnce() -> String) {
    match u {
        Unwound::Alloc => c.stat("append.alloc_refused", 1),
        Unwound::Cancelled => c.stat("append.cancelled", 1),
        Unwound::Panic(m) => c.violate("encoding-panicked", format!("{}: {m}", what())),
    }
}

/// Every way to fresh bytes gives the same bytes.
fn entry_points(c: &Ctx, t: usize, v: &Val) {
    let e = &registry()[t];
    let want = standalone(c, t, v);
    c.ev("entry_points", t as u64, want.len() as u64, || format!("{} {}", e.name(), e.show(v)));
    for how in 1..FRESH {
        let o = call_opts(c, true);
        match e.fresh(c, o, v, how).out {
            Ok(b) => {
                c.eval();
                if b != want {
                    c.violate("entry-points-differ", format!("{} vs {} of {} {}: {}", fresh_name(how), fresh_name(0), e.name(), e.show(v), diff(&want, &b)));
                }
            }
            Err(u) => unwound(c, u, o, || format!("{} of {} {}", fresh_name(how), e.name(), e.show(v))),
        }
    }
    c.state(mix(t as u64, 77));
}

/// A field or an item encodes alike whether it is held directly, by reference or by Arc.
fn held(c: &Ctx, log: &mut Log, t: usize, v: &Val) {
    let e = &registry()[t];
    let first = 3 * c.draw(2);
    let mut want = Vec::new();
    if let Err(u) = e.held(c, CallOpts::default(), v, &mut want, first).out {
        return unwound(c, u, CallOpts::default(), || format!("{} of {} {}", held_name(first), e.name(), e.show(v)));
    }
    c.ev("held", t as u64, want.len() as u64, || format!("{} with {} {}", held_name(first), e.name(), e.show(v)));
    c.stat("append.held_by_reference", 1);
    for how in first..first + HELD / 2 {
        let o = call_opts(c, true);
        match e.held(c, o, v, &mut log.buf, how).out {
            Ok(()) => log.check(c, &format!("{} with {} {} (expected: {})", held_name(how), e.name(), e.show(v), held_name(first)), &want),
            Err(u) => {
                unwound(c, u, o, || format!("{} of {} {}", held_name(how), e.name(), e.show(v)));
                log.discard();
            }
        }
    }
}

/// The same fields through the manual container encoder, into a fresh and into a filled buffer.
fn manual(c: &Ctx, log: &mut Log, t: usize, v: &Val) {
    let e = &registry()[t];
    let want = standalone(c, t, v);
    let style = c.draw(1 << 8);
    let mut fresh = Vec::new();
    match e.manual(c, CallOpts::default(), v, &mut fresh, style).out {
        Ok(false) => return,
        Ok(true) => {
            c.eval();
            if fresh != want {
                c.violate("manual-encoder-differs", format!("{} {}: {}", e.name(), e.show(v), diff(&want, &fresh)));
            }
        }
        Err(u) => return unwound(c, u, CallOpts::default(), || format!("manual encoder of {} {}", e.name(), e.show(v))),
    }
    let o = call_opts(c, true);
    let r = e.manual(c, o, v, &mut log.buf, style);
    c.ev("manual", t as u64, want.len() as u64, || format!("{} {} into {} bytes: {:?}", e.name(), e.show(v), log.shadow.len(), r.out));
    c.state(mix(mix(t as u64, 1000), 64 - (log.shadow.len() as u64).leading_zeros() as u64));
    match r.out {
        Ok(_) => log.check(c, &format!("manual container encoder (style {style}) of {} {}", e.name(), e.show(v)), &want),
        Err(u) => {
            unwound(c, u, o, || format!("manual encoder of {} {}", e.name(), e.show(v)));
            log.discard();
        }
    }
}

/// Decode what arrived; whatever value that is, encode it again in place.
fn relay(c: &Ctx, log: &mut Log, t: usize, b: &[u8]) {
    let t = t % registry().len();
    let e = &registry()[t];
    let b = if e.recursive() && b.len() > 4096 { &b[..4096] } else { b };
    let r = e.decode(c, CallOpts::default(), b);
    c.ev("relay", t as u64, b.len() as u64, || format!("{} from {}", e.name(), hex(b)));
    if let Ok(Ok(v)) = r.out {
        c.stat("relay.decoded", 1);
        append(c, log, t, &v);
        if c.draw(3) == 0 {
            entry_points(c, t, &v);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Nesting

enum Tree {
    Leaf(usize, Val),
    List(Vec<Tree>),
    Small(SmallVec<[Arc<Tree>; 2]>),
    Opt(Option<Box<Tree>>),
    Pair(u16, Box<Tree>, Vec<u8>),
    Tri(Vec<u8>, Box<Tree>, u64, Box<Tree>),
    Shared(Arc<Tree>),
    Manual(Vec<Tree>),
}

impl Encode for Tree {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        ctx().callback();
        match self {
            Tree::Leaf(t, v) => registry()[*t].append_raw(v, buf),
            Tree::List(v) => v.ssz_append(buf),
            Tree::Small(v) => v.ssz_append(buf),
            Tree::Opt(o) => o.as_deref().ssz_append(buf),
            Tree::Pair(a, t, b) => (a, &**t, b).ssz_append(buf),
            Tree::Tri(a, t, b, u) => (a, &**t, b, &**u).ssz_append(buf),
            Tree::Shared(t) => t.ssz_append(buf),
            Tree::Manual(v) => {
                let mut e = SszEncoder::container(buf, 4 * v.len());
                for t in v {
                    e.append(t);
                }
                e.finalize();
            }
        }
    }
    fn ssz_bytes_len(&self) -> usize {
        // By hand: an encoder may well ask for this before it encodes.
        let list = |n: usize, of: usize| 4 * n + of;
        match self {
            Tree::Leaf(t, v) => {
                let mut b = vec![];
                registry()[*t].append_raw(v, &mut b);
                b.len()
            }
            Tree::List(v) | Tree::Manual(v) => list(v.len(), v.iter().map(|t| t.ssz_bytes_len()).sum()),
            Tree::Small(v) => list(v.len(), v.iter().map(|t| Tree::ssz_bytes_len(t)).sum()),
            Tree::Opt(o) => 1 + o.as_ref().map_or(0, |t| t.ssz_bytes_len()),
            Tree::Pair(_, t, b) => 10 + t.ssz_bytes_len() + b.len(),
            Tree::Tri(a, t, _, u) => 20 + a.len() + t.ssz_bytes_len() + u.ssz_bytes_len(),
            Tree::Shared(t) => Tree::ssz_bytes_len(t),
        }
    }
}

fn grow(c: &Ctx, cfg: &Cfg, depth: u64) -> Tree {
    let k = if depth == 0 { 0 } else { c.draw(8) };
    let d = depth.saturating_sub(1);
    match k {
        0 => {
            let t = cfg.types.pick(c);
            Tree::Leaf(t, gen_val(c, t, cfg.big))
        }
        1 => Tree::List((0..c.draw(4)).map(|_| grow(c, cfg, d)).collect()),
        2 => Tree::Small((0..c.draw(4)).map(|_| Arc::new(grow(c, cfg, d))).collect()),
        3 => Tree::Opt(if c.draw(4) == 0 { None } else { Some(Box::new(grow(c, cfg, d))) }),
        4 => Tree::Pair(c.draw(1 << 16) as u16, Box::new(grow(c, cfg, d)), vec![0xAB; c.draw(5) as usize]),
        5 => Tree::Tri(vec![0xCD; c.draw(5) as usize], Box::new(grow(c, cfg, d)), c.draw(1 << 40), Box::new(grow(c, cfg, d))),
        6 => Tree::Shared(Arc::new(grow(c, cfg, d))),
        _ => Tree::Manual((0..c.draw(4)).map(|_| grow(c, cfg, d)).collect()),
    }
}

/// A small value under many levels, each of one child.
fn tower(c: &Ctx, cfg: &Cfg) -> (u64, Tree) {
    let n = match c.draw(6) {
        0..=2 => 6 + c.draw(15),
        3 => 30 + c.draw(40),
        4 => 120 + c.draw(20),
        _ => 250 + c.draw(20),
    };
    let mut t = grow(c, cfg, 1);
    let mut r = c.rng();
    let only = r.below(8);
    for _ in 0..n {
        t = match if only < 4 { 1 + only } else { 1 + r.below(7) } {
            1 => Tree::List(vec![t]),
            2 => Tree::Opt(Some(Box::new(t))),
            3 => Tree::Pair(r.next() as u16, Box::new(t), r.bytes(2)),
            4 => Tree::Manual(vec![t]),
            5 => Tree::Small(std::iter::once(Arc::new(t)).collect()),
            6 => Tree::Shared(Arc::new(t)),
            _ => Tree::Tri(r.bytes(1), Box::new(t), r.next(), Box::new(Tree::List(vec![]))),
        };
    }
    (n, t)
}

/// Like `check_tree`, but only at some of the levels.
fn check_tower(c: &Ctx, t: &Tree) -> Vec<u8> {
    let mut r = c.rng();
    let mut below = vec![];
    let mut at = Some(t);
    while let Some(x) = at {
        below.push(x);
        at = match x {
            Tree::List(v) | Tree::Manual(v) if v.len() == 1 => v.first(),
            Tree::Small(v) if v.len() == 1 => Some(&*v[0]),
            Tree::Opt(Some(x)) | Tree::Pair(_, x, _) | Tree::Tri(_, x, _, _) => Some(x),
            Tree::Shared(x) => Some(x),
            _ => None,
        };
    }
    let mut inner: Vec<u8> = vec![];
    let mut want = vec![];
    for (k, x) in below.iter().enumerate().rev() {
        if k != 0 && k + 1 != below.len() && r.below(12) != 0 {
            continue;
        }
        want = match lib_call(c, CallOpts::default(), || x.as_ssz_bytes()).out {
            Ok(b) => b,
            Err(u) => c.violate("encoding-panicked", format!("nested value at depth {k}: {u:?}")),
        };
        c.eval();
        if !inner.is_empty() && !want.windows(inner.len()).any(|w| w == inner) {
            c.violate("nested-encoding-differs", format!("tower of {} levels: the encoding from level {k} does not hold that of a lower level: {}", below.len(), hex(&want)));
        }
        inner = want.clone();
    }
    want
}

/// The standalone encoding of a node must hold the standalone encodings of its children unchanged.
fn check_tree(c: &Ctx, t: &Tree, depth: u64) -> Vec<u8> {
    let r = lib_call(c, CallOpts::default(), || t.as_ssz_bytes());
    let b = match r.out {
        Ok(b) => b,
        Err(u) => c.violate("encoding-panicked", format!("nested value at depth {depth}: {u:?}")),
    };
    c.eval();
    let (head, parts, name): (usize, Vec<Vec<u8>>, &str) = match t {
        Tree::Leaf(k, v) => (0, vec![standalone(c, *k, v)], "leaf"),
        Tree::List(v) => (4 * v.len(), v.iter().map(|x| check_tree(c, x, depth + 1)).collect(), "list"),
        Tree::Small(v) => (4 * v.len(), v.iter().map(|x| check_tree(c, x, depth + 1)).collect(), "small list"),
        Tree::Opt(None) => return b,
        Tree::Opt(Some(x)) => (1, vec![check_tree(c, x, depth + 1)], "option"),
        Tree::Pair(_, x, v) => (10, vec![check_tree(c, x, depth + 1), v.clone()], "pair"),
        Tree::Tri(v, x, _, y) => (20, vec![v.clone(), check_tree(c, x, depth + 1), check_tree(c, y, depth + 1)], "quad"),
        Tree::Shared(x) => (0, vec![check_tree(c, x, depth + 1)], "arc"),
        Tree::Manual(v) => (4 * v.len(), v.iter().map(|x| check_tree(c, x, depth + 1)).collect(), "manual list"),
    };
    let want: Vec<u8> = parts.concat();
    if b.len() != head + want.len() || !b.ends_with(&want) {
        let tail = &b[b.len().min(head)..];
        c.violate("nested-encoding-differs", format!("{name} at depth {depth}: {}", diff(&want, tail)));
    }
    b
}

fn tree(c: &Ctx, cfg: &Cfg, log: &mut Log) {
    let tall = c.draw(40) == 39;
    let (depth, t) = if tall { tower(c, cfg) } else {
        let d = 1 + c.draw(5);
        (d, grow(c, cfg, d))
    };
    let want = if tall { check_tower(c, &t) } else { check_tree(c, &t, 0) };
    let o = call_opts(c, true);
    let r = lib_call(c, o, || t.ssz_append(&mut log.buf));
    c.ev("tree", depth, want.len() as u64, || format!("nested value, depth up to {depth}, {} bytes, into {} bytes: {:?}", want.len(), log.shadow.len(), r.out));
    c.stat("append.nested_trees", 1);
    match r.out {
        Ok(()) => log.check(c, "append of a nested value", &want),
        Err(u) => {
            unwound(c, u, o, || "append of a nested value".into());
            log.discard();
        }
    }
}

/// Lists of very many small items.
fn wide(c: &Ctx, log: &mut Log) {
    let n = [257, 4096, 16_383, 16_384, 32_768, 65_535, 65_536, 70_000, 131_073][c.draw(9) as usize] + c.draw(3) as usize;
    let mut r = c.rng();
    let at = r.below(n as u64) as usize;
    let bytes: Vec<Vec<u8>> = (0..n)
        .map(|k| {
            let m = if k == at { 300 } else { r.below(3) as usize };
            r.bytes(m)
        })
        .collect();
    let keyed = |x: u32| (x / 7).to_be_bytes()[x as usize % 3..].to_vec();
    match c.draw(9) {
        0 => wide_of(c, log, "Vec<Vec<u8>>", &bytes, &bytes),
        1 => wide_of(c, log, "SmallVec<[Vec<u8>; 2]>", &SmallVec::<[Vec<u8>; 2]>::from_vec(bytes.clone()), &bytes),
        2 => wide_of(c, log, "Vec<Arc<Vec<u8>>>", &bytes.iter().cloned().map(Arc::new).collect::<Vec<_>>(), &bytes),
        3 => {
            let set: BTreeSet<Vec<u8>> = (0..n as u32).map(keyed).collect();
            wide_of(c, log, "BTreeSet<Vec<u8>>", &set, &set.iter().collect::<Vec<_>>())
        }
        4 => {
            let map: BTreeMap<u32, Vec<u8>> = bytes.into_iter().enumerate().map(|(k, b)| (k as u32 * 3, b)).collect();
            wide_of(c, log, "BTreeMap<u32, Vec<u8>>", &map, &map.iter().collect::<Vec<_>>())
        }
        5 => {
            let v: Vec<u16> = (0..n).map(|_| r.next() as u16).collect();
            wide_of(c, log, "Vec<u16>", &v, &v)
        }
        6 => {
            let v: BTreeSet<u64> = (0..n).map(|_| r.next()).collect();
            wide_of(c, log, "BTreeSet<u64>", &v, &v.iter().copied().collect::<Vec<_>>())
        }
        7 => {
            let v: Vec<Option<u8>> = (0..n).map(|_| if r.below(2) == 0 { None } else { Some(r.next() as u8) }).collect();
            wide_of(c, log, "Vec<Option<u8>>", &v, &v)
        }
        _ => {
            let v: BTreeMap<u32, u64> = (0..n).map(|_| (r.next() as u32, r.next())).collect();
            wide_of(c, log, "BTreeMap<u32, u64>", &v, &v.iter().collect::<Vec<_>>())
        }
    }
}

fn wide_of<T: Encode, I: Encode>(c: &Ctx, log: &mut Log, name: &str, list: &T, items: &[I]) {
    let by_hand = |buf: &mut Vec<u8>| {
        let mut e = SszEncoder::container(buf, items.len() * I::ssz_fixed_len());
        for x in items {
            e.append(x);
        }
        e.finalize();
    };
    let mut want = vec![];
    let r = lib_call(c, CallOpts::default(), || {
        by_hand(&mut want);
        list.as_ssz_bytes()
    });
    c.stat("append.wide_lists", 1);
    c.ev("wide", items.len() as u64, want.len() as u64, || format!("{name} of {} items, {} bytes, into {} bytes", items.len(), want.len(), log.shadow.len()));
    let got = match r.out {
        Ok(b) => b,
        Err(u) => return unwound(c, u, CallOpts::default(), || format!("{name} of {} items", items.len())),
    };
    c.eval();
    if got != want {
        c.violate("manual-encoder-differs", format!("{name} of {} items: {}", items.len(), diff(&want, &got)));
    }
    for hand in [false, true] {
        let o = call_opts(c, true);
        match lib_call(c, o, || if hand { by_hand(&mut log.buf) } else { list.ssz_append(&mut log.buf) }).out {
            Ok(()) => log.check(c, &format!("{} of {name} with {} items", if hand { "manual encoder" } else { "append" }, items.len()), &want),
            Err(u) => {
                unwound(c, u, o, || format!("{name} of {} items", items.len()));
                log.discard();
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Histories on the manual encoder

/// Several encoders in use at the same time by one caller, which goes back and forth between them, hands them
/// to other threads and gives up some of them half way.
fn interleaved(c: &Ctx, cfg: &Cfg) {
    let n = 2 + c.draw(3) as usize;
    let mut logs: Vec<Log> = (0..n).map(|_| Log::start(c, cfg)).collect();
    let mut works: Vec<Vec<(bool, usize, Val, Vec<u8>)>> = vec![];
    for _ in 0..n {
        let m = c.draw(6);
        works.push(
            (0..m)
                .map(|_| {
                    let t = cfg.types.pick(c);
                    let v = gen_val(c, t, cfg.big.min(1));
                    let b = standalone(c, t, &v);
                    (if registry()[t].fixed() { c.draw(4) != 3 } else { false }, t, v, b)
                })
                .collect(),
        );
    }
    let fixed = |w: &[(bool, usize, Val, Vec<u8>)]| w.iter().map(|(f, _, _, b)| if *f { b.len() } else { 4 }).sum::<usize>();
    // each alone
    let mut want: Vec<Vec<u8>> = vec![];
    for w in &works {
        let mut fresh = vec![];
        let r = lib_call(c, CallOpts::default(), || {
            let mut e = SszEncoder::container(&mut fresh, fixed(w));
            for (f, t, v, _) in w {
                e.append_parameterized(*f, |b| registry()[*t].append_raw(v, b));
            }
            e.finalize();
        });
        if let Err(u) = r.out {
            return unwound(c, u, CallOpts::default(), || "append history on a fresh encoder".into());
        }
        want.push(fresh);
    }
    let threads = c.draw(20) == 19;
    let mut r = c.rng();
    let dropped = if r.below(4) == 0 { r.below(n as u64) as usize } else { n };
    c.ev("interleaved", n as u64, want.iter().map(|w| w.len() as u64).sum(), || format!("{n} encoders at once: {:?} items{}", works.iter().map(|w| w.len()).collect::<Vec<_>>(), if threads { ", on several threads" } else { "" }));
    c.stat("append.interleaved_encoders", 1);
    let out = lib_call(c, CallOpts::default(), || {
        let mut encs: Vec<Option<SszEncoder>> = logs.iter_mut().map(|_| None).collect();
        let mut bufs: Vec<Option<&mut Vec<u8>>> = logs.iter_mut().map(|l| Some(&mut l.buf)).collect();
        let mut at = vec![0; n];
        loop {
            let open: Vec<usize> = (0..n).filter(|k| at[*k] <= works[*k].len()).collect();
            if open.is_empty() {
                break;
            }
            let k = open[r.below(open.len() as u64) as usize];
            if encs[k].is_none() {
                encs[k] = Some(SszEncoder::container(bufs[k].take().unwrap(), fixed(&works[k])));
                continue;
            }
            let w = &works[k];
            if k == dropped && at[k] >= w.len() / 2 {
                encs[k] = None;
                at[k] = usize::MAX;
                continue;
            }
            let e = encs[k].as_mut().unwrap();
            match w.get(at[k]) {
                Some((f, t, v, b)) => {
                    if threads && r.below(2) == 0 {
                        let ok = std::thread::scope(|s| s.spawn(|| e.append_parameterized(*f, |buf| buf.extend_from_slice(b))).join().is_ok());
                        if !ok {
                            panic!("an append on another thread panicked");
                        }
                    } else {
                        e.append_parameterized(*f, |b| registry()[*t].append_raw(v, b));
                    }
                }
                None => {
                    e.finalize();
                }
            }
            at[k] += 1;
        }
    });
    if let Err(u) = out.out {
        return unwound(c, u, CallOpts::default(), || "encoders in use at once".into());
    }
    for k in 0..n {
        if k != dropped {
            logs[k].check(c, &format!("encoder {k} of {n} in use at once"), &want[k]);
        }
    }
}

/// A random append history on one encoder, fresh and into a filled buffer. Between two appends
/// other work happens, including (nested) histories on other encoders; some are abandoned.
fn sequence(c: &Ctx, cfg: &Cfg, log: &mut Log, nest: u64) {
    let n = match c.draw(40) {
        39 if cfg.big > 0 => [250, 257, 300, 1000, 17_000][c.draw(5) as usize] + c.draw(8) as usize,
        37..=39 => 9 + c.draw(80) as usize,
        k => k as usize % 9,
    };
    let mut items: Vec<(bool, usize, Rc<Val>, Vec<u8>)> = vec![];
    let mut rng = c.rng();
    for k in 0..n {
        if k >= 8 {
            // many items are few values repeated
            let mut i = rng.below(8) as usize;
            if items[i].3.len() * (n - k) > 1 << 17 {
                i = (0..8).min_by_key(|i| items[*i].3.len()).unwrap();
            }
            if items[i].3.len() * (n - k) > 1 << 20 {
                break;
            }
            let again = items[i].clone();
            items.push(again);
            continue;
        }
        let t = cfg.types.pick(c);
        let v = gen_val(c, t, cfg.big);
        let b = standalone(c, t, &v);
        // A caller may declare any item to be fixed or variable.
        let fixed = if registry()[t].fixed() { c.draw(4) != 3 } else { c.draw(8) == 7 };
        items.push((fixed, t, Rc::new(v), b));
    }
    let num_fixed: usize = items.iter().map(|(f, _, _, b)| if *f { b.len() } else { 4 }).sum();
    let n = items.len();
    let few = |k: usize| k < 50 || k + 5 > n;
    if n > 50 {
        c.stat("append.long_histories", 1);
    }
    // fresh
    let mut fresh = Vec::new();
    let r = lib_call(c, CallOpts::default(), || {
        let mut e = SszEncoder::container(&mut fresh, num_fixed);
        for (f, t, v, _) in &items {
            e.append_parameterized(*f, |b| registry()[*t].append_raw(v, b));
        }
        e.finalize().clone()
    });
    let fin = match r.out {
        Ok(f) => f,
        Err(u) => return unwound(c, u, CallOpts::default(), || "append history on a fresh encoder".into()),
    };
    c.eval();
    if fin != fresh {
        c.violate("finalize-returns-other-bytes", diff(&fresh, &fin));
    }
    // What each append contributed is its standalone encoding.
    let mut at = 0;
    let mut tail = vec![];
    for (f, t, _, b) in &items {
        if *f {
            if fresh.get(at..at + b.len()) != Some(&b[..]) {
                c.violate("appended-bytes-differ", format!("fixed part {} of an append history: {}", registry()[*t].name(), diff(b, fresh.get(at..).unwrap_or(&[]))));
            }
            at += b.len();
        } else {
            at += 4;
            tail.extend_from_slice(b);
        }
    }
    if fresh.len() != num_fixed + tail.len() || !fresh.ends_with(&tail) {
        c.violate("appended-bytes-differ", format!("variable parts of an append history: {}", diff(&tail, &fresh[fresh.len().min(num_fixed)..])));
    }
    // into the filled buffer
    let abandon = c.draw(6) == 5;
    let keep = if abandon { c.draw(n as u64 + 1) as usize } else { n };
    let o = call_opts(c, true);
    c.ev("sequence", n as u64, fresh.len() as u64, || {
        format!("{} appends ({:?}) into {} bytes{}", n, items.iter().take(50).map(|(f, t, _, b)| format!("{}{}:{}", if *f { "fix " } else { "var " }, registry()[*t].name(), b.len())).collect::<Vec<_>>(), log.shadow.len(), if abandon { format!(", abandoned after {keep}") } else { String::new() })
    });
    let mut unw = None;
    {
        let buf = &mut log.buf;
        let mut enc: Option<SszEncoder> = None;
        match lib_call(c, o, || SszEncoder::container(buf, num_fixed)).out {
            Ok(e) => enc = Some(e),
            Err(u) => unw = Some(u),
        }
        if let Some(e) = &mut enc {
            for (k, (f, t, v, _)) in items.iter().take(keep).enumerate() {
                let o = if few(k) { call_opts(c, true) } else { CallOpts::default() };
                if let Err(u) = lib_call(c, o, || e.append_parameterized(*f, |b| registry()[*t].append_raw(v, b))).out {
                    unw = Some(u);
                    break;
                }
                if !few(k) {
                    continue;
                }
                if nest > 0 && c.draw(5) == 4 {
                    let mut other = Log::start(c, cfg);
                    sequence(c, cfg, &mut other, nest - 1);
                } else if c.draw(3) == 2 {
                    c.yield_point();
                }
            }
            if unw.is_none() && !abandon {
                if let Err(u) = lib_call(c, CallOpts::default(), || {
                    e.finalize();
                })
                .out
                {
                    unw = Some(u);
                }
            }
        }
    }
    if let Some(u) = unw {
        unwound(c, u, o, || "append history on a filled buffer".into());
        log.discard();
    } else if abandon {
        c.stat("append.abandoned_encoders", 1);
        let n = log.shadow.len();
        if log.buf.len() < n || log.buf[..n] != log.shadow[..] {
            c.violate("existing-bytes-changed", "abandoned container encoder".into());
        }
        log.buf.truncate(n);
    } else {
        log.check(c, "append history on the container encoder", &fresh);
    }
    c.state(mix(n as u64, mix(num_fixed as u64, items.iter().take(20).fold(0, |a, x| a * 2 + x.0 as u64))));
}
