//! C16: bounded list types of dependent crates decode through `decode_list_of_variable_length_items`
//! with limits and with collections that refuse.

use crate::*;
use smallvec::SmallVec;
use ssz::{decode_list_of_variable_length_items as decode_list, Decode, DecodeError, TryFromIter};
use ssz_sim::probe::*;
use ssz_sim::runner::World;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const WORLD: World = World { property: "C16", max_steps: 6000, setup };

/// What a collection type of a dependent crate does with the items it is offered.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Unbounded,
    /// stops at the first item beyond `k`
    Bounded,
    /// takes everything, then refuses if there were more than `k`
    BoundedAfterDrain,
    /// refuses without looking
    Always,
    /// refuses once it has taken everything
    AfterDrain,
    /// refuses an empty collection
    RefuseEmpty,
    /// reserves what the iterator's size hint promises
    Reserve,
    /// drains the iterator from inside (`fold`)
    Fold,
    /// works from the back of its own buffer: checks the hint's lower bound against the bound first
    BoundedByLowerHint,
    /// fails with its own error type holding a value
    Custom,
}
const MODES: &[Mode] = &[
    Mode::Unbounded,
    Mode::Bounded,
    Mode::BoundedAfterDrain,
    Mode::Always,
    Mode::AfterDrain,
    Mode::RefuseEmpty,
    Mode::Reserve,
    Mode::Fold,
    Mode::BoundedByLowerHint,
    Mode::Custom,
];

thread_local! {
    static COLL: Cell<(Mode, usize)> = const { Cell::new((Mode::Unbounded, 0)) };
    static OFFERED: Cell<u64> = const { Cell::new(0) };
}

#[derive(Debug, PartialEq, Clone)]
pub struct SimColl<T>(Vec<T>);
#[derive(Debug)]
#[allow(dead_code)]
pub enum Refusal {
    Full { max: usize },
    No(String),
}

impl<T> TryFromIter<T> for SimColl<T> {
    type Error = Refusal;
    fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, Refusal> {
        OFFERED.with(|o| o.set(o.get() + 1));
        let (mode, k) = COLL.with(|c| c.get());
        if mode == Mode::Always {
            return Err(Refusal::No("never".into()));
        }
        let mut iter = iter.into_iter();
        let mut v = vec![];
        let (lower, upper) = iter.size_hint();
        if mode == Mode::Reserve {
            v.reserve(upper.unwrap_or(lower));
        }
        if mode == Mode::BoundedByLowerHint && lower > k {
            return Err(Refusal::Full { max: k });
        }
        if mode == Mode::Fold {
            return Ok(SimColl(iter.fold(v, |mut v, x| {
                v.push(x);
                v
            })));
        }
        for x in iter.by_ref() {
            if matches!(mode, Mode::Bounded | Mode::BoundedByLowerHint | Mode::Custom) && v.len() == k {
                return Err(if mode == Mode::Custom { Refusal::No(format!("full at {k}")) } else { Refusal::Full { max: k } });
            }
            v.push(x);
        }
        match mode {
            Mode::BoundedAfterDrain if v.len() > k => return Err(Refusal::Full { max: k }),
            Mode::AfterDrain => return Err(Refusal::No("on reflection".into())),
            Mode::RefuseEmpty if v.is_empty() => return Err(Refusal::No("empty".into())),
            _ => {}
        }
        Ok(SimColl(v))
    }
}

/// Does the collection refuse `n` items?
fn refuses(mode: Mode, k: usize, n: usize) -> bool {
    match mode {
        Mode::Unbounded | Mode::Reserve | Mode::Fold => false,
        Mode::Bounded | Mode::BoundedAfterDrain | Mode::BoundedByLowerHint | Mode::Custom => n > k,
        Mode::Always | Mode::AfterDrain => true,
        Mode::RefuseEmpty => n == 0,
    }
}

type Items = Result<Vec<Vec<u8>>, DecodeError>;
struct Target {
    name: &'static str,
    /// decodes into `SimColl`
    sim: bool,
    /// the collection drops duplicates
    set: bool,
    nofail: bool,
    decode: fn(&Ctx, CallOpts, &[u8], Option<usize>) -> Called<Items>,
}

fn run<T: Decode, C: TryFromIter<T>>(c: &Ctx, o: CallOpts, b: &[u8], max: Option<usize>, f: fn(C) -> Vec<Vec<u8>>) -> Called<Items> {
    let r = lib_call(c, o, || decode_list::<T, C>(b, max));
    Called { out: r.out.map(|x| x.map(f)), acc: r.acc }
}

fn flat<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> Vec<u8>) -> Vec<Vec<u8>> {
    v.into_iter().map(f).collect()
}

/// An item with invariants of its own: it rejects some bytes.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
pub struct Picky(Vec<u8>);
impl Decode for Picky {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        let p = PV::from_ssz_bytes(b)?;
        if p.0.first().is_some_and(|x| *x >= 0xE8) {
            return Err(DecodeError::BytesInvalid("picky".into()));
        }
        Ok(Picky(p.0))
    }
}

static TARGETS: &[Target] = &[
    Target { name: "SimColl<PV>", sim: true, set: false, nofail: false, decode: |c, o, b, m| run::<PV, SimColl<PV>>(c, o, b, m, |v| flat(v.0, |x| x.0)) },
    Target { name: "SimColl<Picky>", sim: true, set: false, nofail: false, decode: |c, o, b, m| run::<Picky, SimColl<Picky>>(c, o, b, m, |v| flat(v.0, |x| x.0)) },
    Target {
        name: "SimColl<(PV, PF<1>)>",
        sim: true,
        set: false,
        nofail: false,
        decode: |c, o, b, m| run::<(PV, PF<1>), SimColl<(PV, PF<1>)>>(c, o, b, m, |v| flat(v.0, |(x, y)| [x.0, vec![0xFE], y.0].concat())),
    },
    Target { name: "SimColl<Vec<PV>>", sim: true, set: false, nofail: false, decode: |c, o, b, m| run::<Vec<PV>, SimColl<Vec<PV>>>(c, o, b, m, |v| flat(v.0, |x| format!("{x:?}").into_bytes())) },
    Target { name: "Vec<PV>", sim: false, set: false, nofail: false, decode: |c, o, b, m| run::<PV, Vec<PV>>(c, o, b, m, |v| flat(v, |x| x.0)) },
    Target { name: "Vec<Picky>", sim: false, set: false, nofail: false, decode: |c, o, b, m| run::<Picky, Vec<Picky>>(c, o, b, m, |v| flat(v, |x| x.0)) },
    Target { name: "Vec<Vec<u8>>", sim: false, set: false, nofail: false, decode: |c, o, b, m| run::<Vec<u8>, Vec<Vec<u8>>>(c, o, b, m, |v| v) },
    Target { name: "SmallVec<[PV; 1]>", sim: false, set: false, nofail: false, decode: |c, o, b, m| run::<PV, SmallVec<[PV; 1]>>(c, o, b, m, |v| flat(v, |x| x.0)) },
    Target { name: "SmallVec<[Picky; 4]>", sim: false, set: false, nofail: false, decode: |c, o, b, m| run::<Picky, SmallVec<[Picky; 4]>>(c, o, b, m, |v| flat(v, |x| x.0)) },
    Target { name: "BTreeSet<PV>", sim: false, set: true, nofail: true, decode: |c, o, b, m| run::<PV, BTreeSet<PV>>(c, o, b, m, |v| flat(v, |x| x.0)) },
    Target {
        name: "BTreeMap<PV, PV>",
        sim: false,
        set: true,
        nofail: true,
        decode: |c, o, b, m| run::<(PV, PV), BTreeMap<PV, PV>>(c, o, b, m, |v| flat(v, |(x, y)| [x.0, vec![0xFE], y.0].concat())),
    },
];

struct Cfg {
    targets: Vec<usize>,
    nodes: usize,
    ops: u64,
    big: u64,
}

fn setup(i: &mut Inner) -> Vec<(String, TaskFn)> {
    swarm(i);
    let t = &mut i.tape;
    let n = 1 + t.draw(4);
    let targets = (0..n).map(|_| t.draw(TARGETS.len() as u64) as usize).collect();
    let nodes = 1 + t.draw(3) as usize;
    let ops = 3 + t.draw(12);
    let big = (t.draw(20) == 19) as u64;
    let cfg = Arc::new(Cfg { targets, nodes, ops, big });
    let mut v: Vec<(String, TaskFn)> = vec![];
    for k in 0..nodes {
        let cfg = cfg.clone();
        v.push((format!("node{k}"), Box::new(move |c| node(&c, |c, life| run_node(c, life, &cfg)))));
    }
    if i.faults.crash + i.faults.partition > 0 {
        v.push(("nemesis".into(), Box::new(move |c| nemesis(&c, nodes))));
    }
    v
}

fn message(c: &Ctx, t: &Target, cfg: &Cfg) -> Vec<u8> {
    if cfg.big > 0 && c.draw(10) == 9 {
        // more items than sixteen bits can count
        let n = match c.draw(4) {
            0 => 65_536 + c.draw(9) as usize,
            1 => 65_528 + c.draw(9) as usize,
            2 => 131_072 + c.draw(5) as usize,
            _ => 65_536 + c.draw(66_000) as usize,
        };
        let first = (4 * n as u32).to_le_bytes();
        return if c.draw(10) == 9 {
            // all there, and empty
            first.repeat(n)
        } else {
            // only the first offset is right
            let mut b = vec![0; 4 * n + c.draw(9) as usize];
            b[..4].copy_from_slice(&first);
            b
        };
    }
    let n = match c.draw(9) {
        0 => 0,
        1..=4 => 1 + c.draw(6),
        5 | 6 => 1 + c.draw(24),
        7 => 1 + c.draw(200),
        _ => 1 + c.draw(if cfg.big > 0 { 30_000 } else { 2000 }),
    } as usize;
    let inner: &[usize] = match t.name {
        "SimColl<(PV, PF<1>)>" => &[0, 1],
        "BTreeMap<PV, PV>" | "SimColl<Vec<PV>>" => &[0, 0],
        _ => &[],
    };
    if !inner.is_empty() {
        let mut r = c.rng();
        let sz = 1 + c.draw(6);
        let parts: Vec<Vec<u8>> = (0..n)
            .map(|_| {
                let fixed: usize = inner.iter().map(|n| if *n == 0 { 4 } else { *n }).sum();
                let (mut head, mut tail) = (vec![], vec![]);
                for n in inner {
                    if *n == 0 {
                        head.extend_from_slice(&((fixed + tail.len()) as u32).to_le_bytes());
                        let k = r.below(sz) as usize;
                        tail.extend(r.bytes(k));
                    } else {
                        head.extend(r.bytes(*n));
                    }
                }
                head.extend(tail);
                head
            })
            .collect();
        let mut b = vec![];
        let mut o = 4 * n;
        for p in &parts {
            b.extend_from_slice(&(o as u32).to_le_bytes());
            o += p.len();
        }
        b.extend(parts.concat());
        return b;
    }
    let sz = size_class(c, 0);
    layout(c, &vec![0; n], sz)
}

fn run_node(c: &Ctx, life: u64, cfg: &Cfg) {
    if life > 0 {
        for k in c.disk_keys() {
            if let Some(b) = c.disk_read(k) {
                receive(c, cfg, k as usize & 0xFFFF, &b);
            }
        }
    }
    for op in 0..cfg.ops {
        let k = c.draw(cfg.targets.len() as u64) as usize;
        let mut b = message(c, &TARGETS[cfg.targets[k]], cfg);
        if c.draw(3) == 2 {
            let f = announced(&b).unwrap_or(0);
            let n = (f / 4).min(b.len() / 4);
            let o: Vec<usize> = (0..n).map(|k| 4 * k).collect();
            tamper(c, &mut b, &o, f);
        }
        match c.draw(8) {
            0..=4 => receive(c, cfg, k, &b),
            5 | 6 if cfg.nodes > 1 => {
                let to = (c.me + 1 + c.draw(cfg.nodes as u64 - 1) as usize) % cfg.nodes;
                c.ev("send", k as u64, b.len() as u64, || format!("to node{to}: {}", hex(&b)));
                c.send(to, k as u32, 0, b);
            }
            _ => {
                let key = (op << 16) | k as u64;
                c.disk_write(key, b);
                if c.draw(2) == 1 {
                    c.disk_sync();
                }
                if let Some(b) = c.disk_read(key) {
                    receive(c, cfg, k, &b);
                }
            }
        }
        while let Some(m) = c.recv(if c.draw(3) == 0 { 2500 } else { 0 }) {
            receive(c, cfg, m.kind as usize % cfg.targets.len(), &m.bytes);
        }
    }
}

/// How many different items (of a map: keys) there are, going by what a `Vec` of them holds.
fn different(c: &Ctx, t: &Target, b: &[u8]) -> Option<usize> {
    let count = |mut v: Vec<PV>| {
        v.sort();
        v.dedup();
        v.len()
    };
    let r = if t.name.starts_with("BTreeMap") {
        lib_call(c, CallOpts::default(), || decode_list::<(PV, PV), Vec<(PV, PV)>>(b, None).map(|v| v.into_iter().map(|x| x.0).collect())).out
    } else {
        lib_call(c, CallOpts::default(), || decode_list::<PV, Vec<PV>>(b, None)).out
    };
    r.ok()?.ok().map(count)
}

fn decodes() -> u64 {
    DECODES.with(|d| d.replace(0))
}

fn receive(c: &Ctx, cfg: &Cfg, k: usize, b: &[u8]) {
    let t = &TARGETS[cfg.targets[k % cfg.targets.len()]];
    let f = announced(b);
    // the count the input announces, when its first offset is one
    let count = if b.is_empty() { Some(0) } else { f.filter(|f| f % 4 == 0 && *f >= 4).map(|f| f / 4) };
    let n = count.unwrap_or(0);
    let flt = c.faults();
    let (mode, bound) = if t.sim {
        let m = if flt.refuse > 0 && c.chance(300 + flt.refuse, 1000) { MODES[c.draw(MODES.len() as u64) as usize] } else { Mode::Unbounded };
        let b = match c.draw(5) {
            0 => n,
            1 => n.wrapping_sub(1).min(1 << 30),
            2 => 0,
            3 => n + 1,
            _ => c.draw(n as u64 + 2) as usize,
        };
        (m, b)
    } else {
        (Mode::Unbounded, 0)
    };
    let max = match c.draw(18) {
        10 => Some(n & 0xFFFF),
        11 => Some(n & 0xFF),
        12 => Some(n.wrapping_add([1 << 8, 1 << 16, 1 << 32, 1 << 63][c.draw(4) as usize])),
        13 => Some([1 << 32, 1 << 30, (1 << 32) - 1, 1 << 62, usize::MAX / 4 + 1, 255, 65_535][c.draw(7) as usize]),
        14 => Some(n / 2),
        15 => Some(b.len()),
        0 => None,
        1 => Some(n),
        2 => Some(n.saturating_sub(1)),
        3 => Some(n + 1),
        4 => Some(0),
        5 => Some(1),
        6 => Some(usize::MAX),
        7 => Some(n / 4),
        8 => Some(n.saturating_mul(4)),
        _ => Some(c.draw(n as u64 + 2) as usize),
    };
    let item_err = if flt.item_err > 0 && c.chance(flt.item_err, 1500) { 1 + c.draw(n as u64 + 2) } else { 0 };
    COLL.with(|x| x.set((mode, bound)));
    // what unlimited decoding returns, undisturbed but for the item that fails
    let calm = CallOpts { err_at: item_err, ..CallOpts::default() };
    decodes();
    let free = (t.decode)(c, calm, b, None);
    let free_decodes = decodes();
    let mut o = call_opts(c, !t.nofail);
    o.err_at = item_err;
    COLL.with(|x| x.set((mode, bound)));
    OFFERED.with(|x| x.set(0));
    let r = (t.decode)(c, o, b, max);
    let made = decodes();
    let what = || format!("{}{} max_len {max:?}{} over {}", t.name, if t.sim { format!(" {mode:?}({bound})") } else { String::new() }, if item_err > 0 { format!(" item decode {item_err} fails") } else { String::new() }, hex(b));
    c.eval();
    c.ev("decode", b.len() as u64, n as u64, || format!("{} -> {}, {made} decodes, peak {}; unlimited: {}, {free_decodes} decodes", what(), show(&r.out), r.acc.peak, show(&free.out)));
    c.sample(|| format!("{} -> {}", what(), show(&r.out)));
    let over = matches!(max, Some(m) if f.map(|f| f / 4).unwrap_or(0) > m) && count.is_some();
    if over || t.sim && mode != Mode::Unbounded {
        c.nontrivial();
    }
    if over {
        c.stat("limit.exceeded", 1);
    } else if max.is_some() {
        c.stat("limit.kept", 1);
    }
    if t.sim && refuses(mode, bound, n) && count.is_some() {
        c.stat("fault.collection_refuses", 1);
    }
    if item_err > 0 && free_decodes >= item_err {
        c.stat("fault.item_error", 1);
    }
    c.state(mix(cfg.targets[k % cfg.targets.len()] as u64 | (mode as u64) << 8 | (over as u64) << 16 | (r.out.as_ref().is_ok_and(|x| x.is_ok()) as u64) << 17, n.min(40) as u64 | (max.map(|m| (m as i128 - n as i128).clamp(-3, 3) as u64 & 15).unwrap_or(9)) << 8));
    // no panic of its own, on either path
    for x in [&free.out, &r.out] {
        if let Err(Unwound::Panic(m)) = x {
            c.violate("decoding-panics", format!("{}: {m}", what()));
        }
    }
    if over {
        if matches!(r.out, Ok(Ok(_))) {
            c.violate("limit-not-enforced", format!("{}: {n} items announced, accepted as {}", what(), show(&r.out)));
        }
        if made > 0 {
            c.violate("items-decoded-beyond-limit", format!("{}: {n} items announced and {made} item decodes made", what()));
        }
        if r.acc.peak > 512 || r.acc.largest > 512 {
            c.violate("space-reserved-beyond-limit", format!("{}: {n} items announced and {} bytes requested", what(), r.acc.peak));
        }
        return;
    }
    // the collection's refusal, on the unlimited path as on the limited one
    for (x, lim) in [(&free.out, "unlimited"), (&r.out, "limited")] {
        if let Ok(Ok(v)) = x {
            if let Some(n) = count {
                if t.sim && refuses(mode, bound, n) {
                    c.violate("refusal-lost", format!("{} ({lim}): the collection refuses {n} items, result {}", what(), show(x)));
                }
                if v.len() != n && !t.set {
                    c.violate("truncated-collection", format!("{} ({lim}): {n} items announced, result {}", what(), show(x)));
                }
                let made = if lim == "limited" { made } else { free_decodes };
                if item_err > 0 && made >= item_err {
                    c.violate("item-error-lost", format!("{} ({lim}): an item failed to decode, result {}", what(), show(x)));
                }
            }
        }
    }
    // a set or a map lacks none of the items
    if t.set && n > 0 && count.is_some() && (matches!(free.out, Ok(Ok(_))) || matches!(r.out, Ok(Ok(_)))) {
        if let Some(d) = different(c, t, b) {
            for (x, lim) in [(&free.out, "unlimited"), (&r.out, "limited")] {
                if matches!(x, Ok(Ok(v)) if v.len() < d) {
                    c.violate("truncated-collection", format!("{} ({lim}): {n} items announced, {d} different ones, result {}", what(), show(x)));
                }
            }
        }
        decodes();
    }
    if b.is_empty() && !(t.sim && refuses(mode, bound, 0)) {
        for (x, lim) in [(&free.out, "unlimited"), (&r.out, "limited")] {
            if !matches!(x, Ok(Ok(v)) if v.is_empty()) && !matches!(x, Err(Unwound::Alloc) | Err(Unwound::Cancelled)) {
                c.violate("empty-input", format!("{} ({lim}): {}", what(), show(x)));
            }
        }
    }
    match (&free.out, &r.out) {
        (_, Err(_)) => {
            // interrupted by injection: the next attempt is judged afresh
            c.stat("interrupted", 1);
            COLL.with(|x| x.set((mode, bound)));
            let again = (t.decode)(c, calm, b, max);
            decodes();
            let open = count.is_none() && matches!((&free.out, &again.out), (Ok(Err(_)), Ok(Err(_))));
            if again.out != free.out && !open {
                c.violate("limited-differs-from-unlimited", format!("{} (after an interrupted attempt): {} and not {}", what(), show(&again.out), show(&free.out)));
            }
        }
        (a, z) => {
            // what a malformed first offset announces is open: any error will do
            let open = count.is_none() && matches!((a, z), (Ok(Err(_)), Ok(Err(_))));
            if a != z && !open {
                c.violate("limited-differs-from-unlimited", format!("{}: {} and not {}", what(), show(z), show(a)));
            }
        }
    }
    // a refusing collection against one that takes everything
    if t.sim && mode != Mode::Unbounded && matches!(free.out, Ok(Err(_))) && count.is_some() && !refuses(mode, bound, n) {
        COLL.with(|x| x.set((Mode::Unbounded, 0)));
        let u = (t.decode)(c, calm, b, None);
        decodes();
        if let Ok(Ok(_)) = u.out {
            c.violate("willing-collection-refused", format!("{}: {} although the collection takes {n} items", what(), show(&free.out)));
        }
    }
}

fn show(g: &Result<Items, Unwound>) -> String {
    match g {
        Ok(Ok(v)) => format!("{} items", v.len()),
        Ok(Err(e)) => format!("{e:?}"),
        Err(u) => format!("{u:?}"),
    }
}
