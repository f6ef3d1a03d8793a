//! C11 and C13: nodes that keep, change, exchange and persist bitfields.
//!
//! Both properties run the same system. C11 compares every observation with a plain sequence of
//! booleans; C13 judges the lengths of whatever comes out of any construction path.
mod format;
mod kinds;

use format::*;
use kinds::*;
use ssz_sim::core::*;
use ssz_sim::runner::World;
use std::io::{Error as IoError, ErrorKind, Read, Write};
use std::sync::Arc;

const C11: World = World { property: "C11", max_steps: 8000, setup: |i| setup(i, false) };
const C13: World = World { property: "C13", max_steps: 8000, setup: |i| setup(i, true) };

fn main() {
    kinds();
    ssz_sim::runner::main(&[C11, C13]);
}

/// No bitfield under test has more bits than this.
const SEEN: usize = 1 << 21;

struct Slot {
    k: usize,
    b: Bx,
    /// the plain sequence of booleans (C11)
    m: Vec<bool>,
}

struct Cfg {
    bounds: bool,
    /// lists may hold this many bits
    most: usize,
    kinds: Vec<usize>,
    nodes: usize,
    ops: u64,
}

fn setup(i: &mut Inner, bounds: bool) -> Vec<(String, TaskFn)> {
    swarm(i);
    let t = &mut i.tape;
    let n = 1 + t.draw(4);
    let long = t.draw(400) == 399;
    let longer = long && t.draw(8) == 7;
    let all: Vec<usize> = (0..kinds().len())
        .filter(|k| {
            let k = &kinds()[*k];
            match () {
                _ if k.n > 1 << 20 || k.class == Class::Dynamic => true,
                _ if longer => k.n >= LONGER,
                _ if long => (LONG..LONGER).contains(&k.n),
                _ => k.n < LONG,
            }
        })
        .collect();
    let kinds = (0..n).map(|_| all[t.draw(all.len() as u64) as usize]).collect();
    let nodes = 1 + t.draw(3) as usize;
    let ops = 4 + t.draw(if longer { 5 } else if long { 8 } else { 30 });
    let cfg = Arc::new(Cfg { bounds, most: if longer { 600_000 } else if long { 131_000 } else { 9000 }, kinds, nodes, ops });
    let mut v: Vec<(String, TaskFn)> = vec![];
    for k in 0..nodes {
        let cfg = cfg.clone();
        v.push((format!("node{k}"), Box::new(move |c| node(&c, |c, life| Node { c, cfg: &cfg, slots: vec![], life }.run()))));
    }
    if i.faults.crash + i.faults.partition > 0 {
        v.push(("nemesis".into(), Box::new(move |c| nemesis(&c, nodes))));
    }
    v
}

fn min_bytes(len: usize) -> usize {
    (len.div_ceil(8)).max(1)
}

/// The reference encoding of a sequence of booleans.
fn encode(class: Class, m: &[bool]) -> Vec<u8> {
    let len = if class == Class::List { m.len() + 1 } else { m.len() };
    let mut b = vec![0u8; min_bytes(len)];
    for (i, v) in m.iter().enumerate() {
        b[i / 8] |= (*v as u8) << (i % 8);
    }
    if class == Class::List {
        b[m.len() / 8] |= 1 << (m.len() % 8);
    }
    b
}

/// The reference decoding, without regard to any bound: for a list the bits before the delimiter.
fn decode(k: &Kind, b: &[u8]) -> Option<Vec<bool>> {
    let bit = |i: usize| b[i / 8] >> (i % 8) & 1 == 1;
    match k.class {
        Class::Dynamic => (!b.is_empty()).then(|| (0..8 * b.len()).map(bit).collect()),
        Class::Vector => {
            if b.len() != min_bytes(k.n) || (k.n..8 * b.len()).any(bit) {
                return None;
            }
            Some((0..k.n).map(bit).collect())
        }
        Class::List => {
            let l = *b.last()?;
            if l == 0 {
                return None;
            }
            let len = 8 * (b.len() - 1) + 7 - l.leading_zeros() as usize;
            Some((0..len).map(bit).collect())
        }
    }
}

fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(80).map(|x| format!("{x:02x}")).collect();
    if b.len() > 80 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
fn show(m: &[bool]) -> String {
    let mut s: String = m.iter().take(100).map(|v| if *v { '1' } else { '0' }).collect();
    if m.len() > 100 {
        s.push_str("..");
    }
    format!("{s} ({} bits)", m.len())
}

/// Everything one can see of a bitfield.
struct Obs {
    len: usize,
    empty: bool,
    bits: Vec<Result<bool, String>>,
    beyond: Vec<(usize, Result<bool, String>)>,
    iter: Vec<bool>,
    ones: usize,
    top: Option<usize>,
    zero: bool,
    slice: Vec<u8>,
    ssz: Vec<u8>,
    after: Vec<u8>,
    raw: Vec<u8>,
    display: Option<String>,
}

fn observe(b: &dyn AnyBits) -> Obs {
    let len = b.len();
    let most = len.min(SEEN);
    let beyond = [len, len + 1, len | 7, (len | 7) + 1, len + 64, usize::MAX];
    let mut after = vec![0xFFu8; 3];
    b.ssz_after(&mut after);
    Obs {
        len,
        empty: b.is_empty(),
        bits: (0..most).map(|i| b.get(i)).collect(),
        beyond: beyond.iter().filter(|i| **i >= len).map(|i| (*i, b.get(*i))).collect(),
        iter: b.bits(most + 16),
        ones: b.ones(),
        top: b.top(),
        zero: b.is_zero(),
        slice: b.slice(),
        ssz: b.ssz(),
        after,
        raw: b.cl().into_raw(),
        display: b.display(),
    }
}

/// JSON text from a disk or socket that delivers it in pieces, late, or not at all.
struct Pipe {
    c: Ctx,
    data: Vec<u8>,
    at: usize,
    fail_at: usize,
    step: usize,
}
impl Read for Pipe {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.c.callback() || self.at >= self.fail_at {
            self.c.stat("fault.io_error", 1);
            return Err(IoError::new(ErrorKind::Other, "simulated input error"));
        }
        let n = self.step.min(buf.len()).min(self.data.len() - self.at).min(self.fail_at - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
impl Write for Pipe {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.c.callback() || self.data.len() >= self.fail_at {
            self.c.stat("fault.disk_full", 1);
            return Err(IoError::new(ErrorKind::Other, "simulated disk full"));
        }
        let n = self.step.min(buf.len()).min(self.fail_at - self.data.len());
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Node<'a> {
    c: &'a Ctx,
    cfg: &'a Cfg,
    slots: Vec<Slot>,
    life: u64,
}

/// What the request behind a construction was.
enum Asked {
    /// this many bits (constructors)
    Len(usize),
    /// a byte string
    Bytes(Vec<u8>),
    /// bytes with a declared length
    Declared(Vec<u8>, usize),
    /// operands already in bounds, or text that may be malformed
    Any,
}

impl Node<'_> {
    fn pipe(&self, data: Vec<u8>) -> Pipe {
        let c = self.c;
        let f = c.faults();
        let total = if data.is_empty() { 64 } else { data.len() };
        let fail_at = if f.eio > 0 && c.chance(f.eio, 1000) { c.draw(total as u64 + 2) as usize } else { usize::MAX };
        let step = if f.short > 0 { 1 + c.draw(9) as usize } else { 4096 };
        Pipe { c: c.clone(), data, at: 0, fail_at, step }
    }

    fn run(mut self) {
        let c = self.c;
        if self.life > 0 {
            for key in c.disk_keys() {
                if let Some(b) = c.disk_read(key) {
                    self.take(key as usize & 0xFFF, (key >> 12) & 1 == 1, b, "disk");
                }
            }
        }
        for op in 0..self.cfg.ops {
            if self.slots.is_empty() || (self.slots.len() < 6 && c.draw(12) == 11) {
                self.create();
            } else {
                let s = c.draw(self.slots.len() as u64) as usize;
                if self.cfg.bounds {
                    match c.draw(20) {
                        0..=3 => self.create(),
                        4 | 5 => self.set(s),
                        6 => self.shift(s),
                        7 | 8 => self.set_op(s),
                        9..=11 => self.resize(s),
                        12..=14 => self.bytes(),
                        15 | 16 => self.json(s),
                        17 => self.send(s),
                        18 => self.store(s, op),
                        _ => self.copy(s),
                    }
                } else {
                    match c.draw(25) {
                        24 => self.assign(s),
                        0..=6 => self.set(s),
                        7..=11 => self.shift(s),
                        12 | 13 => self.diff_in(s),
                        14 => self.set_op(s),
                        15 | 16 => self.copy(s),
                        17 => self.resize(s),
                        18 => self.bytes(),
                        19 => self.json(s),
                        20 => self.send(s),
                        21 => self.store(s, op),
                        22 => self.create(),
                        _ => self.recode(s),
                    }
                }
            }
            while let Some(m) = c.recv(if c.draw(4) == 0 { 2500 } else { 0 }) {
                self.take(m.kind as usize, m.tag == 1, m.bytes, "network");
            }
        }
    }

    fn kind(&self) -> usize {
        let n = self.cfg.kinds.len() as u64;
        self.cfg.kinds[self.c.draw(n) as usize]
    }

    fn opts(&self) -> CallOpts {
        call_opts(self.c, true)
    }

    /// Something the library made: judge it, and keep it if there is room.
    ///
    /// `want`: what the plain sequence would be, when it is defined by the property.
    fn made(&mut self, k: usize, how: &'static str, asked: Asked, r: Result<Made, Unwound>, want: Option<Vec<bool>>, must: bool) -> bool {
        let c = self.c;
        let kind = &kinds()[k];
        let desc = || {
            let req = match &asked {
                Asked::Len(n) => format!("{n} bits"),
                Asked::Bytes(b) => format!("bytes {}", hex(b)),
                Asked::Declared(b, n) => format!("bytes {} declared as {n} bits", hex(b)),
                Asked::Any => String::new(),
            };
            format!("{} {how} {req}", kind.name())
        };
        c.ev("make", k as u64, matches!(r, Ok(Ok(_))) as u64, || {
            format!("{} -> {}", desc(), match &r {
                Ok(Ok(b)) => format!("{} bits", b.len()),
                Ok(Err(e)) => format!("error {e}"),
                Err(u) => format!("{u:?}"),
            })
        });
        c.sample(|| desc());
        let over = self.over(kind, &asked);
        if over {
            c.stat("request.beyond_bound", 1);
            if self.cfg.bounds {
                c.nontrivial();
            }
        }
        let made = match r {
            Err(Unwound::Panic(m)) => {
                c.eval();
                c.violate(if self.cfg.bounds { "request-panics" } else { "operation-panics" }, format!("{}: {m}", desc()));
            }
            Err(_) => {
                c.stat("interrupted", 1);
                return false;
            }
            Ok(m) => m,
        };
        c.stat(if made.is_ok() { "made" } else { "refused" }, 1);
        c.eval();
        if self.cfg.bounds {
            let b = match made {
                Ok(b) => b,
                Err(e) => {
                    if must {
                        c.violate("request-in-bounds-refused", format!("{}: {e}", desc()));
                    }
                    return false;
                }
            };
            let len = b.len();
            c.state(mix(k as u64, mix(how.len() as u64, (len as i64 - kind.n as i64).clamp(-9, 9) as u64)));
            self.bound(kind, len, &desc);
            if over {
                c.violate("request-beyond-bound-granted", format!("{}: {} bits", desc(), len));
            }
            if let Asked::Bytes(b) = &asked {
                // as many bits as the bytes say
                if let Some(m) = decode(kind, b) {
                    if m.len() != len {
                        c.violate("request-truncated-or-grown", format!("{}: {} bits", desc(), len));
                    }
                }
            }
            if let Asked::Len(n) = asked {
                if kind.class != Class::Vector && len != n {
                    c.violate("request-truncated-or-grown", format!("{}: {} bits", desc(), len));
                }
            }
            self.keep(Slot { k, b, m: vec![] });
        } else {
            let b = match made {
                Ok(b) => b,
                Err(e) => {
                    if must {
                        c.violate("construction-refused", format!("{}: {e}", desc()));
                    }
                    return false;
                }
            };
            let m = want.unwrap_or_else(|| (0..b.len().min(SEEN)).map(|i| b.get(i).unwrap_or(false)).collect());
            let s = Slot { k, b, m };
            self.check(&s, how);
            self.keep(s);
        }
        true
    }

    fn keep(&mut self, s: Slot) {
        if self.slots.len() < 6 {
            self.slots.push(s);
        } else {
            let k = self.c.draw(6) as usize;
            self.slots[k] = s;
        }
    }

    /// Is the request beyond the bound of the type?
    fn over(&self, k: &Kind, a: &Asked) -> bool {
        match (k.class, a) {
            (_, Asked::Any) => false,
            (Class::List, Asked::Len(n)) => *n > k.n,
            (Class::List, Asked::Bytes(b)) => decode(k, b).is_some_and(|m| m.len() > k.n),
            (Class::Vector, Asked::Bytes(b)) => decode(k, b).is_none(),
            (Class::Vector, _) => false,
            (Class::Dynamic, Asked::Len(n)) => *n == 0 || n % 8 != 0,
            (Class::Dynamic, Asked::Bytes(b)) => b.is_empty(),
            (Class::Dynamic, Asked::Declared(b, n)) => b.is_empty() || *n != 8 * b.len(),
            (Class::List, Asked::Declared(..)) => false,
        }
    }

    fn bound(&self, k: &Kind, len: usize, desc: &dyn Fn() -> String) {
        let ok = match k.class {
            Class::List => len <= k.n,
            Class::Vector => len == k.n,
            Class::Dynamic => len > 0 && len % 8 == 0,
        };
        if !ok {
            self.c.violate("length-out-of-bounds", format!("{}: holds {len} bits", desc()));
        }
    }

    // -- C11 -----------------------------------------------------------------------------------

    /// Compare every observation of a slot with the plain sequence of booleans.
    fn check(&self, s: &Slot, after: &str) {
        let c = self.c;
        let kind = &kinds()[s.k];
        c.eval();
        let what = || format!("{} after {after}, plain sequence {}", kind.name(), show(&s.m));
        let o = match lib_call(c, CallOpts::default(), || observe(&*s.b)).out {
            Ok(o) => o,
            Err(Unwound::Panic(m)) => c.violate("observation-panics", format!("{}: {m}", what())),
            Err(_) => return,
        };
        let m = &s.m;
        let ones = m.iter().filter(|v| **v).count();
        c.state(mix(s.k as u64, mix((m.len() % 8) as u64 | ((m.len().min(70) / 8) as u64) << 3, ones.min(9) as u64)));
        let fail = |oracle: &str, got: String, want: String| -> ! { c.violate(oracle, format!("{}: {oracle} is {got}, should be {want}", what())) };
        if o.len != m.len() {
            fail("len", o.len.to_string(), m.len().to_string());
        }
        if o.empty != m.is_empty() {
            fail("is_empty", o.empty.to_string(), m.is_empty().to_string());
        }
        for (i, r) in o.bits.iter().enumerate() {
            if r.as_ref().ok() != Some(&m[i]) {
                fail("get", format!("{r:?} at {i}"), m[i].to_string());
            }
        }
        for (i, r) in &o.beyond {
            if r.is_ok() {
                fail("get", format!("{r:?} at {i}"), "an error".into());
            }
        }
        if &o.iter != m {
            fail("iter", show(&o.iter), show(m));
        }
        if o.ones != ones {
            fail("num_set_bits", o.ones.to_string(), ones.to_string());
        }
        let top = m.iter().rposition(|v| *v);
        if o.top != top {
            fail("highest_set_bit", format!("{:?}", o.top), format!("{top:?}"));
        }
        if o.zero != (ones == 0) {
            fail("is_zero", o.zero.to_string(), (ones == 0).to_string());
        }
        for (name, view) in [("as_slice", &o.slice), ("into_raw_bytes", &o.raw)] {
            if view.len() != min_bytes(m.len()) {
                fail(name, format!("{} bytes", view.len()), format!("{} bytes", min_bytes(m.len())));
            }
            for i in m.len()..8 * view.len() {
                if view[i / 8] >> (i % 8) & 1 == 1 {
                    fail(name, format!("{} with bit {i} set", hex(view)), "free of bits at or beyond the length".into());
                }
            }
        }
        let enc = encode(kind.class, m);
        if o.ssz != enc {
            fail("encoding", hex(&o.ssz), hex(&enc));
        }
        if o.after[3..] != enc[..] || o.after[..3] != [0xFF; 3] {
            fail("appended encoding", hex(&o.after), hex(&enc));
        }
        if let Some(d) = &o.display {
            let w: String = m.iter().map(|v| if *v { '1' } else { '0' }).collect();
            if *d != w {
                fail("display", d.clone(), w);
            }
        }
        // the iterator read in other ways
        let (how, k) = (c.draw(WALKS), c.draw(m.len() as u64 + 3) as usize);
        match lib_call(c, CallOpts::default(), || s.b.walk(how, k)).out {
            Ok(w) => {
                let want = walk(m.iter().copied(), how, k);
                if w != want {
                    fail("iter", format!("{} (walk {how}, {k})", show(&w)), show(&want));
                }
            }
            Err(Unwound::Panic(m)) => c.violate("observation-panics", format!("{}: walk {how}, {k}: {m}", what())),
            Err(_) => return,
        }
        // equality and hash, against a bitfield built bit by bit, and against near misses
        let near = c.draw(3);
        let flip = if m.is_empty() { None } else { Some(c.draw(m.len() as u64) as usize) };
        let r = lib_call(c, CallOpts::default(), || {
            let mut f = match (kind.new)(m.len()) {
                Ok(f) => f,
                Err(_) => return Ok(()),
            };
            if f.len() != m.len() {
                return Ok(());
            }
            for (i, v) in m.iter().enumerate() {
                if *v {
                    f.set(i, true)?;
                }
            }
            if !s.b.same(&*f) || !f.same(&*s.b) {
                return Err("unequal to the same sequence built bit by bit".into());
            }
            if s.b.hashes() != f.hashes() {
                return Err("hash differs from that of the same sequence built bit by bit".into());
            }
            if !s.b.same(&*s.b.cl()) {
                return Err("unequal to its clone".into());
            }
            if let Some(i) = flip {
                f.set(i, !m[i])?;
                if s.b.same(&*f) || f.same(&*s.b) {
                    return Err(format!("equal to a sequence that differs at {i}"));
                }
            }
            // one bit longer, or shorter by one
            let other = if near == 0 { m.len().wrapping_sub(1) } else { m.len() + if kind.class == Class::Dynamic { 8 } else { 1 } };
            if kind.class == Class::List && other <= kind.n || kind.class == Class::Dynamic && other > m.len() {
                if let Ok(mut g) = (kind.new)(other) {
                    for (i, v) in m.iter().enumerate() {
                        if *v && i < other {
                            g.set(i, true)?;
                        }
                    }
                    if g.len() == other && (s.b.same(&*g) || g.same(&*s.b)) {
                        return Err(format!("equal to a sequence of {other} bits"));
                    }
                }
            }
            Ok::<(), String>(())
        });
        match r.out {
            Ok(Err(e)) => c.violate("equality-or-hash", format!("{}: {e}", what())),
            Err(Unwound::Panic(m)) => c.violate("observation-panics", format!("{}: {m}", what())),
            _ => {}
        }
        // slots of one kind are equal exactly when their sequences are
        for t in &self.slots {
            if t.k == s.k || kinds()[t.k].class == Class::Dynamic && kind.class == Class::Dynamic {
                let eq = lib_call(c, CallOpts::default(), || (s.b.same(&*t.b), s.b.hashes() == t.b.hashes())).out;
                if let Ok((eq, h)) = eq {
                    if eq != (t.m == s.m) || (eq && !h) {
                        c.violate("equality-or-hash", format!("{} and {}: equal {eq}, same hash {h}", what(), show(&t.m)));
                    }
                }
            }
        }
    }

    /// A mutation of a slot in place: `f` is the library's, `g` the plain sequence's.
    fn mutate(
        &mut self,
        s: usize,
        what: String,
        f: impl FnOnce(&mut Bx) -> Result<(), String>,
        g: impl FnOnce(&mut Vec<bool>) -> bool,
    ) {
        let c = self.c;
        let mut o = self.opts();
        o.fail_at = 0;
        let k = self.slots[s].k;
        let name = kinds()[k].name();
        let len = self.slots[s].b.len();
        let b = &mut self.slots[s].b;
        let r = lib_call(c, o, || f(b));
        c.ev("mutate", k as u64, matches!(r.out, Ok(Ok(()))) as u64, || format!("slot {s} {name} {what} -> {:?}", r.out));
        let r = match r.out {
            Ok(r) => r,
            Err(Unwound::Panic(m)) => {
                c.eval();
                c.violate("operation-panics", format!("{name} of {len} bits, {what}: {m}"))
            }
            Err(_) => return,
        };
        c.stat(if r.is_ok() { "mutation.done" } else { "mutation.refused" }, 1);
        if self.cfg.bounds {
            c.eval();
            let b = &self.slots[s].b;
            self.bound(&kinds()[k], b.len(), &|| format!("{name} of {len} bits after {what}"));
            if b.len() != len {
                c.violate("length-changed", format!("{name} of {len} bits after {what}: {} bits", b.len()));
            }
        } else {
            c.nontrivial();
            let ok = g(&mut self.slots[s].m);
            if ok != r.is_ok() {
                c.eval();
                c.violate("operation-outcome", format!("{name} of {len} bits, {what}: {r:?}"));
            }
            let s = &self.slots[s];
            self.check(s, &what);
        }
    }

    fn index(&self, len: usize) -> usize {
        let c = self.c;
        let l = len as u64;
        (match c.draw(12) {
            0..=4 => c.draw(l.max(1)),
            5 => l.wrapping_sub(1),
            6 => l,
            7 => l + 1,
            8 => l | 7,
            9 => (c.draw(l.max(1)) | 7).wrapping_add(c.draw(2)),
            10 => l + c.draw(600),
            _ => [u64::MAX, u64::MAX / 8, 1 << 32, 1 << 40][c.draw(4) as usize],
        }) as usize
    }

    fn set(&mut self, s: usize) {
        let len = self.slots[s].b.len();
        let n = 1 + self.c.draw(4);
        for _ in 0..n {
            let i = self.index(len);
            let v = self.c.draw(3) != 2;
            if self.cfg.bounds && i >= len {
                self.c.nontrivial();
                // a request beyond the bound
                let b = &mut self.slots[s].b;
                let r = lib_call(self.c, CallOpts::default(), || b.set(i, v)).out;
                self.c.eval();
                match r {
                    Ok(Ok(())) => self.c.violate("request-beyond-bound-granted", format!("{} of {len} bits: set({i}, {v}) succeeded", kinds()[self.slots[s].k].name())),
                    Err(Unwound::Panic(m)) => self.c.violate("request-panics", format!("{} of {len} bits: set({i}, {v}): {m}", kinds()[self.slots[s].k].name())),
                    _ => {}
                }
                let b = &self.slots[s].b;
                if b.len() != len {
                    self.c.violate("length-changed", format!("set({i}, {v}) on {len} bits leaves {} bits", b.len()));
                }
            } else {
                self.mutate(
                    s,
                    format!("set({i}, {v})"),
                    |b| b.set(i, v),
                    |m| match m.get_mut(i) {
                        Some(x) => {
                            *x = v;
                            true
                        }
                        None => false,
                    },
                );
            }
        }
    }

    fn shift(&mut self, s: usize) {
        let c = self.c;
        let len = self.slots[s].b.len();
        let l = len as u64;
        let n = (match c.draw(12) {
            0 => 0,
            1 | 2 => 1,
            3 => 7,
            4 => 8,
            5 => 9,
            6 => c.draw(l + 1),
            7 => l.wrapping_sub(1),
            8 => l,
            9 => l + 1,
            10 => c.draw(l + 3),
            _ => [u64::MAX, 1 << 33, l + 8, (l | 7) + 1][c.draw(4) as usize],
        }) as usize;
        self.mutate(
            s,
            format!("shift_up({n})"),
            |b| b.shift_up(n),
            |m| {
                if n > m.len() {
                    return false;
                }
                let keep = m.len() - n;
                let v: Vec<bool> = std::iter::repeat(false).take(n).chain(m[..keep].iter().copied()).collect();
                *m = v;
                true
            },
        );
    }

    /// Another slot of the same type, or a fresh one.
    fn other(&mut self, s: usize) -> Option<(Bx, Vec<bool>)> {
        let c = self.c;
        let k = self.slots[s].k;
        let dynamic = kinds()[k].class == Class::Dynamic;
        let v: Vec<usize> = (0..self.slots.len()).filter(|j| self.slots[*j].k == k || dynamic && kinds()[self.slots[*j].k].class == Class::Dynamic).collect();
        let j = v[c.draw(v.len() as u64) as usize];
        if j == s && c.draw(3) != 0 {
            // a bitfield of its own
            let len = self.len_for(&kinds()[k]);
            let len = len.min(SEEN);
            let mut r = c.rng();
            let dense = 1 + r.below(9);
            let b = lib_call(c, CallOpts::default(), || {
                let mut b = (kinds()[k].new)(len)?;
                for i in 0..b.len() {
                    if r.chance(dense, 10) {
                        b.set(i, true)?;
                    }
                }
                Ok::<Bx, String>(b)
            });
            let b = b.out.ok()?.ok()?;
            let m = (0..b.len()).map(|i| b.get(i).unwrap_or(false)).collect();
            return Some((b, m));
        }
        let b = lib_call(c, CallOpts::default(), || self.slots[j].b.cl()).out.ok()?;
        Some((b, self.slots[j].m.clone()))
    }

    fn diff_in(&mut self, s: usize) {
        let Some((o, om)) = self.other(s) else { return };
        let what = format!("difference_inplace(other of {} bits)", o.len());
        self.mutate(
            s,
            what,
            |b| {
                b.diff_in(&*o);
                Ok(())
            },
            |m| {
                for (i, v) in m.iter_mut().enumerate() {
                    *v &= !om.get(i).copied().unwrap_or(false);
                }
                true
            },
        );
    }

    /// Overwrite one slot with another of the same type, in place.
    fn assign(&mut self, s: usize) {
        let Some((o, om)) = self.other(s) else { return };
        self.mutate(
            s,
            format!("clone_from(other of {} bits)", o.len()),
            |b| {
                b.assign(&*o);
                Ok(())
            },
            |m| {
                *m = om;
                true
            },
        );
    }

    fn set_op(&mut self, s: usize) {
        let Some((o, _)) = self.other(s) else { return };
        let c = self.c;
        let k = self.slots[s].k;
        let which = c.draw(3);
        let opts = self.opts();
        let b = &self.slots[s].b;
        let r = lib_call(c, opts, || match which {
            0 => b.un(&*o),
            1 => b.inter(&*o),
            _ => Ok(b.diff(&*o)),
        })
        .out;
        let _ = lib_call(c, CallOpts::default(), || b.subset(&*o));
        if self.cfg.bounds {
            c.nontrivial();
        }
        self.made(k, ["union", "intersection", "difference"][which as usize], Asked::Any, r, None, false);
    }

    fn copy(&mut self, s: usize) {
        let opts = self.opts();
        let k = self.slots[s].k;
        let b = &self.slots[s].b;
        let r = lib_call(self.c, opts, || Ok(b.cl())).out;
        let m = self.slots[s].m.clone();
        self.made(k, "clone", Asked::Any, r, if self.cfg.bounds { None } else { Some(m) }, false);
    }

    /// Encode and decode again, through one of the byte-level pairs.
    fn recode(&mut self, s: usize) {
        let opts = self.opts();
        let k = self.slots[s].k;
        let b = &self.slots[s].b;
        let r = lib_call(self.c, opts, || (kinds()[k].from_ssz)(&b.ssz())).out;
        let m = self.slots[s].m.clone();
        self.made(k, "decoded from own encoding", Asked::Any, r, if self.cfg.bounds { None } else { Some(m) }, !self.cfg.bounds);
    }

    // -- construction --------------------------------------------------------------------------

    fn len_for(&self, k: &Kind) -> usize {
        let c = self.c;
        match k.class {
            Class::Vector => k.n,
            Class::Dynamic => {
                let n = 8 * match c.draw(6) {
                    0..=2 => 1 + c.draw(5),
                    3 => 1 + c.draw(40),
                    4 if c.draw(2) == 1 => notable(|m| c.draw(m), 600),
                    4 => [127, 128, 129, 130][c.draw(4) as usize],
                    _ if self.cfg.most > 500_000 => [65_535, 65_536, 65_537, 70_000, 75_000][c.draw(5) as usize],
                    _ if self.cfg.most > 9000 => [8191, 8192, 8193, 9000, 16_000][c.draw(5) as usize],
                    _ => 1 + c.draw(600),
                };
                n as usize
            }
            Class::List => {
                let n = k.n.min(self.cfg.most) as u64;
                (match c.draw(7) {
                    6 if n > 60 => notable(|m| c.draw(m), n),
                    3 | 4 if n > 530_000 => 524_280 + c.draw(20),
                    3 if n > 70_000 => 65_530 + c.draw(20),
                    0..=2 => c.draw(n + 1),
                    3 => n - c.draw(n.min(9) + 1),
                    4 => c.draw(n.min(20) + 1),
                    _ => (8 * c.draw(n / 8 + 1)).min(n),
                }) as usize
            }
        }
    }

    fn create(&mut self) {
        let c = self.c;
        let k = self.kind();
        let kind = &kinds()[k];
        let opts = self.opts();
        if self.cfg.bounds {
            let b = lib_call(c, CallOpts::default(), kind.bound).out;
            if kind.class != Class::Dynamic && b != Ok(kind.n) {
                c.violate("stated-bound", format!("{} states a bound of {b:?}", kind.name()));
            }
        }
        if let Some(d) = kind.default {
            if c.draw(4) == 3 {
                let r = lib_call(c, opts, || Ok(d())).out;
                self.made(k, "default", Asked::Len(kind.n), r, Some(vec![false; kind.n]), true);
                return;
            }
        }
        let mut len = self.len_for(kind);
        // requests at and beyond the bound
        if c.draw(if self.cfg.bounds { 2 } else { 6 }) == 1 {
            let n = kind.n;
            len = match kind.class {
                Class::Vector => n,
                Class::List => match c.draw(9) {
                    0 | 1 if n < 1 << 20 => n,
                    2 | 3 => n + 1,
                    4 => n + 2 + c.draw(10) as usize,
                    5 => (n | 7) + 1,
                    6 => n | 7,
                    7 => n + 8 * c.draw(30) as usize + 1,
                    _ => [usize::MAX, usize::MAX - 7, 1 << 63, (1 << 32) + n, (1 << 32) + n / 2, 65_536 + n / 2, 256 + n / 2, 512, 1 << 18][c.draw(9) as usize],
                },
                Class::Dynamic => match c.draw(5) {
                    0 => 0,
                    1 => 1 + c.draw(7) as usize,
                    2 => len + 1 + c.draw(7) as usize,
                    3 => len - 1 - c.draw(7) as usize,
                    _ => [usize::MAX, usize::MAX - 8, (1 << 32) + 1, (1 << 40) + 4][c.draw(4) as usize],
                },
            };
            if kind.class == Class::List && kind.n > 1 << 20 && len <= kind.n {
                len = len.min(40_000);
            }
        }
        let ok = match kind.class {
            Class::List => len <= kind.n,
            Class::Vector => true,
            Class::Dynamic => len > 0 && len % 8 == 0,
        };
        let r = lib_call(c, opts, || (kind.new)(len)).out;
        let how = if kind.class == Class::List { "with_capacity" } else { "new" };
        if self.made(k, how, Asked::Len(len), r, if ok { Some(vec![false; len]) } else { None }, ok) && !self.cfg.bounds {
            // start from a random pattern
            let mut rng = c.rng();
            let dense = c.draw(11);
            let s = self.slots.len() - 1;
            let _ = s;
            let at = self.slots.iter().rposition(|x| x.k == k && x.m.len() == len && x.m.iter().all(|v| !*v));
            if let Some(at) = at {
                let pattern: Vec<bool> = (0..len).map(|_| rng.chance(dense, 10)).collect();
                let p2 = pattern.clone();
                self.mutate(
                    at,
                    format!("setting {} bits", pattern.iter().filter(|v| **v).count()),
                    move |b| {
                        for (i, v) in p2.iter().enumerate() {
                            if *v {
                                b.set(i, true)?;
                            }
                        }
                        Ok(())
                    },
                    move |m| {
                        *m = pattern;
                        true
                    },
                );
            }
        }
    }

    /// A byte string around the bound.
    fn craft(&self, kind: &Kind) -> Vec<u8> {
        let c = self.c;
        let mut r = c.rng();
        let n = kind.n.min(self.cfg.most);
        match c.draw(6) {
            // an honest encoding of some length, perhaps beyond the bound
            0..=2 => {
                let len = match kind.class {
                    Class::List => match c.draw(11) {
                        // a length that is within the bound when cut to 8 or 16 bits, or 32 bytes
                        9 => 256 * (1 + c.draw(40) as usize) + c.draw(n.min(255) as u64 + 1) as usize,
                        10 if c.draw(8) == 7 => (65_536 << (3 * c.draw(2))) + c.draw(n.min(65_535) as u64 + 1) as usize,
                        0 | 10 => n,
                        1 | 2 => n + 1,
                        3 => n + 1 + c.draw(9) as usize,
                        4 => n | 7,
                        5 => (n | 7) + 1,
                        6 => n.saturating_sub(c.draw(9) as usize),
                        7 => c.draw(n as u64 + 1) as usize,
                        _ => (2 * n + c.draw(70) as usize).min(SEEN),
                    },
                    Class::Vector => match c.draw(7) {
                        5 => n + 256 * (1 + c.draw(17) as usize),
                        6 if c.draw(8) == 7 => n + (65_536 << (3 * c.draw(2))),
                        0 | 1 | 6 => n,
                        2 => n + 1 + c.draw(9) as usize,
                        3 => n.saturating_sub(1 + c.draw(9) as usize),
                        _ => (n | 7) + 1 + 8 * c.draw(3) as usize,
                    },
                    Class::Dynamic => 8 * c.draw(40) as usize,
                };
                let dense = c.draw(11);
                let m: Vec<bool> = (0..len).map(|_| r.chance(dense, 10)).collect();
                if len == 0 && kind.class == Class::Dynamic {
                    return vec![];
                }
                encode(kind.class, &m)
            }
            // full bytes
            3 => {
                let k = min_bytes(n) + c.draw(3) as usize;
                let mut b = vec![0xFF; k - (c.draw(2) as usize).min(k)];
                if let Some(l) = b.last_mut() {
                    *l >>= c.draw(8);
                }
                b
            }
            // empty, zeros
            4 => vec![0; (c.draw(min_bytes(n) as u64 + 3)) as usize],
            _ => {
                let k = match c.draw(3) {
                    0 => min_bytes(n),
                    1 => min_bytes(n + 1),
                    _ => c.draw(min_bytes(n) as u64 + 4) as usize,
                };
                r.bytes(k)
            }
        }
    }

    fn bytes(&mut self) {
        let c = self.c;
        let k = self.kind();
        let kind = &kinds()[k];
        let mut b = self.craft(kind);
        if c.draw(5) == 4 {
            c.with(|i| damage(&mut i.tape, &mut b, &mut i.stats));
        }
        self.take_bytes(k, b, "crafted");
    }

    fn take_bytes(&mut self, k: usize, b: Vec<u8>, _via: &'static str) {
        let c = self.c;
        let kind = &kinds()[k];
        let opts = self.opts();
        let spare = [0, 0, 1, 130, 4000][c.draw(5) as usize];
        let want = decode(kind, &b).filter(|m| kind.class != Class::List || m.len() <= kind.n);
        let want = if self.cfg.bounds { None } else { want };
        if let Some(f) = kind.arbitrary.filter(|_| kind.n <= 1 << 20 && c.draw(12) == 11) {
            // the source of structured test data of dependent crates
            let mut data = match c.draw(4) {
                0 => vec![],
                1 => (c.draw(kind.n as u64 + 2)).to_le_bytes().to_vec(),
                2 => ((kind.n / 8) as u64 + c.draw(2)).to_le_bytes().to_vec(),
                _ => (b.len() as u64).to_le_bytes().to_vec(),
            };
            data.extend(&b);
            if c.draw(2) == 0 {
                // some read further than what is left and are given zeros
                data.resize(data.len() + min_bytes(kind.n).min(4096), c.draw(256) as u8);
            }
            let r = lib_call(c, opts, || f(&mut arbitrary::Unstructured::new(&data))).out;
            self.made(k, "arbitrary", Asked::Any, r, None, false);
            return;
        }
        match c.draw(3) {
            0 => {
                let r = lib_call(c, opts, || (kind.from_bytes)(&b, spare)).out;
                self.made(k, "from_bytes", Asked::Bytes(b), r, want, false);
            }
            1 if kind.with_len.is_some() => {
                let n = 8 * b.len();
                let n = match c.draw(8) {
                    0 | 1 => n,
                    2 => n + 8,
                    3 => n.wrapping_sub(8),
                    4 => n + 1,
                    5 => n.wrapping_sub(1),
                    6 => 0,
                    _ => n / 8,
                };
                let want = want.filter(|m| m.len() == n);
                let r = lib_call(c, opts, || (kind.with_len.unwrap())(&b, n, spare)).out;
                self.made(k, "from_bytes_with_len", Asked::Declared(b, n), r, want, false);
            }
            _ => {
                let r = lib_call(c, opts, || (kind.from_ssz)(&b)).out;
                self.made(k, "from_ssz_bytes", Asked::Bytes(b), r, want, false);
            }
        }
    }

    fn take_json(&mut self, k: usize, text: Vec<u8>) {
        let c = self.c;
        let kind = &kinds()[k];
        let mut opts = self.opts();
        opts.err_at = 0;
        // what the text says, when it says it plainly
        let asked = std::str::from_utf8(&text)
            .ok()
            .and_then(|t| t.strip_prefix("\"0x"))
            .and_then(|t| t.strip_suffix('"'))
            .filter(|t| t.len() % 2 == 0 && t.bytes().all(|x| x.is_ascii_hexdigit()))
            .map(|t| t.as_bytes().chunks(2).map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap()).collect::<Vec<u8>>());
        if c.draw(4) == 3 {
            // a format of a dependent crate
            let t = String::from_utf8_lossy(&text).into_owned();
            let t = t.trim_matches('"');
            let n = kind.n as u64;
            let f = Format {
                form: FORMS[c.draw(FORMS.len() as u64) as usize],
                human: c.draw(2) == 0,
                bytes: asked.as_deref().unwrap_or(&text),
                text: t,
                number: [n, n + 1, n + 8, 8 * asked.as_ref().map_or(1, |b| b.len() as u64), n / 8, 0, 7, u64::MAX, 1 << 40][c.draw(9) as usize],
                hint: [None, Some(0), Some(usize::MAX), asked.as_ref().map(|b| b.len())][c.draw(4) as usize],
            };
            c.ev("format", k as u64, f.form as u64, || format!("{} from {:?}, text {}, number {}", kind.name(), f.form, f.human, f.number));
            let r = lib_call(c, opts, || (kind.from_format)(f)).out;
            self.made(k, "deserialized", Asked::Any, r, None, false);
            return;
        }
        let asked = asked.map(Asked::Bytes).unwrap_or(Asked::Any);
        let r = match c.draw(3) {
            0 => {
                let t = String::from_utf8_lossy(&text).into_owned();
                lib_call(c, opts, || (kind.from_json)(&t)).out
            }
            1 => {
                let Ok(v) = serde_json::from_slice::<serde_json::Value>(&text) else { return };
                lib_call(c, opts, || (kind.from_value)(v)).out
            }
            _ => {
                let mut p = self.pipe(text);
                lib_call(c, opts, || (kind.from_reader)(&mut p)).out
            }
        };
        let want = match &asked {
            Asked::Bytes(b) if !self.cfg.bounds => decode(kind, b).filter(|m| kind.class != Class::List || m.len() <= kind.n),
            _ => None,
        };
        self.made(k, "deserialized", asked, r, want, false);
    }

    fn json_of(b: &[u8]) -> Vec<u8> {
        let mut s = String::from("\"0x");
        for x in b {
            s.push_str(&format!("{x:02x}"));
        }
        s.push('"');
        s.into_bytes()
    }

    fn json(&mut self, s: usize) {
        let c = self.c;
        if c.draw(2) == 0 {
            // its own text, through a writer that may fill up
            let k = self.slots[s].k;
            let opts = self.opts();
            let mut p = self.pipe(vec![]);
            let b = &self.slots[s].b;
            let r = lib_call(c, opts, || b.json(&mut p)).out;
            c.ev("serialize", k as u64, p.data.len() as u64, || format!("slot {s} {} -> {r:?}", kinds()[k].name()));
            if let Ok(Ok(())) = r {
                self.take_json(k, p.data);
            } else if !p.data.is_empty() {
                // the torn text is what a reader finds
                self.take_json(k, p.data);
            }
            if !self.cfg.bounds {
                let s = &self.slots[s.min(self.slots.len() - 1)];
                self.check(s, "serializing");
            }
        } else {
            let k = self.kind();
            let b = self.craft(&kinds()[k]);
            let mut t = Self::json_of(&b);
            match c.draw(8) {
                6 => {
                    c.with(|i| damage(&mut i.tape, &mut t, &mut i.stats));
                }
                7 => t.make_ascii_uppercase(),
                _ => {}
            }
            self.take_json(k, t);
        }
    }

    fn resize(&mut self, s: usize) {
        let c = self.c;
        let k = self.slots[s].k;
        let kind = &kinds()[k];
        if kind.class != Class::List {
            return;
        }
        let t = c.draw(RESIZES as u64) as usize;
        let opts = self.opts();
        let b = &self.slots[s].b;
        let r = lib_call(c, opts, || b.resize(t)).out;
        let (m, made) = match r {
            Ok(Some((m, r))) => (m, r),
            Ok(None) => return,
            Err(Unwound::Panic(p)) => {
                c.eval();
                c.violate("request-panics", format!("{} resized: {p}", kind.name()));
            }
            Err(_) => return,
        };
        c.ev("resize", k as u64, m as u64, || format!("slot {s} {} of {} bits to capacity {m} -> {:?}", kind.name(), b.len(), made.as_ref().map(|x| x.len())));
        c.eval();
        if self.cfg.bounds {
            c.nontrivial();
            let what = format!("{} of {} bits resized to capacity {m}", kind.name(), b.len());
            match made {
                Ok(_) if m < kind.n => c.violate("resize-to-smaller-granted", what),
                Err(e) if m >= kind.n => c.violate("resize-to-larger-refused", format!("{what}: {e}")),
                Err(_) => c.stat("refused", 1),
                Ok(r) => {
                    if r.len() > m {
                        c.violate("length-out-of-bounds", format!("{what}: holds {} bits", r.len()));
                    }
                    let set = |b: &dyn AnyBits| (0..b.len().min(SEEN)).filter(|i| b.get(*i) == Ok(true)).collect::<Vec<_>>();
                    let (x, y) = (set(&**b), set(&*r));
                    if x != y {
                        c.violate("resize-changes-bits", format!("{what}: set bits {:?} became {:?}", &x[..x.len().min(50)], &y[..y.len().min(50)]));
                    }
                    c.stat("made", 1);
                    c.state(mix(k as u64, mix(m as u64, b.len().min(99) as u64)));
                }
            }
        } else if let Ok(r) = made {
            // a value of another type: found again among the known kinds, if it is one
            if let Some(j) = kinds().iter().position(|x| x.class == Class::List && x.n == m) {
                let bits = (0..r.len()).map(|i| r.get(i).unwrap_or(false)).collect();
                let s = Slot { k: j, b: r, m: bits };
                self.check(&s, "resize");
                self.keep(s);
            }
        }
    }

    // -- media ---------------------------------------------------------------------------------

    fn send(&mut self, s: usize) {
        let c = self.c;
        if self.cfg.nodes < 2 {
            return;
        }
        let k = self.slots[s].k;
        let b = &self.slots[s].b;
        let text = c.draw(3) == 2;
        let r = lib_call(c, CallOpts::default(), || {
            if text {
                let mut w = vec![];
                let _ = b.json(&mut w);
                w
            } else if c.draw(2) == 0 {
                b.ssz()
            } else {
                b.cl().into_bytes()
            }
        });
        let Ok(bytes) = r.out else { return };
        let to = (c.me + 1 + c.draw(self.cfg.nodes as u64 - 1) as usize) % self.cfg.nodes;
        c.ev("send", k as u64, bytes.len() as u64, || format!("slot {s} {} to node{to}: {}", kinds()[k].name(), hex(&bytes)));
        c.send(to, k as u32, text as u64, bytes);
    }

    fn store(&mut self, s: usize, op: u64) {
        let c = self.c;
        let k = self.slots[s].k;
        let b = &self.slots[s].b;
        let text = c.draw(3) == 2;
        let r = lib_call(c, CallOpts::default(), || {
            if text {
                let mut w = vec![];
                let _ = b.json(&mut w);
                w
            } else {
                b.ssz()
            }
        });
        let Ok(bytes) = r.out else { return };
        let key = ((op % 4) << 16) | (text as u64) << 12 | k as u64;
        c.ev("store", k as u64, bytes.len() as u64, || format!("slot {s} {}: {}", kinds()[k].name(), hex(&bytes)));
        c.disk_write(key, bytes);
        if c.draw(2) == 1 {
            c.disk_sync();
        }
        if c.draw(2) == 1 {
            if let Some(b) = c.disk_read(key) {
                self.take(k, text, b, "disk");
            }
        }
    }

    /// Bytes from the network or the disk.
    fn take(&mut self, k: usize, text: bool, b: Vec<u8>, via: &'static str) {
        let k = k % kinds().len();
        self.c.stat("received", 1);
        if text {
            self.take_json(k, b);
        } else {
            self.take_bytes(k, b, via);
        }
    }
}
