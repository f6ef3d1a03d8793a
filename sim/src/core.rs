//! The simulator: choice tape, virtual clock, task scheduler, network and disks.
//!
//! Tasks are real threads of which exactly one runs at a time; who runs next is decided here, from
//! the choice tape, at every simulator primitive, at every callback out of library code and (when
//! armed) inside allocator requests made by library code. One tape is one exactly repeatable run.

use crate::alloc::{self, InSim};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::thread::Thread;

// ---------------------------------------------------------------------------------------------
// PRNG and choice tape

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x5851_F42D_4C95_7F2D)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in [0, n)
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn fill(&mut self, buf: &mut [u8]) {
        for c in buf.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.rotate_left(32) ^ 0xD6E8_FEB8_6659_FD93);
    r.next() ^ b
}

pub enum TapeMode {
    Random(Rng),
    Replay(Vec<u64>),
}

pub struct Tape {
    pub mode: TapeMode,
    pub log: Vec<u64>,
    /// write every choice out at once (to recover the tape of a run that kills the process)
    pub dump: Option<std::fs::File>,
}
impl Tape {
    pub fn seeded(seed: u64) -> Tape {
        Tape { mode: TapeMode::Random(Rng::new(seed)), log: Vec::with_capacity(512), dump: None }
    }
    pub fn replay(t: Vec<u64>) -> Tape {
        Tape { mode: TapeMode::Replay(t), log: vec![], dump: None }
    }
    /// A choice in [0, n). By convention 0 is the least eventful choice.
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.mode {
            TapeMode::Random(r) => r.below(n),
            TapeMode::Replay(t) => t.get(self.log.len()).map(|v| v % n).unwrap_or(0),
        };
        self.log.push(v);
        if let Some(f) = &mut self.dump {
            use std::io::Write;
            let _ = writeln!(f, "{v}");
        }
        v
    }
}

// ---------------------------------------------------------------------------------------------
// Violations and unwinding payloads

#[derive(Clone, Debug)]
pub struct Violation {
    pub property: String,
    pub oracle: String,
    pub detail: String,
    pub at: u64,
    pub step: u64,
}

/// The run is over; every task unwinds.
pub struct SimStop;
/// The node this task belongs to was killed.
pub struct SimCrash;
/// An allocator request was refused by injection.
pub struct AllocRefused;
/// A caller-supplied callback was cancelled by injection.
pub struct Cancelled;

#[derive(Debug, Clone, PartialEq)]
pub enum Unwound {
    /// the injected allocation refusal came out
    Alloc,
    /// the injected cancellation came out
    Cancelled,
    /// a panic of the library's own
    Panic(String),
}

// ---------------------------------------------------------------------------------------------
// State

#[derive(Clone, Debug, PartialEq)]
pub struct Msg {
    pub from: usize,
    pub kind: u32,
    pub tag: u64,
    pub bytes: Vec<u8>,
    /// set when the medium changed the bytes
    pub damaged: bool,
}

enum EvKind {
    Wake { task: usize, token: u64 },
    Deliver { to: usize, msg: Msg },
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum St {
    Runnable,
    Blocked { token: u64, recv: bool },
    Done,
}

struct TaskRec {
    name: String,
    st: St,
    kill: bool,
    mail: VecDeque<Msg>,
    /// network identity is up
    up: bool,
}

#[derive(Clone, Default, Debug)]
pub struct Faults {
    pub drop: u64,
    pub dup: u64,
    pub corrupt: u64,
    pub delay: u64,
    pub misdirect: u64,
    pub torn: u64,
    pub lost: u64,
    pub rot: u64,
    pub short: u64,
    pub alloc: u64,
    pub cancel: u64,
    pub refuse: u64,
    pub item_err: u64,
    pub crash: u64,
    pub preempt_alloc: u64,
    pub preempt_cb: u64,
    pub partition: u64,
    pub eio: u64,
}

pub struct Inner {
    pub tape: Tape,
    pub now: u64,
    seq: u64,
    tasks: Vec<TaskRec>,
    heap: BinaryHeap<Reverse<(u64, u64, usize)>>,
    evs: Vec<Option<EvKind>>,
    pub steps: u64,
    pub max_steps: u64,
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub switches: u64,
    pub verbose: bool,
    pub lines: Vec<String>,
    pub stats: BTreeMap<&'static str, u64>,
    pub violation: Option<Violation>,
    pub harness_error: Option<String>,
    pub stop: bool,
    pub faults: Faults,
    pub disks: BTreeMap<usize, Disk>,
    pub partition: u64,
    pub preempt_ok: bool,
    pub states: Vec<u64>,
    pub property: &'static str,
    pub evals: u64,
    pub sample: Vec<String>,
    /// the run met what its property is about (see the worlds)
    pub nontrivial: bool,
}

pub struct Shared {
    m: Mutex<Inner>,
    cur: AtomicUsize,
    done: AtomicBool,
    threads: Mutex<Vec<Option<Thread>>>,
    fin: (Mutex<bool>, Condvar),
}

const NONE: usize = usize::MAX;

#[derive(Clone)]
pub struct Ctx {
    sh: Arc<Shared>,
    pub me: usize,
}

thread_local! {
    static CUR: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static KILLED: Cell<bool> = const { Cell::new(false) };
    static CB_PERIOD: Cell<u64> = const { Cell::new(0) };
    static CB_COUNT: Cell<u64> = const { Cell::new(0) };
    static CANCEL_AT: Cell<u64> = const { Cell::new(0) };
    static ERR_AT: Cell<u64> = const { Cell::new(0) };
}

/// The context of the task running on this thread.
pub fn ctx() -> Ctx {
    let _g = InSim::enter();
    CUR.with(|c| c.borrow().clone()).expect("no simulated task on this thread")
}

fn alloc_yield() {
    let _g = InSim::enter();
    let c = ctx();
    c.stat("fault.preempt_in_alloc", 1);
    c.switch();
    c.wait_turn();
    // If this task was killed or the run ended meanwhile, `lib_call` notices when the call returns:
    // some std collections abort the process when an allocation unwinds through them.
}

/// Called on every allocation the machine refused.
pub fn on_alloc_error() {
    resume_unwind(Box::new(AllocRefused));
}

impl Ctx {
    pub fn with<R>(&self, f: impl FnOnce(&mut Inner) -> R) -> R {
        let _g = InSim::enter();
        let mut g = self.lock();
        f(&mut g)
    }
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.sh.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn draw(&self, n: u64) -> u64 {
        self.with(|i| i.tape.draw(n))
    }
    /// A choice in [lo, hi] that prefers `lo` when minimised.
    pub fn range(&self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    /// True with probability num/den; false is the uneventful choice.
    pub fn chance(&self, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        self.draw(den) >= den - num.min(den)
    }
    pub fn rng(&self) -> Rng {
        Rng::new(self.draw(1 << 20) + 0x1234)
    }
    pub fn stat(&self, k: &'static str, n: u64) {
        self.with(|i| *i.stats.entry(k).or_insert(0) += n)
    }
    pub fn eval(&self) {
        self.with(|i| i.evals += 1)
    }
    pub fn nontrivial(&self) {
        self.with(|i| i.nontrivial = true)
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        self.with(|i| {
            if i.sample.is_empty() {
                i.sample.push(f())
            }
        })
    }
    pub fn faults(&self) -> Faults {
        self.with(|i| i.faults.clone())
    }
    pub fn now(&self) -> u64 {
        self.with(|i| i.now)
    }
    pub fn killed(&self) -> bool {
        self.with(|i| i.tasks[self.me].kill)
    }
    pub fn stopping(&self) -> bool {
        self.with(|i| i.stop)
    }
    pub fn state(&self, h: u64) {
        self.with(|i| {
            if i.states.len() < 256 {
                i.states.push(h)
            }
        })
    }
    /// Record an event: hashed always, written out when the run is traced.
    pub fn ev(&self, kind: &'static str, a: u64, b: u64, text: impl FnOnce() -> String) {
        self.with(|i| {
            let mut h = i.trace_hash;
            for c in kind.bytes() {
                h = (h ^ c as u64).wrapping_mul(0x100_0000_01b3);
            }
            h = mix(h, a);
            h = mix(h, b);
            h = mix(h, i.now ^ ((self.me as u64) << 56));
            i.trace_hash = h;
            if i.verbose && i.lines.len() < 20_000 {
                let l = format!("t={:>8}us {:<10} {:<14} {}", i.now, i.tasks[self.me].name, kind, text());
                i.lines.push(l);
            }
        })
    }
    pub fn violate(&self, oracle: &str, detail: String) -> ! {
        {
            let _g = InSim::enter();
            let mut i = self.lock();
            if i.violation.is_none() && i.harness_error.is_none() {
                let v = Violation {
                    property: i.property.to_string(),
                    oracle: oracle.to_string(),
                    detail,
                    at: i.now,
                    step: i.steps,
                };
                if i.verbose {
                    let l = format!("t={:>8}us {:<10} VIOLATION {} {}", i.now, i.tasks[self.me].name, v.oracle, v.detail);
                    i.lines.push(l);
                }
                i.violation = Some(v);
            }
            i.stop = true;
        }
        resume_unwind(Box::new(SimStop))
    }

    // -- scheduling ----------------------------------------------------------------------------

    /// Let the simulator pick who runs; returns when this task is picked again.
    fn switch(&self) {
        let _g = InSim::enter();
        let next = {
            let mut i = self.lock();
            i.steps += 1;
            if i.steps > i.max_steps {
                i.stop = true;
            }
            Self::pick(&mut i, self.me)
        };
        self.hand_over(next);
    }

    fn hand_over(&self, next: usize) {
        if next == self.me {
            return;
        }
        if next == NONE {
            self.finish();
            return;
        }
        self.sh.cur.store(next, Ordering::Release);
        {
            let t = self.sh.threads.lock().unwrap_or_else(|e| e.into_inner());
            if let Some(Some(t)) = t.get(next) {
                t.unpark();
            }
        }
    }

    fn wait_turn(&self) {
        while self.sh.cur.load(Ordering::Acquire) != self.me {
            std::thread::park();
        }
    }

    fn finish(&self) {
        self.sh.done.store(true, Ordering::Release);
        let mut d = self.sh.fin.0.lock().unwrap();
        *d = true;
        self.sh.fin.1.notify_all();
    }

    fn pick(i: &mut Inner, me: usize) -> usize {
        loop {
            if i.stop {
                // Wake everything so that it unwinds, in index order.
                for t in i.tasks.iter_mut() {
                    if t.st != St::Done {
                        t.st = St::Runnable;
                    }
                }
                return i.tasks.iter().position(|t| t.st == St::Runnable).unwrap_or(NONE);
            }
            // Candidates: this task first (no switch is the least eventful choice).
            let mut cand: [usize; 16] = [0; 16];
            let mut n = 0;
            if me < i.tasks.len() && i.tasks[me].st == St::Runnable {
                cand[n] = me;
                n += 1;
            }
            for (k, t) in i.tasks.iter().enumerate() {
                if k != me && t.st == St::Runnable && n < 15 {
                    cand[n] = k;
                    n += 1;
                }
            }
            let time = !i.heap.is_empty();
            if n == 0 {
                if !time {
                    if i.tasks.iter().all(|t| t.st == St::Done) {
                        return NONE;
                    }
                    // Nothing can ever run again: quiescent end of the run.
                    i.stop = true;
                    continue;
                }
                Self::advance(i);
                continue;
            }
            let opts = n + time as usize;
            let c = if opts > 1 { i.tape.draw(opts as u64) as usize } else { 0 };
            if c == n {
                Self::advance(i);
                continue;
            }
            let next = cand[c];
            if next != me {
                i.switches += 1;
            }
            i.sched_hash = mix(i.sched_hash, next as u64);
            return next;
        }
    }

    /// Jump the clock to the next event and process it.
    fn advance(i: &mut Inner) {
        if let Some(Reverse((at, _, id))) = i.heap.pop() {
            i.now = i.now.max(at);
            match i.evs[id].take() {
                Some(EvKind::Wake { task, token }) => {
                    if matches!(i.tasks[task].st, St::Blocked { token: t, .. } if t == token) {
                        i.tasks[task].st = St::Runnable;
                    }
                }
                Some(EvKind::Deliver { to, msg }) => {
                    let t = &mut i.tasks[to];
                    if t.st == St::Done {
                        return;
                    }
                    if !t.up {
                        *i.stats.entry("net.to_dead_node").or_insert(0) += 1;
                        return;
                    }
                    t.mail.push_back(msg);
                    if matches!(t.st, St::Blocked { recv: true, .. }) {
                        t.st = St::Runnable;
                    }
                    *i.stats.entry("net.delivered").or_insert(0) += 1;
                }
                None => {}
            }
        }
    }

    fn push_ev(i: &mut Inner, at: u64, e: EvKind) {
        i.seq += 1;
        let id = i.evs.len();
        i.evs.push(Some(e));
        let s = i.seq;
        i.heap.push(Reverse((at, s, id)));
    }

    fn after_resume(&self) {
        if self.stopping() {
            resume_unwind(Box::new(SimStop));
        }
        if self.killed() && !KILLED.with(|k| k.get()) {
            KILLED.with(|k| k.set(true));
            resume_unwind(Box::new(SimCrash));
        }
    }

    /// A scheduling point at which this task may also be killed.
    pub fn yield_point(&self) {
        {
            let _g = InSim::enter();
            self.switch();
            self.wait_turn();
        }
        self.after_resume();
    }

    /// To be called by every callback made by library code. It may let other tasks run, unwind
    /// (cancellation), or tell the callback to report an error (`true`).
    pub fn callback(&self) -> bool {
        let n = CB_COUNT.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        let p = CB_PERIOD.with(|c| c.get());
        if p != 0 && self.draw(p) == p - 1 && self.with(|i| i.preempt_ok) {
            self.stat("fault.preempt_in_callback", 1);
            self.yield_point();
        }
        if CANCEL_AT.with(|c| c.get()) == n && !std::thread::panicking() {
            self.stat("fault.callback_cancelled", 1);
            resume_unwind(Box::new(Cancelled));
        }
        ERR_AT.with(|c| c.get()) == n
    }

    pub fn sleep(&self, us: u64) {
        {
            let _g = InSim::enter();
            let next = {
                let mut i = self.lock();
                i.steps += 1;
                if i.steps > i.max_steps {
                    i.stop = true;
                }
                let token = i.seq + 1;
                let at = i.now + us;
                Self::push_ev(&mut i, at, EvKind::Wake { task: self.me, token });
                i.tasks[self.me].st = St::Blocked { token, recv: false };
                Self::pick(&mut i, self.me)
            };
            self.hand_over(next);
            self.wait_turn();
        }
        self.after_resume();
    }

    /// Wait for a message for at most `us` of simulated time.
    pub fn recv(&self, us: u64) -> Option<Msg> {
        {
            let _g = InSim::enter();
            let next = {
                let mut i = self.lock();
                i.steps += 1;
                if i.steps > i.max_steps {
                    i.stop = true;
                }
                if !i.tasks[self.me].mail.is_empty() {
                    Self::pick(&mut i, self.me)
                } else {
                    let token = i.seq + 1;
                    let at = i.now + us;
                    Self::push_ev(&mut i, at, EvKind::Wake { task: self.me, token });
                    i.tasks[self.me].st = St::Blocked { token, recv: true };
                    Self::pick(&mut i, self.me)
                }
            };
            self.hand_over(next);
            self.wait_turn();
        }
        self.after_resume();
        self.with(|i| i.tasks[self.me].mail.pop_front())
    }

    // -- faults on nodes -----------------------------------------------------------------------

    pub fn kill(&self, task: usize) {
        self.with(|i| {
            if i.tasks[task].st != St::Done && i.tasks[task].up {
                i.tasks[task].kill = true;
                i.tasks[task].up = false;
                i.tasks[task].mail.clear();
                if !matches!(i.tasks[task].st, St::Runnable) {
                    i.tasks[task].st = St::Runnable;
                }
                *i.stats.entry("fault.crash").or_insert(0) += 1;
            }
        })
    }
    /// The killed task has reached its top level: volatile state is gone.
    pub fn restarted(&self) {
        KILLED.with(|k| k.set(false));
        self.with(|i| {
            i.tasks[self.me].kill = false;
            i.tasks[self.me].mail.clear();
        })
    }
    pub fn set_up(&self) {
        self.with(|i| i.tasks[self.me].up = true)
    }

    // -- network -------------------------------------------------------------------------------

    pub fn send(&self, to: usize, kind: u32, tag: u64, bytes: Vec<u8>) {
        let _g = InSim::enter();
        let mut i = self.lock();
        let i = &mut *i;
        let f = i.faults.clone();
        *i.stats.entry("net.sent").or_insert(0) += 1;
        if (i.partition >> (self.me as u64 & 31)) & 1 != (i.partition >> (to as u64 & 31)) & 1 {
            *i.stats.entry("fault.partitioned").or_insert(0) += 1;
            return;
        }
        let ch = |i: &mut Inner, p: u64| p > 0 && i.tape.draw(1000) >= 1000 - p;
        if ch(i, f.drop) {
            *i.stats.entry("fault.drop").or_insert(0) += 1;
            return;
        }
        let copies = if ch(i, f.dup) {
            *i.stats.entry("fault.duplicate").or_insert(0) += 1;
            2
        } else {
            1
        };
        for _ in 0..copies {
            let mut m = Msg { from: self.me, kind, tag, bytes: bytes.clone(), damaged: false };
            if ch(i, f.corrupt) {
                damage(&mut i.tape, &mut m.bytes, &mut i.stats);
                m.damaged = m.bytes != bytes;
            }
            let mut to = to;
            if ch(i, f.misdirect) {
                to = i.tape.draw(i.tasks.len() as u64) as usize;
                m.kind = i.tape.draw(1 << 16) as u32;
                m.damaged = true;
                *i.stats.entry("fault.misdirect").or_insert(0) += 1;
            }
            let mut d = 500 + i.tape.draw(1500);
            if ch(i, f.delay) {
                d += i.tape.draw(60_000);
                *i.stats.entry("fault.delay_reorder").or_insert(0) += 1;
            }
            let at = i.now + d;
            Self::push_ev(i, at, EvKind::Deliver { to, msg: m });
        }
    }

    // -- disk ----------------------------------------------------------------------------------

    pub fn disk_write(&self, key: u64, bytes: Vec<u8>) {
        self.with(|i| {
            *i.stats.entry("disk.write").or_insert(0) += 1;
            i.disks.entry(self.me).or_default().cache.push((key, bytes));
        });
        self.yield_point();
    }
    pub fn disk_sync(&self) {
        self.with(|i| {
            *i.stats.entry("disk.sync").or_insert(0) += 1;
            let d = i.disks.entry(self.me).or_default();
            for (k, b) in std::mem::take(&mut d.cache) {
                d.durable.insert(k, b);
            }
        });
        let t = 200 + self.draw(400);
        self.sleep(t);
    }
    /// What is left on the disk of this task after a power failure: synced records, and for each
    /// unsynced one the old record, the new one, a torn mix of both, or nothing.
    pub fn disk_power_fail(&self) {
        self.with(|i| {
            let f = i.faults.clone();
            let mut d = i.disks.remove(&self.me).unwrap_or_default();
            for (k, new) in std::mem::take(&mut d.cache) {
                let old = d.durable.get(&k).cloned();
                let c = i.tape.draw(1000);
                if c < f.lost {
                    *i.stats.entry("fault.lost_write").or_insert(0) += 1;
                } else if c < f.lost + f.torn {
                    let cut = i.tape.draw(new.len() as u64 + 1) as usize;
                    let mut b = new[..cut].to_vec();
                    if let Some(o) = old {
                        if o.len() > cut && i.tape.draw(2) == 0 {
                            b.extend_from_slice(&o[cut..]);
                        }
                    } else if i.tape.draw(2) == 1 {
                        b.resize(new.len(), 0);
                    }
                    d.durable.insert(k, b);
                    *i.stats.entry("fault.torn_write").or_insert(0) += 1;
                } else {
                    d.durable.insert(k, new);
                }
            }
            i.disks.insert(self.me, d);
        })
    }
    /// Read a record back (cache first, like a page cache). Reading may hit bit rot or come short.
    pub fn disk_read(&self, key: u64) -> Option<Vec<u8>> {
        let r = self.with(|i| {
            let f = i.faults.clone();
            let d = i.disks.entry(self.me).or_default();
            let mut b = d
                .cache
                .iter()
                .rev()
                .find(|(k, _)| *k == key)
                .map(|(_, b)| b.clone())
                .or_else(|| d.durable.get(&key).cloned())?;
            if f.rot > 0 && i.tape.draw(1000) >= 1000 - f.rot {
                damage(&mut i.tape, &mut b, &mut i.stats);
                *i.stats.entry("fault.disk_rot").or_insert(0) += 1;
            }
            if f.short > 0 && i.tape.draw(1000) >= 1000 - f.short {
                let n = i.tape.draw(b.len() as u64 + 1) as usize;
                b.truncate(n);
                *i.stats.entry("fault.short_read").or_insert(0) += 1;
            }
            Some(b)
        });
        self.yield_point();
        r
    }
    pub fn disk_keys(&self) -> Vec<u64> {
        self.with(|i| i.disks.entry(self.me).or_default().durable.keys().copied().collect())
    }
}

#[derive(Default)]
pub struct Disk {
    pub durable: BTreeMap<u64, Vec<u8>>,
    cache: Vec<(u64, Vec<u8>)>,
}

/// One act of damage by a medium.
pub fn damage(tape: &mut Tape, b: &mut Vec<u8>, stats: &mut BTreeMap<&'static str, u64>) {
    let n = b.len() as u64;
    let kind = tape.draw(10);
    let name = match kind {
        0 | 1 => {
            if n > 0 {
                let k = tape.draw(n) as usize;
                b[k] ^= 1 << tape.draw(8);
            }
            "damage.bit_flip"
        }
        2 => {
            let k = tape.draw(n + 1) as usize;
            b.truncate(k);
            "damage.truncate"
        }
        3 => {
            let k = 1 + tape.draw(9);
            let fill = [0u8, 0xFF, 1, 0x80][tape.draw(4) as usize];
            for _ in 0..k {
                b.push(fill);
            }
            "damage.trailing_bytes"
        }
        4 => {
            // two frames run together
            let c = b.clone();
            b.extend_from_slice(&c);
            "damage.concatenated"
        }
        5 => {
            if n > 0 {
                let a = tape.draw(n) as usize;
                let l = (1 + tape.draw(16)) as usize;
                for x in b.iter_mut().skip(a).take(l) {
                    *x = 0;
                }
            }
            "damage.zeroed_sector"
        }
        6 => {
            if n > 1 {
                let a = tape.draw(n) as usize;
                b.remove(a);
            }
            "damage.lost_byte"
        }
        7 => {
            let a = tape.draw(n + 1) as usize;
            b.insert(a, tape.draw(256) as u8);
            "damage.extra_byte"
        }
        8 => {
            // a word rewritten by a Byzantine peer
            forge_word(tape, b);
            "damage.forged_word"
        }
        _ => {
            if n > 0 {
                let a = tape.draw(n) as usize;
                b[a] = tape.draw(256) as u8;
            }
            "damage.byte_overwrite"
        }
    };
    *stats.entry(name).or_insert(0) += 1;
}

/// Rewrite a 4-byte window that looks like an offset with one that announces something else.
pub fn forge_word(tape: &mut Tape, b: &mut [u8]) {
    if b.len() < 4 {
        return;
    }
    let n = b.len();
    let start = tape.draw((n - 3) as u64) as usize;
    let mut at = start;
    for k in 0..n.min(256) {
        let p = (start + k) % (n - 3);
        let w = u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]) as usize;
        if w >= 4 && w <= n {
            at = p;
            break;
        }
    }
    let old = u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]);
    let rest = (n - at) as u32;
    let new = match tape.draw(14) {
        0 => old.wrapping_add(1),
        1 => old.wrapping_sub(1),
        2 => old.wrapping_add(4),
        3 => old.wrapping_sub(4),
        4 => 0,
        5 => n as u32,
        6 => n as u32 + 1,
        7 => rest,
        8 => 0xFFFF_FFFC,
        9 => 0x7FFF_FFFC,
        10 => 4u32 << tape.draw(28),
        11 => (rest / 4) * 4,
        12 => 0xFFFF_FFFF - tape.draw(64) as u32,
        _ => tape.draw(n as u64 + 8) as u32,
    };
    b[at..at + 4].copy_from_slice(&new.to_le_bytes());
}

// ---------------------------------------------------------------------------------------------
// Library calls

#[derive(Clone, Copy, Default)]
pub struct CallOpts {
    /// refuse the n-th allocator request (0: never)
    pub fail_at: u64,
    /// preempt at the n-th allocator request (0: never)
    pub yield_at: u64,
    /// preempt at every n-th callback on average (0: never)
    pub cb_period: u64,
    /// the n-th callback unwinds (0: never)
    pub cancel_at: u64,
    /// the n-th callback reports an error, where it can (0: never)
    pub err_at: u64,
}

/// Never refuse an allocation (to tell a death under refused allocations from any other).
pub static NO_REFUSE: AtomicBool = AtomicBool::new(false);

pub struct Called<R> {
    pub out: Result<R, Unwound>,
    pub acc: alloc::Acc,
}

struct ScopeGuard {
    scope: bool,
    acc: alloc::Acc,
    fail: u64,
    yld: u64,
    sim: bool,
    cb: [u64; 4],
}
fn cb_swap(v: [u64; 4]) -> [u64; 4] {
    [
        CB_PERIOD.with(|a| a.replace(v[0])),
        CB_COUNT.with(|a| a.replace(v[1])),
        CANCEL_AT.with(|a| a.replace(v[2])),
        ERR_AT.with(|a| a.replace(v[3])),
    ]
}
impl ScopeGuard {
    fn enter(o: CallOpts) -> ScopeGuard {
        let cb = cb_swap([o.cb_period, 0, o.cancel_at, o.err_at]);
        ScopeGuard {
            cb,
            acc: alloc::ACC.with(|a| a.replace(alloc::Acc::default())),
            fail: alloc::FAIL_AT.with(|a| a.replace(if NO_REFUSE.load(Ordering::Relaxed) { 0 } else { o.fail_at })),
            yld: alloc::YIELD_AT.with(|a| a.replace(o.yield_at)),
            sim: alloc::IN_SIM.with(|a| a.replace(false)),
            scope: alloc::SCOPE.with(|s| s.replace(true)),
        }
    }
}
impl Drop for ScopeGuard {
    fn drop(&mut self) {
        alloc::SCOPE.with(|s| s.set(self.scope));
        alloc::ACC.with(|a| a.set(self.acc));
        alloc::FAIL_AT.with(|a| a.set(self.fail));
        alloc::YIELD_AT.with(|a| a.set(self.yld));
        alloc::IN_SIM.with(|a| a.set(self.sim));
        cb_swap(self.cb);
    }
}

/// Run library code: allocations counted and under fault injection, unwinding classified.
pub fn lib_call<R>(c: &Ctx, o: CallOpts, f: impl FnOnce() -> R) -> Called<R> {
    let mut f = Some(f);
    let mut out: Option<R> = None;
    let r = lib_call_dyn(c, o, &mut || out = Some((f.take().unwrap())()));
    Called { out: r.out.map(|_| out.unwrap()), acc: r.acc }
}

fn lib_call_dyn(c: &Ctx, o: CallOpts, f: &mut dyn FnMut()) -> Called<()> {
    let (r, acc) = {
        let _s = ScopeGuard::enter(o);
        let r = catch_unwind(AssertUnwindSafe(f));
        alloc::FAIL_AT.with(|a| a.set(0));
        alloc::YIELD_AT.with(|a| a.set(0));
        (r, alloc::ACC.with(|a| a.get()))
    };
    let _g = InSim::enter();
    if acc.refused {
        c.stat("fault.alloc_refused", 1);
    }
    if c.stopping() {
        drop(r);
        resume_unwind(Box::new(SimStop));
    }
    if c.killed() && !KILLED.with(|k| k.get()) {
        drop(r);
        KILLED.with(|k| k.set(true));
        resume_unwind(Box::new(SimCrash));
    }
    let out = match r {
        // a refusal the library absorbed is still an interrupted call
        Ok(()) if acc.refused => Err(Unwound::Alloc),
        Ok(()) => Ok(()),
        Err(p) => {
            if p.is::<SimStop>() || p.is::<SimCrash>() {
                resume_unwind(p);
            }
            Err(classify(p, &acc))
        }
    };
    Called { out, acc }
}

fn classify(p: Box<dyn Any + Send>, acc: &alloc::Acc) -> Unwound {
    if p.is::<AllocRefused>() {
        if acc.oom && !acc.refused {
            return Unwound::Panic("simulated machine out of memory".into());
        }
        Unwound::Alloc
    } else if p.is::<Cancelled>() {
        Unwound::Cancelled
    } else if let Some(s) = p.downcast_ref::<&str>() {
        Unwound::Panic(s.to_string())
    } else if let Some(s) = p.downcast_ref::<String>() {
        Unwound::Panic(s.clone())
    } else {
        Unwound::Panic("<non-string payload>".into())
    }
}

// ---------------------------------------------------------------------------------------------
// Running

pub struct RunCfg {
    pub property: &'static str,
    pub verbose: bool,
    pub preempt: bool,
    pub max_steps: u64,
}

pub struct RunOut {
    pub violation: Option<Violation>,
    pub harness_error: Option<String>,
    pub tape: Vec<u64>,
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub switches: u64,
    pub lines: Vec<String>,
    pub stats: BTreeMap<&'static str, u64>,
    pub sim_us: u64,
    pub steps: u64,
    pub states: Vec<u64>,
    pub evals: u64,
    pub sample: Vec<String>,
    /// the run met what its property is about (see the worlds)
    pub nontrivial: bool,
}

pub type TaskFn = Box<dyn FnOnce(Ctx) + Send + 'static>;

/// Run a world. `setup` draws the configuration and returns the tasks.
pub fn run(cfg: RunCfg, tape: Tape, setup: impl FnOnce(&mut Inner) -> Vec<(String, TaskFn)>) -> RunOut {
    let mut inner = Inner {
        tape,
        now: 0,
        seq: 0,
        tasks: vec![],
        heap: BinaryHeap::new(),
        evs: vec![],
        steps: 0,
        max_steps: cfg.max_steps,
        trace_hash: 0xcbf2_9ce4_8422_2325,
        sched_hash: 0,
        switches: 0,
        verbose: cfg.verbose,
        lines: vec![],
        stats: BTreeMap::new(),
        violation: None,
        harness_error: None,
        stop: false,
        faults: Faults::default(),
        disks: BTreeMap::new(),
        partition: 0,
        preempt_ok: cfg.preempt,
        states: vec![],
        property: cfg.property,
        evals: 0,
        sample: vec![],
        nontrivial: false,
    };
    let fns = setup(&mut inner);
    for (name, _) in &fns {
        inner.tasks.push(TaskRec { name: name.clone(), st: St::Runnable, kill: false, mail: VecDeque::new(), up: true });
    }
    let n = fns.len();
    let sh = Arc::new(Shared {
        m: Mutex::new(inner),
        cur: AtomicUsize::new(NONE),
        done: AtomicBool::new(false),
        threads: Mutex::new((0..n).map(|_| None).collect()),
        fin: (Mutex::new(false), Condvar::new()),
    });
    let mut joins = vec![];
    for (me, (name, f)) in fns.into_iter().enumerate() {
        let c = Ctx { sh: sh.clone(), me };
        let j = std::thread::Builder::new()
            .name(name)
            .stack_size(32 << 20)
            .spawn(move || {
                CUR.with(|x| *x.borrow_mut() = Some(c.clone()));
                alloc::YIELD_FN.with(|y| y.set(Some(alloc_yield)));
                c.wait_turn();
                let r = if c.stopping() { Ok(()) } else { catch_unwind(AssertUnwindSafe(|| f(c.clone()))) };
                if let Err(p) = r {
                    let _g = InSim::enter();
                    if !p.is::<SimStop>() && !p.is::<SimCrash>() {
                        let m = classify(p, &alloc::Acc::default());
                        c.with(|i| {
                            if i.harness_error.is_none() && i.violation.is_none() {
                                i.harness_error = Some(format!("uncaught panic in task {}: {:?}", i.tasks[c.me].name, m));
                            }
                            i.stop = true;
                        });
                    }
                }
                CUR.with(|x| *x.borrow_mut() = None);
                let next = {
                    let mut i = c.lock();
                    i.tasks[c.me].st = St::Done;
                    Ctx::pick(&mut i, c.me)
                };
                c.hand_over(next);
            })
            .expect("spawn");
        sh.threads.lock().unwrap()[me] = Some(j.thread().clone());
        joins.push(j);
    }
    // Start the first task.
    let first = {
        let mut i = sh.m.lock().unwrap();
        Ctx::pick(&mut i, NONE)
    };
    let boot = Ctx { sh: sh.clone(), me: NONE - 1 };
    boot.hand_over(first);
    {
        let mut d = sh.fin.0.lock().unwrap();
        while !*d {
            d = sh.fin.1.wait(d).unwrap();
        }
    }
    for j in joins {
        let _ = j.join();
    }
    let mut g = sh.m.lock().unwrap_or_else(|e| e.into_inner());
    let i = &mut *g;
    RunOut {
        violation: i.violation.take(),
        harness_error: i.harness_error.take(),
        tape: std::mem::take(&mut i.tape.log),
        trace_hash: i.trace_hash,
        sched_hash: i.sched_hash,
        switches: i.switches,
        lines: std::mem::take(&mut i.lines),
        stats: std::mem::take(&mut i.stats),
        sim_us: i.now,
        steps: i.steps,
        states: std::mem::take(&mut i.states),
        evals: i.evals,
        sample: std::mem::take(&mut i.sample),
        nontrivial: i.nontrivial,
    }
}

/// Draw the disturbances of one library call.
pub fn call_opts(c: &Ctx, allow_alloc_fault: bool) -> CallOpts {
    let f = c.faults();
    let mut o = CallOpts::default();
    let preempt_ok = c.with(|i| i.preempt_ok);
    if f.preempt_alloc > 0 && c.chance(f.preempt_alloc, 1000) {
        let n = 1 + c.draw(6);
        o.yield_at = if preempt_ok { n } else { 0 };
    }
    if f.preempt_cb > 0 && c.chance(f.preempt_cb, 1000) {
        o.cb_period = 1 + c.draw(4);
    }
    if allow_alloc_fault && f.alloc > 0 && c.chance(f.alloc, 1000) {
        o.fail_at = 1 + c.draw(8);
    }
    if f.cancel > 0 && c.chance(f.cancel, 1000) {
        o.cancel_at = 1 + c.draw(6);
    }
    o
}

/// Swarm configuration: every run enables its own subset of the fault kinds at its own rates.
pub fn swarm(i: &mut Inner) {
    let t = &mut i.tape;
    let mut on = |w: u64, max: u64| -> u64 {
        // w of 10: enabled
        let e = t.draw(10);
        if e < 10 - w {
            0
        } else {
            1 + t.draw(max)
        }
    };
    i.faults = Faults {
        drop: on(4, 200),
        dup: on(4, 200),
        corrupt: on(6, 500),
        delay: on(5, 500),
        misdirect: on(3, 150),
        torn: on(6, 500),
        lost: on(4, 300),
        rot: on(4, 300),
        short: on(3, 200),
        alloc: on(5, 200),
        cancel: on(5, 200),
        refuse: on(6, 400),
        item_err: on(6, 400),
        crash: on(5, 5),
        preempt_alloc: on(5, 600),
        preempt_cb: on(6, 800),
        partition: on(3, 5),
        eio: on(5, 300),
    };
}

// ---------------------------------------------------------------------------------------------
// Nodes

/// Run a node: when it is killed, what its disk had not made durable is lost and it starts again.
pub fn node(c: &Ctx, mut body: impl FnMut(&Ctx, u64)) {
    let mut life = 0;
    loop {
        let r = catch_unwind(AssertUnwindSafe(|| body(c, life)));
        match r {
            Ok(()) => return,
            Err(p) if p.is::<SimCrash>() => {
                let _g = InSim::enter();
                c.restarted();
                c.ev("crash", life, 0, || "node killed; volatile state lost".into());
                c.disk_power_fail();
                let t = 1000 + c.draw(20_000);
                c.sleep(t);
                c.set_up();
                c.ev("restart", life, 0, || "node restarts from its disk".into());
                life += 1;
            }
            Err(p) => resume_unwind(p),
        }
    }
}

/// The fault schedule of the run: crashes and partitions, healed at the end.
pub fn nemesis(c: &Ctx, nodes: usize) {
    let f = c.faults();
    let n = f.crash + f.partition;
    for _ in 0..n {
        let t = 500 + c.draw(12_000);
        c.sleep(t);
        if f.crash > 0 && (f.partition == 0 || c.draw(2) == 0) {
            let k = c.draw(nodes as u64) as usize;
            c.ev("nemesis", k as u64, 0, || format!("kill node {k}"));
            c.kill(k);
        } else {
            let m = 1 + c.draw((1 << nodes) - 1);
            c.ev("nemesis", m, 1, || format!("partition {m:b}"));
            c.with(|i| i.partition = m);
            let t = 1000 + c.draw(15_000);
            c.sleep(t);
            c.with(|i| i.partition = 0);
        }
    }
}

/// Counts that code is likely to treat apart: powers of two and ten, their halves and neighbours.
pub fn notable(c: impl FnMut(u64) -> u64, max: u64) -> u64 {
    let mut c = c;
    let base = match c(4) {
        0 => 10u64.pow(2 + c(3) as u32) * (1 + c(9)),
        1 => 100 * (1 + c(10)),
        _ => 1 << (6 + c(8)),
    };
    let n = match c(6) {
        0 => base - 1,
        1 => base + 1,
        2 => base + base / 2,
        _ => base,
    };
    n.min(max)
}
