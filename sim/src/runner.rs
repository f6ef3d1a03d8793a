//! Command line of the simulator binaries: batches, minimisation, replay.

use crate::core::{mix, run, Inner, RunCfg, RunOut, Tape, TaskFn};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

pub struct World {
    pub property: &'static str,
    pub max_steps: u64,
    pub setup: fn(&mut Inner) -> Vec<(String, TaskFn)>,
}

pub fn run_seed(base: u64, property: &str, index: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in property.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(mix(base, h), index)
}

fn go(w: &World, tape: Tape, verbose: bool, preempt: bool) -> RunOut {
    run(RunCfg { property: w.property, verbose, preempt, max_steps: w.max_steps }, tape, w.setup)
}

struct Args(BTreeMap<String, String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|s| s.parse().expect("number")).unwrap_or(d)
    }
    fn need(&self, k: &str) -> &str {
        self.get(k).unwrap_or_else(|| panic!("--{k} is missing"))
    }
}

fn violation_json(w: &World, o: &RunOut, preempt: bool) -> Value {
    let v = o.violation.as_ref().unwrap();
    json!({
        "kind": "tape",
        "property": w.property,
        "oracle": v.oracle,
        "detail": v.detail,
        "at_us": v.at,
        "step": v.step,
        "preempt": preempt,
        "trace_hash": format!("{:016x}", o.trace_hash),
        "tape": o.tape,
    })
}

fn write_file(path: &str, v: &Value) {
    let tmp = format!("{path}.tmp");
    std::fs::write(&tmp, serde_json::to_vec(v).unwrap()).expect("write");
    std::fs::rename(&tmp, path).expect("rename");
}

pub fn main(worlds: &[World]) {
    crate::install();
    let mut argv = std::env::args().skip(1);
    let cmd = argv.next().unwrap_or_default();
    let mut args = Args(BTreeMap::new());
    while let Some(a) = argv.next() {
        let k = a.trim_start_matches("--").to_string();
        let v = argv.next().unwrap_or_default();
        args.0.insert(k, v);
    }
    let code = match cmd.as_str() {
        "batch" => batch(worlds, &args),
        "minimise" => minimise(worlds, &args),
        "replay" => replay(worlds, &args),
        _ => {
            eprintln!("batch | minimise | replay");
            2
        }
    };
    std::io::stdout().flush().ok();
    std::process::exit(code)
}

fn find<'a>(worlds: &'a [World], p: &str) -> &'a World {
    worlds.iter().find(|w| w.property == p).unwrap_or_else(|| panic!("no world for {p}"))
}

/// Exit: 0 clean, 1 violation (in the output file), 2 harness error.
fn batch(worlds: &[World], a: &Args) -> i32 {
    let w = find(worlds, a.need("prop"));
    let seed = a.num("seed", 1);
    let (start, count) = (a.num("start", 0), a.num("count", 1));
    let preempt = a.num("preempt", 1) == 1;
    let deadline = Instant::now() + Duration::from_millis(a.num("deadline-ms", u64::MAX / 4).min(86_400_000));
    let progress = a.get("progress").map(|p| std::fs::File::create(p).expect("progress file"));
    let out = a.need("out").to_string();
    let (mut runs, mut evals, mut sim_us, mut steps, mut switches) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut scheds: BTreeSet<u64> = BTreeSet::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut nontrivial = 0u64;
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut samples: Vec<String> = vec![];
    let mut all = 0u64;
    let mut res = json!({});
    let mut code = 0;
    for i in start..start + count {
        if runs > 0 && Instant::now() > deadline {
            break;
        }
        if let Some(p) = &progress {
            p.write_all_at(&i.to_le_bytes(), 0).expect("progress");
        }
        let o = go(w, Tape::seeded(run_seed(seed, w.property, i)), false, preempt);
        runs += 1;
        evals += o.evals;
        sim_us += o.sim_us;
        steps += o.steps;
        switches += o.switches;
        all = mix(all, mix(o.trace_hash, o.sched_hash));
        for (k, v) in &o.stats {
            *stats.entry(k).or_insert(0) += v;
        }
        // an interleaving is the sequence of tasks chosen to run together with what they did
        if o.switches > 0 {
            scheds.insert(mix(o.sched_hash, o.trace_hash));
        }
        if o.evals > 0 && o.nontrivial {
            nontrivial += 1;
            distinct.insert(o.trace_hash);
        }
        states.extend(o.states.iter().copied());
        if samples.len() < 3 {
            samples.extend(o.sample.iter().take(1).map(|s| format!("run {i}: {s}")));
        }
        if let Some(e) = &o.harness_error {
            res = json!({"harness_error": e, "run": i});
            code = 2;
            break;
        }
        if o.violation.is_some() {
            let mut v = violation_json(w, &o, preempt);
            v["seed"] = json!(seed);
            v["run"] = json!(i);
            v["start"] = json!(start);
            res = json!({ "violation": v });
            code = 1;
            break;
        }
    }
    res["runs"] = json!(runs);
    res["evals"] = json!(evals);
    res["nontrivial"] = json!(nontrivial);
    res["sim_us"] = json!(sim_us);
    res["steps"] = json!(steps);
    res["switches"] = json!(switches);
    res["stats"] = json!(stats);
    res["samples"] = json!(samples);
    res["hash"] = json!(format!("{all:016x}"));
    res["distinct"] = json!(distinct.iter().map(|x| format!("{x:016x}")).collect::<Vec<_>>());
    res["scheds"] = json!(scheds.iter().map(|x| format!("{x:016x}")).collect::<Vec<_>>());
    res["states"] = json!(states.iter().map(|x| format!("{x:016x}")).collect::<Vec<_>>());
    write_file(&out, &res);
    code
}

/// Shrink a failing tape while the same oracle keeps failing.
fn minimise(worlds: &[World], a: &Args) -> i32 {
    let input: Value = serde_json::from_slice(&std::fs::read(a.need("in")).expect("input")).expect("json");
    let w = find(worlds, input["property"].as_str().unwrap());
    let preempt = input["preempt"].as_bool().unwrap_or(true);
    let oracle = input["oracle"].as_str().unwrap().to_string();
    let out = a.need("out").to_string();
    let until = Instant::now() + Duration::from_millis(a.num("budget-ms", 20_000));
    let mut best: Vec<u64> = input["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let mut tried = 0u64;
    let mut attempt = |t: &[u64]| -> Option<RunOut> {
        tried += 1;
        let o = go(w, Tape::replay(t.to_vec()), false, preempt);
        match &o.violation {
            Some(v) if v.oracle == oracle => Some(o),
            _ => None,
        }
    };
    let Some(first) = attempt(&best) else {
        eprintln!("the tape does not fail in this process");
        return 3;
    };
    let keep = |o: &RunOut, best: &mut Vec<u64>| {
        let mut t = o.tape.clone();
        while t.last() == Some(&0) {
            t.pop();
        }
        *best = t;
        let mut v = violation_json(w, o, preempt);
        v["tape"] = json!(best);
        for k in ["seed", "run", "start"] {
            v[k] = input[k].clone();
        }
        write_file(&out, &v);
    };
    keep(&first, &mut best);
    loop {
        let before = (best.len(), best.iter().map(|x| 64 - x.leading_zeros() as u64).sum::<u64>());
        // truncate
        let mut cut = best.len() / 2;
        while cut > 0 && Instant::now() < until {
            if cut > best.len() {
                cut = best.len();
            }
            let t = best[..best.len() - cut].to_vec();
            match attempt(&t) {
                Some(o) => keep(&o, &mut best),
                None => cut /= 2,
            }
        }
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.len() && Instant::now() < until {
                let end = (at + size).min(best.len());
                let mut t = best[..at].to_vec();
                t.extend_from_slice(&best[end..]);
                match attempt(&t) {
                    Some(o) if o.tape.len() < best.len() + 64 && score(&o.tape) < score(&best) => keep(&o, &mut best),
                    _ => at += size,
                }
            }
            if size == 1 || Instant::now() >= until {
                break;
            }
            size /= 2;
        }
        // zero blocks, then lower single entries
        let mut size = 16usize;
        loop {
            let mut at = 0;
            while at < best.len() && Instant::now() < until {
                let end = (at + size).min(best.len());
                if best[at..end].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[at..end].iter_mut().for_each(|x| *x = 0);
                    if let Some(o) = attempt(&t) {
                        if score(&o.tape) < score(&best) {
                            keep(&o, &mut best);
                        }
                    }
                }
                at += size;
            }
            if size == 1 {
                break;
            }
            size /= 4;
        }
        let mut at = 0;
        while at < best.len() && Instant::now() < until {
            let mut lo = 0u64;
            let mut hi = best[at];
            let mut tries = 0;
            while lo < hi && tries < 8 && at < best.len() {
                tries += 1;
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[at] = mid;
                match attempt(&t) {
                    Some(o) if score(&o.tape) < score(&best) => {
                        keep(&o, &mut best);
                        hi = mid;
                    }
                    _ => lo = mid + 1,
                }
            }
            at += 1;
        }
        let after = (best.len(), best.iter().map(|x| 64 - x.leading_zeros() as u64).sum::<u64>());
        if after >= before || Instant::now() >= until {
            break;
        }
    }
    println!("minimised to {} choices in {} executions", best.len(), tried);
    0
}

fn score(t: &[u64]) -> (usize, u64) {
    let mut n = t.len();
    while n > 0 && t[n - 1] == 0 {
        n -= 1;
    }
    (n, t.iter().map(|x| 64 - x.leading_zeros() as u64).sum())
}

/// Exit: 1 the violation occurs, 0 it does not, 2 harness error.
fn replay(worlds: &[World], a: &Args) -> i32 {
    let dump = a.get("dump-tape").map(|s| s.to_string());
    let quiet = a.num("quiet", 0) == 1;
    let (w, preempt, runs): (&World, bool, Vec<(u64, Tape)>) = if let Some(f) = a.get("file") {
        let v: Value = serde_json::from_slice(&std::fs::read(f).expect("replay file")).expect("json");
        let w = find(worlds, v["property"].as_str().unwrap());
        let preempt = v["preempt"].as_bool().unwrap_or(true);
        match v["kind"].as_str() {
            Some("tape") => {
                let t = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                (w, preempt, vec![(0, Tape::replay(t))])
            }
            _ => {
                let (s, e) = (v["start"].as_u64().unwrap(), v["run"].as_u64().unwrap());
                let seed = v["seed"].as_u64().unwrap();
                (w, preempt, (s..=e).map(|i| (i, Tape::seeded(run_seed(seed, w.property, i)))).collect())
            }
        }
    } else {
        let w = find(worlds, a.need("prop"));
        let i = a.num("run", 0);
        (w, a.num("preempt", 1) == 1, vec![(i, Tape::seeded(run_seed(a.num("seed", 1), w.property, i)))])
    };
    let n = runs.len();
    for (k, (i, mut tape)) in runs.into_iter().enumerate() {
        let last = k + 1 == n;
        if let (true, Some(d)) = (last, &dump) {
            tape.dump = Some(std::fs::File::create(d).expect("dump"));
        }
        let o = go(w, tape, last && !quiet, preempt);
        if let Some(e) = &o.harness_error {
            println!("HARNESS-ERROR run={i} {e}");
            return 2;
        }
        if last || o.violation.is_some() {
            for l in &o.lines {
                println!("{l}");
            }
            println!("trace_hash={:016x} steps={} sim_us={} evals={} choices={}", o.trace_hash, o.steps, o.sim_us, o.evals, o.tape.len());
        }
        if let Some(v) = &o.violation {
            println!("violated oracle: {}", v.oracle);
            println!("detail: {}", v.detail);
            return 1;
        }
    }
    println!("no violation");
    0
}
