#!/usr/bin/env python3
"""Deterministic-simulation checks for ethereum_ssz.

  check.py <property> [--tier quick|thorough]   decide a property (exit 0 held, 1 violated, 2 check error)
  check.py replay <file>                        rebuild and replay a violation
  check.py setup                                build every simulator binary

The simulators (sim/) are rebuilt from /repo's working tree. Here the seeds are handed out to fresh
simulator processes, the processes are supervised (a simulated system may also kill or hang its
process), violations are minimised and confirmed, and the evidence is written.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(ROOT, "sim")
REPO = "/repo"
TARGET = os.environ.get("VERIF_TARGET_DIR") or os.path.join(SIM, "target")
WORKERS = int(os.environ.get("VERIF_WORKERS") or max(2, min(8, os.cpu_count() or 4)))
MEM_LIMIT = 6 << 30
STALL_S = 60.0

REAL = {
    "codec": ["ethereum_ssz: every Encode/Decode implementation, SszEncoder, SszDecoder, list decoders, containers",
              "ethereum_ssz_derive: the derived Encode/Decode of 60+ structs and enums, expanded and compiled",
              "alloy-primitives, smallvec, std collections"],
    "stream": ["ethereum_ssz: SszDecoderBuilder, SszDecoder, SszEncoder, list decoders, TryFromIter collections, offset codec",
               "ethereum_ssz_derive: derived containers with probe fields", "smallvec, std collections"],
    "bits": ["ethereum_ssz: BitList, BitVector, BitVectorDynamic, their SSZ and serde codecs",
             "serde_json, smallvec, serde_utils hex"],
}
STUB = ["thread scheduler (one task at a time, chosen from the tape)", "clock and timers (virtual)",
        "network (virtual, faulty)", "disks (virtual, faulty)",
        "allocator (system allocator behind a counting, refusing, preempting seam)",
        "callers: nodes, peers, streaming readers/writers, item and collection probes"]

PROPS = {
    "C06": dict(
        bin="codec", profiles=["release"], quick=800_000, thorough=12_000_000, chunk=2500, hang=False,
        rule="One run is one seed: nodes decode received, stored, crafted and damaged byte strings with types drawn "
             "from the type zoo under preemption, allocation refusal, cancellation and crashes. Non-trivial: at least one "
             "decode of non-empty bytes that a fault or an adversarial sender made or changed. Distinct: by hash of the whole event trace. "
             "An evaluation is one decode whose allocator account was judged against the bound of its type.",
        states="(type, outcome, input-length class, peak-memory class) reached by judged decodes"),
    "C10": dict(
        bin="codec", profiles=["release"], quick=480_000, thorough=6_000_000, chunk=1500, hang=True,
        rule="One run is one seed: writers append values through all entry points to shared buffers with arbitrary "
             "contents, interleaved at allocator requests and callbacks. Non-trivial: at least one append to a non-empty "
             "buffer was judged. Distinct: by hash of the whole event trace. An evaluation is one comparison of an entry "
             "point or buffer with the standalone encoding.",
        states="(type, entry point, prefix class) reached"),
    "C09": dict(
        bin="stream", profiles=["release", "checked"], quick=440_000, thorough=6_000_000, chunk=1500, hang=True,
        rule="One run is one seed: builders, containers and lists decode honest, damaged and tampered layouts while being "
             "interleaved, cancelled and fed failing items. Non-trivial: at least one judged input that a fault or adversary "
             "changed, or a well-formed layout with more than one variable item. "
             "Distinct: by hash of the whole event trace. An evaluation is one decode or offset word judged against the "
             "tiling model.",
        states="(entry point and shape, tiling verdict, outcome) reached"),
    "C16": dict(
        bin="stream", profiles=["release", "checked"], quick=200_000, thorough=2_500_000, chunk=700, hang=True,
        rule="One run is one seed: list decodes with limits into unbounded, bounded and refusing collections, from crafted, "
             "damaged and delivered bytes, interleaved and cancelled. Non-trivial: a limit or a refusing collection was "
             "exercised. Distinct: by hash of the whole event trace. An evaluation is one decode judged against the "
             "unlimited decode, the probe-call count and the allocator account.",
        states="(target collection, refusal mode, limit exceeded or kept, outcome, announced count) reached"),
    "C11": dict(
        bin="bits", profiles=["release", "checked"], quick=260_000, thorough=4_000_000, chunk=1000, hang=True,
        rule="One run is one seed: nodes create, mutate, copy, exchange, persist and recover bitfields; every observation "
             "is compared with a plain boolean sequence after each step. Non-trivial: at least one mutation was judged. "
             "Distinct: by hash of the whole event trace. An evaluation is one full set of observations compared.",
        states="(kind, length mod 8 and byte count, set-bit count) reached"),
    "C13": dict(
        bin="bits", profiles=["release", "checked"], quick=560_000, thorough=8_000_000, chunk=2000, hang=True,
        rule="One run is one seed: nodes obtain bitfields from every construction path, with requests at and beyond the "
             "bound and damaged, torn and misdirected encodings. Non-trivial: a request beyond the bound, a set operation "
             "or a resize was judged. Distinct: by hash of the whole event trace. An evaluation is one construction, "
             "mutation or resize whose length was judged.",
        states="(kind, path, distance from the bound) reached"),
}
ASSUMPTIONS = [
    "the seeded search samples schedules, faults and inputs; it does not enumerate them",
    "library code interacts with its surroundings only through the seams listed under components_stubbed",
    "types, capacities and shapes are those instantiated in sim/",
]


def log(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    e["RUSTC_BOOTSTRAP"] = "ssz_sim"
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def tree_hash():
    """Contents of what the simulators are built from in /repo (mtimes may lie)."""
    h = hashlib.sha256()
    for top in ("Cargo.toml", "ssz/Cargo.toml", "ssz_derive/Cargo.toml", "ssz/src", "ssz_derive/src"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build(binary, profiles):
    os.makedirs(TARGET, exist_ok=True)
    now = tree_hash()
    for p in profiles:
        stamp = os.path.join(TARGET, f".tree-{p}-{binary}")
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old is not None and old != now:
            subprocess.run(["cargo", "clean", "--offline", "--profile", p, "-p", "ethereum_ssz", "-p", "ethereum_ssz_derive"],
                           cwd=SIM, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--profile", p, "--bin", binary], cwd=SIM, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log(r.stdout[-6000:])
            log(f"CHECK-ERROR building {binary} ({p})")
            sys.exit(2)
        with open(stamp, "w") as f:
            f.write(now)


def exe(binary, profile):
    return os.path.join(TARGET, profile, binary)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def call(args, timeout, extra=None):
    """-> (code or None on timeout, output)"""
    e = dict(os.environ)
    e.update(extra or {})
    try:
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e,
                           preexec_fn=limits)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf-8", "replace")


class Findings:
    """KNOWN_FINDINGS: lines `finding: property=<id> oracle=<oracle> detail~<regex> :: <what fails>`."""

    def __init__(self):
        self.known = []
        p = os.path.join(ROOT, "KNOWN_FINDINGS")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) oracle=(\S+) detail~(.*) :: (.*)", line.strip())
                if m:
                    self.known.append((m[1], m[2], re.compile(m[3]), m[4]))

    def match(self, prop, v):
        for p, o, rx, what in self.known:
            if p == prop and o == v.get("oracle") and rx.search(v.get("detail", "")):
                return what
        return None


class Search:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.p = PROPS[prop]
        self.findings = Findings()
        self.tmp = tempfile.mkdtemp(prefix=f"ssz-sim-{prop}-")
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.runs = self.evals = self.nontrivial = self.sim_us = self.steps = self.switches = 0
        self.stats, self.samples, self.by_profile = {}, [], {}
        self.scheds, self.states, self.distinct = set(), set(), set()
        self.found = None            # (chunk profile, violation)
        self.error = None
        self.notes = []
        self.known_hit = set()
        self.procs = set()
        self.first_chunks = {}       # profile -> (start, count, hash)

    # -- one chunk -----------------------------------------------------------------------------

    def spawn(self, profile, start, count, preempt, tag):
        out = os.path.join(self.tmp, f"{tag}.json")
        prog = os.path.join(self.tmp, f"{tag}.at")
        for f in (out, prog):
            if os.path.exists(f):
                os.unlink(f)
        args = [exe(self.p["bin"], profile), "batch", "--prop", self.prop, "--seed", str(self.seed), "--start", str(start),
                "--count", str(count), "--preempt", str(int(preempt)), "--out", out, "--progress", prog,
                "--deadline-ms", str(int(max(1.0, self.deadline - time.time()) * 1000))]
        errf = open(os.path.join(self.tmp, f"{tag}.err"), "w+b")
        proc = subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=errf, preexec_fn=limits)
        with self.lock:
            self.procs.add(proc)
        seen, since = None, time.time()
        hung = False
        while True:
            try:
                proc.wait(0.05 if count < 200 else 0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            if self.stop.is_set():
                proc.kill()
                proc.wait()
                break
            try:
                with open(prog, "rb") as f:
                    at = f.read(8)
            except OSError:
                at = None
            if at != seen:
                seen, since = at, time.time()
            elif time.time() - since > STALL_S:
                hung = True
                proc.kill()
                proc.wait()
                break
        with self.lock:
            self.procs.discard(proc)
        errf.close()
        if self.stop.is_set():
            return None
        at = None
        if os.path.exists(prog):
            b = open(prog, "rb").read(8)
            if len(b) == 8:
                at = struct.unpack("<Q", b)[0]
        res = None
        if os.path.exists(out):
            res = json.load(open(out))
        return dict(code=proc.returncode, hung=hung, at=at, res=res)

    def chunk(self, profile, start, count, tag, preempt=True):
        """Run [start, start+count), whatever happens to the process."""
        end = start + count
        while start < end and not self.stop.is_set():
            if time.time() > self.deadline:
                return
            r = self.spawn(profile, start, end - start, preempt, tag)
            if r is None:
                return
            if r["res"] is not None and not r["hung"] and r["code"] in (0, 1, 2):
                res = r["res"]
                self.account(profile, start, res)
                if res.get("harness_error"):
                    self.fail(f"run {res.get('run')}: {res['harness_error']}")
                    return
                v = res.get("violation")
                if not v:
                    return
                what = self.findings.match(self.prop, v)
                if what is None:
                    v["profile"] = profile
                    self.report(v)
                    return
                with self.lock:
                    self.known_hit.add(what)
                start = v["run"] + 1
                continue
            # the process died or hung in run `at`
            at = r["at"]
            if at is None:
                self.fail(f"simulator process ended with {r['code']} before its first run: "
                          + open(os.path.join(self.tmp, f"{tag}.err"), errors="replace").read()[-800:])
                return
            v = self.autopsy(profile, start, at, r, preempt)
            if v is not None:
                self.report(v)
                return
            if at > start:
                # what ran before it counts; the accounts died with the process
                r2 = self.spawn(profile, start, at - start, preempt, tag)
                if r2 and r2["res"]:
                    self.account(profile, start, r2["res"])
            start = at + 1

    def autopsy(self, profile, start, at, r, preempt):
        """Did the library kill or hang its process, for a reason the property speaks about?"""
        kind = "hang" if r["hung"] else "death"
        with self.lock:
            self.notes.append(f"{kind} of the process in run {at} ({profile}, code {r['code']})")
        base = [exe(self.p["bin"], profile), "replay", "--prop", self.prop, "--seed", str(self.seed), "--run", str(at), "--quiet", "1"]
        # a death under refused allocations is no verdict: aborting is how Rust programs end then
        tape = os.path.join(self.tmp, f"tape-{at}")
        # preemption inside the allocator can deadlock against a lock of the library: judge without
        code, out = call(base + ["--preempt", "0", "--dump-tape", tape], STALL_S, {"SIM_NO_REFUSE": "1"})
        solo = code is None or code < 0 or code > 2
        ranged = False
        if not solo and at > start:
            rp = os.path.join(self.tmp, f"range-{at}.json")
            json.dump(dict(kind="range", property=self.prop, seed=self.seed, start=start, run=at, preempt=False), open(rp, "w"))
            code, out = call([exe(self.p["bin"], profile), "replay", "--file", rp, "--quiet", "1"], STALL_S * 3, {"SIM_NO_REFUSE": "1"})
            ranged = code is None or code < 0 or code > 2
        if not solo and not ranged:
            return None
        if code is None and not self.p["hang"]:
            return None
        oracle = "process-hangs" if code is None else "process-dies"
        detail = "library code never returned" if code is None else f"the process ended with code {code}: {out[-600:].strip()}"
        v = dict(property=self.prop, profile=profile, oracle=oracle, detail=detail, preempt=False, seed=self.seed, start=start,
                 run=at, env={"SIM_NO_REFUSE": "1"}, kind="range")
        if solo:
            v["start"] = at
            if os.path.exists(tape):
                b = open(tape, "rb").read()
                t = [x[0] for x in struct.iter_unpack("<Q", b[:len(b) // 8 * 8])]
                if t:
                    v["kind"], v["tape"] = "tape", t
        return v

    def account(self, profile, start, res):
        with self.lock:
            self.runs += res["runs"]
            self.evals += res["evals"]
            self.nontrivial += res["nontrivial"]
            self.sim_us += res["sim_us"]
            self.steps += res["steps"]
            self.switches += res["switches"]
            for k, n in res["stats"].items():
                self.stats[k] = self.stats.get(k, 0) + n
            for s in (("scheds", self.scheds), ("states", self.states), ("distinct", self.distinct)):
                s[1].update(int(x, 16) for x in res[s[0]])
            b = self.by_profile.setdefault(profile, dict(runs=0, evaluations=0))
            b["runs"] += res["runs"]
            b["evaluations"] += res["evals"]
            if len(self.samples) < 6:
                self.samples.extend(res["samples"][:2])

    def fail(self, msg):
        with self.lock:
            if self.error is None and self.found is None:
                self.error = msg
        self.stop.set()

    def report(self, v):
        with self.lock:
            if self.found is None:
                self.found = v
        self.stop.set()

    # -- the whole search ----------------------------------------------------------------------

    def search(self, cap_s):
        self.deadline = time.time() + cap_s
        total = int(os.environ.get("VERIF_RUNS") or self.p[self.tier])
        chunk = self.p["chunk"] if self.tier == "quick" else self.p["chunk"] * 4
        # the first profile takes the larger part; the runs of the profiles are disjoint
        profiles = self.p["profiles"]
        share = [1.0] if len(profiles) == 1 else [0.65, 0.35]
        jobs, at = [], 0
        lists = []
        for prof, part in zip(profiles, share):
            n = int(total * part)
            l = []
            while n > 0:
                k = min(chunk, n)
                l.append((prof, at, k))
                at += k
                n -= k
            lists.append(l)
        # interleave, so that a wall-clock cap takes from both alike
        pos = [0] * len(lists)
        while any(pos[i] < len(lists[i]) for i in range(len(lists))):
            i = min((i for i in range(len(lists)) if pos[i] < len(lists[i])), key=lambda i: pos[i] / len(lists[i]))
            jobs.append(lists[i][pos[i]])
            pos[i] += 1
        t0 = time.time()
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            fs = [ex.submit(self.job, k, j) for k, j in enumerate(jobs)]
            for f in fs:
                f.result()
        self.search_s = time.time() - t0

    def job(self, k, j):
        if self.stop.is_set() or time.time() > self.deadline:
            return
        try:
            self.chunk(j[0], j[1], j[2], f"c{k}")
        except Exception as e:  # noqa
            self.fail(f"{type(e).__name__}: {e}")
        finally:
            for x in ("json", "at", "err"):
                f = os.path.join(self.tmp, f"c{k}.{x}")
                if os.path.exists(f):
                    os.unlink(f)

    def determinism(self):
        """The same seeds again, in fresh processes: the executions must be the same to the bit."""
        res = []
        for prof in self.p["profiles"]:
            hs = []
            for _ in range(2):
                out = os.path.join(self.tmp, "det.json")
                code, o = call([exe(self.p["bin"], prof), "batch", "--prop", self.prop, "--seed", str(self.seed),
                                "--start", "0", "--count", "200", "--deadline-ms", "60000", "--out", out], 120)
                if code == 0:
                    d = json.load(open(out))
                    hs.append((d["hash"], d["runs"]))
                else:
                    hs.append(("failed", code))
            res.append(dict(profile=prof, runs=hs[0][1], identical=hs[0] == hs[1] and hs[0][0] != "failed"))
        return res

    # -- violations ----------------------------------------------------------------------------

    def settle(self, v):
        """Minimise, confirm in a fresh process, write the replay file. -> path or None"""
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{v['profile']}-{self.seed}-{v['run']}.json")
        b = exe(self.p["bin"], v["profile"])
        cands = []
        if v["oracle"] in ("process-dies", "process-hangs"):
            if v["kind"] == "tape":
                m = dict(v)
                m["tape"] = self.shrink_death(b, v)
                cands.append(m)
            cands.append(dict(v, kind="range"))
        else:
            src = os.path.join(self.tmp, "v.json")
            dst = os.path.join(self.tmp, "v.min.json")
            json.dump(v, open(src, "w"))
            call([b, "minimise", "--in", src, "--out", dst, "--budget-ms", "20000"], 90)
            if os.path.exists(dst):
                cands.append(dict(json.load(open(dst)), profile=v["profile"]))
            cands.append(v)
            # state kept between calls: the runs before it in the same process are part of the history
            k = 0
            while v["run"] - k > v["start"]:
                cands.append(dict(v, kind="range", start=v["run"] - k))
                k = 2 * k + 1
            cands.append(dict(v, kind="range"))
        for c in cands:
            c["bin"] = self.p["bin"]
            if c["kind"] == "range":
                c.pop("tape", None)
            with open(path, "w") as f:
                json.dump(c, f)
            ok, out, c2 = self.confirm(b, path, c)
            if ok:
                with open(path, "w") as f:
                    json.dump(c2, f)
                with open(path[:-5] + ".txt", "w") as f:
                    f.write(out)
                return path, c2, out
        return None

    def confirm(self, b, path, c):
        t = STALL_S if c["oracle"] == "process-hangs" else 300
        code, out = call([b, "replay", "--file", path], t, c.get("env"))
        if c["oracle"] == "process-hangs":
            return code is None, out, c
        if c["oracle"] == "process-dies":
            return code is not None and (code < 0 or code > 2), out, c
        m = re.search(r"violated oracle: (.*)", out)
        h = re.search(r"trace_hash=([0-9a-f]+)", out)
        ok = code == 1 and m and m[1] == c["oracle"]
        if ok and c["kind"] == "tape":
            ok = h and h[1] == c["trace_hash"]
        if ok:
            c = dict(c, trace_hash=h[1])
        return bool(ok), out, c

    def shrink_death(self, b, v):
        """Process deaths are minimised from outside, one process per attempt."""
        tape = list(v["tape"])
        until = time.time() + (20 if v["oracle"] == "process-dies" else 0)
        f = os.path.join(self.tmp, "death.json")

        def dies(t):
            json.dump(dict(v, tape=t), open(f, "w"))
            code, _ = call([b, "replay", "--file", f, "--quiet", "1"], 10, v.get("env"))
            return code is not None and (code < 0 or code > 2)
        size = max(1, len(tape) // 2)
        while size and time.time() < until:
            at = 0
            while at < len(tape) and time.time() < until:
                t = tape[:at] + tape[at + size:]
                if dies(t):
                    tape = t
                else:
                    at += size
            size //= 2
        return tape

    # -- evidence ------------------------------------------------------------------------------

    def evidence(self, wall, det, violations, build_s):
        p = self.p
        hours = max(self.search_s, 1e-3) / 3600
        faults = {k: n for k, n in sorted(self.stats.items()) if k.startswith(("fault.", "damage."))}
        other = {k: n for k, n in sorted(self.stats.items()) if not k.startswith(("fault.", "damage."))}
        samples = self.samples[:6] or ["no run finished"]
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level="exploration",
            coverage=dict(
                evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=p["rule"], samples=samples,
                simulated_runs=self.runs, seeds=self.runs, nontrivial_runs=self.nontrivial,
                simulated_runs_per_hour=int(self.runs / hours), seeds_per_hour=int(self.runs / hours),
                simulated_seconds=round(self.sim_us / 1e6, 3), scheduler_steps=self.steps, task_switches=self.switches,
                faults_injected=faults, activity=other,
                distinct_interleavings=len(self.scheds),
                interleaving_measure="hash of the sequence of task choices together with the event trace, over runs with at least one task switch",
                distinct_states=len(self.states), state_measure=p["states"],
                by_profile=self.by_profile, determinism_self_test=det,
                components_real=REAL[p["bin"]], components_stubbed=STUB, notes=self.notes[:20],
                search_s=round(self.search_s, 2), build_s=round(build_s, 2), workers=WORKERS),
            assumptions=ASSUMPTIONS, wall_s=round(wall, 2), violations=violations)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", f"{self.prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    p = PROPS[prop]
    build(p["bin"], p["profiles"])
    build_s = time.time() - t0
    s = Search(prop, tier, seed)
    try:
        for q, _, _, what in s.findings.known:
            if q == prop:
                log(f"KNOWN-FINDING: property={prop} {what}")
        cap = float(os.environ.get("VERIF_CAP_S") or (300 if tier == "quick" else 7200))
        s.search(cap)
        det = s.determinism() if s.found is None and s.error is None else []
        code, settled = 0, None
        if s.error:
            log(f"CHECK-ERROR {s.error}")
            code = 2
        elif s.found:
            settled = s.settle(s.found)
            if settled is None:
                log(f"CHECK-ERROR a violation could not be reproduced: {s.found['oracle']}: {s.found['detail'][:1500]}")
                code = 2
            else:
                code = 1
        s.evidence(time.time() - t0, det, int(code == 1), build_s)
        log(f"{prop} {tier} seed={seed}: {s.runs} runs, {s.evals} evaluations, {len(s.distinct)} distinct non-trivial runs, "
            f"{len(s.scheds)} interleavings, {len(s.states)} states, {s.sim_us / 1e6:.0f} simulated s, "
            f"{time.time() - t0:.0f} s wall (build {build_s:.0f})")
        for d in det:
            if not d["identical"]:
                log(f"note: repeated runs differ under {d['profile']}: {d}")
        if settled:
            path, v, out = settled
            n = len(v["tape"]) if "tape" in v else None
            log(f"violated oracle: {v['oracle']}\n{v['detail'][:2000]}")
            log(f"profile {v['profile']}, seed {seed}, run {v['run']}" + (f", minimised to {n} choices" if n is not None else
                f", with the runs from {v['start']} in the same process"))
            log("replay: ./check.py replay " + path)
            log(f"VIOLATION property={prop} replay={path}")
        return code
    finally:
        for q in list(s.procs):
            q.kill()
        shutil.rmtree(s.tmp, ignore_errors=True)


def replay(path):
    v = json.load(open(path))
    build(v["bin"], [v["profile"]])
    code, out = call([exe(v["bin"], v["profile"]), "replay", "--file", path], 300 if v["oracle"] != "process-hangs" else STALL_S, v.get("env"))
    log(out)
    h = re.search(r"trace_hash=([0-9a-f]+)", out)
    if v["oracle"] in ("process-dies", "process-hangs"):
        bad = code is None or code < 0 or code > 2
        log(f"process ended with {code}")
    else:
        bad = code == 1
        if bad and v.get("trace_hash"):
            log("same execution as recorded" if h and h[1] == v["trace_hash"] else "DIFFERENT execution than recorded")
    if bad:
        log(f"VIOLATION property={v['property']} replay={path}")
    return 1 if bad else (0 if code == 0 else 2)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        for b, ps in (("codec", ["release"]), ("stream", ["release", "checked"]), ("bits", ["release", "checked"])):
            build(b, ps)
        return 0
    if a[0] == "replay":
        return replay(os.path.abspath(a[1]))
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return check(a[0], tier)


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    sys.exit(main())
