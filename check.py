#!/usr/bin/env python3
"""Deterministic simulation of isap-code-package: driver.

    check.py run ID [--tier quick|thorough] [--seed N] [--seconds S]
    check.py replay FILE          execute a replay file against /repo's current tree
    check.py setup                builds the simulators and tests them against themselves
    check.py fingerprint          (development) rewrites fingerprint.json

`run` builds the simulators from /repo's working tree into a scratch directory, then executes
seeds in parallel worker processes until the time budget is used. Everything a simulated run
does follows from its seed; the first violation found is replayed twice in fresh processes,
minimised, and written to replays/. Exit 0: no violation. 1: violation. 2: error."""
import argparse
import array
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as simbuild

PROPS = ["C%02d" % i for i in range(1, 16)]
NPROC = max(2, os.cpu_count() or 2)
KNOWN = os.path.join(HERE, "known_findings.txt")
FPFILE = os.path.join(HERE, "fingerprint.json")
TSTART = time.monotonic()
# seconds of search; runs per chunk (one worker process executes one chunk); at least so many chunks whatever it takes
BUDGET = {"quick": 60, "thorough": 900}
CHUNK = {"C01": 16, "C02": 24, "C03": 12, "C04": 200, "C05": 60, "C06": 120, "C07": 60, "C08": 200, "C09": 60, "C10": 16, "C11": 60, "C12": 80, "C13": 120, "C14": 120, "C15": 200}
ARMCHUNK = {"C01": 6, "C02": 8, "C03": 6, "C04": 60, "C05": 60, "C06": 80, "C07": 40, "C08": 60, "C09": 12, "C10": 12, "C11": 12, "C12": 20, "C13": 40, "C14": 40, "C15": 80}
MINCHUNKS = 24
HARDCAP = {"quick": 480, "thorough": 2400}
DEEP = {"quick": 300, "thorough": 1500}     # seconds for the long runs of C15 (quick: changed implementations only)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Sims:
    def __init__(self, out, archs=("x86", "arm")):
        self.exe, self.notes = {}, []
        with ThreadPoolExecutor(2) as ex:
            fs = {a: ex.submit(self.one, os.path.join(out, a), a) for a in archs}
            for a, f in fs.items():
                try:
                    self.exe[a] = [f.result()] if a == "x86" else [shutil.which("qemu-arm") or "qemu-arm", f.result()]
                except SystemExit as e:
                    if a == "x86":
                        raise
                    self.notes.append("ARM simulator not built: " + str(e)[:600])
        for n in self.notes:
            log("NOTE:", n)

    def one(self, out, arch):
        return simbuild.build(out, [arch], self.notes)[0]

    def impls(self, arch):
        out = subprocess.run(self.exe[arch] + ["list"], capture_output=True, text=True).stdout
        r = {}
        for line in out.splitlines():
            f = line.split()
            if len(f) > 3 and f[1].startswith("alg="):
                r[f[0]] = dict(x.split("=", 1) for x in f[1:])
        return r


IMM = re.compile(r"[$#](-?(?:0x[0-9a-fA-F]+|\d+))")


def constants(text, into):
    """immediate operands of instructions, with how telling they are (comparisons first)"""
    for line in text.splitlines():
        line = re.sub(r"\[[^\]]*\]", "", line)
        f = line.split(None, 1)
        if len(f) < 2 or f[0].startswith("."):
            continue
        for x in IMM.findall(f[1]):
            v = int(x, 0)
            v = (-v if v < 0 else v) & 0xffffffff
            if v > 2:
                into[v] = max(into.get(v, 0), 2 if f[0].startswith(("cmp", "sub", "xor", "eor", "rsb")) else 1 if f[0].startswith(("and", "test", "tst", "mov", "add")) else 0)


def fingerprints():
    """per implementation and architecture: a hash of its compiled code and the constants in it"""
    fp = {}
    with ThreadPoolExecutor(NPROC) as ex:
        def one(im):
            h = hashlib.sha256()
            consts = {}
            for s in im.sources:
                cc = simbuild.cc_of(im.arch)
                if s.endswith(".s"):
                    text = re.sub(r"(?m)[@;].*$|//.*$|^\s+|\s+$", "", re.sub(r"(?s)/\*.*?\*/", "", open(s, errors="replace").read()))
                else:
                    r = subprocess.run([cc, "-O1", "-DNDEBUG"] + im.cflags + simbuild.SFLAGS + [s, "-o", "-"], capture_output=True, text=True, errors="replace")
                    text = re.sub(r"(?m)^\s*(\.(file|ident)|[@#] *\d+ \").*$", "", r.stdout) if r.returncode == 0 else "?"
                h.update(text.encode() + b"\0")
                constants(text, consts)
            return im.arch + ":" + im.name, (h.hexdigest()[:20], consts)
        for n, h in ex.map(one, simbuild.impls()):
            fp[n] = h
    return fp


def changed():
    """implementations whose code differs from the recorded one (by architecture), and constants that are new in it.
    Only steers the search: which implementations get most of the runs, which rare values are tried."""
    try:
        old = json.load(open(FPFILE))
    except (OSError, ValueError):
        return {}, []
    touched, new = {}, {}
    for n, (h, consts) in fingerprints().items():
        arch, name = n.split(":", 1)
        o = old.get(n, ["", ""])
        if o[0] == h:
            continue
        touched.setdefault(arch, []).append(name)
        known = {int(x, 16) for x in o[1].split()}
        for c, w in consts.items():
            if c not in known:
                new[c] = max(new.get(c, 0), w)
    return {a: sorted(t) for a, t in touched.items()}, sorted(sorted(new, key=lambda c: (-new[c], c))[:24])


class Worker:
    def __init__(self, sims, prop, arch, first, count, tier, steer, tmp, limit, keep=False):
        self.sims, self.prop, self.arch, self.first, self.count, self.tier = sims, prop, arch, first, count, tier
        self.steer, self.limit, self.keep = steer, limit, keep
        self.state = os.path.join(tmp, f"st-{arch}-{first}")

    def env(self):
        return env_of(self.steer)

    def cmd(self):
        return self.sims.exe[self.arch] + ["run", self.prop, str(self.first), str(self.count), str(self.tier), self.state, str(self.limit)]

    def start(self):
        env = self.env()
        if self.keep:
            env["SIM_KEEPGOING"] = "1"
        self.p = subprocess.Popen(self.cmd(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env)
        return self.p

    def finish(self):
        out, err = self.p.communicate()
        self.viol, self.summary, self.rc, self.err = [], {}, self.p.returncode, err
        for line in out.splitlines():
            f = line.split(" ", 3)
            if f[0] == "VIOLATED":
                self.viol.append((int(f[1]), f[2], f[3]))
            elif f[0] == "SUMMARY":
                self.summary = dict(x.split("=", 1) for x in line.split()[1:])
        return self


def env_of(steer):
    """steer: (implementations to favour, rare values to try)"""
    env = {k: v for k, v in os.environ.items() if not k.startswith("SIM_")}
    if steer and steer[0]:
        env["SIM_FOCUS"] = ",".join(steer[0])
    if steer and steer[1]:
        env["SIM_DICT"] = ",".join(str(c) for c in steer[1])
    return env


def read_hashes(path, into, cap=8000000):
    try:
        with open(path, "rb") as f:
            b = f.read()
        os.unlink(path)
    except OSError:
        return
    if len(into) < cap:
        a = array.array("Q")
        a.frombytes(b[:len(b) // 8 * 8])
        into.update(a)


# ---------------------------------------------------------------- plans
def run_plan(sims, arch, text, tmp, timeout=120):
    """(status, hash, violation text) of a plan executed in a fresh process"""
    fd, path = tempfile.mkstemp(dir=tmp, suffix=".plan")
    with os.fdopen(fd, "w") as f:
        f.write(text)
    try:
        r = subprocess.run(sims.exe[arch] + ["plan", path], capture_output=True, text=True, errors="replace", timeout=timeout, env=env_of(None))
    except subprocess.TimeoutExpired:
        return "timeout", "", ""
    finally:
        os.unlink(path)
    for line in r.stdout.splitlines():
        f = line.split(" ", 3)
        if f[0] == "RESULT":
            return f[1], f[2], f[3].strip() if len(f) > 3 else ""
    if r.returncode == 0:
        return "error", "", r.stderr[-300:]
    # the simulated program has damaged the simulator itself
    return "violation", "died-%d" % r.returncode, "the simulated process died (status %d): memory outside the buffers of the calls was damaged" % r.returncode


def impl_of(text):
    return text.split(":", 1)[0] if not text.startswith("x/") else ":".join(text.split(":", 2)[:2])


def same_class(a, b):
    if "process died" in a or "process died" in b:
        return ("process died" in a) == ("process died" in b)
    if impl_of(a) != impl_of(b):
        return False
    fault = re.compile(r"SIG[A-Z]+|ABORT|STEP-BUDGET|STACK-SMASHED|DEADLOCK")
    return set(fault.findall(a)) == set(fault.findall(b))


class Plan:
    def __init__(self, text):
        self.head, self.ops, self.evs = [], [], []
        for line in text.splitlines():
            if line.startswith("op"):
                self.ops.append(line)
            elif line.startswith("ev"):
                self.evs.append(line)
            elif line.strip() and not line.startswith("#"):
                self.head.append(line)

    def text(self):
        return "\n".join(self.head + self.ops + self.evs) + "\n"

    def copy(self):
        p = Plan("")
        p.head, p.ops, p.evs = list(self.head), list(self.ops), list(self.evs)
        return p

    def size(self):
        return len(self.ops), len(self.evs), len(self.text())


def fields(op):
    return [x.split("=", 1) for x in op.split()[1:]]


def setfield(op, k, v):
    r = [x for x in op.split() if not x.startswith(k + "=")]
    if v not in ("0", 0):
        r.append(f"{k}={v}")
    return " ".join(r)


def minimise(sims, arch, text, vt, tmp, budget):
    t0 = time.monotonic()
    best = Plan(text)
    tries = 0

    def left():
        return budget - (time.monotonic() - t0)

    def good(p):
        s, h, v = run_plan(sims, arch, p.text(), tmp, timeout=max(5, min(60, left())))
        return s == "violation" and same_class(v, vt)

    with ThreadPoolExecutor(NPROC) as ex:
        def first_good(cands):
            nonlocal tries
            for i in range(0, len(cands), NPROC):
                if left() <= 0:
                    return None
                batch = cands[i:i + NPROC]
                tries += len(batch)
                for c, ok in zip(batch, ex.map(good, batch)):
                    if ok:
                        return c
            return None

        progress = True
        while progress and left() > 0:
            progress = False
            for what in ("evs", "ops"):
                n = len(getattr(best, what))
                size = max(1, n // 2)
                while n and size >= 1 and left() > 0:
                    cands = []
                    for i in range(0, len(getattr(best, what)), size):
                        c = best.copy()
                        del getattr(c, what)[i:i + size]
                        if what == "evs" or c.ops:
                            cands.append(c)
                    g = first_good(cands)
                    if g is not None:
                        best, progress = g, True
                        if size > 1 and size > len(getattr(best, what)):
                            size = max(1, len(getattr(best, what)) // 2)
                    else:
                        size //= 2
            # events: one message damaged in one way, shorter cuts
            for i in range(len(best.evs)):
                f = best.evs[i].split()
                for k in (4, 5):
                    v = int(f[k]) if len(f) > k else 0
                    while v and left() > 0:
                        cands = []
                        for nv in sorted({0, v // 2, v - 1}):
                            c = best.copy()
                            g = list(f)
                            g[k] = str(nv)
                            c.evs[i] = " ".join(g)
                            cands.append(c)
                        g = first_good(cands)
                        if g is None:
                            break
                        best, progress = g, True
                        f = best.evs[i].split()
                        if int(f[k]) == v - 1:
                            break
                        v = int(f[k])
            for i in range(len(best.ops)):
                for k, v in fields(best.ops[i]):
                    if k in ("impl", "kind", "task", "tam") or not v.isdigit() or left() <= 0:
                        continue
                    v = int(v)
                    cand_v = {0}
                    if k in ("alen", "mlen"):
                        cand_v |= {v // 2, v - 1, v - 8, v - v % 8} - {v}
                    elif k in ("kseed", "nseed", "aseed", "mseed"):
                        cand_v |= {65536, 3 << 16} - {v}
                    elif k in ("tpos", "tval", "aux", "aux2"):
                        cand_v |= {v // 2, 1} - {v}
                    for _ in range(24):
                        cands = []
                        for nv in sorted(x for x in cand_v if 0 <= x < v):
                            c = best.copy()
                            c.ops[i] = setfield(c.ops[i], k, nv)
                            cands.append(c)
                        g = first_good(cands) if cands else None
                        if g is None:
                            break
                        best, progress = g, True
                        v = int(dict(fields(best.ops[i])).get(k, 0))
                        if v == 0 or k not in ("alen", "mlen", "aux", "aux2"):
                            break
                        cand_v = {0, v // 2, v - 1}
    return best, tries


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    """lines: finding: property=<id> match=<regular expression on the violation> :: what fails"""
    r = []
    try:
        lines = open(KNOWN).read().splitlines()
    except OSError:
        return r
    for line in lines:
        m = re.match(r"finding:\s+property=(\S+)\s+match=(.*?)\s+::\s+(.*)$", line)
        if m and m.group(1) == prop:
            r.append((re.compile(m.group(2)), m.group(3)))
    return r


def gen_plan(sims, prop, arch, seed, tier, steer):
    return subprocess.run(sims.exe[arch] + ["gen", prop, str(seed), str(tier)], capture_output=True, text=True, env=env_of(steer)).stdout


def run_check(prop, tier, vseed, seconds):
    t_start = time.monotonic()
    tmp = tempfile.mkdtemp(prefix="isap-sim-")
    try:
        return run_in(prop, tier, vseed, seconds, tmp, t_start)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def deep_runs(sims, tier, impls, only, steer, tmp, done, found):
    """complete calls with more than 2^32 bytes, each a minute and more; those that are not done in time do not count"""
    names = list(impls)
    jobs = []
    for what in (0, 1, 2):
        for i, n in enumerate(names):
            if impls[n].get("ok") != "1" or (what == 2) != n.startswith("hash/") or (only is not None and n not in only):
                continue
            jobs.append((what * len(names) + i, n, ("associated data", "ciphertext", "hash input")[what]))
    speed = lambda n: 0 if "avx" in n or "opt_64" in n else 1 if "opt_32" in n else 3 if "_8" in n or "isapk" in n else 2
    jobs.sort(key=lambda j: (speed(j[1]), j[0]))
    t0 = time.monotonic()
    cut, stop = [], threading.Event()
    r = {"seconds": DEEP[tier], "completed": [], "not_completed": cut}

    def one(job):
        left = DEEP[tier] - (time.monotonic() - t0)
        if left < 20 or stop.is_set():
            cut.append(f"{job[1]}: {job[2]}")
            return
        w = Worker(sims, "C15", "x86", job[0], 1, 2, steer, tmp, 10**6)
        w.state, w.stier = os.path.join(tmp, f"deep-{job[0]}"), 2
        w.start()
        while w.p.poll() is None:
            if time.monotonic() - t0 > DEEP[tier] or stop.is_set():
                w.p.kill()
                w.p.communicate()
                cut.append(f"{job[1]}: {job[2]}")
                return
            time.sleep(0.3)
        w.finish()
        done.append(w)
        r["completed"].append(f"{job[1]}: {job[2]}")
        if w.viol or w.rc:
            found.append((w, w.viol[0] if w.viol else None))
            stop.set()

    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, jobs))
    for k in ("completed", "not_completed"):
        r[k].sort()
    return r


def run_in(prop, tier, vseed, seconds, tmp, t_start):
    with ThreadPoolExecutor(2) as ex:
        fch = ex.submit(changed)
        sims = Sims(os.path.join(tmp, "build"))
        touched, rare = fch.result()
    t_build = time.monotonic() - t_start
    archs = [a for a in ("x86", "arm") if a in sims.exe]
    impls = {a: sims.impls(a) for a in archs}
    focus = {a: [n for n in touched.get(a, []) if n in impls[a] and impls[a][n].get("ok") == "1"] for a in archs}
    total = {a: len(impls[a]) for a in archs}
    for a in archs:
        if len(focus[a]) > total[a] * 2 // 3:
            focus[a] = []
    steer = {a: (focus[a], rare) for a in archs}
    # workers: mostly x86; mostly ARM when only ARM code has changed
    arm_only = "arm" in archs and touched.get("arm") and not touched.get("x86")
    x86_only = touched.get("x86") and not touched.get("arm")
    narm = 0 if "arm" not in archs else (NPROC - 2 if arm_only else 1 if x86_only else 2)
    narm = min(narm, NPROC - 1)
    names = sorted({n for t in touched.values() for n in t})
    log(f"{prop}: built in {t_build:.1f} s; {sum(total.values())} builds of implementations, changed since the fingerprint: {', '.join(names[:6]) + (' ...' if len(names) > 6 else '') or 'none'}" + (f", new constants: {rare}" if rare else ""))
    known = known_findings(prop)
    lock, halt = threading.Lock(), threading.Event()
    nxt = {a: 0 for a in archs}
    done, found, errors, chunks = [], [], [], {a: 0 for a in archs}
    running = set()
    t_search = time.monotonic()

    def params(arch, i):
        stier = 1 if (i % 4 == 3 if tier == "quick" else i % 2) else 0
        n = (CHUNK if arch == "x86" else ARMCHUNK)[prop]
        first = (vseed % 1000000) * 10**12 + (5 * 10**11 if arch == "arm" else 0) + i * 1000
        return first, n, stier

    def loop(arch):
        while not halt.is_set():
            el = time.monotonic() - t_search
            with lock:
                if el > seconds and (sum(chunks.values()) >= MINCHUNKS or el > HARDCAP[tier]):
                    return
                i = nxt[arch]
                nxt[arch] += 1
            first, n, stier = params(arch, i)
            w = Worker(sims, prop, arch, first, n, stier, steer[arch], tmp, HARDCAP[tier] - el, keep=bool(known))
            with lock:
                if halt.is_set():
                    return
                running.add(w.start())
            w.finish()
            with lock:
                running.discard(w.p)
                chunks[arch] += 1
                if halt.is_set() and not w.viol:
                    return
                w.stier = stier
                done.append(w)
                bad = [v for v in w.viol if not any(k.search(v[2]) for k, _ in known)]
                if bad:
                    found.append((w, bad[0]))
                elif w.rc != 0:
                    found.append((w, None))
                if found and not halt.is_set():
                    halt.set()
                    for p in running:
                        p.kill()

    threads = [threading.Thread(target=loop, args=("arm" if i < narm else "x86",)) for i in range(NPROC)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    t_done = time.monotonic() - t_search
    deep = {}
    if prop == "C15" and not found:
        deep = deep_runs(sims, tier, impls["x86"], focus["x86"] if tier == "quick" else None, steer["x86"], tmp, done, found)
    ok = [w for w in done if w.rc == 0 and w.summary]
    # determinism: the same seeds once more in other processes, at another worker count
    repeats = []
    if not found:
        rep = []
        for a in archs:
            rep += [w for w in ok if w.arch == a and w.summary.get("stopped") == "0"][:3]
        for w in rep:
            w2 = Worker(sims, prop, w.arch, w.first, w.count, w.stier, steer[w.arch], tmp, HARDCAP[tier], keep=bool(known))
            w2.state = "/dev/null"
            w2.start()
            repeats.append((w, w2))
        for w, w2 in repeats:
            w2.finish()
            if w2.summary.get("batch") != w.summary.get("batch"):
                errors.append(f"not deterministic: {w.arch} seeds {w.first}+{w.count}: {w.summary.get('batch')} then {w2.summary.get('batch')}")
    counts, faults = {}, {}
    states, runs = set(), set()
    for w in ok:
        for k, v in w.summary.items():
            if k.startswith("fk_"):
                faults[k[3:]] = faults.get(k[3:], 0) + int(v)
            elif v.isdigit() and k != "batch":
                counts[(w.arch, k)] = counts.get((w.arch, k), 0) + int(v)
        read_hashes(w.state, states)
        read_hashes(w.state + ".runs", runs)

    def tot(k):
        return sum(counts.get((a, k), 0) for a in archs)

    violations = 0
    report = None
    if found:
        w, v = sorted(found, key=lambda f: (f[1] is None, f[0].first))[0]
        report = report_violation(prop, sims, w, v, tmp, tier)
        if report[0] == "error":
            errors.append(report[1])
        else:
            violations = 1
    samples = []
    for w in ok[:2] + [w for w in ok if w.arch == "arm"][:1]:
        g = gen_plan(sims, prop, w.arch, w.first, w.stier, steer[w.arch]).splitlines()
        samples.append({"arch": w.arch, "seed": w.first, "plan": g[:14] + ([f"... {len(g) - 14} more lines"] if len(g) > 14 else [])})
    seen_known = [what for k, what in known if any(k.search(v[2]) for w in done for v in w.viol)]
    wall = time.monotonic() - t_start
    ev = {
        "property": prop, "tier": tier, "seed": vseed, "level": "exploration",
        "coverage": {
            "evaluations": tot("done"),
            "distinct_nontrivial": len(runs),
            "rule": RULE[prop],
            "samples": samples or ["none"],
            "simulated_runs": {a: counts.get((a, "done"), 0) for a in archs},
            "runs_per_hour": int(tot("done") * 3600 / max(t_done, 0.001)),
            "seeds_per_hour": int(tot("done") * 3600 / max(t_done, 0.001)),
            "library_calls": tot("ops"),
            "simulated_time": {"ticks": tot("simtime"), "unit": "one tick: one instruction of the library in the hooked build, one input byte in the plain build, one microsecond of network time"},
            "faults_injected": dict(sorted(faults.items())),
            "distinct_states": len(states),
            "state_measure": STATES[prop],
            "chunks": chunks, "workers": {"x86": NPROC - narm, "arm": narm},
            "determinism_check": {"chunks_repeated": len(repeats), "runs_repeated": sum(int(w.summary.get("done", 0)) for w, _ in repeats), "differences": len(errors)},
            "implementations": {a: sorted(n for n in impls[a] if impls[a][n].get("ok") == "1") for a in archs},
            "implementations_not_run": {a: sorted(n for n in impls[a] if impls[a][n].get("ok") != "1") for a in archs},
            "changed_implementations_favoured": touched, "rare_values_tried": rare,
            "real_code": "every implementation directory of /repo, compiled from the working tree with the shipped flags (ARM ones by arm-linux-gnueabi-gcc under qemu-arm)",
            "stubs": "C library memory functions (simulator's own, instrumented); every other library or system call (allocation, stdio, clock, random, locks: simulated, may fail); network and storage between nodes (simulated)",
            **({"complete_calls_above_4_GiB": deep} if deep else {}),
            "build_seconds": round(t_build, 1), "search_seconds": round(t_done, 1),
            "notes": sims.notes + errors,
        },
        "assumptions": ["interleavings are sequentially consistent at instruction granularity (one memory access may be observed before or after, never in between)",
                        "AVR, RISC-V and other targets' compilers are not run; ARM assembly runs under qemu user mode",
                        "sampling: a quiet batch is evidence, not proof"],
        "wall_s": round(wall, 1), "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for what in seen_known:
        print(f"KNOWN-FINDING: property={prop} {what}")
    if report and report[0] == "violation":
        print(report[1])
        return 1
    if errors:
        for e in errors:
            log("ERROR:", e)
        return 2
    log(f"{prop}: {tot('done')} runs ({', '.join(str(counts.get((a, 'done'), 0)) + ' ' + a for a in archs)}), {tot('ops')} calls, {len(states)} states, no violation, {wall:.0f} s")
    return 0


def report_violation(prop, sims, w, v, tmp, tier):
    """gate, minimise, write the replay file"""
    if v is None:
        # a worker died: find the run
        env = w.env()
        env["SIM_LOG"] = "1"
        r = subprocess.run(w.cmd(), capture_output=True, text=True, errors="replace", env=env)
        seeds = [int(x.split()[1]) for x in r.stderr.splitlines() if x.startswith("SEED ")]
        if r.returncode == 0:
            return "error", f"a worker died with status {w.rc} and did not when repeated: {w.err[-300:]}"
        v = ((seeds[-1] + 1) if seeds else w.first, "", "")
    seed, h, text = v
    plan = gen_plan(sims, prop, w.arch, seed, w.stier, w.steer)
    if not plan:
        return "error", f"seed {seed}: no plan"
    deep = w.stier == 2
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.map(lambda _: run_plan(sims, w.arch, plan, tmp, 400 if deep else 240), (0, 1))
    if a[0] != "violation" or a != b:
        return "error", f"{w.arch} seed {seed}: {text!r} is not reproduced by its plan: {a} / {b}"
    if deep:
        best, tries, m, m2 = Plan(plan), 0, a, b    # one call already
    else:
        best, tries = minimise(sims, w.arch, plan, a[2], tmp, 45 if tier == "quick" else 180)
        with ThreadPoolExecutor(2) as ex:
            m, m2 = ex.map(lambda _: run_plan(sims, w.arch, best.text(), tmp, 240), (0, 1))
    if m[0] != "violation" or m != m2:
        best, m = Plan(plan), a
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{w.arch}-{seed}.plan")
    o, n = Plan(plan), best
    with open(path, "w") as f:
        f.write(f"# property {prop}\n# arch {w.arch}\n# seed {seed} tier {w.stier} favoured {','.join(w.steer[0])} values {','.join(map(str, w.steer[1]))}\n# violation {m[2]}\n# log {m[1]}\n"
                f"# minimised from {len(o.ops)} operations and {len(o.evs)} events to {len(n.ops)} and {len(n.evs)} ({tries} executions)\n"
                f"# replay: python3 {os.path.join(HERE, 'check.py')} replay {path}\n")
        f.write(best.text())
    print(f"{prop}: {w.arch} seed {seed}: {m[2]}")
    return "violation", f"VIOLATION property={prop} replay={path}"


def replay(path):
    text = open(path).read()
    g = {k: v for k, v in re.findall(r"(?m)^# (property|arch|violation|log) (.*)$", text)}
    arch = g.get("arch", "x86")
    tmp = tempfile.mkdtemp(prefix="isap-sim-")
    try:
        sims = Sims(os.path.join(tmp, "build"), (arch,))
        s, h, v = run_plan(sims, arch, text, tmp, 900)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("plan:", path)
    print("result:", s, h, v)
    if s == "violation":
        print("reproduced exactly" if h == g.get("log") else "reproduced, with another log (other code?): recorded " + g.get("log", "?"))
        print(f"VIOLATION property={g.get('property')} replay={path}")
        return 1
    return 0 if s == "ok" else 2


def setup():
    tmp = tempfile.mkdtemp(prefix="isap-sim-")
    try:
        sims = Sims(os.path.join(tmp, "build"))
        rc = 0
        for a in sims.exe:
            ps = [subprocess.Popen(sims.exe[a] + ["run", "self", str(1 + 1000 * i), "60" if a == "x86" else "12", "0", "/dev/null"], stdout=subprocess.PIPE, text=True) for i in range(NPROC)]
            for p in ps:
                out = p.communicate()[0]
                if "VIOLATED" in out or p.returncode:
                    log(a, out, p.returncode)
                    rc = 2
        log("setup:", "self-test passed" if rc == 0 else "self-test FAILED")
        # the self-test also compares with /repo's code, which a check may find broken: it does not decide anything here
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


from evidence_text import RULE, STATES  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    r = sub.add_parser("run")
    r.add_argument("property", choices=PROPS)
    r.add_argument("--tier", choices=["quick", "thorough"], default=None)
    r.add_argument("--seed", type=int, default=None)
    r.add_argument("--seconds", type=float, default=None)
    p = sub.add_parser("replay")
    p.add_argument("file")
    sub.add_parser("setup")
    sub.add_parser("fingerprint")
    a = ap.parse_args()
    if a.cmd == "run":
        tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
        tier = tier if tier in BUDGET else "quick"
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
        return run_check(a.property, tier, seed, a.seconds or BUDGET[tier])
    if a.cmd == "replay":
        return replay(a.file)
    if a.cmd == "setup":
        return setup()
    with open(FPFILE, "w") as f:
        json.dump({n: [h, " ".join("%x" % c for c in sorted(cs))] for n, (h, cs) in fingerprints().items()}, f, indent=1, sort_keys=True)
        f.write("\n")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit as e:
        if isinstance(e.code, str):
            log(e.code)
            sys.exit(2)
        raise
