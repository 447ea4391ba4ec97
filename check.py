#!/usr/bin/env python3
"""Runs the deterministic simulation that decides one property.

  check.py C04 [--tier quick|thorough] [--seconds N]   search, minimise, report, write evidence
  check.py C04 --replay FILE                           rebuild and replay one file, verbosely

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: the check
itself failed.
"""
import concurrent.futures as cf
import hashlib
import json
import mmap
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from harnesses import HARNESSES, PROPERTIES  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(ROOT, "sim")
BUILD = os.path.join(ROOT, "build")
REPLAYS = os.path.join(ROOT, "replays")
DEPENDENT = []  # runs whose event log depended on the runs before them in the same process
JOBS = max(1, min(8, os.cpu_count() or 1))
RUN_LIMIT = 120  # wall seconds after which a single replay is called hung


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


# ---- build ---------------------------------------------------------------------------------------
def tree_key(extra):
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "strictpp"), SIM):
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, top).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    h.update(extra.encode())
    return h.hexdigest()[:20]


def build(prop, tier):
    """Compiles the harness of prop against REPO's current tree; returns ([executables], info)."""
    spec = PROPERTIES[prop]
    units, links = HARNESSES[spec["harness"]](prop, tier, REPO, SIM)
    key = tree_key(json.dumps([units, links, prop]))
    out = os.path.join(BUILD, key)
    exes = [os.path.join(out, l[0]) for l in links]
    t0 = time.time()
    if all(os.path.exists(e) for e in exes):
        return exes, {"build_s": 0.0, "cached": True}
    os.makedirs(out, exist_ok=True)

    def compile_one(u):
        errs = ""
        more = u.get("fallback") or []
        for cmd in [u["cmd"]] + (more if more and isinstance(more[0], list) else [more] if more else []):
            full = cmd + ["-c", os.path.join(SIM, u["src"]), "-o", os.path.join(out, u["obj"])]
            p = subprocess.run(full, cwd=SIM, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 0:
                return None
            errs += " ".join(full) + "\n" + p.stdout[:3000] + "\n"
        return errs

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for err in ex.map(compile_one, sorted(units, key=lambda u: -u.get("cost", 1))):
            if err:
                shutil.rmtree(out, ignore_errors=True)
                die("the harness does not compile against " + REPO + "\n" + err)
    for name, cmd, objs, *libs in links:
        full = cmd + [os.path.join(out, o) for o in objs] + ["-o", os.path.join(out, name + ".tmp")]
        full += libs[0] if libs else []
        p = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            shutil.rmtree(out, ignore_errors=True)
            die("the harness does not link\n" + " ".join(full) + "\n" + p.stdout[-6000:])
        os.rename(os.path.join(out, name + ".tmp"), os.path.join(out, name))
    for u in units:
        try:
            os.unlink(os.path.join(out, u["obj"]))
        except OSError:
            pass
    # Keep the cache small.
    dirs = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
    dirs = sorted((d for d in dirs if d != out), key=lambda d: -os.path.getmtime(d))
    for d in dirs[40:]:
        shutil.rmtree(d, ignore_errors=True)
    return exes, {"build_s": round(time.time() - t0, 1), "cached": False}


# ---- one process ---------------------------------------------------------------------------------
ENV = {k: v for k, v in os.environ.items() if k not in ("ASAN_OPTIONS", "TSAN_OPTIONS", "UBSAN_OPTIONS")}
ENV["SIM_SCRATCH"] = "/tmp"  # replaced by search() with a directory that is removed at the end


def crash_class(prop, rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z0-9_-]+)", err)
    if m:
        return "%s:crash:asan:%s" % (prop, m.group(1))
    m = re.search(r"runtime error: ([a-z -]+)", err)
    if m:
        return "%s:crash:ubsan:%s" % (prop, m.group(1).strip().replace(" ", "-"))
    if rc == 11:
        return prop + ":hang"
    if rc is not None and rc < 0:
        return "%s:crash:signal:%d" % (prop, -rc)
    return "%s:crash:exit:%s" % (prop, rc)


def outcome(prop, rc, out, err):
    """(class or None, message, hash) of a finished replay."""
    h = re.search(r"^HASH ([0-9a-f]+)$", out, re.M)
    if rc == 0:
        return None, "", h.group(1) if h else "?"
    if rc == 10:
        c = re.search(r"^CLASS (.*)$", out, re.M)
        m = re.search(r"^MSG (.*)$", out, re.M)
        if c:
            return c.group(1), m.group(1) if m else "", h.group(1) if h else "?"
    if rc == 3:
        die("harness usage error: " + out + err)
    c = crash_class(prop, rc, err)
    frames = re.findall(r"^\s*#\d+ 0x[0-9a-f]+ in (.{0,160})", err, re.M)
    tail = "; ".join(f for f in frames[:4]) or err.strip().splitlines()[-1:] or ""
    return c, str(tail), "-"


def run_replay(exe, prop, path, timeout=RUN_LIMIT):
    try:
        p = subprocess.run([exe, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=ENV, timeout=timeout, errors="replace", text=True)
    except subprocess.TimeoutExpired:
        return prop + ":hang", "no progress within %d s" % timeout, "-"
    return outcome(prop, p.returncode, p.stdout, p.stderr)


# ---- minimisation --------------------------------------------------------------------------------
def read_plan(path):
    with open(path) as f:
        lines = f.read().splitlines()
    head = [l for l in lines if l and not l.startswith("step ")]
    return head, [l for l in lines if l.startswith("step ")]


def write_plan(path, head, steps):
    with open(path, "w") as f:
        f.write("\n".join(head + steps) + "\n")


def minimise(exe, prop, head, steps, cls, tmp, budget):
    t0 = time.time()
    tried = [0]

    def fails(batch):
        """index of the first candidate (list of step lists) that still fails with cls, or None"""
        def one(i):
            p = "%s.%d" % (tmp, i)
            write_plan(p, head, batch[i])
            r = run_replay(exe, prop, p, 60)
            os.unlink(p)
            return r[0] == cls
        tried[0] += len(batch)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, range(len(batch))))
        return next((i for i, ok in enumerate(res) if ok), None)

    n = 2
    while len(steps) >= 2 and time.time() - t0 < budget:
        size = max(1, len(steps) // n)
        cands = [steps[:i] + steps[i + size:] for i in range(0, len(steps), size)]
        hit = None
        for k in range(0, len(cands), JOBS):
            r = fails(cands[k:k + JOBS])
            if r is not None:
                hit = cands[k + r]
                break
            if time.time() - t0 > budget:
                break
        if hit is not None:
            steps = hit
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(steps), n * 2)
    # Simplify arguments.
    for i in range(len(steps)):
        w = steps[i].split()
        for a in range(2, len(w)):
            if w[a] == "0" or time.time() - t0 > budget:
                continue
            v = int(w[a])
            cands = []
            for nv in (0, 1, v % 8, v % 64, v // 2):
                if nv != v and str(nv) not in cands:
                    cands.append(str(nv))
            batch = [steps[:i] + [" ".join(w[:a] + [c] + w[a + 1:])] + steps[i + 1:] for c in cands]
            r = fails(batch)
            if r is not None:
                w[a] = cands[r]
                steps = batch[r]
    return steps, tried[0]


# ---- known findings ------------------------------------------------------------------------------
def known_findings(prop):
    """known: property=<id> class=<exact class> <what fails>; fixed: lines suppress nothing."""
    res = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


# ---- search --------------------------------------------------------------------------------------
class Worker:
    def __init__(self, exe, prop, seed, first, stride, seconds, tmp):
        self.exe, self.prop, self.first, self.stride, self.tmp = exe, prop, first, stride, tmp
        self.args = [exe, "--prop", prop, "--seed", str(seed), "--first", str(first), "--stride",
                     str(stride), "--seconds", str(seconds), "--out", tmp + ".json", "--states",
                     tmp + ".states", "--status", tmp + ".status"]
        self.out = open(tmp + ".out", "w+", errors="replace")
        self.err = open(tmp + ".err", "w+", errors="replace")
        self.p = subprocess.Popen(self.args, stdout=self.out, stderr=self.err, env=ENV)

    def finish(self, deadline):
        hung = False
        try:
            self.p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            hung = True
            self.p.kill()
            self.p.wait()
        self.out.seek(0)
        self.err.seek(0)
        self.o, self.e = self.out.read(), self.err.read()
        self.rc = self.p.returncode
        self.cls = None
        self.index = None
        if hung:
            self.cls = self.prop + ":hang"
        elif self.rc != 0:
            self.cls, self.msg, _ = outcome(self.prop, self.rc, self.o, self.e)
        if self.cls:
            m = re.search(r"^INDEX (\d+)$", self.o, re.M)
            if m:
                self.index = int(m.group(1))
            elif os.path.exists(self.tmp + ".status"):
                with open(self.tmp + ".status", "rb") as f:
                    b = f.read(24)
                if len(b) == 24:
                    i = struct.unpack("QQQ", b)[0]
                    self.index = i - 1 if i else None
        self.stats = None
        try:
            with open(self.tmp + ".json") as f:
                self.stats = json.load(f)
        except (OSError, ValueError):
            pass
        return self


def main():
    argv = sys.argv[1:]
    if not argv or argv[0] not in PROPERTIES:
        die("usage: check.py PROPERTY [--tier quick|thorough] [--seconds N] [--replay FILE]")
    prop = argv[0]
    opt = dict(zip(argv[1::2], argv[2::2]))
    tier = opt.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPERTIES[prop]
    t_start = time.time()
    exes, binfo = build(prop, tier)
    os.makedirs(REPLAYS, exist_ok=True)
    if "--replay" in opt:
        rc = 0
        with open(opt["--replay"]) as f:
            m = re.search(r"^# binary (\d+)$", f.read(), re.M)
        for e in ([exes[int(m.group(1))]] if m else exes):
            rc = subprocess.run([e, "--replay", opt["--replay"], "-v"], env=ENV).returncode or rc
        sys.exit(rc)

    print("seed=%d property=%s tier=%s build=%.1fs%s" %
          (seed, prop, tier, binfo["build_s"], " (cached)" if binfo["cached"] else ""), flush=True)
    tmpd = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(tmpd, ignore_errors=True)
    os.makedirs(tmpd)
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tmpd
    scratch = tempfile.mkdtemp(prefix="sim-", dir=shm)  # the simulated disk
    ENV["SIM_SCRATCH"] = scratch
    try:
        rc = search(prop, tier, seed, spec, exes, binfo, opt, tmpd, t_start)
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def determinism(prop, seed, exes, tmpd, n):
    """The first n runs, in one process and split over three: the event-log hashes must agree."""
    total = 0
    for x, exe in enumerate(exes):
        def hashes(first, stride, count):
            f = os.path.join(tmpd, "h-%d-%d-%d" % (x, first, stride))
            p = subprocess.run([exe, "--prop", prop, "--seed", str(seed), "--first", str(first),
                                "--stride", str(stride), "--count", str(count), "--hashes", f],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=300)
            if not os.path.exists(f):
                return {}, p.returncode
            d = {}
            for l in open(f):
                w = l.split()
                if len(w) == 2:
                    d[int(w[0])] = w[1]
            return d, p.returncode
        with cf.ThreadPoolExecutor(4) as ex:
            futs = [ex.submit(hashes, 0, 1, n)] + [ex.submit(hashes, i, 3, n // 3) for i in range(3)]
            (a, rc), *rest = [f.result() for f in futs]
        b = {}
        for d, r in rest:
            b.update(d)
            rc = rc or r
        common = set(a) & set(b)
        diff = [i for i in sorted(common) if a[i] != b[i]]
        if diff and rc == 0:
            # The runs of one process influence each other: state survives a run inside the code under
            # test. That alone breaks no property, so it is only reported; a violation that needs the
            # preceding runs is confirmed and replayed together with them.
            print("NOTE: %d of %d runs depend on the runs before them (first: %d)" %
                  (len(diff), len(common), diff[0]))
            DEPENDENT.extend(diff)
        total += len(common)
    return total


def search(prop, tier, seed, spec, exes, binfo, opt, tmpd, t_start):
    seconds = float(opt.get("--seconds") or spec["seconds"][0 if tier == "quick" else 1])
    known = known_findings(prop)
    det = determinism(prop, seed, exes, tmpd, 60 if tier == "quick" else 600)
    stats = {"runs": 0, "steps": 0, "cases": 0, "sim_ns": 0}
    counters = {}
    states = set()
    overflow = 0
    t_run = time.time()
    viol = []
    hits = {}
    for x, exe in enumerate(exes):
        per = seconds / len(exes)
        todo = [(i, JOBS, per) for i in range(JOBS)]
        t0 = time.time()
        rounds = 0
        while todo:
            rounds += 1
            ws = [Worker(exe, prop, seed, f, s, sec, os.path.join(tmpd, "w%d-%d-%d" % (x, rounds, f)))
                  for f, s, sec in todo]
            todo = []
            for w in ws:
                w.finish(time.time() + per + RUN_LIMIT)
                if w.stats:
                    for k in stats:
                        stats[k] += w.stats[k]
                    overflow += w.stats["state_overflow"]
                    for k, v in w.stats["counters"].items():
                        counters[k] = counters.get(k, 0) + v
                try:
                    with open(w.tmp + ".states", "rb") as f:
                        b = f.read()
                    states.update(struct.unpack("%dQ" % (len(b) // 8), b))
                except OSError:
                    pass
                if w.cls:
                    if w.index is None:
                        die("worker ended with %s before its first run\n%s%s" % (w.cls, w.o[-2000:], w.e[-4000:]))
                    if any(w.cls == k for k, _ in known):
                        hits[w.cls] = hits.get(w.cls, 0) + 1
                        left = per - (time.time() - t0)
                        if left > 1:
                            todo.append((w.index + JOBS, JOBS, left))
                        continue
                    viol.append((w.index, x, w))
        if viol:
            break
    run_s = time.time() - t_run
    rc = 0
    report = None
    if viol:
        viol.sort(key=lambda v: (v[0], v[1]))
        index, x, w = viol[0]
        report = confirm(prop, seed, exes[x], x, index, w, tmpd, 60 if tier == "quick" else 300)
        rc = 1
    for c, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    samples = sample_plans(prop, seed, exes, tmpd)
    evidence(prop, tier, seed, spec, exes, binfo, stats, counters, states, overflow, det, run_s, samples,
             report, hits, time.time() - t_start)
    print("runs=%d steps=%d cases=%d distinct=%d simulated=%.3fs faults={%s} determinism=%d runs compared" %
          (stats["runs"], stats["steps"], stats["cases"], len(states), stats["sim_ns"] / 1e9,
           ", ".join("%s:%d" % (k[6:], v) for k, v in sorted(counters.items()) if k.startswith("fault.")), det))
    if report:
        print("violation class=%s %s" % (report["class"], report["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, report["replay"]))
    sys.stdout.flush()
    return rc


def confirm(prop, seed, exe, x, index, w, tmpd, budget):
    plan = os.path.join(tmpd, "fail.plan")
    subprocess.run([exe, "--prop", prop, "--seed", str(seed), "--first", str(index), "--dump", plan],
                   check=True, env=ENV)
    name = "%s-%d-%d.replay" % (prop, seed, index)
    path = os.path.join(REPLAYS, name)
    r1 = run_replay(exe, prop, plan)
    r2 = run_replay(exe, prop, plan)
    if r1[0] is None or r1[0] != r2[0] or r1[2] != r2[2]:
        return confirm_range(prop, seed, exe, x, index, w, path, r1, r2)
    cls = r1[0]
    head, steps = read_plan(plan)
    n0 = len(steps)
    small, tried = minimise(exe, prop, head, steps, cls, os.path.join(tmpd, "min"), budget)
    write_plan(path, head, small)
    r = run_replay(exe, prop, path)
    r3 = run_replay(exe, prop, path)
    if r[0] != cls or r3 != r:
        write_plan(path, head, steps)
        small, r = steps, r1
    mark(path, x)
    return {"class": cls, "message": r[1], "index": index, "steps": len(small), "steps_before": n0,
            "replays_tried": tried, "replay": path, "binary": x}


def mark(path, x):
    with open(path, "a") as f:
        f.write("# binary %d\n" % x)


def confirm_range(prop, seed, exe, x, index, w, path, r1, r2):
    """The violation needs the runs before it in the same process: replay them as one."""
    def attempt(n):
        first = index - JOBS * (n - 1)
        with open(path, "w") as f:
            f.write("sim-replay 1\nrange %s %d %d %d %d\n" % (prop, seed, first, JOBS, n))
        return run_replay(exe, prop, path)
    n, most = 1, index // JOBS + 1
    r = (None, "", "")
    while r[0] is None and n < most:
        n = min(most, n * 4)
        r = attempt(n)
    if r[0] is None:
        die("violation did not reproduce: search %s, replays %s and %s\n%s%s" %
            (w.cls, r1, r2, w.o[-2000:], w.e[-4000:]))
    lo, hi = n // 4, n  # smallest suffix that still fails, by bisection
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if attempt(mid)[0] == r[0]:
            hi = mid
        else:
            lo = mid
    r = attempt(hi)
    mark(path, x)
    return {"class": r[0], "message": r[1], "index": index, "steps": hi, "steps_before": n,
            "replays_tried": 0, "replay": path, "binary": x}


def sample_plans(prop, seed, exes, tmpd):
    res = []
    for i in (0, 1):
        p = os.path.join(tmpd, "sample.plan")
        subprocess.run([exes[0], "--prop", prop, "--seed", str(seed), "--first", str(i), "--dump", p],
                       check=False, env=ENV)
        try:
            with open(p) as f:
                res.append("; ".join(f.read().split("\n"))[:1500])
        except OSError:
            pass
    return res


def evidence(prop, tier, seed, spec, exes, binfo, stats, counters, states, overflow, det, run_s, samples,
             report, hits, wall):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    hours = max(run_s, 1e-3) / 3600
    cov = {
        "evaluations": stats["cases"],
        "distinct_nontrivial": len(states),
        "rule": spec["rule"],
        "samples": samples,
        "simulated_runs": stats["runs"],
        "steps": stats["steps"],
        "runs_per_hour": int(stats["runs"] / hours),
        "seeds_per_hour": int(stats["runs"] / hours),
        "simulated_seconds": stats["sim_ns"] / 1e9,
        "faults_fired": {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault.")},
        "probes": {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("probe.")},
        "other_counters": {k: v for k, v in sorted(counters.items())
                           if not k.startswith("probe.") and not k.startswith("fault.")},
        "distinct_measure": spec["rule"],
        "distinct_not_stored": overflow,
        "determinism_runs_compared": det,
        "determinism_runs_dependent_on_earlier_runs": len(DEPENDENT),
        "real_components": spec["real"],
        "stub_components": spec["stub"],
        "search_seconds": round(run_s, 2),
        "build": binfo,
    }
    if report:
        cov["violation"] = report
    if hits:
        cov["known_finding_hits"] = hits
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
        "assumptions": spec["assumptions"], "wall_s": round(wall, 2), "violations": 1 if report else 0,
    }
    p = os.path.join(ROOT, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(p + ".tmp", p)


if __name__ == "__main__":
    main()
