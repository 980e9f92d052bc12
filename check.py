#!/usr/bin/env python3
"""Deterministic-simulation checks for gtl.

  check.py <property> quick|thorough     run one registered check
  check.py --replay FILE                 rebuild from /repo and replay a violation file
  check.py --setup                       compile the simulator runtime (toolchain smoke test)

Each check builds the simulator and its harnesses from /repo's working tree, runs seeded
simulated executions on all cores, and exits 0 (property held on everything explored) or 1
with a `VIOLATION property=<id> replay=<path>` line.
"""
import json, os, random, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
REPO = os.environ.get("GTL_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS  # noqa: E402

CXX = "clang++"
CFLAGS = ("-std=c++20 -O1 -DNDEBUG -g1 -w -fsanitize=thread -fsized-deallocation "
          "-mllvm -tsan-instrument-func-entry-exit=0").split()
NCPU = max(1, min(16, len(os.sched_getaffinity(0))))
CPUS = sorted(os.sched_getaffinity(0))


def die(msg, code=2):
    print("check error: " + msg, flush=True)
    sys.exit(code)


TUFLAGS = {"h_sh_xfm": ["-mssse3"]}


def build(tus, bdir):
    """compile runtime + harness TUs against /repo/include; returns the binary path"""
    os.makedirs(bdir, exist_ok=True)
    jobs = [(["%s" % CXX, "-std=c++20", "-O2", "-g1", "-w", "-c", os.path.join(SIM, "rt.cpp"), "-o", os.path.join(bdir, "rt.o")], "rt")]
    objs = [os.path.join(bdir, "rt.o")]
    for t in tus:
        o = os.path.join(bdir, t + ".o")
        jobs.append(([CXX] + CFLAGS + TUFLAGS.get(t, []) + ["-I" + os.path.join(REPO, "include"), "-c", os.path.join(SIM, t + ".cpp"), "-o", o], t))
        objs.append(o)
    running, i = [], 0
    errs = []
    while i < len(jobs) or running:
        while i < len(jobs) and len(running) < NCPU:
            running.append((subprocess.Popen(jobs[i][0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT), jobs[i]))
            i += 1
        p, j = running.pop(0)
        out = p.communicate()[0].decode(errors="replace")
        if p.returncode:
            errs.append("compiling %s failed:\n%s" % (j[1], out[:3000]))
    if errs:
        die("\n".join(errs))
    for o in objs[1:]:
        r = subprocess.run(["objcopy", "--redefine-syms=" + os.path.join(SIM, "wraps.syms"), o])
        if r.returncode:
            die("objcopy failed")
    binp = os.path.join(bdir, "sim")
    r = subprocess.run([CXX, "-no-pie"] + objs + ["-o", binp, "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        die("link failed:\n" + r.stdout.decode(errors="replace")[:3000])
    return binp


# ---------------------------------------------------------------- replay files
class Case:
    def __init__(self):
        self.harness = ""; self.variant = 0; self.seed = 0; self.params = []; self.threads = []
        self.sched = None; self.wpref = 0; self.sseed = 0; self.strategy = -1
        self.kind = self.msg = self.hash = None; self.comments = []

    @staticmethod
    def parse(path):
        c = Case()
        for l in open(path, errors="replace"):
            if l.startswith("#"):
                w = l[1:].strip().split(" ", 1)
                if w[0] == "kind": c.kind = w[1].strip()
                elif w[0] == "msg": c.msg = w[1].strip()
                elif w[0] == "hash": c.hash = w[1].strip()
                c.comments.append(l.rstrip("\n"))
                continue
            w = l.split()
            if not w: continue
            if w[0] == "harness": c.harness = w[1]
            elif w[0] == "variant": c.variant = int(w[1])
            elif w[0] == "seed": c.seed = int(w[1])
            elif w[0] == "params": c.params = [int(x) for x in w[2:]]
            elif w[0] == "thread": c.threads.append([])
            elif w[0] == "op": c.threads[-1].append([int(x) for x in w[1:]])
            elif w[0] == "sched":
                if w[1] == "explicit": c.wpref = int(w[2]); c.sched = []
                else: c.sseed = int(w[2]); c.strategy = int(w[3])
            elif w[0] == "sw": c.sched.append([int(x) for x in w[1:]])
        return c

    def text(self):
        o = ["harness %s" % self.harness, "variant %d" % self.variant, "seed %d" % self.seed,
             "params %d %s" % (len(self.params), " ".join(map(str, self.params))), "threads %d" % len(self.threads)]
        for i, t in enumerate(self.threads):
            o.append("thread %d %d" % (i, len(t)))
            o += ["op " + " ".join(map(str, x)) for x in t]
        if self.sched is not None:
            o.append("sched explicit %d %d" % (self.wpref, len(self.sched)))
            o += ["sw " + " ".join(map(str, x)) for x in self.sched]
        else:
            o.append("sched seed %d %d" % (self.sseed, self.strategy))
        o.append("end")
        return "\n".join(o) + "\n"

    def copy(self):
        c = Case(); c.__dict__.update(self.__dict__)
        c.params = list(self.params); c.threads = [[list(x) for x in t] for t in self.threads]
        c.sched = None if self.sched is None else [list(x) for x in self.sched]
        return c


class Runner:
    def __init__(self, binp, tmp):
        self.bin, self.tmp, self.n = binp, tmp, 0

    def replay(self, case, tries=0, timeout=60):
        """-> (violation Case or None, rc)"""
        self.n += 1
        f = os.path.join(self.tmp, "r%d.case" % self.n); v = os.path.join(self.tmp, "r%d.viol" % self.n)
        open(f, "w").write(case.text())
        cmd = [self.bin, "--cpu", str(CPUS[self.n % len(CPUS)]), "--replay", f, "--viol", v] + (["--tries", str(tries)] if tries else [])
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -99
        res = None
        if rc == 3 and os.path.exists(v):
            res = Case.parse(v)
        elif rc not in (0, 2, 5):
            res = case.copy(); res.kind = "crash"; res.msg = "simulated process died (status %d)" % rc; res.hash = None; res.comments = []
        for x in (f, v):
            if os.path.exists(x): os.unlink(x)
        return res, rc


def minimise(run, case, budget):
    """delta-debug operations, faults, then context switches, keeping the violation kind"""
    t0 = time.time()
    best, kind = case, case.kind
    multi = len(case.threads) > 1
    steps = [0]

    def left(): return time.time() - t0 < budget

    def attempt(c):
        steps[0] += 1
        r, _ = run.replay(c)
        if r is not None and r.kind == kind: return r
        if multi:
            r, _ = run.replay(c, tries=150)
            if r is not None and r.kind == kind: return r
        return None

    changed = True
    while changed and left():
        changed = False
        # drop chunks of operations
        for ti in range(len(best.threads)):
            size = max(1, len(best.threads[ti]) // 2)
            while size >= 1 and left():
                i = 0
                while i < len(best.threads[ti]) and left():
                    c = best.copy(); del c.threads[ti][i:i + size]
                    r = attempt(c)
                    if r: best = r; changed = True
                    else: i += size
                if size == 1: break
                size //= 2
        # drop faults
        for ti in range(len(best.threads)):
            for i in range(len(best.threads[ti])):
                if best.threads[ti][i][1] and left():
                    c = best.copy(); c.threads[ti][i][1] = c.threads[ti][i][2] = 0
                    r = attempt(c)
                    if r: best = r; changed = True
        # drop empty trailing threads
        while len(best.threads) > 1 and not best.threads[-1] and left():
            c = best.copy(); c.threads.pop()
            r = attempt(c)
            if not r: break
            best = r; changed = True
    # drop context switches
    if best.sched:
        size = max(1, len(best.sched) // 2)
        while left():
            i = 0
            while i < len(best.sched) and left():
                c = best.copy(); del c.sched[i:i + size]
                r, _ = run.replay(c)
                if r is not None and r.kind == kind and len(r.sched) < len(best.sched): best = r
                else: i += size
            if size == 1: break
            size //= 2
    return best, steps[0]


def symbolize(binp, case):
    for l in case.comments:
        if l.startswith("# bt "):
            try:
                out = subprocess.run(["addr2line", "-Cfpse", binp] + l.split()[2:], stdout=subprocess.PIPE, timeout=20).stdout.decode(errors="replace")
                return ["#   at " + x[:200] for x in out.splitlines() if "rt.cpp" not in x and "??" not in x][:12]
            except Exception:
                return []
    return []


def report(prop, run, case, tier, binp, outdir):
    """minimise, re-verify in fresh processes, write the replay file; returns path or None"""
    first, _ = run.replay(case)
    if first is None or first.kind != case.kind:
        return None
    best, steps = minimise(run, first, 25 if tier == "quick" else 120)
    a, _ = run.replay(best); b, _ = run.replay(best)
    if a is None or b is None or a.kind != b.kind or a.hash != b.hash:
        best = first
        a, _ = run.replay(best); b, _ = run.replay(best)
        if a is None or b is None or a.kind != b.kind:
            return None
        if a.hash != b.hash and a.kind not in ("hang", "crash"):
            return None
    os.makedirs(outdir, exist_ok=True)
    path = os.path.join(outdir, "%s-%s-%d.replay" % (prop, a.kind, case.seed))
    with open(path, "w") as f:
        f.write("# property %s\n# replay with: python3 check.py --replay %s\n" % (prop, path))
        f.write(best.text())
        f.write("\n".join(l for l in a.comments if not l.startswith("# bt") and not l.startswith("# property") and not l.startswith("# replay")) + "\n")
        f.write("\n".join(symbolize(binp, a)) + "\n")
        f.write("# original case: %d ops, %d switches; minimised: %d ops, %d switches (%d shrink steps)\n" % (
            sum(map(len, case.threads)), len(case.sched or []), sum(map(len, best.threads)), len(best.sched or []), steps))
    print("%s: %s (seed %d, hash %s)" % (a.kind, a.msg, case.seed, a.hash))
    for l in a.comments:
        if l.startswith("#   ") : print("  " + l[1:].strip())
    return path


def search(binp, harnesses, seconds, seed, tmp, runs=None, tag="w", fork=False):
    """run workers; returns (list of json results, list of violation Cases, elapsed)"""
    procs = []
    base = (seed % 1000003) * 10**10 + 1
    for w in range(NCPU):
        cmd = [binp]
        for h in harnesses: cmd += ["--harness", h]
        pre = os.path.join(tmp, "%s%d" % (tag, w))
        cmd += ["--seed0", str(base + w), "--stride", str(NCPU), "--time", str(seconds), "--cpu", str(CPUS[w % len(CPUS)]),
                "--out", pre + ".json", "--viol", pre + ".viol", "--hashes", pre + ".hash", "--progress", pre + ".prog"]
        if runs: cmd += ["--runs", str(runs)]
        if fork: cmd += ["--fork"]
        lg = open(pre + ".log", "wb")
        procs.append((subprocess.Popen(cmd, stdout=lg, stderr=lg), pre))
    t0 = time.time()
    viol = []
    bad = []
    grace = None
    pend = list(procs)
    while pend:
        time.sleep(0.02)
        for x in list(pend):
            p, pre = x
            rc = p.poll()
            if rc is None:
                if time.time() - t0 > seconds + 120:
                    p.kill()
                continue
            pend.remove(x)
            if rc == 0: continue
            if rc == 3 and os.path.exists(pre + ".viol"):
                viol.append(Case.parse(pre + ".viol"))
            elif rc == 5:
                bad.append("nondeterministic run: " + open(pre + ".log", errors="replace").read()[:300])
            elif rc in (2,):
                bad.append("simulator error: " + open(pre + ".log", errors="replace").read()[:300])
            else:  # died: rebuild the case from the progress record
                try:
                    sd, hi = struct.unpack("QQ", open(pre + ".prog", "rb").read(16))
                    g = subprocess.run([binp, "--harness", harnesses[hi], "--seed0", str(sd), "--gen"], stdout=subprocess.PIPE).stdout
                    open(pre + ".gen", "wb").write(g)
                    c = Case.parse(pre + ".gen"); c.kind = "crash"; c.comments = []
                    viol.append(c)
                except Exception as e:
                    bad.append("worker died with %d (%s)" % (rc, e))
        if viol:
            # give the other workers a moment, then stop them
            grace = grace or time.time() + 0.5
            if time.time() < grace: continue
            for p, _ in pend: p.kill()
            for p, _ in pend: p.wait()
            break
    res = []
    for p, pre in procs:
        if os.path.exists(pre + ".json"):
            try: res.append(json.load(open(pre + ".json")))
            except Exception: pass
    if bad and not viol:
        die("; ".join(bad))
    return res, viol, time.time() - t0


def distinct(tmp, tag="w"):
    s = set()
    for f in os.listdir(tmp):
        if f.startswith(tag) and f.endswith(".hash"):
            d = open(os.path.join(tmp, f), "rb").read()
            s.update(struct.unpack("%dQ" % (len(d) // 8), d))
    return len(s)


def gen_sample(binp, h, seed):
    try:
        g = subprocess.run([binp, "--harness", h, "--seed0", str(seed), "--gen"], stdout=subprocess.PIPE, timeout=20).stdout.decode()
        return {"harness": h, "seed": seed, "case": [l.strip("# ").strip() for l in g.splitlines() if l.startswith("#   ") or l.startswith("params")][:24]}
    except Exception as e:
        return {"harness": h, "seed": seed, "error": str(e)}


def load_known():
    out = []
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"): out.append(json.loads(l))
    return out


def check(prop, tier):
    t0 = time.time()
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = float(os.environ.get("VERIF_SECONDS", 0) or (cfg.get("quick_s", min(55, 26 + 2 * len(cfg["harnesses"]))) if tier == "quick" else cfg.get("thorough_s", 600)))
    tmp = tempfile.mkdtemp(prefix="gtlsim_")
    try:
        print("property %s tier %s seed %d" % (prop, tier, seed), flush=True)
        binp = build(cfg["tus"], os.path.join(tmp, "build"))
        t_build = time.time() - t0
        run = Runner(binp, tmp)
        outdir = os.path.join(HERE, "replays")
        # 1. determinism gate: a sample of seeds executed twice, in process, must agree
        det_n = 24 * len(cfg["harnesses"])
        g = subprocess.run([binp] + sum((["--harness", h] for h in cfg["harnesses"]), []) + ["--twice", "--seed0", str(seed * 7 + 1), "--runs", str(det_n), "--time", "20", "--viol", os.path.join(tmp, "det.viol")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        # If they differ the code keeps state from one run to the next (a hidden static); then, and when a
        # violation does not replay in a fresh process, every run gets a process of its own.
        leaky = g.returncode == 5
        # 2. seeded search
        res, viols, el = search(binp, cfg["harnesses"], secs, seed, tmp, fork=leaky)
        path = None
        for v in viols:
            path = path or report(prop, run, v, tier, binp, outdir)
        if viols and path is None and not leaky:
            leaky = True
            _, viols2, _ = search(binp, cfg["harnesses"], secs, seed, tmp, tag="f", fork=True)
            for v in viols2:
                path = path or report(prop, run, v, tier, binp, outdir)
        if path is None and viols:
            die("a worker reported %s (%s) for seed %d but the case does not replay" % (viols[0].kind, viols[0].msg, viols[0].seed))
        if path is None and leaky:
            die("determinism gate failed: " + g.stdout.decode(errors="replace")[:500])
        nviol = rc = int(path is not None)
        # 3. known findings: dedicated scenarios, not part of the search above
        kf_lines = []
        for k in load_known():
            if k.get("property") != prop or k.get("status") != "known": continue
            _, kv, _ = search(binp, [k["harness"]], 10, 1, tmp, runs=k.get("runs", 4000), tag="k")
            other = [v for v in kv if v.kind not in k["kinds"]]
            if other:
                kp = report(prop, run, other[0], tier, binp, outdir)
                if kp: nviol += 1; rc = 1; path = path or kp
                else: die("known-finding scenario %s does not replay" % k["harness"])
            elif kv:
                kf_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        tot = lambda k: sum(r.get(k, 0) for r in res)
        faults, counts, perh = {}, {}, {}
        for r in res:
            for k, v in r["faults"].items():
                f = faults.setdefault(k, {"armed": 0, "fired": 0}); f["armed"] += v["armed"]; f["fired"] += v["fired"]
            for k, v in r["counts"].items(): counts[k] = counts.get(k, 0) + v
            for k, v in r["harness"].items(): perh[k] = perh.get(k, 0) + v
        rnd = random.Random(seed)
        samples = [gen_sample(binp, h, (seed % 1000003) * 10**10 + 1 + rnd.randrange(1000)) for h in cfg["harnesses"][:3]]
        runs = tot("runs")
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": distinct(tmp),
                "rule": "one evaluation = one simulated execution decided by one seed (generated operations, faults and schedule). Non-trivial: at least 3 context switches, 3 operations or one fired fault. Distinct: by a 64-bit hash of the sequence of context switches, synchronisation events (lock, thread) and operation results.",
                "samples": samples,
                "runs_per_hour": int(runs / el * 3600) if el else 0,
                "seeds": {"first": (seed % 1000003) * 10**10 + 1, "workers": NCPU, "last_per_worker": [r["last_seed"] for r in res]},
                "simulated_steps": tot("steps"), "context_switches": tot("switches"), "sync_events": tot("syncs"), "memory_accesses_checked": tot("accesses"),
                "simulated_time_s": tot("sim_time"),
                "faults": faults, "counters": counts, "runs_per_harness": perh,
                "determinism_gate": {"cases_run_twice": det_n, "mismatches": 0},
                "real_code": cfg.get("real", "gtl headers of /repo/include (instrumented at every load and store) and the C++ standard library"),
                "stubs": cfg.get("stubs", "thread scheduler, mutex/shared_mutex, heap, element types, hash functions and user callbacks are the simulator's"),
                "build_s": round(t_build, 1), "search_s": round(el, 1),
            },
            "assumptions": cfg.get("assumptions", []),
            "wall_s": round(time.time() - t0, 1), "violations": nviol,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
        for l in kf_lines: print(l)
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        else:
            print("OK property=%s runs=%d distinct=%d switches=%d faults=%s in %.1fs" % (
                prop, runs, ev["coverage"]["distinct_nontrivial"], tot("switches"), {k: v["fired"] for k, v in faults.items()}, time.time() - t0))
        sys.stdout.flush()
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def do_replay(path):
    c = Case.parse(path)
    tus = None
    for p in PROPS.values():
        if c.harness in p["harnesses"]: tus = p["tus"]; break
    if not tus: die("no property uses harness " + c.harness)
    tmp = tempfile.mkdtemp(prefix="gtlsim_")
    try:
        binp = build(tus, os.path.join(tmp, "build"))
        r, rc = Runner(binp, tmp).replay(c)
        if r is None:
            print("replay: no violation (rc %d)" % rc); return 0
        print("replay: %s: %s (hash %s%s)" % (r.kind, r.msg, r.hash, ", as recorded" if r.hash == c.hash else ""))
        for l in r.comments: print(l)
        for l in symbolize(binp, r): print(l)
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        tmp = tempfile.mkdtemp(prefix="gtlsim_")
        try: build([], os.path.join(tmp, "build")) if False else None
        finally: shutil.rmtree(tmp, ignore_errors=True)
        r = subprocess.run([CXX, "-std=c++20", "-fsyntax-only", "-w", os.path.join(SIM, "rt.cpp")])
        return r.returncode
    if a[:1] == ["--replay"]: return do_replay(a[1])
    if len(a) < 1 or a[0] not in PROPS: die("usage: check.py <property> quick|thorough")
    return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    sys.exit(main())
