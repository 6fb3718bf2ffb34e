#!/usr/bin/env python3
"""Deterministic-simulation runner for QuantumLiquids/PEPS.

  run.py check P01 quick|thorough     seeded search; exit 0 held, 1 violation, 2 machinery error
  run.py replay FILE                  re-run a replay file, print the violation (exit 1 if it reproduces)
  run.py determinism P01 [N]          run N seeds twice in different processes, compare history hashes
  run.py list
Environment: VERIF_SEED (base seed, default 1), VERIF_REPO (default /repo), VERIF_JOBS.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, collections
HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CFG = json.load(open(os.path.join(SIM, "checks.json")))
ENV = dict(os.environ, MALLOC_PERTURB_="165", LC_ALL="C")

def die(msg):
    print("ERROR: " + msg, flush=True); sys.exit(2)

# ------------------------------------------------------------------ build
def build(harness, bdir):
    """Compiles the simulator and the harness (plus its extra translation units) against /repo's current headers."""
    extra = [x for c in CFG["checks"].values() if c["harness"] == harness for x in c.get("units", [])]
    os.makedirs(bdir, exist_ok=True)
    lib = os.path.join(bdir, "libsim.so"); exe = os.path.join(bdir, harness)
    a = subprocess.Popen(["g++", "-std=c++20", "-O2", "-g", "-fPIC", "-shared", "-I" + SIM + "/include", SIM + "/src/sim.cpp", "-o", lib, "-ldl"],
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    units = [harness] + extra; objs = [os.path.join(bdir, u + ".o") for u in units]
    bs = [subprocess.Popen(["g++", "-std=c++20", "-O1", "-g1", "-w", "-DNDEBUG", "-fPIC", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern",
                          "-I" + SIM + "/include", "-I" + os.path.join(REPO, "include"), "-I" + SIM + "/harness", "-c", SIM + "/harness/" + u + ".cpp", "-o", o],
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for u, o in zip(units, objs)]
    oa, _ = a.communicate(); obs = [b.communicate()[0] for b in bs]
    if a.returncode: die("simulator does not compile:\n" + oa[-3000:])
    for b, ob, u in zip(bs, obs, units):
        if b.returncode: die("harness %s does not compile against %s:\n%s" % (u, REPO, ob[:6000]))
    c = subprocess.run(["g++"] + objs + ["-o", exe, "-pie", "-Wl,-z,relro,-z,now", "-L" + bdir, "-lsim", "-Wl,-rpath," + bdir], capture_output=True, text=True)
    if c.returncode: die("link: " + c.stderr[-2000:])
    return exe

# ------------------------------------------------------------------ running batches
class Worker:
    """One process working through seeds from, from+stride, ...; restarted after it dies."""
    def __init__(self, exe, prop, base, start, stride, count, bdir, tlimit, extra):
        self.exe, self.prop, self.base, self.stride, self.bdir, self.extra = exe, prop, base, stride, bdir, extra
        self.next, self.left, self.end = start, count, time.time() + tlimit
        self.out = os.path.join(bdir, "out_%s_%d" % (prop, start)); open(self.out, "w").close()
        self.pos = 0; self.restarts = 0; self.p = None; self.last = None; self.done = False; self.open_seed = None; self.t_progress = time.time(); self.hang = False
        self.start()
    def start(self):
        if self.left <= 0 or time.time() > self.end: self.done = True; return
        cmd = [self.exe, "--prop", self.prop, "--base", str(self.base), "--from", str(self.next), "--stride", str(self.stride), "--count", str(self.left),
               "--out", self.out, "--time", "%.1f" % max(0.1, self.end - time.time()), "--scratch", self.bdir] + self.extra
        self.p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(self.bdir, "stderr"), "a"), env=ENV, cwd=self.bdir)
    def poll(self):
        """returns list of finished run records"""
        recs = []
        with open(self.out, "rb") as f:
            f.seek(self.pos); data = f.read()
        nl = data.rfind(b"\n")
        if nl >= 0:
            for line in data[:nl].decode("latin1").split("\n"):
                if line.startswith("@"):
                    s, scen = line[1:].split(" ", 1); self.open_seed = (int(s), scen); self.t_progress = time.time()
                elif line.startswith("{"):
                    r = json.loads(line); recs.append(r); self.next = r["seed"] + self.stride; self.left -= 1; self.open_seed = None; self.t_progress = time.time()
            self.pos += nl + 1
        if self.p and self.p.poll() is None and self.open_seed and time.time() - self.t_progress > 60:
            self.hang = True; self.p.kill(); self.p.wait()
        if self.p and self.p.poll() is not None and not recs:
            rc = self.p.returncode
            if self.open_seed:     # died inside a run
                s, scen = self.open_seed
                what = "the simulated process did not come back to the scheduler (endless loop in one rank)" if self.hang else "the simulated process died (status %d)" % rc
                recs.append({"seed": s, "scenario": scen, "v": 1, "msg": what, "hash": "died", "sched": "0", "steps": 0, "faults": {}, "tags": ["DIED"], "died": rc, "hang": self.hang})
                self.next = s + self.stride; self.left -= 1; self.open_seed = None; self.restarts += 1; self.hang = False
                self.start()
            elif rc in (0, 1): self.done = True
            elif rc == 77: self.restarts += 1; self.start()
            elif self.restarts < 20: self.restarts += 1; self.start()
            else: die("worker exit %d without a run" % rc)
        return recs

def single(exe, prop, base, seed, scen=None, bdir=None, decisions=None, verbose=False, timeout=120):
    cmd = [exe, "--prop", prop, "--base", str(base), "--from", str(seed), "--count", "1", "--scratch", bdir, "--out", os.path.join(bdir, "single")]
    if decisions is not None: cmd += ["--decisions", decisions]
    if verbose: cmd += ["--verbose"]
    open(os.path.join(bdir, "single"), "w").close()
    try: rc = subprocess.run(cmd, env=ENV, cwd=bdir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout).returncode
    except subprocess.TimeoutExpired: return {"v": 1, "hash": "died", "msg": "the simulated process did not come back to the scheduler (endless loop in one rank)", "seed": seed, "scenario": scen, "tags": ["DIED"], "decisions": [], "draws": {}}
    for line in open(os.path.join(bdir, "single"), encoding="latin1"):
        if line.startswith("{"): return json.loads(line)
    return {"v": 1, "hash": "died", "msg": "the simulated process died (status %d)" % rc, "seed": seed, "scenario": scen, "tags": ["DIED"], "decisions": [], "draws": {}}

def write_dec(path, decs, draws):
    with open(path, "w") as f:
        for d in decs: f.write("D %d %d %d %d\n" % tuple(d))
        for k, v in draws.items(): f.write("W %s %.17g\n" % (k, v))

def msgclass(m):
    m = re.sub(r"-?\d+(\.\d+)?(e[-+]?\d+)?", "#", m.split("\n")[0]); return m[:120]

# ------------------------------------------------------------------ violation handling
def confirm(exe, prop, base, rec, bdir, budget):
    """Gate a candidate: same seed twice, then as an explicit decision file, then minimise. Returns replay dict or None."""
    a = single(exe, prop, base, rec["seed"], rec["scenario"], bdir)
    b = single(exe, prop, base, rec["seed"], rec["scenario"], bdir)
    if not (a["v"] and b["v"] and a["hash"] == b["hash"]):
        return None, "seed %d did not reproduce (%s/%s/%s)" % (rec["seed"], rec["hash"], a["hash"], b["hash"])
    rp = {"property": prop, "base": base, "seed": rec["seed"], "scenario": rec["scenario"], "message": a["msg"], "decisions": a.get("decisions", []), "draws": a.get("draws", {}), "hash": a["hash"], "minimised": False}
    if a["hash"] == "died": return rp, None
    dec = os.path.join(bdir, "dec")
    cls = msgclass(a["msg"])
    def trial(decs, draws):
        write_dec(dec, decs, draws); r = single(exe, prop, base, rec["seed"], rec["scenario"], bdir, dec)
        return r if r["v"] and msgclass(r["msg"]) == cls else None
    cur, draws = list(rp["decisions"]), dict(rp["draws"])
    r = trial(cur, draws)
    if not r: return rp, None      # the seed itself is an exact replay
    t_end = time.time() + budget
    best = r; n0 = len(cur)
    # drop whole decision kinds, then ddmin, then shrink integer draws
    for k in sorted(set(d[0] for d in cur)):
        c = [d for d in cur if d[0] != k]
        if time.time() < t_end and len(c) < len(cur):
            r = trial(c, draws)
            if r: cur, best = c, r
    chunk = max(1, len(cur) // 2)
    while cur and time.time() < t_end:
        i = 0; changed = False
        while i < len(cur) and time.time() < t_end:
            c = cur[:i] + cur[i + chunk:]
            r = trial(c, draws)
            if r: cur, best, changed = c, r, True
            else: i += chunk
        if chunk == 1 and not changed: break
        chunk = max(1, chunk // 2)
    for k in sorted(draws):
        v = draws.get(k)
        if v is None: continue      # the shrunk workload no longer draws it
        if v != int(v): continue
        for cand in sorted({0, 1, 2, int(v) // 2, int(v) - 1}):
            if cand < v and time.time() < t_end:
                d2 = dict(draws); d2[k] = float(cand); r = trial(cur, d2)
                if r: draws, best = r.get("draws", d2), r; break
    cur = [d for d in best.get("decisions", cur)]; draws = best.get("draws", draws)
    r1 = trial(cur, draws); r2 = trial(cur, draws)
    if not r1 or not r2 or r1["hash"] != r2["hash"]: return rp, None
    rp.update(decisions=cur, draws=draws, hash=r1["hash"], message=r1["msg"], minimised=True, original_decisions=n0, trace=r1.get("trace", []), faults=r1.get("faults", {}))
    return rp, None

def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                e = json.loads(l)
                if e.get("property") == prop and e.get("status") == "known": out.append(e)
    return out

def check(prop, tier):
    cfg = CFG["checks"][prop]; t = cfg[tier]; base = int(os.environ.get("VERIF_SEED", "1") or "1")
    if os.environ.get("VERIF_TIME"): t = dict(t, time=float(os.environ["VERIF_TIME"]))      # development: a shorter search
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix="vsim_%s_" % prop, dir=os.environ.get("VERIF_TMP", "/tmp"))
    try: return check_in(prop, tier, cfg, t, base, t0, bdir)
    finally: shutil.rmtree(bdir, ignore_errors=True)

def check_in(prop, tier, cfg, t, base, t0, bdir):
    exe = build(cfg["harness"], bdir)
    tb = time.time()
    total, tlimit = t["runs"], t.get("time", 300)
    n = min(JOBS, total)
    ws = [Worker(exe, prop, base, 1 + i, n, total // n + (1 if i < total % n else 0), bdir, tlimit, []) for i in range(n)]
    kf = known(prop); kf_hits = collections.Counter()
    runs = 0; scheds = set(); hists = set(); faults = collections.Counter(); tags = collections.Counter(); scen = collections.Counter(); steps = 0; simt = 0.0; switches = 0; io = 0; ev = 0; worlds = 0
    viol = []; samples = []; restarts = 0
    while not all(w.done for w in ws):
        for w in ws:
            if w.done: continue
            for r in w.poll():
                runs += 1; scen[r["scenario"]] += 1
                scheds.add((r["scenario"], r["sched"])); hists.add(r["hash"])
                for k, v in r["faults"].items(): faults[k] += v
                for x in r["tags"]: tags[x] += 1
                steps += r["steps"]; simt += r.get("simt", 0); switches += r.get("switches", 0); io += r.get("io", 0); ev += r.get("events", 0); worlds += r.get("worlds", 0)
                if len(samples) < 5 and r["seed"] <= 5: samples.append("seed %d scenario %s: %d ranks, %d scheduling steps, %d switches, history %s" % (r["seed"], r["scenario"], r.get("ranks", 0), r["steps"], r.get("switches", 0), r["hash"]))
                if r["v"]:
                    e = next((e for e in kf if re.search(e["match"], r["msg"]) and (e.get("scenario") in (None, r["scenario"]))), None)
                    if e: kf_hits[e["id"]] += 1
                    else: viol.append(r)
        if len(viol) >= 40:
            for w in ws:
                if w.p and w.p.poll() is None: w.p.kill()
            break
        time.sleep(0.02)
    restarts = sum(w.restarts for w in ws)
    wall_run = time.time() - tb
    replay = None; err = None
    if viol:
        viol.sort(key=lambda r: (r["seed"]))
        seen = set()
        for r in viol:
            c = (r["scenario"], msgclass(r["msg"]))
            if c in seen or len(seen) >= 4: continue
            seen.add(c)
            rp, e = confirm(exe, prop, base, r, bdir, t.get("minimise", 45))
            if rp: replay = rp; break
            err = e
    cov = {
        "evaluations": runs, "distinct_nontrivial": len(hists),
        "rule": "one evaluation is one complete simulated job (its seed fixes every scheduling, fault, random-number and workload choice); distinct counts different history hashes (every message, collective, file operation and result of the run)",
        "samples": samples or ["none"],
        "seeds": {"base": base, "first": 1, "last": runs}, "runs_per_hour": int(runs * 3600 / max(0.1, wall_run)), "wall_search_s": round(wall_run, 1), "wall_build_s": round(tb - t0, 1),
        "simulated_time_s": round(simt, 1), "scheduling_steps": steps, "context_switches": switches, "mpi_and_io_events": ev, "io_operations": io, "worlds": worlds,
        "distinct_interleavings": len(scheds), "interleaving_measure": "hash of the sequence (rank chosen, operation) at every scheduling point",
        "faults_injected": dict(faults), "reached": dict(tags), "runs_per_scenario": dict(scen), "process_restarts": restarts,
        "real_code": cfg.get("real", []), "stubbed": CFG["stubs"] + cfg.get("stubs", []),
        "known_findings_hit": dict(kf_hits),
    }
    need = [k for k in cfg.get("must_reach", []) if not tags.get(k) and not faults.get(k)]
    evd = {"property": prop, "tier": tier, "seed": base, "level": CFG["levels"].get(prop, "exploration"), "coverage": cov, "wall_s": round(time.time() - t0, 1),
           "violations": 1 if replay else 0, "assumptions": CFG["assumptions"] + cfg.get("assumptions", [])}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(evd, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d runs, %d distinct histories, %d interleavings, %.1fs build %.1fs search; faults %s" % (prop, tier, runs, len(hists), len(scheds), tb - t0, wall_run, dict(faults)), flush=True)
    for e in kf: 
        if kf_hits[e["id"]] or tier == "quick": print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    if replay:
        d = os.path.join(HERE, "replays"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (prop, base, replay["seed"]))
        json.dump(replay, open(path, "w"), indent=1)
        print("scenario %s seed %d: %s" % (replay["scenario"], replay["seed"], replay["message"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True); return 1
    if err: die("a candidate violation could not be confirmed: " + err)
    if runs < min(total, t.get("min_runs", max(1, total // 20))): die("only %d of %d runs completed" % (runs, total))
    if need and base == 1: print("warning: not reached in this search: %s" % need)
    return 0

def replay(path):
    rp = json.load(open(path)); cfg = CFG["checks"][rp["property"]]
    bdir = tempfile.mkdtemp(prefix="vsim_replay_", dir="/tmp")
    try:
        exe = build(cfg["harness"], bdir); dec = os.path.join(bdir, "dec"); write_dec(dec, rp["decisions"], rp["draws"])
        r = single(exe, rp["property"], rp["base"], rp["seed"], rp["scenario"], bdir, dec if rp.get("minimised") else None, verbose="-v" in sys.argv)
        for l in r.get("trace", []): print("  " + l)
        print("hash %s (recorded %s)" % (r["hash"], rp["hash"]))
        if r["v"]:
            print("scenario %s seed %d: %s" % (rp["scenario"], rp["seed"], r["msg"])); print("VIOLATION property=%s replay=%s" % (rp["property"], path)); return 1
        print("no violation"); return 0
    finally: shutil.rmtree(bdir, ignore_errors=True)

def determinism(prop, n):
    cfg = CFG["checks"][prop]; base = int(os.environ.get("VERIF_SEED", "1"))
    bdir = tempfile.mkdtemp(prefix="vsim_det_", dir="/tmp")
    try:
        exe = build(cfg["harness"], bdir); res = []
        for k, nw in ((0, 8), (1, 3)):      # different process layouts: seeds meet different process histories
            d = os.path.join(bdir, str(k)); os.makedirs(d); got = {}
            ws = [Worker(exe, prop, base, 1 + i, nw, n // nw + (1 if i < n % nw else 0), d, 1e6, []) for i in range(nw)]
            while not all(w.done for w in ws):
                for w in ws:
                    if not w.done:
                        for r in w.poll(): got[r["seed"]] = (r["hash"], r["sched"], r["v"], r.get("scenario"))
                time.sleep(0.02)
            res.append(got)
        bad = [s for s in res[0] if res[0][s] != res[1].get(s)]
        print("%s: %d seeds run twice, %d differ %s" % (prop, len(res[0]), len(bad), [(s, res[0][s], res[1].get(s)) for s in bad[:5]])); return 1 if bad else 0
    finally: shutil.rmtree(bdir, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    if not a: print(__doc__); sys.exit(2)
    if a[0] == "check": sys.exit(check(a[1], a[2] if len(a) > 2 else "quick"))
    if a[0] == "replay": sys.exit(replay(a[1]))
    if a[0] == "determinism": sys.exit(determinism(a[1], int(a[2]) if len(a) > 2 else 400))
    if a[0] == "list": print("\n".join(CFG["checks"])); sys.exit(0)
    print(__doc__); sys.exit(2)
