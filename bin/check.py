#!/usr/bin/env python3
"""check.py PROP : search for a violation of one property.

Builds the simulator from /repo's current tree, runs seeds on all cores,
reproduces and minimises what it finds, writes the replay file and the evidence.
Exit 0: held on everything explored (or only known findings); 1: violated."""
import os, sys, json, time, subprocess, re, random, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
sys.dont_write_bytecode = True
from sims import SIMS, PROPS

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:symbolize=1:handle_abort=0:allocator_may_return_null=1:quarantine_size_mb=8:malloc_context_size=4:max_uar_stack_size_log=16")
BUILD = os.environ.get("SIM_BUILD", V + "/build")

def known(prop):
    out = []
    try:
        for line in open(V + "/known-findings.txt"):
            m = re.match(r"known: property=(\S+) tag=(\S+) (.*)", line)
            if m: out.append((m[1], m[2], m[3].strip()))
    except FileNotFoundError: pass
    return out

class Sim:
    def __init__(self, name, prop):
        self.name, self.prop = name, prop
        self.bin = "%s/sim_%s" % (BUILD, name)
        self.tags = ",".join(t for _, t, _ in known(prop)) or "none"
    def build(self):
        r = subprocess.run([V + "/bin/build.sh", self.name], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-6000:])
            print("check: the build failed")
            sys.exit(2)
    def gen(self, seed):
        return subprocess.run([self.bin, "gen", "--prop", self.prop, "--seed", str(seed)], env=ENV, capture_output=True, text=True, check=True).stdout
    def replay(self, plan, trace=False):
        """-> (class, message, hash, output); class None: no violation"""
        with tempfile.NamedTemporaryFile("w", suffix=".plan", dir=BUILD, delete=False) as f:
            f.write(plan)
        try:
            cmd = [self.bin, "replay", f.name, "--prop", self.prop, "--known", self.tags]
            if trace: cmd += ["--trace", "-"]
            r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=180)
        finally: os.unlink(f.name)
        out = r.stdout.decode("latin1")
        m = re.search(r"^RESULT (\S+) (\S+) hash=(\w+) events=(\d+) ?(.*)$", out, re.M)
        if m:
            return (m[2] if m[1] == "violation" else None, m[5], m[3], out)
        what = "exit status %d" % r.returncode
        s = re.search(r"SUMMARY: AddressSanitizer: (.*)", out)
        if s: what = "AddressSanitizer: " + re.sub(r"/\S*/", "", s[1])
        elif r.returncode == 78:
            what = "the program aborted"
            s = re.findall(r"^(?:FATAL|ERROR).*$|.*LOG_FATAL.*", out, re.M)
            if s: what += ": " + s[-1][:160]
        elif r.returncode == 77: what = "the program does not come to an end"
        elif r.returncode < 0: what = "the program died of signal %d" % -r.returncode
        return ("died", what, "died", out)

def sig(cls, msg):
    return cls + ":" + re.sub(r"0x[0-9a-f]+|[0-9]+", "N", msg)[:60]

class Plan:
    def __init__(self, text):
        self.head, self.knobs, self.items = [], [], []
        for l in text.splitlines():
            if l.startswith("item "): self.items.append(l.split())
            elif l.startswith("knob "): self.knobs.append(l.split())
            elif not l.startswith("#"): self.head.append(l)
    def text(self, items=None, knobs=None):
        items = self.items if items is None else items
        knobs = self.knobs if knobs is None else knobs
        return "\n".join(self.head + [" ".join(k) for k in knobs] + [" ".join(i) for i in items]) + "\n"

def minimise(sim, text, want, budget):
    """ddmin over the items, then smaller numbers; keeps the same violation"""
    p = Plan(text)
    t0 = time.time()
    ex = ThreadPoolExecutor(os.cpu_count() or 4)
    tried = [0]
    def bad(t):
        tried[0] += 1
        try: c, m, h, o = sim.replay(t)
        except subprocess.TimeoutExpired: return False
        return c is not None and sig(c, m) == want
    def first(cands):
        """the first candidate (in order) that still fails, a few at a time"""
        cands = list(cands)
        n = os.cpu_count() or 4
        for i in range(0, len(cands), n):
            if time.time() - t0 > budget: return None
            part = cands[i:i+n]
            for c, r in zip(part, ex.map(bad, [p.text(*c) for c in part])):
                if r: return c
        return None
    n = 2
    while len(p.items) >= 2 and time.time() - t0 < budget:
        size = max(1, len(p.items) // n)
        chunks = [(i, min(i + size, len(p.items))) for i in range(0, len(p.items), size)]
        c = first(((p.items[:a] + p.items[b:], p.knobs) for a, b in chunks))
        if c: p.items = c[0]; n = max(2, n - 1)
        elif size == 1: break
        else: n = min(len(p.items), n * 2)
    if len(p.items) == 1:
        c = first([([], p.knobs)])
        if c: p.items = []
    for rnd in range(2):
        for k in range(len(p.knobs)):
            v = int(p.knobs[k][2])
            for nv in [x for x in (0, 1, v // 2) if 0 <= x < v][:2]:
                kn = [list(x) for x in p.knobs]; kn[k][2] = str(nv)
                c = first([(p.items, kn)])
                if c: p.knobs = c[1]; break
        for i in range(len(p.items)):
            for j in range(2, len(p.items[i])):
                v = int(p.items[i][j])
                if v == 0 or j == 4: continue
                cands = []
                for nv in (0, v // 8, v // 2):
                    it = [list(x) for x in p.items]; it[i][j] = str(nv)
                    cands.append((it, p.knobs))
                c = first(cands)
                if c: p.items = c[0]
        if time.time() - t0 > budget: break
    ex.shutdown()
    return p.text(), tried[0]

def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t_start = time.time()
    sim = Sim(cfg["sim"], prop)
    sim.build()
    t_built = time.time()
    secs, cap = cfg[tier]
    secs = float(os.environ.get("SIM_SECONDS", secs))
    base = 1 + ((seed - 1) % 100000) * 1000000
    nw = os.cpu_count() or 4
    states = tempfile.NamedTemporaryFile(dir=BUILD, suffix=".states", delete=False).name
    procs = []
    # longer batches mean fewer forks; a crash costs only the seed it hits
    for k in range(nw):
        cmd = [sim.bin, "run", "--prop", prop, "--start", str(base + k), "--step", str(nw), "--count", str(max(1, cap // nw)),
               "--time", str(secs), "--batch", "25", "--states", states, "--known", sim.tags]
        procs.append(subprocess.Popen(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
    viols, summ = [], []
    deadline = t_built + secs + 150
    # the first violation found ends the search of the other workers soon after
    outs = [None] * nw
    def wait(k): outs[k] = procs[k].communicate()[0]
    ex = ThreadPoolExecutor(nw)
    futs = [ex.submit(wait, k) for k in range(nw)]
    hit = None
    while any(not f.done() for f in futs):
        time.sleep(0.1)
        if hit is None and any(f.done() and procs[k].returncode == 10 for k, f in enumerate(futs)): hit = time.time()
        if time.time() > deadline or (hit and time.time() > hit + 3):
            for p in procs:
                if p.poll() is None: p.kill()
    for o in outs:
        for l in (o or "").splitlines():
            if l.startswith("VIOL "):
                _, s, c, m = (l.split(" ", 3) + [""])[:4]
                viols.append((int(s), c, m))
            elif l.startswith("SUMMARY "): summ.append(json.loads(l[8:]))
    broken = [p.returncode for p in procs if p.returncode not in (0, 10, -9)]
    t_search = time.time() - t_built
    viols.sort()
    stats = {}
    for s in summ:
        for k, v in s["stats"].items():
            stats[k] = max(stats.get(k, 0), v) if k.startswith("max_") else stats.get(k, 0) + v
    runs = sum(s["runs"] for s in summ)
    distinct = sum(s["distinct"] for s in summ)
    bits = 0
    with open(states, "rb") as f: bits = bin(int.from_bytes(f.read(), "little")).count("1")
    os.unlink(states)
    # ------------------------------------------------ reproduce, minimise
    rc, report, unrep = 0, [], 0
    for s, c, m in viols[:12]:
        text = sim.gen(s)
        try:
            a, b = sim.replay(text), sim.replay(text)
        except subprocess.TimeoutExpired:
            a = b = ("died", "the program does not come to an end", "died", "")
        if a[0] is None or a[:3] != b[:3]:
            unrep += 1
            continue
        want = sig(a[0], a[1])
        mt, tried = minimise(sim, text, want, 90 if tier == "quick" else 300)
        fin = sim.replay(mt, trace=True)
        if fin[0] is None or sig(fin[0], fin[1]) != want: mt, fin = text, sim.replay(text, trace=True)
        rdir = os.environ.get("SIM_REPLAYS", V + "/replays")
        os.makedirs(rdir, exist_ok=True)
        path = "%s/%s-%d.plan" % (rdir, prop, s)
        with open(path, "w") as f:
            f.write("# property %s\n# simulator %s\n# violation %s: %s\n# hash %s\n# found with seed %d; %d items before minimising, %d after (%d replays)\n# replay: /verif/bin/replay %s\n"
                % (prop, cfg["sim"], fin[0], fin[1], fin[2], s, len(Plan(text).items), len(Plan(mt).items), tried, path))
            f.write(mt)
            f.write("".join("# " + "".join(ch if ch.isprintable() else "?" for ch in l)[:240] + "\n" for l in fin[3].splitlines()[-400:]))
        print("seed %d: %s: %s" % (s, fin[0], fin[1]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        report.append({"seed": s, "violation": fin[1], "replay": path})
        rc = 1
        break
    if not rc and unrep:
        print("check: %d violations could not be reproduced" % unrep)
        rc = 2
    if not rc and (broken or not runs):
        print("check: workers ended with", broken, "runs", runs)
        rc = 2
    for kp, tag, text in known(prop):
        if kp == prop and stats.get("known_" + tag):
            print("KNOWN-FINDING: property=%s %s: %s (seen %d times)" % (prop, tag, text, stats["known_" + tag]))
    # ------------------------------------------------ evidence
    info = SIMS[cfg["sim"]]
    samples = []
    if runs:
        for s in (base, base + 1):
            t = sim.gen(s)
            try: r = sim.replay(t)
            except subprocess.TimeoutExpired: continue
            samples.append({"seed": s, "plan": t, "result": r[0] or "held", "event_hash": r[2]})
    ev = {
      "property": prop, "tier": tier, "seed": seed, "level": "exploration",
      "coverage": {
        "evaluations": runs, "distinct_nontrivial": distinct, "rule": info["rule"], "samples": samples,
        "first_seed": base, "runs_per_hour": int(runs / max(t_search, .01) * 3600), "seeds_per_hour": int(runs / max(t_search, .01) * 3600),
        "simulated_hours": round(stats.get("sim_ms", 0) / 3.6e6, 3),
        "faults_injected": {k: v for k, v in sorted(stats.items()) if k.startswith(("fault_", "powerloss_"))},
        "activity": {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault_", "powerloss_", "known_", "other_", "sim_ms", "nontrivial"))},
        "states_reached": bits, "states_rule": info.get("states", "distinct abstract states (a hash of each session's protocol state and commands in flight, each upstream connection's state and mailbox sizes), sampled every fourth event, in a 2^24-bit map"),
        "real_components": info["real"], "stub_components": info["stub"],
        "known_findings_seen": {k[6:]: v for k, v in stats.items() if k.startswith("known_")},
        "reproducibility": "each violation is replayed twice in fresh processes with equal event hashes before it is reported",
      },
      "assumptions": info.get("assume", []),
      "wall_s": round(time.time() - t_start, 2), "violations": len(report),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % prop, "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d runs, %d distinct non-trivial, %d states, %.1f s build, %.1f s search" % (prop, runs, distinct, bits, t_built - t_start, t_search))
    return rc

sys.exit(main())
