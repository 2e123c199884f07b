#!/usr/bin/env python3
"""Drives the deterministic simulations.

  check.py PROPERTY [quick|thorough]   search, report, write evidence/PROPERTY.json
  check.py replay FILE                 replay a violation file, print its log
  check.py determinism PROPERTY [N]    run N seeds twice in different processes
  check.py setup                       build everything once (warms the build cache)

Everything is built from /repo's working tree into a scratch directory that
is removed at the end; /repo itself is never written.
"""
import collections, json, os, re, shutil, signal, subprocess, sys, tempfile, time, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KEYS = os.path.join(VERIF, "sim/data/keys.bin")
PKG = "github.com/cloudflare/cfrpki"

KINDS = {  # program under simulation: (package, entry test)
    "octorpki": ("./cmd/octorpki", "sim/entry/octorpki_test.go"),
    "localrpki": ("./cmd/localrpki", "sim/entry/localrpki_test.go"),
    "ctrpki": ("./cmd/ctrpki", "sim/entry/ctrpki_test.go"),
    "api": ("./sync/api", "sim/entry/api_test.go"),
    "ov": ("./ov", "sim/entry/ov_test.go"),
}
KIND = {"C20": "localrpki", "C21": "api", "C22": "ov", "C23": "ctrpki"}

REAL = {
    "octorpki": "real: main() of cmd/octorpki with its flags, validation loop, RRDP and rsync clients, HTTP servers, validator, CMS/X.509 code, vendored libraries (logrus, prometheus, cobra/flag parsing). simulated: goroutine scheduler decisions, clock, sleeping, file system, network transport below net/http, the rsync executable, the listening socket.",
    "localrpki": "real: main() of cmd/localrpki with its flags, sync/lib, the validator. simulated: scheduler, clock, file system.",
    "ctrpki": "real: main() of cmd/ctrpki with its flags, sync/lib, the validator, the vendored CT client with its retries (instrumented). simulated: scheduler, clock, randomness of the back-off, file system, network below net/http, and the CT log.",
    "api": "real: APIFetch of sync/api, validator/pki and the validator. simulated: the generated gRPC client interface (the service behind it), scheduler, clock.",
    "ov": "real: ov and the vendored radix tree (instrumented). simulated: scheduler.",
}


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=vendor")
    e.setdefault("HOME", "/root")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["PATH"] = "/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:" + e.get("PATH", "")
    return e


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


def build(kind, work):
    env = goenv()
    ienv = dict(env, GOFLAGS="-mod=mod")
    instr = os.path.join(work, "instr")
    r = subprocess.run(["go", "build", "-o", instr, "."], cwd=os.path.join(VERIF, "sim/instr"), env=ienv, capture_output=True, text=True)
    if r.returncode:
        die("cannot build the instrumenter:\n" + r.stdout + r.stderr)
    pkg, entry = KINDS[kind]
    ov = os.path.join(work, "ov-" + kind)
    r = subprocess.run([instr, "-repo", REPO, "-main", pkg[2:], "-work", ov, "-test", os.path.join(VERIF, entry)], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode:
        die("cannot instrument %s:\n%s%s" % (REPO, r.stdout, r.stderr))
    exe = os.path.join(work, kind + ".test")
    r = subprocess.run(["go", "test", "-c", "-gcflags=%s/verifsim=-complete=0" % PKG, "-vet=off", "-overlay", os.path.join(ov, "overlay.json"), "-o", exe, pkg],
                       cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode:
        die("cannot build %s with the simulator:\n%s%s" % (pkg, r.stdout, r.stderr))
    return exe


def simenv(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("VERIFSIM_"):
            del e[k]
    e.update(VERIFSIM_KEYS=KEYS, GOTRACEBACK="single", GODEBUG="")
    e.update({"VERIFSIM_" + k: str(v) for k, v in kw.items()})
    return e


def run(exe, timeout, **kw):
    """Runs the simulator once; returns (status, output)."""
    p = subprocess.Popen([exe, "-test.run", "TestVerifSim", "-test.timeout", "0"], cwd=os.path.dirname(exe), env=simenv(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return "timeout", out.decode("utf8", "replace")


FOUND = re.compile(r"^FOUND (C\d+) \[([^\]]*)\] at \d+ ms: (.*)$", re.M)


def replay(exe, plan, prop, timeout=200):
    rc, out = run(exe, timeout, MODE="replay", PROP=prop, PLAN=plan)
    h = re.findall(r"^HASH (.*)$", out, re.M)
    return rc, out, FOUND.findall(out), h[0] if h else None


def loadknown():
    try:
        return json.load(open(os.path.join(VERIF, "known-findings.json")))["findings"]
    except FileNotFoundError:
        return []


class Worker:
    def __init__(self, i, exe, work, prop, base, step):
        self.i, self.exe, self.work, self.prop, self.step = i, exe, work, prop, step
        self.seed = base + i
        self.n = 0
        self.p = None
        self.done = False

    def start(self, deadline, limit):
        self.n += 1
        self.out = os.path.join(self.work, "w%d.%d.json" % (self.i, self.n))
        self.prog = self.out + ".seed"
        self.log = open(self.out + ".log", "wb")
        self.begin = time.time()
        self.p = subprocess.Popen(
            [self.exe, "-test.run", "TestVerifSim", "-test.timeout", "0"], cwd=self.work,
            env=simenv(MODE="search", PROP=self.prop, SEED=self.seed, STEP=self.step, N=limit, MEM_MB=2200,
                       BUDGET_MS=max(1, int((deadline - time.time()) * 1000)), OUT=self.out, PROGRESS=self.prog,
                       KNOWN=os.path.join(self.work, "known.json")),
            stdout=self.log, stderr=self.log, start_new_session=True)

    def current(self):
        try:
            return int(open(self.prog).read()), os.stat(self.prog).st_mtime
        except (OSError, ValueError):
            return self.seed, self.begin

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


def search(exe, work, prop, seed, budget, maxruns, nworkers, hang):
    """Seeded search on all cores. Returns (merged summary, found, deaths)."""
    base = seed * 10_000_000 + (zlib.crc32(prop.encode()) % 90) * 100_000
    deadline = time.time() + budget
    ws = [Worker(i, exe, work, prop, base, nworkers) for i in range(nworkers)]
    sums, deaths, found = [], [], []
    share = max(1, maxruns // nworkers)
    left = {w.i: share for w in ws}
    for w in ws:
        w.start(deadline, left[w.i])
    while any(w.p for w in ws):
        time.sleep(0.05)
        for w in ws:
            if not w.p:
                continue
            rc = w.p.poll()
            now = time.time()
            if rc is None:
                s, at = w.current()
                if now - at > hang:
                    w.kill()
                    deaths.append((s, "no progress for %d s of real time" % hang, tail(w.out + ".log")))
                    w.seed = s + w.step
                    w.p = None
                elif found and now > deadline:
                    pass
            else:
                w.p = None
                try:
                    d = json.load(open(w.out))
                    sums.append(d)
                    w.seed = d["next_seed"]
                    left[w.i] -= d["runs"]
                    found += d["found"] or []
                except (OSError, ValueError):
                    s, _ = w.current()
                    deaths.append((s, "the simulator process died (%s)" % rc, tail(w.out + ".log")))
                    w.seed = s + w.step
                    left[w.i] -= 1
            if w.p is None:
                if found or len(deaths) >= 6:
                    left[w.i] = 0
                if left[w.i] > 0 and now < deadline - 0.5:
                    w.start(deadline, left[w.i])
        if found:
            # give the others a moment, then stop
            t = time.time() + 1
            while time.time() < t and any(w.p and w.p.poll() is None for w in ws):
                time.sleep(0.05)
            for w in ws:
                if w.p:
                    if w.p.poll() is None:
                        w.kill()
                    else:
                        try:
                            d = json.load(open(w.out))
                            sums.append(d)
                            found += d["found"] or []
                        except (OSError, ValueError):
                            pass
                    w.p = None
            break
    return merge(sums), found, deaths


def tail(f):
    try:
        return open(f, "rb").read()[:6000].decode("utf8", "replace")
    except OSError:
        return ""


def merge(sums):
    m = collections.defaultdict(int)
    m.update(faults=collections.Counter(), exercised=collections.Counter(), hashes={}, samples=[], other=collections.Counter())
    for d in sums:
        for k in ("runs", "nontrivial", "sim_seconds", "wall_s", "validations", "responses", "retrievals", "scheduling_points", "task_switches", "preemptions", "stalls", "map_orders", "map_accesses", "held_up"):
            m[k] += d.get(k) or 0
        m["faults"].update(d.get("faults") or {})
        m["exercised"].update(d.get("exercised") or {})
        m["hashes"].update(d.get("hashes") or {})
        m["samples"] += d.get("samples") or []
        m["other"].update(d.get("other_violations") or {})
    return m


def save(prop, name, obj, log):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, name + ".json")
    json.dump(obj, open(f, "w"), indent=1)
    open(os.path.join(d, name + ".log"), "w").write(log)
    return os.path.relpath(f, VERIF)


def confirm(exe, work, prop, f, budget):
    """Replays a found violation, minimises it, returns the replay file or None."""
    plan = os.path.join(work, "found-%d.json" % f["seed"])
    json.dump(f["plan"], open(plan, "w"))
    key = f["violation"]["key"]
    rc, out, vs, h = replay(exe, plan, prop)
    if not any(v[0] == prop and v[1] == key for v in vs):
        return None
    mini = os.path.join(work, "min-%d.json" % f["seed"])
    note = "not minimised"
    rc, _ = run(exe, budget + 60, MODE="minimise", PROP=prop, PLAN=plan, KEY=key, BUDGET_MS=int(budget * 1000), OUT=mini)
    if os.path.exists(mini):
        m = json.load(open(mini))
        small = os.path.join(work, "small-%d.json" % f["seed"])
        json.dump(m["plan"], open(small, "w"))
        rc2, out2, vs2, h2 = replay(exe, small, prop)
        rc3, out3, vs3, h3 = replay(exe, small, prop)
        if any(v[0] == prop and v[1] == key for v in vs2) and h2 == h3 and h2:
            plan, out, vs, h = small, out2, vs2, h2
            note = "minimised: %d candidate plans tried, %d kept" % (m["tried"], m["kept"])
    msg = [v[2] for v in vs if v[0] == prop and v[1] == key][0]
    obj = {"property": prop, "kind": KIND.get(prop, "octorpki"), "key": key, "seed": f["seed"], "hash": h, "message": msg, "note": note, "plan": json.load(open(plan))}
    rel = save(prop, "%s-%d-%s" % (prop, f["seed"], re.sub(r"\W", "", key)), obj, out)
    return rel, msg, note


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    quick = tier == "quick"
    kind = KIND.get(prop, "octorpki")
    budget = float(os.environ.get("VERIF_BUDGET", 45 if quick else 1500))
    maxruns = int(os.environ.get("VERIF_RUNS", 100_000_000))
    nworkers = int(os.environ.get("VERIF_WORKERS", min(8, os.cpu_count() or 8)))
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    lines, violations = [], 0
    try:
        exe = build(kind, work)
        built = time.time() - t0
        # listed findings: each has a plan of its own, which the generator does not produce
        known = [k for k in loadknown() if k.get("status", "known") == "known" and k["property"] == prop]
        json.dump([{"property": k["property"], "key": k["key"], "match": k.get("match", "")} for k in known if k.get("in_search")], open(os.path.join(work, "known.json"), "w"))
        kinfo = []
        for k in known:
            if not k.get("plan"):
                continue
            kp = os.path.join(work, "known-plan.json")
            json.dump(json.load(open(os.path.join(VERIF, k["plan"])))["plan"], open(kp, "w"))
            rc, out, vs, h = replay(exe, kp, prop)
            hit = [v for v in vs if v[0] == prop and v[1] == k["key"] and k.get("match", "") in v[2]]
            other = [v for v in vs if v[0] == prop and v not in hit]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
            kinfo.append({"finding": k["what"], "reproduced": bool(hit)})
            if other:
                kinfo[-1]["unexpected"] = [v[2] for v in other]
                print("note: the replay of a known finding also shows: %s" % other[0][2])
        m, found, deaths = search(exe, work, prop, seed, budget, maxruns, nworkers, 100)
        unrepro = []
        seen = set()
        for f in sorted(found, key=lambda f: f["seed"]):
            if f["violation"]["key"] in seen or len(seen) >= 3:
                continue
            c = confirm(exe, work, prop, f, 60 if quick else 300)
            if c is None:
                unrepro.append(f["seed"])
                continue
            seen.add(f["violation"]["key"])
            violations += 1
            lines.append("VIOLATION property=%s replay=%s" % (prop, c[0]))
            print("%s: %s (seed %d, %s)" % (prop, c[1], f["seed"], c[2]), flush=True)
            break_after = quick
            if break_after:
                break
        dead = []
        for s, why, log in deaths:
            dead.append({"seed": s, "what": why, "log": log[:1500]})
        if deaths and not violations and prop in ("C04", "C20", "C21", "C22", "C23"):
            # a run that does not end is a program that does not go on
            s, why, log = deaths[0]
            pl = os.path.join(work, "dead.json")
            run(exe, 60, MODE="plan", PROP=prop, SEED=s, OUT=pl)
            rc, out, vs, h = replay(exe, pl, prop, 150)
            if rc != 0:
                rel = save(prop, "%s-%d-death" % (prop, s), {"property": prop, "kind": kind, "key": "death", "seed": s, "hash": None, "message": why, "plan": json.load(open(pl))}, out[-20000:])
                violations += 1
                lines.append("VIOLATION property=%s replay=%s" % (prop, rel))
                print("%s: %s (seed %d)" % (prop, why, s), flush=True)
        wall = time.time() - t0
        searched = max(0.001, wall - built)
        ndist = len(set(m["hashes"].values()))
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1), "violations": violations,
            "coverage": {
                "evaluations": m["runs"],
                "distinct_nontrivial": ndist,
                "rule": RULES.get(prop, RULES[""]),
                "samples": m["samples"][:4],
                "simulated_hours": round(m["sim_seconds"] / 3600, 2),
                "seeds_per_hour": int(m["runs"] * 3600 / searched),
                "first_seed": seed * 10_000_000 + (zlib.crc32(prop.encode()) % 90) * 100_000,
                "validations": m["validations"], "responses_checked": m["responses"], "retrievals": m["retrievals"],
                "scheduling_points": m["scheduling_points"], "task_switches": m["task_switches"], "forced_preemptions": m["preemptions"], "stalls_of_a_task": m["stalls"], "map_orders_randomised": m["map_orders"], "map_accesses_watched": m["map_accesses"], "map_accesses_held_up": m["held_up"],
                "faults_injected": dict(sorted(m["faults"].items())),
                "oracle_exercised": dict(sorted(m["exercised"].items())),
                "distinct_interleavings": ndist,
                "interleaving_measure": "64-bit hash over the sequence of scheduler decisions (task chosen, its scheduling point, simulated time) and of externally visible events of a run",
                "components": REAL[kind],
                "known_findings": kinfo,
                "simulator_deaths": dead,
                "not_reproduced": unrepro,
                "build_s": round(built, 1),
            },
            "assumptions": ASSUME,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        print("%s %s: %d runs (%d distinct non-trivial), %.1f simulated hours, %d validations, %d responses, %.0f s, %d violations" % (prop, tier, m["runs"], ndist, m["sim_seconds"] / 3600, m["validations"], m["responses"], wall, violations))
        if unrepro:
            print("note: not reproduced in a fresh process, hence not reported: seeds %s" % unrepro)
        if dead:
            print("note: %d runs killed the simulator process: %s" % (len(dead), dead[0]["what"]))
            print(dead[0]["log"][:600])
        for l in lines:
            print(l)
        if violations:
            return 1
        if m["runs"] == 0:
            print("ERROR: no run completed")
            return 2
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


ASSUME = [
    "the simulated scheduler switches goroutines at the instrumented points (locks, channels, wait groups, sleeps, I/O, function entries and loop heads of the code under /repo), not between arbitrary machine instructions",
    "Go's standard library (crypto, net/http, encoding) and the vendored libraries behave as in the shipped build",
    "the rsync executable is represented by a model: it writes to temporary names and renames, in arbitrary order, can fail, hang, be killed, or deliver files that hostile servers offer",
    "the file system model keeps completed writes across a process crash (no power failure)",
]
RULES = {
    "": "each seed generates a trust-anchor/CA/ROA tree, publication servers, a history of publication events, transport, disk, process and clock faults, clients and a schedule; a run counts as non-trivial if the oracle of this property judged at least one of its situations in it and at least two validations completed; distinct = different interleaving/event hash",
    "C20": "each seed generates a tree, plays a publication history, damages the collected files, lays them out under a directory mapping, picks flags, a validation time (often next to a validity boundary), read and write faults and a schedule, and runs the program one to three times; non-trivial if the run wrote a document that was judged and there was something to output; distinct = different interleaving/event hash",
    "C23": "each seed generates a tree, plays a publication history, damages the collected files, lays them out, picks flags, submission threads, faults of the log (refused, hanging, cut off, busy, error statuses) and a schedule, and runs the program; non-trivial if chains were submitted or expected; distinct = different interleaving/event hash",
    "C21": "each seed generates a tree and its files, transport faults of the gRPC service (errors, streams that break, calls that hang until their deadline, cancelled contexts), listing orders and a schedule, and validates through the client; non-trivial if results were judged; distinct = different interleaving/event hash",
    "C22": "each seed generates sets of payloads and routes (nested, duplicate and edge-case prefixes) and tasks that build and question validators under preemption; non-trivial if at least one answer was compared with the model; distinct = different interleaving/event hash",
}


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "setup":
        work = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            for k, (_, e) in KINDS.items():
                if os.path.exists(os.path.join(VERIF, e)):
                    build(k, work)
                    print("built", k)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 0
    if a[0] == "replay":
        d = json.load(open(a[1]))
        work = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            exe = build(d.get("kind", "octorpki"), work)
            pl = os.path.join(work, "plan.json")
            json.dump(d["plan"], open(pl, "w"))
            rc, out, vs, h = replay(exe, pl, d["property"])
            print(out)
            ok = any(v[0] == d["property"] and v[1] == d["key"] for v in vs) or (d["key"] == "death" and rc != 0)
            print("recorded hash %s, this replay %s, violation %s" % (d.get("hash"), h, "reproduced" if ok else "NOT reproduced"))
            return 1 if ok else 0
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if a[0] == "determinism":
        work = tempfile.mkdtemp(prefix="verif-det-")
        try:
            exe = build(KIND.get(a[1], "octorpki"), work)
            outs = [run(exe, 600, MODE="determinism", PROP=a[1], SEED=os.environ.get("VERIF_SEED", "1"), N=a[2] if len(a) > 2 else 5)[1] for _ in range(2)]
            print(outs[0])
            same = outs[0].split("PASS")[0] == outs[1].split("PASS")[0] and "NONDET" not in outs[0]
            print("deterministic" if same else "NOT DETERMINISTIC")
            return 0 if same else 1
        finally:
            shutil.rmtree(work, ignore_errors=True)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
