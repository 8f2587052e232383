"""Seeded exploration, gating, minimising, replay files and evidence."""
import base64
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.path.insert(0, os.path.join(ROOT, "checks"))

import build  # noqa: E402
import sim  # noqa: E402

KNOWN = os.path.join(ROOT, "known-findings.txt")
WORKERS = max(1, min(8, os.cpu_count() or 1))


# ------------------------------------------------------------------ specs
def enc(x):
    """JSON form of a trial description (bytes become {"b64": ...})."""
    if isinstance(x, bytes):
        return {"b64": base64.b64encode(x).decode()}
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    return x


def dec(x):
    if isinstance(x, dict):
        if set(x) == {"b64"}:
            return base64.b64decode(x["b64"])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def as_job(d):
    j = sim.Job(d)
    for k in ("faults", "jumps", "replay"):
        if k in j:
            j[k] = [tuple(t) for t in j[k]]
    return j


class Violation(Exception):
    def __init__(self, spec, msgs):
        super().__init__(msgs[0])
        self.spec = spec
        self.msgs = msgs


class Ctx:
    """What a check sees while it works on one case."""

    def __init__(self, server, mod, tier, rng=None, index=0, deadline=None):
        self.sim = server
        self.mod = mod
        self.tier = tier
        self.rng = rng
        self.index = index
        self.deadline = deadline
        self.cache = {}
        self.trace = []          # digests of the runs of the current trial
        self.last = {}           # role -> Result of the current trial
        self.stat = collections.Counter()
        self.keys = set()
        self.scheds = set()
        self.samples = []
        self.known = load_known(mod.ID)
        self.known_hit = collections.Counter()

    # ------------------------------------------------------ running
    def run(self, job, role="x", cached=False):
        """Runs one simulated execution."""
        if cached:
            key = hashlib.sha256(sim._tlv(job.items_tlv())).digest()
            if key in self.cache:
                r = self.cache[key]
                self.last[role] = r
                self.trace.append(r.digest())
                return r
        r = self.sim.run(job)
        s = self.stat
        s["runs"] += 1
        s["events"] += r.events
        s["syncs"] += r.syncs
        s["preemptions"] += r.preemptions
        s["io_ops"] += r.io_ops
        s["sim_us"] += int(max(0.0, min(1e6, r.clock_last - r.clock_first)) * 1e6)
        s["end " + r.ended] += 1
        s["policy " + job.get("policy", "none")] += 1
        s["team %d" % r.max_team] += 1
        for k, n in r.faults.items():
            s["fault " + k] += n
        for k, n in (("allocation refused", r.alloc_failed),
                     ("crash@event", r.how == "crash" and "crash_event" in job and
                      "crash@io" not in r.faults),
                     ("clock:frozen", job.get("clock") == "frozen")):
            if n:
                s["fault " + k] += int(n)
        if r.preemptions:
            self.scheds.add(r.sched_hash)
        self.last[role] = r
        self.trace.append(r.digest())
        if cached:
            if len(self.cache) > 60:
                self.cache.clear()
            self.cache[key] = r
        return r

    def h5(self, blob):
        return self.sim.h5(blob)

    # ------------------------------------------------------ judging
    def evaluate(self, spec):
        self.trace = []
        self.last = {}
        return self.mod.ORACLES[spec["oracle"]](self, spec) or []

    def check(self, spec):
        """Runs a trial; a violation not listed as known stops the check."""
        msgs = self.evaluate(spec)
        self.stat["evaluations"] += 1
        if msgs:
            fresh = []
            for m in msgs:
                for k in self.known:
                    if k in m:
                        self.known_hit[k] += 1
                        break
                else:
                    fresh.append(m)
            if fresh:
                raise Violation(spec, fresh)
        return msgs

    def key(self, *what):
        """Counts a distinct, non-trivial trial."""
        self.keys.add(int.from_bytes(
            hashlib.md5(repr(what).encode()).digest()[:8], "big"))

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(text)

    def skip(self, why):
        self.stat["skipped " + why] += 1

    def late(self):
        return self.deadline is not None and time.time() > self.deadline


def load_known(pid):
    """known-findings.txt: 'open: property=<id> <text>' lines; a violation whose
    message contains <text> is that finding.  'fixed:' lines suppress nothing."""
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("open: property=%s " % pid):
                    out.append(line.split(" ", 2)[2])
    except FileNotFoundError:
        pass
    return out


# ------------------------------------------------------------------ workers
_w = {}


def _init(exe, pid, tier, seed, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    _w.update(server=sim.Sim(exe), mod=importlib.import_module(pid.lower()),
              tier=tier, seed=seed, deadline=deadline)


def _work(i):
    if time.time() > _w["deadline"]:
        return dict(index=i, late=True)
    c = Ctx(_w["server"], _w["mod"], _w["tier"],
            random.Random("%s/%d/%d" % (_w["mod"].ID, _w["seed"], i)), i,
            _w["deadline"])
    c.seed = _w["seed"]
    out = dict(index=i)
    try:
        _w["mod"].case(c)
    except Violation as v:
        out["violation"] = (enc(v.spec), v.msgs)
    except sim.SimError as e:
        out["error"] = "%s (case %d)" % (e, i)
        _w["server"].close()
    except Exception:
        out["error"] = traceback.format_exc()
    out.update(stat=dict(c.stat), keys=c.keys, scheds=c.scheds,
               samples=c.samples, known=dict(c.known_hit))
    return out


# ------------------------------------------------------------------ minimise
def _ddmin(items, test, budget):
    """Smallest sublist (by ddmin, within budget) for which test holds."""
    n = 2
    while len(items) >= 2 and time.time() < budget:
        step = max(1, len(items) // n)
        for lo in range(0, len(items), step):
            rest = items[:lo] + items[lo + step:]
            if time.time() > budget:
                return items
            if test(rest):
                items = rest
                n = max(n - 1, 2)
                break
        else:
            if step == 1:
                break
            n = min(len(items), n * 2)
    if len(items) == 1 and time.time() < budget and test([]):
        items = []
    return items


def minimise(ctx, spec, seconds):
    """Shrinks the schedule and the fault plan of spec['job']."""
    budget = time.time() + seconds
    info = {}

    def fails(s):
        try:
            return bool(ctx.evaluate(s))
        except sim.SimError:
            return False

    def with_job(s, **kw):
        j = dict(s["job"])
        for k, v in kw.items():
            if v is None:
                j.pop(k, None)
            else:
                j[k] = v
        t = dict(s)
        t["job"] = as_job(j)
        if tied and "policy" in kw:
            t["ref"] = as_job(dict(s["ref"], policy=kw["policy"]))
        return t

    if "job" not in spec:
        return spec, info
    # a reference under the very same schedule stays with it
    job, ref = spec["job"], spec.get("ref", {})
    tied = job.get("policy", "none") != "none" and all(
        job.get(k) == ref.get(k) for k in ("policy", "seed", "depth", "quantum"))
    # plain world first: fewer ingredients
    for k in ("alloc_fail", "crash_event", "crash_io", "sig_event", "sig_event2",
              "sig_io", "sig_sync", "capacity", "heap_fill",
              "heap_order", "jumps", "clock",
              "tick"):
        # (what the reference has, too, is not an ingredient)
        if k in spec["job"] and time.time() < budget and \
                spec["job"][k] != ref.get(k):
            t = with_job(spec, **{k: None})
            if fails(t):
                spec = t
    if spec["job"].get("faults"):
        fl = list(spec["job"]["faults"])
        fl = _ddmin(fl, lambda f: fails(with_job(spec, faults=list(f))), budget)
        spec = with_job(spec, faults=fl)
        info["faults"] = len(fl)
    if spec["job"].get("jumps"):
        jl = _ddmin(list(spec["job"]["jumps"]),
                    lambda f: fails(with_job(spec, jumps=list(f))), budget)
        spec = with_job(spec, jumps=jl)
    if spec["job"].get("policy", "none") not in ("none", "replay"):
        t = with_job(spec, policy="none")
        if fails(t):
            spec = t
            info["switches"] = 0
        elif not tied:
            t = with_job(spec, decisions=1)
            if fails(t):
                dl = list(ctx.last["x"].decisions) if "x" in ctx.last else []
                mk = lambda d: with_job(spec, policy="replay", replay=list(d))
                info["switches_recorded"] = len(dl)
                if dl and fails(mk(dl)):
                    dl = _ddmin(dl, lambda d: fails(mk(d)), budget)
                    spec = mk(dl)
                    info["switches"] = len(dl)
    return spec, info


# ------------------------------------------------------------------ replay
def replay(pid, path, exe=None):
    """Runs a replay file; returns (messages, trace digest)."""
    mod = importlib.import_module(pid.lower())
    with open(path) as f:
        d = json.load(f)
    spec = load_spec(d["spec"])
    c = Ctx(sim.Sim(exe or build.build()), mod, "quick", random.Random(0))
    try:
        msgs = c.evaluate(spec)
    finally:
        c.sim.close()
    h = hashlib.sha256("".join(c.trace).encode()).hexdigest()
    return msgs, h, d


def load_spec(s):
    def jobs(x):
        if isinstance(x, dict):
            if "argv" in x:
                return as_job(x)
            return {k: jobs(v) for k, v in x.items()}
        if isinstance(x, list):
            return [jobs(v) for v in x]
        return x
    return jobs(dec(s))


def handle_violation(pid, exe, tier, seed, enc_spec, msgs):
    """Gate: identical twice, then minimised, then replayed by a new process."""
    mod = importlib.import_module(pid.lower())
    server = sim.Sim(exe)
    spec = load_spec(json.loads(json.dumps(enc_spec)))
    traces = []
    for _ in range(2):
        c = Ctx(server, mod, tier, random.Random(0))
        m = c.evaluate(spec)
        traces.append((bool(m), list(c.trace)))
    if not traces[0][0] or traces[0] != traces[1]:
        print("ERROR: violation did not repeat identically: %s" % msgs[0])
        return 2
    c = Ctx(server, mod, tier, random.Random(0))
    small, info = minimise(c, spec, 25 if tier == "quick" else 120)
    c.cache.clear()
    msgs2 = c.evaluate(small)
    trace = hashlib.sha256("".join(c.trace).encode()).hexdigest()
    server.close()
    if not msgs2:
        small, msgs2 = spec, msgs
        trace = hashlib.sha256("".join(traces[0][1]).encode()).hexdigest()
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", "%s-%s-%s.json" %
                        (pid, seed, trace[:12]))
    with open(path, "w") as f:
        json.dump(dict(property=pid, seed=seed, tier=tier, messages=msgs2,
                       minimised=info, trace=trace, spec=enc(small)), f, indent=1)
    r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), pid,
                        "--replay", path, "--exe", exe],
                       stdout=subprocess.PIPE, text=True)
    if r.returncode != 1 or ("replayed trace=" + trace) not in r.stdout:
        print("ERROR: replay in a fresh process did not reproduce: %s" % path)
        print(r.stdout[-2000:])
        return 2
    for m in msgs2[:8]:
        print("  " + m)
    print("  minimised: %s; fault/schedule plan in the replay file" %
          (json.dumps(info) if info else "n/a"))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


# ------------------------------------------------------------------ main
def check_main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int.from_bytes(hashlib.md5(os.environ["VERIF_SEED"].encode()).digest()[:6], "big")
    mod = importlib.import_module(pid.lower())
    try:
        exe = build.build()
    except build.BuildError as e:
        print("ERROR: cannot build the simulated program:\n%s" % e)
        return 3
    ncases = mod.CASES[tier]
    t1 = time.time()
    limit = (110 if tier == "quick" else 640) if not hasattr(mod, "LIMIT") else mod.LIMIT[tier]
    deadline = t1 + limit
    tot = collections.Counter()
    keys, scheds, samples = set(), set(), []
    known = collections.Counter()
    errors, viol = [], None
    done = late = 0
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(WORKERS, _init, (exe, pid, tier, seed, deadline))
    try:
        for r in pool.imap_unordered(_work, range(ncases), 1):
            if r.get("late"):
                late += 1
                continue
            done += 1
            tot.update(r["stat"])
            keys |= r["keys"]
            scheds |= r["scheds"]
            known.update(r["known"])
            if len(samples) < 4:
                samples += r["samples"][:1]
            if "error" in r:
                errors.append(r["error"])
                if len(errors) > 3:
                    break
            if "violation" in r:
                viol = r["violation"]
                break
    finally:
        pool.terminate()
        pool.join()
    code = 0
    if viol:
        code = handle_violation(pid, exe, tier, seed, *viol)
    elif errors:
        print("ERROR: %s" % errors[0])
        code = 2
    elif tot["evaluations"] == 0:
        print("ERROR: nothing was evaluated")
        code = 2
    for k, n in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s (%d times)" % (pid, k, n))
    wall = time.time() - t0
    secs = max(1e-3, time.time() - t1)
    grp = lambda p: {k[len(p):]: v for k, v in sorted(tot.items()) if k.startswith(p)}
    distinct = keys if keys else scheds
    cov = dict(
        evaluations=tot["evaluations"], distinct_nontrivial=len(distinct),
        rule=mod.RULE, samples=samples[:4] or ["none"],
        cases_done=done, cases_not_started_time_limit=late,
        simulated_runs=tot["runs"], runs_per_hour=int(tot["runs"] * 3600 / secs),
        seeds_per_hour=int(done * 3600 / secs),
        simulated_memory_events=tot["events"],
        simulated_clock_seconds=round(tot["sim_us"] / 1e6, 3),
        preemptions=tot["preemptions"], synchronisations=tot["syncs"],
        io_operations=tot["io_ops"],
        distinct_interleavings=len(scheds),
        interleaving_measure="hash of the sequence of (thread, access count, next thread) switches of a run with at least one preemption",
        faults_injected=grp("fault "), endings=grp("end "),
        policies=grp("policy "), team_sizes=grp("team "),
        skipped=grp("skipped "), notes=grp("note "),
        real_code="every non-test source of /repo/src, libstdc++, libhdf5, libpugixml",
        stubs="OpenMP runtime, thread scheduler, disk, screen, clock, signal delivery, allocator failures")
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              wall_s=round(wall, 2), violations=1 if code == 1 else 0,
              assumptions=ASSUMPTIONS + getattr(mod, "ASSUMPTIONS", []))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d evaluations, %d runs, %d distinct, %.1f s -> %s" %
          (pid, tier, seed, done, tot["evaluations"], tot["runs"], len(distinct),
           wall, {0: "held", 1: "VIOLATED"}.get(code, "error")))
    return code


ASSUMPTIONS = [
    "sequentially consistent interleavings at the granularity of instrumented loads and stores",
    "library code (libhdf5, libstdc++, libpugixml, memcpy/memset) is not preempted",
    "problems are small: at most a few dozen pins, 1-3 groups",
    "sampled, not enumerated: a clean run is evidence for the seeds it covered",
]


def main(argv):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    pid = argv[1]
    if "--replay" in argv:
        path = argv[argv.index("--replay") + 1]
        exe = argv[argv.index("--exe") + 1] if "--exe" in argv else None
        msgs, trace, d = replay(pid, path, exe)
        print("recorded trace=%s" % d["trace"])
        print("replayed trace=%s" % trace)
        for m in msgs:
            print("  " + m)
        if msgs:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0
    try:
        return check_main(pid)
    except Exception:
        traceback.print_exc()
        print("ERROR: the check itself failed")
        return 3
