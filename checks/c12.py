"""C12: iteration dumps are exactly those requested, complete, crash-durable."""
import re

import c07
import faults
import oracle

ID = "C12"
LEVEL = "exploration"
CASES = dict(quick=7500, thorough=60000)
RULE = ("random eigenvalue problems with random lists of iterations to dump (any "
        "order, repeated, out of range); every dump is compared with the result "
        "of a run limited to that many iterations; then the process is killed at "
        "random events and I/O operations and writes to the dumps fail; "
        "non-trivial = a run that dumped something or met its fault, distinct = "
        "different (problem, list, schedule, fault)")

TIMES = ("convergence/iteration_time", "convergence/abscissae")
HIST = ("convergence/k", "convergence/error_k", "convergence/error_psi")


def dumps_of(files, case):
    """{iteration: name}"""
    out = {}
    for n in files:
        m = re.match(re.escape(case) + r"_iter_(-?\d+)\.h5$", n)
        if m:
            out[int(m.group(1))] = n
    return out


def shown(ref):
    """{iteration or "end": (I/O operation, event) that completed its line}"""
    out = {}
    at, n = 0, 0
    text = ref.screen
    start = text.rfind("Running with")
    for i, (kind, path, size, ret, ev) in enumerate(ref.io):
        if path != "<screen>":
            continue
        for j in range(n, n + size):
            if text[j] == "\n":
                l = text[at:j]
                if at > start:
                    m = c07.progress("Running with\n" + l)
                    if m:
                        out[m[0][0]] = (i, ev)
                    if l.startswith("Output written"):
                        out["end"] = (i, ev)
                at = j + 1
        n += size
    return out


def exact(ctx, spec):
    """Which dumps exist, and what they hold."""
    x = ctx.run(spec["job"], role="x")
    if x.hung:
        return ["run does not end (%s)" % x.ended]
    if not x.ok:
        return []
    a = ctx.h5(x.files.get(spec["case"] + ".h5", b""))
    if a is None:
        return ["no readable result file"]
    n = a[HIST[0]].size
    want = set(q for q in spec["dumps"] if 1 <= q <= n)
    got = dumps_of(x.files, spec["case"])
    out = []
    if want - set(got):
        out.append("dump of iteration %d missing (%d performed, requested %s)" %
                   (min(want - set(got)), n, spec["dumps"]))
    if set(got) - want:
        out.append("dump of iteration %d was not requested or not performed" %
                   min(set(got) - want))
    extra = set(x.files) - set(spec["others"]) - set(got.values())
    if extra:
        out.append("unexpected file %s" % min(extra))
    for q in sorted(want & set(got)):
        d = ctx.h5(x.files[got[q]])
        if d is None:
            out.append("dump of iteration %d cannot be opened" % q)
            continue
        d = dict(d)
        for h in HIST:
            if h not in d or d[h].ravel().tobytes() != a[h].ravel()[:q].tobytes():
                out.append("dump of iteration %d: %s is not the history so far" %
                           (q, h))
        if str(q) in spec["single"]:
            y = ctx.run(spec["single"][str(q)], role="single", cached=True)
            if not y.ok:
                continue
            b = dict(ctx.h5(y.files[spec["case"] + ".h5"]))
            for n in TIMES + ("input_file", "git_sha1"):
                b.pop(n, None)
                d.pop(n, None)
            m = oracle.diff(b, d, spec["tol"], exact=("",) if not spec["tol"] else ())
            if m:
                out.append("dump of iteration %d differs from a run of that length: "
                           "%s" % (q, m[0]))
    return out


def durable(ctx, spec):
    """Dumps finished before a crash are all there; failed ones are reported."""
    ref = ctx.run(spec["ref"], role="ref", cached=True)
    x = ctx.run(spec["job"], role="x")
    if not ref.ok:
        return []
    if x.hung:
        return ["run does not end (%s)" % x.ended]
    names = sorted(dumps_of(ref.files, spec["case"]).values())
    if x.ok:
        m = faults.same_output(ctx, ref, x, names)
        return ["success reported but " + m[0]] if m else []
    if x.how != "crash":
        return []
    out = []
    for n in names:
        if n in spec["finished"] and x.files.get(n) != ref.files[n]:
            out.append("%s was finished before the crash but is %s after it" %
                       (n, "damaged" if n in x.files else "missing"))
    return out


ORACLES = {"exact": exact, "durable": durable}


def case(ctx):
    r = ctx.rng
    p = faults.small(r, r.choice(["moc", "moc", "sn", "sn", "2d3d", "moc_2d3d"]))
    n = r.choice([1, 2, 3, 5, 12])
    p.solver["max_iter"] = n
    if r.random() < 0.3:
        p.solver["k_tol"] = p.solver["psi_tol"] = r.choice(["1e-2", "1e-3", "1e-5"])
    if r.random() < 0.2:
        p.case_name = r.choice(["other", "run-7"])
    hi = r.choice([n, n, n + 3])
    k = r.randint(1, min(hi, 6))
    p.dumps = r.sample(range(1, hi + 1), k)
    if r.random() < 0.4:
        p.dumps.sort()
    if r.random() < 0.3:
        p.dumps.insert(r.randrange(len(p.dumps) + 1),
                       r.choice([p.dumps[0], p.dumps[-1], 0, -1, 1000, n + 1]))
    if n == 12 and r.random() < 0.3:
        p.dumps = list(range(1, 13))
    t = r.choice([1, 1, 2, 3])
    ref_job = oracle.base_job(p, t, io_trace=1)
    ref = ctx.run(ref_job, role="ref", cached=True)
    if not ref.ok:
        return ctx.skip("reference run refused (%s)" % ref.ended)
    dumped = dumps_of(ref.files, p.case())
    others = set(p.files()) | {p.case() + ".h5", p.case() + ".log"}
    dumps, limit = p.dumps, p.solver["max_iter"]
    single = {}
    for q in r.sample(sorted(dumped), min(2, len(dumped))):
        p.dumps, p.solver["max_iter"] = None, q
        single[str(q)] = oracle.base_job(p, t)
    p.dumps, p.solver["max_iter"] = dumps, limit
    spec = dict(oracle="exact", case=p.case(), dumps=dumps, others=sorted(others),
                single=single, tol=0.0)
    ctx.check(dict(spec, job=oracle.base_job(p, t)))
    if dumped:
        ctx.key(p.summary(), dumps)
    if t > 1:
        sched = oracle.schedule(r, ref.events)
        ctx.check(dict(spec, job=oracle.base_job(p, t, **sched, **oracle.limits(ref)),
                       single={}))
        ctx.key(p.summary(), dumps, sorted(sched.items()))
    ctx.sample("%s | dumps %s -> %s" % (p.summary(), dumps, sorted(dumped)))
    if not dumped:
        return
    # a dump must be safe when the next iteration, or the end, has been shown
    last = {}
    for i, (kind, path, size, ret, ev) in enumerate(ref.io):
        last[path] = (i, ev)
    moved = shown(ref)
    safe = {n: moved.get(q + 1, moved.get("end")) for q, n in dumped.items()}
    table = [o for o in faults.ops(ref, set(dumped.values())) if o[0] in faults.ERRORS]
    base = dict(oracle="durable", ref=ref_job, case=p.case())
    for i in range(6 if ctx.tier == "quick" else 15):
        if ctx.late():
            return
        job = oracle.base_job(p, t, **oracle.limits(ref))
        fin = []
        u = r.random()
        if u < 0.35:
            at = r.randint(1, ref.events)
            job["crash_event"] = at
            fin = [q for q in safe if safe[q] and safe[q][1] < at]
        elif u < 0.7:
            # often shortly after a dump was finished
            q = r.choice(sorted(dumped.values()))
            q = (safe[q] or last[q])[0]
            at = r.randrange(len(ref.io)) if r.random() < 0.5 else \
                min(len(ref.io) - 1, q + r.randint(1, 5))
            job["crash_io"] = at
            fin = [q for q in safe if safe[q] and safe[q][0] < at]
        else:
            kind, path, nth, size = faults.pick(r, table)
            at = (kind, path, nth, r.choice([1, 1, 2, 1 << 30]),
                  r.choice(faults.ERRORS[kind]), 0)
            job["faults"] = [at]
        ctx.check(dict(base, job=job, finished=sorted(fin)))
        ctx.key(p.summary(), dumps, u < 0.35, at)
