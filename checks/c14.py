"""C14: results do not depend on clocks; reported times are consistent."""
import re

import numpy as np

import c07
import faults
import oracle
import sim

ID = "C14"
LEVEL = "exploration"
CASES = dict(quick=4500, thorough=40000)
RULE = ("random problems of all solver types, team sizes and schedules, run under "
        "an ordinary clock, then under clocks that stand still, run fast or slow "
        "or jump forwards and backwards at random readings; results are compared "
        "with those under the ordinary clock, and under forward-running clocks "
        "the reported times with each other and with the simulated time that "
        "passed; non-trivial = every run, distinct = different (problem, clock, "
        "schedule)")

TIMES = ("convergence/iteration_time", "convergence/abscissae")
PART = re.compile(r"^( *)(\S.*) time: (\S+) seconds$")


def same(ctx, spec):
    """Same results whatever the clock does."""
    ref = ctx.run(spec["ref"], role="ref", cached=True)
    x = ctx.run(spec["job"], role="x")
    if not ref.ok:
        return []
    if x.hung:
        return ["run does not end (%s) because of the clock" % x.ended]
    if x.ended != ref.ended:
        return ["ends with %s instead of %s because of the clock" % (x.ended, ref.ended)]
    out = []
    for n in spec["names"]:
        if n not in x.files:
            out.append("%s missing because of the clock" % n)
            continue
        if not n.endswith(".h5"):
            if x.files[n] != ref.files[n]:
                out.append("%s depends on the clock" % n)
            continue
        b = ctx.h5(x.files[n])
        if b is None:
            out.append("%s cannot be opened" % n)
            continue
        a, b = dict(ctx.h5(ref.files[n])), dict(b)
        for q in TIMES:
            if a.pop(q, np.zeros(0)).size != b.pop(q, np.zeros(0)).size:
                out.append("%s: %s has another length because of the clock" % (n, q))
        m = oracle.diff(a, b, 0.0, exact=("",))
        if m:
            out.append("%s depends on the clock: %s" % (n, m[0]))
    return out


def consistent(ctx, spec):
    """Reported times against each other and against the simulated clock."""
    x = ctx.run(spec["job"], role="x")
    if x.hung:
        return ["run does not end (%s)" % x.ended]
    if not x.ok:
        return []
    tick = spec["job"].get("tick", 1e-6)
    slop = 1e-5 + 2000 * tick + 1e-6 * sum(abs(j[1]) for j in spec["job"].get("jumps", ()))
    out = []

    def le(a, b):
        return a <= b * (1 + 1e-4) + slop
    log = x.files.get(spec["case"] + ".log", b"").decode("latin-1")
    rep = [PART.match(l) for l in log.split("\n")]
    rep = [(len(m.group(1)), m.group(2), float(m.group(3))) for m in rep if m]
    shown = [PART.match(l) for l in x.screen.split("\n")]
    shown = [float(m.group(3)) for m in shown if m]
    if not rep or not shown:
        return ["no timer report"]
    total = rep[0][2]
    if shown[-1] != total:
        out.append("total is %g on screen and %g in the log" % (shown[-1], total))
    passed = x.clock_last - x.clock_first
    if not le(total, passed) or not le(0.5 * passed, total):
        out.append("total is %g, the run took %g" % (total, passed))
    stack = []
    for ind, name, t in rep:
        while stack and stack[-1][0] >= ind:
            stack.pop()
        if not t >= 0:
            out.append("time of %s is %g" % (name, t))
        if stack and not le(t, stack[-1][2]):
            out.append("%s took %g, more than %s of which it is a part (%g)" %
                       (name, t, stack[-1][1], stack[-1][2]))
        stack.append((ind, name, t))
    d = ctx.h5(x.files.get(spec["case"] + ".h5", b"")) or {}
    it = d.get(TIMES[0])
    if it is not None and it.size:
        it = it.ravel()
        if not (np.diff(it) >= 0).all():
            out.append("iteration times decrease: %s" % it[:10])
        if it[0] < 0 or not le(it[-1], total):
            out.append("iteration times %g ... %g, total %g" % (it[0], it[-1], total))
        col = [c07.ITER.match(l) for l in c07.solving(x.screen).split("\n")]
        col = [float(m.group(1)) for m in col if m]
        if len(col) == it.size:
            for i, c in enumerate(col):
                hi = it[i + 1] if i + 1 < it.size else total
                if not le(it[i], c) or not le(c, hi):
                    out.append("iteration %d shown at %g, recorded at %g" %
                               (i + 1, c, it[i]))
                    break
    return out


ORACLES = {"same": same, "consistent": consistent}


def case(ctx):
    r = ctx.rng
    p = faults.any_problem(ctx, r)
    fixed = p.solver.get("type") == "fixed_source"
    if p.kind != "mc" and not fixed:
        p.solver["max_iter"] = r.choice([1, 3, 6])
        if r.random() < 0.3:
            p.solver["k_tol"] = p.solver["psi_tol"] = r.choice(["1e-2", "1e-4"])
    if p.kind == "mc" and r.random() < 0.3:
        p.solver.pop("seed", None)
    t = r.choice([1, 2, 3])
    probe = ctx.run(oracle.base_job(p, t), role="probe")
    if not probe.ok:
        return ctx.skip("reference run refused (%s)" % probe.ended)
    for i in range(7 if ctx.tier == "quick" else 16):
        if ctx.late():
            return
        sched = oracle.schedule(r, probe.events) if t > 1 and r.random() < 0.5 else {}
        base = oracle.base_job(p, t, **oracle.limits(probe))
        job = oracle.base_job(p, t, **oracle.limits(probe))
        job["wall_ms"] = 5000
        u = r.random()
        forward = True
        if u < 0.15:
            job["clock"] = "frozen"
        elif u < 0.3:
            job["tick"] = r.choice([1e-9, 1e-7, 1e-4, 1e-2, 1.0])
        else:
            back = r.random() < 0.6
            job["jumps"] = sorted(
                (r.randrange(probe.clock_reads if r.random() < 0.8 else 3),
                 (-1 if back and r.random() < 0.6 else 1) *
                 r.choice([1e-3, 1.0, 3600.0, 86400.0, 1e7, 1e9]))
                for _ in range(r.choice([1, 1, 2, 5])))
            if r.random() < 0.3:
                job["clock"] = "frozen"
            forward = not back
        ctx.check(dict(oracle="same", ref=base, job=job, names=faults.outputs(p, probe)))
        if forward:
            job = sim.Job(job, **sched)
            ctx.check(dict(oracle="consistent", job=job, case=p.case()))
        ctx.key(p.summary(), sorted(sched.items()), job.get("clock"), job.get("tick"),
                job.get("jumps"))
        if i == 0:
            ctx.sample("%s | clock %s tick %s jumps %s" %
                       (p.summary(), job.get("clock"), job.get("tick"),
                        job.get("jumps")))
