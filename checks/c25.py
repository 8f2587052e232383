"""C25: nothing but the input decides the result."""
import faults
import oracle
import work

ID = "C25"
LEVEL = "exploration"
CASES = dict(quick=3600, thorough=32000)
RULE = ("random problems of all solver types, team sizes and schedules, run in an "
        "ordinary process, then under the same schedule with other content of "
        "fresh heap and stack memory (zeros, ones, huge numbers, NaN patterns, "
        "random), other placement of heap blocks (downwards, scattered with "
        "filled gaps), other processor counts and other unrelated environment "
        "variables; all result files are compared, bit for bit for one thread, to rounding for several; "
        "non-trivial = something was different, distinct = different (problem, schedule, "
        "surroundings)")

TIMES = ("convergence/iteration_time", "convergence/abscissae")
ENV = {"LC_ALL": "de_DE.UTF-8", "LANG": "tr_TR", "TZ": "Asia/Tokyo", "HOME": "/x",
       "TMPDIR": "/none", "OMP_SCHEDULE": "dynamic,3", "OMP_STACKSIZE": "16M",
       "HDF5_DISABLE_VERSION_CHECK": "1", "COLUMNS": "40", "USER": "n"}


def same(ctx, spec):
    ref = ctx.run(spec["ref"], role="ref", cached=True)
    x = ctx.run(spec["job"], role="x")
    if not ref.ok:
        return []
    if x.ended != ref.ended:
        return ["ends with %s instead of %s: %s" % (
            x.ended, ref.ended, (x.err.strip() or x.screen.strip())[-160:])]
    out = []
    for n in spec["names"]:
        if n not in x.files:
            out.append("%s missing" % n)
            continue
        if not n.endswith(".h5"):
            if x.files[n] != ref.files[n] and spec["tol"] == 0:
                out.append("%s differs" % n)
            continue
        b = ctx.h5(x.files[n])
        if b is None:
            out.append("%s cannot be opened" % n)
            continue
        a, b = dict(ctx.h5(ref.files[n])), dict(b)
        for q in TIMES:
            a.pop(q, None)
            b.pop(q, None)
        # another number of processors may change the order of summation
        m = oracle.diff(a, b, spec["tol"],
                        exact=("",) if spec["tol"] == 0 else (),
                        skip=("MoC/correction_residual",) if spec["tol"] > 1e-6
                        else ())
        if m:
            out.append("%s: %s" % (n, m[0]))
    return out


ORACLES = {"same": same}


def case(ctx):
    r = ctx.rng
    if r.random() < 0.5:
        p = faults.any_problem(ctx, r)
    else:
        p = work.season(r, work.rand_problem(
            r, r.choice(["moc", "sn", "2d3d", "moc_2d3d", "mc"])))
    t = r.choice([1, 1, 1, 2, 3, 5])
    if r.random() < 0.3:
        p.threads = t
    probe = ctx.run(oracle.base_job(p, t), role="probe")
    if not probe.ok:
        return ctx.skip("reference run refused (%s)" % probe.ended)
    sched = oracle.schedule(r, probe.events) if t > 1 and r.random() < 0.7 else {}
    ref = oracle.base_job(p, t, **oracle.limits(probe), **sched)
    for i in range(8 if ctx.tier == "quick" else 16):
        if ctx.late():
            return
        job = oracle.base_job(p, t, **oracle.limits(probe), **sched)
        if r.random() < 0.8:
            job["heap_fill"] = r.choice([0, 1, 63, 127, 191, 255, 256, 256])
        if r.random() < 0.7:
            job["heap_order"] = r.choice([1, 2, 2])
        if r.random() < 0.3:
            job["nprocs"] = r.choice([1, 2, 4, 64])
        if r.random() < 0.3:
            for k in r.sample(sorted(ENV), r.randint(1, 4)):
                job["env"][k] = ENV[k]
        tol = 0.0 if t == 1 else 1e-3 if "nprocs" in job else 1e-7
        ctx.check(dict(oracle="same", tol=tol, ref=ref, job=job, names=faults.outputs(p, probe)))
        ctx.key(p.summary(), sorted(sched.items()), job.get("heap_fill"),
                job.get("heap_order"), job.get("nprocs"), sorted(job["env"]))
        if i == 0:
            ctx.sample("%s threads %d %s | memory %s order %s procs %s" %
                       (p.summary(), t, sched.get("policy"), job.get("heap_fill"),
                        job.get("heap_order"), job.get("nprocs")))
