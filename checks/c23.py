"""C23: acceleration does not change the answer it accelerates to."""
import numpy as np

import oracle
import work

ID = "C23"
LEVEL = "exploration"
CASES = dict(quick=4800, thorough=40000)
RULE = ("random MoC and Sn eigenvalue problems converged tightly without "
        "acceleration in one thread, and with coarse-mesh acceleration "
        "(random settings) under random team sizes and schedules; eigenvalue, "
        "pin flux and pin powers compared; non-trivial = at least one "
        "preemption, distinct = different sequence of switches")
TOL = 3e-5


def done(x):
    return x.ok and "Convergence criteria satisfied" in x.screen


def load(ctx, x, case):
    f = x.files.get(case + ".h5")
    return None if f is None else ctx.h5(f)


def fluxes(d):
    f = np.array([d[n].ravel() for n in sorted(d) if n.startswith("flux/")])
    return f / f.sum()


def stuck(ctx, d, x, case):
    """An accelerated iteration that has come to rest, but where acceleration
    and transport keep undoing what the other does."""
    k, e = d["convergence/k"].ravel(), d["convergence/error_k"].ravel()
    if len(k) < 600 or not (np.isfinite(k).all() and np.isfinite(e).all()):
        return []
    k, e = k[-100:], e[-100:]
    if np.ptp(k) > 1e-9 * k[-1] or e.min() < 1e-6 or np.ptp(e) > 1e-3 * e.min():
        return []
    log = x.files.get(case + ".log", b"")
    if b"negative" in log.lower() or k[-1] <= 0:
        # the coarse problem has no physical solution
        ctx.stat["note accelerated runs left out, acceleration broke down"] += 1
        return []
    ctx.stat["note accelerated runs at rest without convergence"] += 1
    return ["at rest with an eigenvalue residual of %.3g: the acceleration "
            "pulls away from the transport solution" % e[-1]]


def agree(ctx, spec):
    a = ctx.run(spec["ref"], role="ref", cached=True)
    x = ctx.run(spec["job"], role="x")
    if not done(a):
        return []
    da, dx = load(ctx, a, spec["case"]), load(ctx, x, spec["case"])
    if not done(x):
        return stuck(ctx, dx, x, spec["case"]) if spec["exact"] and x.ok and dx else []
    if da is None or dx is None:
        return ["no readable result file"]
    if not (oracle.settled(da) and oracle.settled(dx)):
        ctx.stat["note runs left out, convergence by accident"] += 1
        return []
    fa, fx = fluxes(da), fluxes(dx)
    if fa.shape != fx.shape:
        return ["flux of %s cells instead of %s" % (fx.shape, fa.shape)]
    if spec["kind"] == "sn" and ((fa <= 0).any() or (fx <= 0).any()):
        # cells too thick for diamond differencing
        ctx.stat["note runs left out, negative flux"] += 1
        return []
    ctx.stat["note pairs compared"] += 1
    out = []
    ka, kx = (float(d["convergence/k"].ravel()[-1]) for d in (da, dx))
    if not abs(ka - kx) <= TOL * ka:
        out.append("eigenvalue %.10g with acceleration, %.10g without" % (kx, ka))
    e = np.abs(fa - fx) / fa.max()
    if not e.max() <= TOL:
        g, i = np.unravel_index(int(e.argmax()), e.shape)
        out.append("group %d pin %d: share of the flux %.10g with acceleration, "
                   "%.10g without" % (g + 1, i, fx[g, i], fa[g, i]))
    ctx.worst = max(getattr(ctx, "worst", 0.0), float(e.max()), abs(ka - kx) / ka)
    return out


ORACLES = {"agree": agree}


def case(ctx):
    r = ctx.rng
    kind = r.choice(["moc", "sn"])
    # planes of a pure MoC problem are independent of each other
    p = work.rand_problem(r, kind, cmfd=True,
                          three_d=kind == "sn" and r.random() < 0.6,
                          uniform_pins=kind == "sn")
    p.solver.update(k_tol="1e-9", psi_tol="1e-9", max_iter=1500, cmfd="t")
    p.subplanes = [1] * p.nz
    if kind == "sn":
        p.sweeper.update(equation="dd", axial=r.choice(["dd", "sc"]))
        if p.nz == 1:
            p.bc["top"] = p.bc["bottom"] = "reflect"
        elif r.random() < 0.7:
            work.thick(r, p)
    else:
        p.sweeper.pop("tl_splitting", None)
        # every region must be crossed by rays: one that is not is a problem of
        # its own, and may have the largest eigenvalue
        p.rays = (r.choice([0.07, 0.1, 0.12]),) + tuple(p.rays[1:])
        for pin in p.pins:
            if pin["type"] == "cyl":
                n = len(pin["radii"])
                pin.update(radii=[0.4] if n == 1 else [0.25, 0.45],
                           sub_r=[1] * n, azi=4)
    q = p.copy(cmfd=None)
    q.solver.pop("cmfd")
    p.cmfd = {}
    if r.random() < 0.7:
        p.cmfd.update(k_tol=r.choice(["1e-11", "1e-6"]), psi_tol=r.choice(["1e-11", "1e-5"]),
                      residual_reduction=r.choice(["1e-8", "1e-3"]),
                      max_iter=r.choice([1, 5, 100]))
    if r.random() < 0.3:
        p.cmfd["negative_fixup"] = r.choice(["t", "f"])
    if r.random() < 0.3:
        p.sweeper["n_inner"] = r.randint(1, 4)
    ref_job = oracle.base_job(q, 1, max_events=3_000_000_000)
    ref = ctx.run(ref_job, role="ref", cached=True)
    if not done(ref):
        return ctx.skip("plain solve refused or not converged")
    spec = dict(oracle="agree", case=p.case(), kind=kind, ref=ref_job,
                exact=p.cmfd.get("max_iter", 100) == 100)
    ctx.check(dict(spec, job=oracle.base_job(p, 1, max_events=3_000_000_000)))
    first = ctx.last["x"]
    if not done(first):
        return ctx.skip("accelerated solve refused or not converged")
    for i in range(3 if first.events < 60_000_000 else 1):
        if ctx.late():
            return
        t = r.choice([2, 3, 4, 8])
        job = oracle.base_job(p, t, **oracle.limits(first))
        job.update(oracle.schedule(r, first.events))
        ctx.check(dict(spec, job=job))
        if i == 0:
            ctx.sample("%s | T=%d %s -> %s, largest difference so far %.2g" % (
                p.summary(), t, job["policy"], ctx.last["x"].ended,
                getattr(ctx, "worst", 0)))
