"""C26: the way an answer is iterated to does not change the answer."""
import numpy as np

import c23
import oracle
import work

ID = "C26"
LEVEL = "exploration"
CASES = dict(quick=3900, thorough=36000)
RULE = ("random MoC and Sn eigenvalue problems converged tightly in one thread "
        "with one inner iteration and the old boundary values (Jacobi), and again with "
        "other numbers of inner iterations, immediate boundary update (Gauss-"
        "Seidel), acceleration, least numbers of iterations, team sizes, "
        "schedules and former memory content; eigenvalue, pin flux and the flux "
        "of every region compared; non-trivial = something of the iteration was "
        "different, distinct = different (problem, iteration, switches)")
TOL = 3e-5


def regions(d):
    """Region fluxes, shaped by group, as shares of the whole."""
    f = [d[n].ravel() for n in sorted(d) if n.startswith("fsr_flux/")]
    return np.array(f) / np.sum(f) if f else None


def agree(ctx, spec):
    a = ctx.run(spec["ref"], role="ref", cached=True)
    x = ctx.run(spec["job"], role="x")
    if not c23.done(a):
        return []
    if not c23.done(x):
        ctx.stat["note runs left out, not converged"] += 1
        return []
    da, dx = c23.load(ctx, a, spec["case"]), c23.load(ctx, x, spec["case"])
    if da is None or dx is None:
        return ["no readable result file"]
    if not (oracle.settled(da) and oracle.settled(dx)):
        ctx.stat["note runs left out, convergence by accident"] += 1
        return []
    out = []
    ka, kx = (float(d["convergence/k"].ravel()[-1]) for d in (da, dx))
    e = []
    for name, f in (("pin", c23.fluxes), ("region", regions)):
        fa, fx = f(da), f(dx)
        if fa is None or fx is None:
            continue
        if fa.shape != fx.shape:
            return ["flux of %s %ss instead of %s" % (fx.shape, name, fa.shape)]
        if spec["kind"] == "sn" and ((fa <= 0).any() or (fx <= 0).any()):
            # cells too thick for diamond differencing
            ctx.stat["note runs left out, negative flux"] += 1
            return []
        d = np.abs(fa - fx) / fa.max()
        e.append(float(d.max()))
        if not d.max() <= TOL:
            g, i = np.unravel_index(int(d.argmax()), d.shape)
            out.append("group %d %s %d: share of the flux %.10g, iterated in the "
                       "plainest way %.10g" % (g + 1, name, i, fx[g, i], fa[g, i]))
    if not abs(ka - kx) <= TOL * ka:
        out.append("eigenvalue %.10g, iterated in the plainest way %.10g" % (kx, ka))
    ctx.stat["note pairs compared"] += 1
    ctx.worst = max(getattr(ctx, "worst", 0.0), *e, abs(ka - kx) / ka)
    return out


ORACLES = {"agree": agree}


def stack(r, p):
    """Planes of a pure MoC problem do not know each other, the share of each is
    only defined when they are all alike."""
    p.assemblies = [[a[0]] * p.nz for a in p.assemblies]
    if p.nz > 1:
        p.subplanes = r.choice([[1] * p.nz, [p.nz], [1, p.nz - 1], [p.nz - 1, 1]])


def case(ctx):
    r = ctx.rng
    kind = r.choice(["moc", "sn"])
    p = work.rand_problem(r, kind, cmfd=True, three_d=r.random() < (0.5 if kind == "sn" else 0.25),
                          uniform_pins=kind == "sn")
    p.solver.update(k_tol="1e-9", psi_tol="1e-9", max_iter=1500)
    if kind == "sn":
        p.subplanes = [1] * p.nz
        p.sweeper.update(equation="dd", axial=r.choice(["dd", "sc"]))
        if p.nz == 1:
            p.bc["top"] = p.bc["bottom"] = "reflect"
        elif r.random() < 0.4:
            work.thick(r, p)
    else:
        stack(r, p)
        p.sweeper.pop("tl_splitting", None)
        # every region must be crossed by rays, see C23
        p.rays = (r.choice([0.07, 0.1, 0.12]),) + tuple(p.rays[1:])
        for pin in p.pins:
            if pin["type"] == "cyl":
                n = len(pin["radii"])
                pin.update(radii=[0.4] if n == 1 else [0.25, 0.45],
                           sub_r=[1] * n, azi=4)
    p.cmfd = None
    p.solver.pop("cmfd", None)
    p.sweeper["n_inner"] = 1
    p.sweeper["boundary_update"] = "jacobi"
    ref_job = oracle.base_job(p, 1, max_events=3_000_000_000)
    ref = ctx.run(ref_job, role="ref", cached=True)
    if not c23.done(ref):
        return ctx.skip("plain solve refused or not converged")
    for i in range(4 if ref.events < 60_000_000 else 2):
        if ctx.late():
            return
        q = p.copy()
        t = r.choice([1, 1, 2, 3, 4, 8])
        q.sweeper["n_inner"] = r.choice([1, 2, 3, 5, 8])
        q.sweeper["boundary_update"] = r.choice(["gs", "gs", "jacobi"])
        if r.random() < 0.2:
            q.sweeper.pop("boundary_update")
        if r.random() < 0.3:
            q.solver["min_iter"] = r.choice([1, 5, 30])
        if r.random() < 0.3 and (kind == "sn" or p.nz == 1):
            # (with it, rounding moves flux between planes)
            q.solver["cmfd"] = "t"
            q.cmfd = {}
        job = oracle.base_job(q, t, max_events=60 * ref.events + 2_000_000_000)
        if t > 1:
            job.update(oracle.schedule(r, ref.events))
        if r.random() < 0.2:
            job["heap_fill"] = r.choice([0, 255, 127, 256])
        ctx.check(dict(oracle="agree", case=p.case(), kind=kind, ref=ref_job, job=job))
        ctx.key(q.summary(), sorted(q.sweeper.items()), t, job.get("policy"),
                job.get("seed"), job.get("heap_fill"))
        if i == 0:
            ctx.sample("%s | %s T=%d %s -> %s, largest difference so far %.2g" % (
                p.summary(), q.sweeper, t, job.get("policy"), ctx.last["x"].ended,
                getattr(ctx, "worst", 0)))
