"""Schedule independence: refinement of the one-thread execution."""
import oracle
import work

TOL = 1e-8


def perturb(p, eps=1e-7):
    """The same problem with slightly different cross sections."""
    q = p.copy()
    for m in q.mats:
        for k in ("abs", "nf"):
            m[k] = [v * (1 + eps) for v in m[k]]
    return q


def outputs(ctx, p_case, res):
    f = res.files.get(p_case + ".h5")
    return None if f is None else ctx.h5(f)


def refine(ctx, spec):
    """The perturbed run ends like the reference and delivers its numbers."""
    ref = ctx.run(spec["ref"], role="ref", cached=True)
    x = ctx.run(spec["job"], role="x")
    if not ref.ok:
        return []
    if spec.get("like") and oracle.breakdown(ref.screen, x.screen):
        ctx.stat["note runs left out, linear solver broke down"] += 1
        return []
    if not x.ok:
        for j in spec.get("like", ()):
            if not ctx.run(j, role="like", cached=True).ok:
                ctx.stat["note runs left out, sensitive to rounding"] += 1
                return []
        return ["run ended with %s instead of success: %s" %
                (x.ended, (x.err.strip() or x.screen.strip())[-160:])]
    a, b = outputs(ctx, spec["case"], ref), outputs(ctx, spec["case"], x)
    if b is None:
        return ["no readable result file"]
    out = oracle.diff(a, b, spec["tol"], exact=spec.get("exact", ()))
    if out and spec.get("like"):
        # what rounding alone does to this problem
        w = 0.0
        for j in spec["like"]:
            q = ctx.run(j, role="like", cached=True)
            c = outputs(ctx, spec["case"], q) if q.ok else None
            w = max(w, float("inf") if c is None else oracle.worst(a, c))
        if w > 1.0 / 30:
            ctx.stat["note runs left out, sensitive to rounding"] += 1
            return []
        out = oracle.diff(a, b, max(spec["tol"], 30 * w),
                          exact=spec.get("exact", ()))
    return out


ORACLES = {"refine": refine}


def vary_case(ctx, p, nruns, tol=TOL, exact=(), threads=(2, 3, 4, 5, 8, 12),
              cond=True, alt=None):
    """Runs one problem under many schedules.  alt: the same problem asked for
    in a way that must make no difference with more than one thread."""
    r = ctx.rng
    ref_job = oracle.base_job(p, 1)
    ref = ctx.run(ref_job, role="ref", cached=True)
    if not ref.ok:
        return ctx.skip("reference run refused (%s)" % ref.ended)
    if oracle.diverges(ref.screen):
        return ctx.skip("reference diverges")
    a = outputs(ctx, p.case(), ref)
    if a is None or (cond and not oracle.finite(a)):
        return ctx.skip("reference not finite")
    if cond:
        # ill-conditioned problems amplify rounding: measured with one thread
        q = ctx.run(oracle.base_job(perturb(p), 1), role="cond", cached=True)
        b = outputs(ctx, p.case(), q) if q.ok else None
        if b is None or oracle.worst(a, b) > 1e-7 * 3e3:
            return ctx.skip("ill-conditioned")
    if p.cmfd and p.cmfd.get("enabled") != "f":
        # the linear solver stops by its residual
        tol = max(tol, 1e-7)
    like = []
    if cond:
        like = [oracle.base_job(perturb(p, e), 1, **oracle.limits(ref))
                for e in (1e-13, -2e-13, 3e-13, -1e-12, 2e-12, -3e-12)]
    pcs = set()
    if nruns >= 4:
        sj = oracle.base_job(p, r.choice([2, 3, 4]), scout=1, **oracle.limits(ref))
        s = ctx.run(sj, role="scout")
        for x, y, _ in s.races:
            pcs.add(x)
            pcs.add(y)
        ctx.stat["note racy access pairs seen by the scout"] += len(s.races)
    for i in range(nruns):
        if ctx.late():
            return
        t = r.choice(threads)
        q = alt if alt is not None and r.random() < 0.3 else p
        env = t
        if r.random() < 0.2:
            # the input file overrides the environment
            q, env = q.copy(threads=t), r.choice([1, t, 8])
        job = oracle.base_job(q, env, **oracle.limits(ref))
        job["nprocs"] = r.choice([8, 8, 8, 1, 2, 4])
        job.update(oracle.schedule(r, ref.events, pcs))
        if r.random() < 0.3:
            job["heap_fill"] = r.choice([0, 255, 127, 256])
        spec = dict(oracle="refine", case=p.case(), tol=tol, exact=list(exact),
                    ref=ref_job, job=job, like=like)
        ctx.check(spec)
        if i == 0:
            ctx.sample("%s | T=%d %s -> %s, %d preemptions" % (
                p.summary(), t, {k: v for k, v in job.items() if k in
                                 ("policy", "quantum", "depth", "prob", "seed", "victim")},
                ctx.last["x"].ended, ctx.last["x"].preemptions))


def fixed_cmfd(p, r):
    """Acceleration that either makes all its steps or stops well below what
    makes a difference (going on at the limit of the arithmetic breaks down)."""
    if p.cmfd and p.cmfd.get("enabled") != "f":
        p.cmfd.update(k_tol="1e-11", psi_tol="1e-10", residual_reduction="1e-10",
                      max_iter=r.choice([3, 10, 20]))
    return p
