"""C08: a run that reports success has delivered its complete output."""
import faults
import oracle

ID = "C08"
LEVEL = "exploration"
CASES = dict(quick=5400, thorough=40000)
RULE = ("random problems of all solver types; an undisturbed run lists the I/O "
        "operations on the result and auxiliary files, then error answers, a "
        "full disk, short and interrupted transfers are injected at random "
        "operations, once or persistently, one or two at a time; non-trivial = "
        "the fault was delivered, distinct = different (file, operation, "
        "position, answer)")


def delivered(ctx, spec):
    ref = ctx.run(spec["ref"], role="ref", cached=True)
    x = ctx.run(spec["job"], role="x")
    if not ref.ok:
        return []
    if x.hung:
        return ["run does not end (%s)" % x.ended]
    out = []
    names = spec["names"]
    if x.ok:
        m = faults.same_output(ctx, ref, x, names)
        if m:
            out.append("success reported but " + m[0])
    elif "Output written" in x.screen:
        m = faults.same_output(ctx, ref, x, [spec["case"] + ".h5"])
        if m:
            out.append("output announced as written but " + m[0])
    if spec["transient"] and not x.ok:
        out.append("ended with %s because of a transient condition" % x.ended)
    return out


ORACLES = {"delivered": delivered}


def plan(r, table, total):
    """(faults, capacity, transient only)"""
    u = r.random()
    if u < 0.15:
        return [], r.randrange(total), False
    fl = []
    soft = u < 0.3
    for _ in range(1 if r.random() < 0.7 else 2):
        kind, path, nth, size = faults.pick(r, table)
        if soft:
            cand = [o for o in table if o[0] == "write"]
            if not cand:
                continue
            kind, path, nth, size = r.choice(cand)
            if r.random() < 0.5 and size > 1:
                fl.append((kind, path, nth, 1, "short", r.randrange(1, size)))
            else:
                fl.append((kind, path, nth, r.choice([1, 3]), "EINTR", 0))
            continue
        if kind not in faults.ERRORS:
            continue
        fl.append((kind, path, nth, r.choice([1, 1, 2, 1 << 30]),
                   r.choice(faults.ERRORS[kind]), 0))
    return fl, None, soft


def case(ctx):
    r = ctx.rng
    p = faults.any_problem(ctx, r)
    t = r.choice([1, 1, 2, 3])
    ref_job = oracle.base_job(p, t, io_trace=1)
    ref = ctx.run(ref_job, role="ref", cached=True)
    if not ref.ok:
        return ctx.skip("reference run refused (%s)" % ref.ended)
    names = faults.outputs(p, ref)
    table = [o for o in faults.ops(ref, faults.written(p, ref)) if o[0] != "unlink"]
    total = sum(len(ref.files[n]) for n in names)
    base = dict(oracle="delivered", ref=ref_job, case=p.case(), names=names)
    for i in range(14 if ctx.tier == "quick" else 30):
        if ctx.late():
            return
        fl, cap, soft = plan(r, table, total)
        if not fl and cap is None:
            continue
        job = oracle.base_job(p, t, **oracle.limits(ref))
        if fl:
            job["faults"] = fl
        if cap is not None:
            job["capacity"] = cap + sum(len(v) for v in p.files().values())
        ctx.check(dict(base, job=job, transient=soft))
        x = ctx.last["x"]
        if sum(x.faults.values()):
            ctx.key(p.kind, fl, cap)
        if i == 0:
            ctx.sample("%s | faults %s capacity %s -> %s" %
                       (p.summary(), fl, cap, x.ended))
