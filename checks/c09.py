"""C09: faulty input reads never become a wrong answer or a hang."""
import faults
import oracle

ID = "C09"
LEVEL = "exploration"
CASES = dict(quick=7800, thorough=60000)
RULE = ("random problems of all solver types reading an input file, a cross "
        "section library and, for some, an external source or correction data; "
        "an undisturbed run lists the operations on these files, then error "
        "answers, interrupted and short reads are injected at random ones, once "
        "or persistently, one or two at a time; non-trivial = the fault was "
        "delivered, distinct = different (file, operation, position, answer)")
ASSUMPTIONS = ["the contents of the input files are intact; only operations on "
               "them fail"]


def trusted(ctx, spec):
    ref = ctx.run(spec["ref"], role="ref", cached=True)
    x = ctx.run(spec["job"], role="x")
    if not ref.ok:
        return []
    if x.hung:
        return ["run does not end (%s)" % x.ended]
    out = []
    if x.ok:
        m = faults.same_output(ctx, ref, x, spec["names"])
        if m:
            out.append("success reported but " + m[0])
    if spec["transient"] and not x.ok:
        out.append("ended with %s because of a transient condition" % x.ended)
    return out


ORACLES = {"trusted": trusted}


def plan(r, table):
    fl = []
    soft = r.random() < 0.2
    for _ in range(1 if r.random() < 0.75 else 2):
        kind, path, nth, size = faults.pick(r, table)
        if soft:
            cand = [o for o in table if o[0] == "read" and o[3] > 0]
            kind, path, nth, size = r.choice(cand)
            if size > 1:
                fl.append((kind, path, nth, 1, "short", r.randrange(1, size)))
            continue
        n = r.choice([1, 1, 2, 1 << 30])
        if kind == "read" and size > 1 and r.random() < 0.5:
            # some of the data, then an error
            fl.append((kind, path, nth, 1, "short", r.randrange(1, size)))
            nth += 1
        err = faults.ERRORS[kind] + (["EINTR"] if kind == "read" else [])
        err = r.choice(err)
        if err == "EINTR":
            n = min(n, 3)  # signals do not interrupt every read for ever
        fl.append((kind, path, nth, n, err, 0))
    return fl, soft


def case(ctx):
    r = ctx.rng
    u = r.random()
    if u < 0.2:
        p = faults.with_data(ctx, r)
        if p is None:
            return ctx.skip("no correction data")
    else:
        p = faults.any_problem(ctx, r, ("moc", "sn", "2d3d", "mc", "fixed", "fixed"))
        p.dumps = None
    t = r.choice([1, 1, 2])
    ref_job = oracle.base_job(p, t, io_trace=1)
    ref = ctx.run(ref_job, role="ref", cached=True)
    if not ref.ok:
        return ctx.skip("reference run refused (%s)" % ref.ended)
    names = faults.outputs(p, ref)
    table = [o for o in faults.ops(ref, p.files()) if o[0] in faults.ERRORS]
    base = dict(oracle="trusted", ref=ref_job, names=names)
    for i in range(12 if ctx.tier == "quick" else 30):
        if ctx.late():
            return
        fl, soft = plan(r, table)
        if not fl:
            continue
        job = oracle.base_job(p, t, faults=fl, **oracle.limits(ref))
        job["wall_ms"] = 5000
        ctx.check(dict(base, job=job, transient=soft))
        x = ctx.last["x"]
        if sum(x.faults.values()):
            ctx.key(p.kind, fl)
        if i == 0:
            ctx.sample("%s | faults %s -> %s" % (p.summary(), fl, x.ended))
