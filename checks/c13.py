"""C13: log and screen carry the same report; log trouble never hurts the run."""
import c07
import faults
import oracle

ID = "C13"
LEVEL = "exploration"
CASES = dict(quick=7800, thorough=64000)
RULE = ("random problems of all solver types, team sizes and schedules; the "
        "progress lines on screen and in the log are compared; then opening, "
        "writing and closing the log, and writing to the screen, fail at random "
        "operations, once or persistently, completely or partly; non-trivial = "
        "at least one progress line or a delivered fault, distinct = different "
        "(problem, schedule, fault)")


def plines(kind, text):
    """The iteration or cycle lines, as written."""
    pat = c07.MC if kind == "mc" else c07.FIXED if kind == "fixed" else None
    out = []
    for l in c07.solving(text).split("\n")[1:]:
        if pat.match(l) if pat else c07.progress("Running with\n" + l):
            out.append(l)
    return out


def missing(a, b):
    """First line of a that is not in b, keeping the order."""
    j = 0
    for l in a:
        try:
            j = b.index(l, j) + 1
        except ValueError:
            return l
    return None


def alike(ctx, spec):
    x = ctx.run(spec["job"], role="x")
    if x.hung:
        return ["run does not end (%s)" % x.ended]
    if x.how != "exit":
        return []
    a = plines(spec["kind"], x.screen)
    log = x.files.get(spec["case"] + ".log")
    if log is None:
        return ["no log file"] if x.ok else []
    b = plines(spec["kind"], log.decode("latin-1"))
    if x.ok and a != b:
        l = missing(a, b)
        if l is not None:
            return ["line %r is on screen but not in its place in the log" % l]
        l = missing(b, a)
        return ["line %r is in the log but not in its place on screen" % l]
    return []


def harmless(ctx, spec):
    ref = ctx.run(spec["ref"], role="ref", cached=True)
    x = ctx.run(spec["job"], role="x")
    if not ref.ok:
        return []
    if x.hung:
        return ["run does not end (%s)" % x.ended]
    if not x.ok:
        return ["ended with %s because of trouble with the %s" % (x.ended, spec["what"])]
    out = []
    m = faults.same_output(ctx, ref, x, spec["names"])
    if m:
        out.append("trouble with the %s changed the results: %s" % (spec["what"], m[0]))
    log = spec["case"] + ".log"
    if spec["what"] == "log":
        l = missing(ref.screen.split("\n"), x.screen.split("\n"))
        if l is not None:
            out.append("log trouble: screen lost the line %r" % l)
        same = x.files.get(log) == ref.files[log]
        if not same and spec["transient"]:
            out.append("log differs because of a transient condition")
        elif not same and x.screen == ref.screen and x.err == ref.err:
            out.append("the log is incomplete and nothing says so")
    else:
        l = missing(ref.files[log].split(b"\n"), x.files.get(log, b"").split(b"\n"))
        if l is not None:
            out.append("screen trouble: log lost the line %r" % l)
    return out


ORACLES = {"alike": alike, "harmless": harmless}


def case(ctx):
    r = ctx.rng
    p = faults.any_problem(ctx, r)
    fixed = p.solver.get("type") == "fixed_source"
    kind = "mc" if p.kind == "mc" else "fixed" if fixed else "eigen"
    if kind == "eigen":
        p.solver["max_iter"] = r.choice([1, 3, 6, 6, r.choice([60, 150])])
    t = r.choice([1, 2, 3])
    ref_job = oracle.base_job(p, t, io_trace=1, clock="frozen")
    ref = ctx.run(ref_job, role="ref", cached=True)
    if not ref.ok:
        return ctx.skip("reference run refused (%s)" % ref.ended)
    log = p.case() + ".log"
    base = dict(kind=kind, case=p.case(), names=faults.outputs(p, ref))
    for i in range(2 if t > 1 else 1):
        sched = oracle.schedule(r, ref.events) if i else {}
        job = oracle.base_job(p, t, **oracle.limits(ref), **sched)
        ctx.check(dict(base, oracle="alike", job=job))
        if plines(kind, ctx.last["x"].screen):
            ctx.key(p.summary(), sorted(sched.items()))
    table = [o for o in faults.ops(ref, {log}) if o[0] in faults.ERRORS]
    shown = [o for o in faults.ops(ref, {"<screen>"})]
    for i in range(8 if ctx.tier == "quick" else 20):
        if ctx.late():
            return
        fl, soft, what = [], False, "log"
        u = r.random()
        n = r.choice([1, 1, 2, 5, 1 << 30])
        if u < 0.2:
            what = "screen"
            k, path, nth, size = r.choice(shown)
            fl.append((k, path, nth, n, r.choice(["EIO", "ENOSPC"]), 0))
        elif u < 0.35:
            soft = True
            k, path, nth, size = r.choice([o for o in table if o[0] == "write"])
            if size > 1 and r.random() < 0.6:
                fl.append((k, path, nth, 1, "short", r.randrange(1, size)))
            else:
                fl.append((k, path, nth, r.choice([1, 3]), "EINTR", 0))
        else:
            k, path, nth, size = faults.pick(r, table)
            if k == "write" and size > 1 and r.random() < 0.3:
                fl.append((k, path, nth, 1, "short", r.randrange(1, size)))
                nth += 1
            fl.append((k, path, nth, n, r.choice(faults.ERRORS[k]), 0))
        job = oracle.base_job(p, t, faults=fl, clock="frozen", **oracle.limits(ref))
        job["wall_ms"] = 5000
        ctx.check(dict(base, oracle="harmless", ref=ref_job, job=job, what=what,
                       transient=soft))
        x = ctx.last["x"]
        if sum(x.faults.values()):
            ctx.key(p.summary(), fl)
        if i == 0:
            ctx.sample("%s | faults %s -> %s" % (p.summary(), fl, x.ended))
