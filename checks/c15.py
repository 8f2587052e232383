"""C15: the requested number of threads is honoured and never deadlocks."""
import re

import faults
import oracle

ID = "C15"
LEVEL = "exploration"
CASES = dict(quick=7800, thorough=60000)
RULE = ("random problems of all solver types, with random thread counts requested "
        "in the input (valid, zero, negative, missing), in the environment or not "
        "at all, on machines of random size, under schedules that stall, starve "
        "and delay threads; team sizes of all parallel regions, messages and "
        "endings are checked; non-trivial = a run that entered a parallel region "
        "or was refused, distinct = different (problem, request, schedule)")

BAD = ["0", "-1", "-7", None]


def honoured(ctx, spec):
    x = ctx.run(spec["job"], role="x")
    if x.hung:
        return ["run does not end (%s) with %d threads" % (x.ended, spec["expect"])]
    if not x.ok:
        ref = ctx.run(spec["ref"], role="ref", cached=True)
        if oracle.diverges(ref.screen) or oracle.diverges(x.screen) or \
                oracle.breakdown(ref.screen, x.screen):
            ctx.stat["note runs left out, rounding decides over success"] += 1
            return []
        return ["ended with %s with %d threads, success with one" %
                (x.ended, spec["expect"])]
    out = []
    n = spec["expect"]
    wrong = [q for q in x.teams if q != n]
    if wrong:
        out.append("parallel work done by %d threads instead of %d" % (wrong[0], n))
    if not x.teams:
        out.append("no parallel work seen")
    m = re.search(r"Running with (\d+)", x.screen)
    if m and int(m.group(1)) != n:
        out.append("%s threads announced instead of %d" % (m.group(1), n))
    if "quiet" in spec:
        y = ctx.run(spec["quiet"], role="quiet", cached=True)

        def warns(z):
            return sum("warning" in l.lower() and "thread" in l.lower()
                       for l in (z.screen + z.err).split("\n"))
        if y.ok and (warns(x) > warns(y)) != spec["warn"]:
            out.append("%d threads on %d processors: %s" %
                       (n, spec["job"]["nprocs"],
                        "warning without reason" if not spec["warn"] else "no warning"))
    return out


def refused(ctx, spec):
    x = ctx.run(spec["job"], role="x")
    if x.hung:
        return ["run does not end (%s)" % x.ended]
    if x.ok:
        return ["request for %s threads accepted" % spec["asked"]]
    if x.how != "exit":
        return ["request for %s threads ends in %s" % (spec["asked"], x.ended)]
    return []


ORACLES = {"honoured": honoured, "refused": refused}


def case(ctx):
    r = ctx.rng
    p = faults.any_problem(ctx, r)
    p.dumps = None
    p.threads = None
    if r.random() < 0.3 and p.kind != "mc":
        p.solver["max_iter"] = 1
    ref_job = oracle.base_job(p, 1)
    ref = ctx.run(ref_job, role="ref", cached=True)
    if not ref.ok:
        return ctx.skip("reference run refused (%s)" % ref.ended)
    for i in range(8 if ctx.tier == "quick" else 20):
        if ctx.late():
            return
        u = r.random()
        np_ = r.choice([1, 2, 4, 8, 16])
        env = r.choice([None, 1, 2, 3, 7])
        p.threads = None
        if u < 0.1:
            bad = r.choice(BAD)
            extra = p.extra
            p.extra = list(extra or []) + ["<parallel />" if bad is None else
                                           '<parallel num_threads="%s" />' % bad]
            job = oracle.base_job(p, 1, nprocs=np_, **oracle.limits(ref))
            p.extra = extra
            ctx.check(dict(oracle="refused", job=job, asked=bad))
            ctx.key(p.summary(), bad)
            continue
        spec = {}
        if u < 0.7:
            n = r.choice([1, 2, 2, 3, 3, 4, 5, 8, 13, 24])
            p.threads = n
            spec = dict(warn=n > np_)
        else:
            n = env if env else np_
        sched = oracle.schedule(r, ref.events) if n > 1 and r.random() < 0.8 else {}
        job = oracle.base_job(p, 1, nprocs=np_, **sched, **oracle.limits(ref))
        job["env"] = {} if env is None else {"OMP_NUM_THREADS": str(env)}
        if spec:
            # the same request on a machine that is large enough
            q = oracle.base_job(p, 1, nprocs=64, **oracle.limits(ref))
            q["env"] = job["env"]
            spec["quiet"] = q
        ctx.check(dict(spec, oracle="honoured", ref=ref_job, job=job, expect=n))
        ctx.key(p.summary(), p.threads, env, np_, sorted(sched.items()))
        if i == 0:
            ctx.sample("%s | requested %s default %s processors %d %s -> %s" %
                       (p.summary(), p.threads, env, np_, sched.get("policy"),
                        ctx.last["x"].ended))
