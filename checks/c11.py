"""C11: an interrupt leaves a usable result of the completed iterations."""
import numpy as np

import c07
import faults
import oracle

ID = "C11"
LEVEL = "exploration"
CASES = dict(quick=10800, thorough=90000)
RULE = ("random problems of all solver types, team sizes and schedules, with and "
        "without an earlier result file; the undisturbed run under the same "
        "schedule tells what was shown and recorded when; SIGINT is delivered "
        "at a random event, I/O operation or synchronisation (spread evenly "
        "over start-up, each iteration and the final output), sometimes twice; "
        "non-trivial = the signal was delivered, distinct = different (problem, "
        "schedule, moment)")
ASSUMPTIONS = ["a signal arrives between two accesses of instrumented code or at "
               "an I/O operation of a library, not elsewhere inside a library"]

HIST = {"eigen": ("convergence/k", "convergence/error_k", "convergence/error_psi"),
        "mc": ("k_history_tl", "k_history_col", "k_history_analog", "h_history"),
        "fixed": ()}


def lines(kind, text):
    """Number of iterations or cycles shown so far."""
    t = c07.solving(text)
    if kind == "eigen":
        # a cut line of the acceleration would pass for one of an iteration
        return len(c07.progress(text[:text.rfind("\n") + 1]))
    pat = c07.MC if kind == "mc" else c07.FIXED
    return sum(1 for l in t.split("\n")[:-1] if pat.match(l))


def moment(ref, job):
    """Length of the text shown before the signal."""
    n = 0
    for i, (kind, path, size, ret, ev) in enumerate(ref.io):
        if "sig_io" in job and i >= job["sig_io"]:
            break
        if "sig_event" in job and ev >= job["sig_event"]:
            break
        if path == "<screen>":
            n += size
    return n


def usable(ctx, spec):
    job = spec["job"]
    ref = ctx.run(spec["ref"], role="ref", cached=True)
    x = ctx.run(job, role="x")
    if not ref.ok or not x.signals:
        return []
    if x.hung:
        return ["run does not end (%s)" % x.ended]
    kind, name = spec["kind"], spec["case"] + ".h5"
    seen = ref.screen[:moment(ref, job)]
    old = job["files"].get(name)
    if x.ok:
        # it was too late to stop the run
        total = lines(kind, ref.screen)
        if lines(kind, seen) < total - 1:
            return ["interrupted in iteration %d of %d but success reported" %
                    (lines(kind, seen) + 1, total)]
        m = faults.same_output(ctx, ref, x, spec["names"])
        return ["success reported but " + m[0]] if m else []
    if "Running with" not in seen:
        if old is not None and x.files.get(name) != old:
            return ["interrupted before the solve, earlier result file changed "
                    "(%s)" % x.ended]
        return []
    n0 = lines(kind, seen)
    total = lines(kind, ref.screen)
    shown = lines(kind, x.screen)
    out = []
    if shown > n0 + 1:
        out.append("%d iterations shown at the interrupt, %d performed" % (n0, shown))
    if job.get("sig_event2"):
        return out
    if n0 == total and x.how == "exit" and spec["writing"]:
        return out
    f = x.files.get(name)
    if n0 == 0 and (f is None or f == old):
        return out
    d = None if f is None else ctx.h5(f)
    if d is None:
        return out + ["interrupted after %d iterations: no readable result file (%s)"
                      % (n0, x.ended)]
    if f == old:
        return out + ["interrupted after %d iterations: result file is the earlier "
                      "one" % n0]
    a = ctx.h5(ref.files[name])
    for h in HIST[kind]:
        if h not in d:
            out.append("interrupted: %s missing from the result file" % h)
            continue
        u, v = a[h].ravel(), d[h].ravel()
        if not n0 <= v.size <= n0 + 1:
            out.append("interrupted after %d iterations, %s has %d entries" %
                       (n0, h, v.size))
        elif u[:n0].tobytes() != v[:n0].tobytes() or not np.allclose(
                u[n0:v.size], v[n0:], *spec["loose"], equal_nan=True):
            out.append("interrupted: %s is not what the undisturbed run recorded" % h)
    # everything recorded per iteration tells of the same number of them
    left = set(a[h].size - d[h].size for h in HIST[kind] if h in d)
    if len(left) > 1 and not out:
        out.append("interrupted: histories of different lengths")
    for h in a:
        if kind == "mc" and "_history_" in h and h not in HIST[kind] and not out:
            n = max(0, a[h].size - max(left))
            if d.get(h, np.zeros(0)).size != n:
                out.append("interrupted: %s has not %d entries" % (h, n))
            elif n and not np.allclose(a[h].ravel()[:n], d[h].ravel(),
                                 *spec["loose"], equal_nan=True):
                out.append("interrupted: %s is not what the undisturbed run recorded"
                           % h)
    return out


ORACLES = {"usable": usable}


def case(ctx):
    r = ctx.rng
    p = faults.any_problem(ctx, r)
    fixed = p.solver.get("type") == "fixed_source"
    kind = "mc" if p.kind == "mc" else "fixed" if fixed else "eigen"
    if kind == "eigen":
        p.solver["max_iter"] = r.choice([1, 3, 6])
    t = r.choice([1, 2, 3])
    probe = ctx.run(oracle.base_job(p, t), role="probe")
    if not probe.ok:
        return ctx.skip("reference run refused (%s)" % probe.ended)
    sched = oracle.schedule(r, probe.events) if t > 1 and r.random() < 0.6 else {}
    ref_job = oracle.base_job(p, t, io_trace=1, **sched)
    name = p.case() + ".h5"
    if r.random() < 0.6:
        ref_job["files"] = dict(ref_job["files"])
        ref_job["files"][name] = ctx.sim.mkh5({"earlier": np.arange(5.0)})
    ref_job.update(oracle.limits(probe))
    ref = ctx.run(ref_job, role="ref", cached=True)
    if not ref.ok:
        return ctx.skip("reference run refused (%s)" % ref.ended)
    # moments: the event of every line shown, in order
    marks = [0]
    n = 0
    final = None
    for i, (k, path, size, ret, ev) in enumerate(ref.io):
        if path == "<screen>":
            for c in ref.screen[n:n + size]:
                if c == "\n":
                    marks.append(ev)
            n += size
        if k == "wopen" and path == name:
            final = (i, ev)
    marks.append(ref.events)
    # an iteration in progress may be finished under another schedule
    base = dict(oracle="usable", loose=[1e-3, 1e-6] if t > 1 else [0, 0],
                ref=ref_job, kind=kind, case=p.case(),
                names=faults.outputs(p, ref))
    for i in range(10 if ctx.tier == "quick" else 25):
        if ctx.late():
            return
        job = oracle.base_job(p, t, **sched)
        job["files"] = ref_job["files"]
        job.update(oracle.limits(probe))
        job["wall_ms"] = 5000
        u = r.random()
        if u < 0.6:
            q = r.randrange(len(marks) - 1)
            at = r.randint(marks[q], marks[q + 1]) + r.choice([0, 0, 1])
            job["sig_event"] = max(1, at)
            writing = final and at >= final[1]
        elif u < 0.85 or kind == "fixed":
            at = r.randrange(len(ref.io)) if r.random() < 0.5 or not final else \
                r.randrange(final[0], len(ref.io))
            job["sig_io"] = at
            writing = final and at >= final[0]
        else:
            at = r.randint(1, ref.events)
            job["sig_event"] = at
            job["sig_event2"] = at + int(10 ** r.uniform(0, 6))
            writing = final and at >= final[1]
        ctx.check(dict(base, job=job, writing=bool(writing)))
        x = ctx.last["x"]
        if x.signals:
            ctx.key(p.summary(), sorted(sched.items()), u < 0.6 or u >= 0.85, at)
        if i == 0:
            ctx.sample("%s threads %d %s | signal at %s -> %s" %
                       (p.summary(), t, sched.get("policy"), at, x.ended))
