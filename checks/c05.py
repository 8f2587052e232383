"""C05: Monte Carlo tallies count every track exactly once."""
import numpy as np

import oracle
import schedcheck
import work

ID = "C05"
LEVEL = "exploration"
CASES = dict(quick=3600, thorough=32000)
RULE = ("random Monte Carlo problems under random team sizes and schedules; "
        "each run's independently scored tallies are checked against each other "
        "and against the per-cycle estimates of a sequential run; non-trivial = "
        "at least one preemption inside a parallel region, distinct = different "
        "sequence of switches")


def conservation(p, d, inactive):
    """Identities between the tallies of one output file."""
    out = []
    reg = [tuple(q) for q in p["regions"]]
    vol = np.array([q[1] for q in reg])
    cell = np.array([q[0] for q in reg])
    nc = int(cell.max()) + 1
    cv = np.zeros(nc)
    np.add.at(cv, cell, vol)
    ktl = kcol = 0.0
    power = np.zeros(nc)
    for g in range(p["ng"]):
        n = "%03d" % (g + 1)
        ff, fc = d["fsr_flux/" + n], d["fsr_flux_col/" + n]
        cf = d["flux/" + n].ravel()
        acc = np.zeros(nc)
        np.add.at(acc, cell, ff * vol)
        e = np.abs(acc - cf * cv)
        if e.max() > 1e-9 * max(1e-3, np.abs(acc).max()):
            i = int(e.argmax())
            out.append("group %d cell %d: coarse flux*volume %.15g, sum over its "
                       "regions %.15g" % (g + 1, i, cf[i] * cv[i], acc[i]))
        nf = np.array([p["nf"][q[2]][g] for q in reg])
        f = np.array([p["f"][q[2]][g] for q in reg])
        ktl += np.sum(nf * ff * vol)
        kcol += np.sum(nf * fc * vol)
        np.add.at(power, cell, f * ff * vol)
    for name, k in (("tl", ktl), ("col", kcol)):
        h = d["k_history_" + name]
        m = float(h[inactive:].mean())
        if abs(m - k) > 1e-8 * max(1e-3, abs(m)):
            out.append("mean of active %s eigenvalues %.15g, production in the "
                       "region tallies %.15g" % (name, m, k))
    pp = d["pin_power"].ravel()
    w = power / cv
    if pp.sum() > 0 and np.abs(pp / pp.sum() - w / w.sum()).max() > 1e-8:
        out.append("pin powers are not the fission rates of the region tallies")
    for name in ("tl", "col", "analog"):
        h = d["k_history_" + name][inactive:]
        mean, dev = d["k_mean_history_" + name], d["k_stdev_history_" + name]
        if len(h) != len(mean) or len(h) != len(dev):
            out.append("%s: %d active cycles, %d means, %d deviations" %
                       (name, len(h), len(mean), len(dev)))
            continue
        for i in range(len(h)):
            x = h[:i + 1]
            if abs(mean[i] - x.mean()) > 1e-10 * max(1.0, abs(x.mean())):
                out.append("%s mean after %d cycles is %.15g, of the recorded "
                           "cycles %.15g" % (name, i + 1, mean[i], x.mean()))
                break
            if i:
                v = max(0.0, ((x * x).mean() - x.mean() ** 2) / i) / x.mean() ** 2
                got = 0.0 if np.isnan(dev[i]) else dev[i] ** 2
                if abs(v - got) > 1e-9:
                    out.append("%s deviation after %d cycles is %.15g, of the "
                               "recorded cycles %.15g" %
                               (name, i + 1, dev[i], v ** 0.5))
                    break
    return out


def tallies(ctx, spec):
    ref = ctx.run(spec["ref"], role="ref", cached=True)
    x = ctx.run(spec["job"], role="x")
    if not ref.ok:
        return []
    if not x.ok:
        return ["run ended with %s instead of success" % x.ended]
    f = x.files.get(spec["case"] + ".h5")
    d = None if f is None else ctx.h5(f)
    if d is None:
        return ["no readable result file"]
    a = ctx.h5(ref.files[spec["case"] + ".h5"])
    out = conservation(spec["model"], d, spec["inactive"])
    n = spec["cycles"]
    for name in ("tl", "col", "analog"):
        k = "k_history_" + name
        if len(d[k]) != n:
            out.append("%s has %d entries for %d cycles" % (k, len(d[k]), n))
            continue
        e = np.abs(a[k] - d[k])
        if e.max() > 1e-10 * max(1e-3, np.abs(a[k]).max()):
            i = int(e.argmax())
            out.append("%s cycle %d: %.15g, sequential run %.15g" %
                       (k, i + 1, d[k][i], a[k][i]))
    return out


ORACLES = {"tallies": tallies}


def case(ctx):
    r = ctx.rng
    p = work.rand_problem(r, "mc")
    inactive = int(p.solver["inactive_cycles"])
    # the program runs one active cycle more than the difference
    cycles = int(p.solver["cycles"]) + 1
    ref_job = oracle.base_job(p, 1)
    ref = ctx.run(ref_job, role="ref", cached=True)
    if not ref.ok:
        return ctx.skip("reference run refused (%s)" % ref.ended)
    model = dict(regions=p.regions(), ng=p.ng, nf=[m["nf"] for m in p.mats],
                 f=[m["f"] for m in p.mats])
    base = dict(oracle="tallies", case=p.case(), model=model, inactive=inactive,
                cycles=cycles, ref=ref_job)
    pcs = set()
    s = ctx.run(oracle.base_job(p, r.choice([2, 3, 4]), scout=1,
                                **oracle.limits(ref)), role="scout")
    for x, y, _ in s.races:
        pcs.update((x, y))
    ctx.check(dict(base, job=oracle.base_job(p, 1, **oracle.limits(ref))))
    for i in range(7 if ctx.tier == "quick" else 16):
        if ctx.late():
            return
        t = r.choice([2, 3, 4, 5, 8, 16])
        job = oracle.base_job(p, t, **oracle.limits(ref))
        job.update(oracle.schedule(r, ref.events, pcs))
        if r.random() < 0.3:
            job["heap_fill"] = r.choice([0, 255, 127, 256])
        ctx.check(dict(base, job=job))
        if i == 0:
            ctx.sample("%s | T=%d %s -> %s, %d preemptions" % (
                p.summary(), t, {k: v for k, v in job.items() if k in
                                 ("policy", "quantum", "depth", "prob", "seed")},
                ctx.last["x"].ended, ctx.last["x"].preemptions))
