"""C07: iteration history and convergence claims are truthful and bounded."""
import re

import numpy as np

import oracle
import work

ID = "C07"
LEVEL = "exploration"
CASES = dict(quick=7200, thorough=60000)
RULE = ("random eigenvalue, fixed-source and Monte Carlo problems with random "
        "tolerances and limits (loose, tight, zero, unreachable, non-finite "
        "data) under random team sizes, schedules and clocks; the screen, the "
        "log and the result file of each run are checked against each other "
        "and against the requested criteria; non-trivial = a run that recorded "
        "at least two iterations, distinct = different sequence of switches")

NUM = r"(-?(?:\d+\.?\d*(?:e[+-]?\d+)?|nan|inf))"
ITER = re.compile(r"^\s*" + NUM + r"\s+(\d+)\s+" + NUM + r"\s+" + NUM + r"\s+" + NUM + r"$")
CMFD = re.compile(r"^\s*" + NUM + r"\s+(\d+)\s+" + NUM + r"\s+" + NUM + r"\s+" + NUM +
                  r"\s+" + NUM + r"$")
FIXED = re.compile(r"^(\d+) " + NUM + "$")
MC = re.compile(r"^\s+(-?\d+)\s+" + NUM + r"((?:\s+" + NUM + r"){4})?$")


def solving(text):
    """What is reported from the start of the solve on."""
    return text[max(0, text.rfind("Running with")):]


def progress(text):
    """[(iteration, k, error k, error psi, k of the last acceleration)]"""
    out = []
    kc = None
    for l in solving(text).split("\n"):
        m = CMFD.match(l)
        if m:
            kc = float(m.group(3))
            continue
        m = ITER.match(l)
        w = m.groups() if m else None
        if not m and len(l) >= 70:
            # wide values may leave no blank between the columns
            w = [l[:14], l[14:28], l[28:-28], l[-28:-14], l[-14:]]
            if not all(re.match(r"^\s*" + NUM + "$", q) for q in w) or "." in w[1]:
                w = None
        if w:
            out.append((int(w[1]), float(w[2]), float(w[3]), float(w[4]), kc))
            kc = None
    return out


def near(a, b, rel, abs_):
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


def solution_finite(d):
    """Eigenvalue, residuals, fluxes and powers; correction factors may be
    undefined where no ray passes."""
    part = ("convergence", "flux", "fsr_flux", "pin_powers")
    return oracle.finite({q: v for q, v in d.items()
                          if q.strip("/").split("/")[0] in part})


def psi_error(model, d0, d1):
    """Normalised change of the fission source between two region fluxes."""
    def source(d):
        f = 0.0
        for g in range(model["ng"]):
            f = f + np.array(model["nf"])[:, g] * d["fsr_flux/%03d" % (g + 1)].ravel()
        return f * (f > 0).sum() / f.sum()
    e = source(d1) - source(d0)
    n = sum(1 for q in model["nf"] if max(q) > 0)
    return float(np.sqrt((e * e).sum() / n))


def eigen(ctx, spec):
    """One eigenvalue run against its own claims."""
    x = ctx.run(spec["job"], role="x")
    if x.hung:
        return ["run does not end (%s)" % x.ended]
    s = spec["limits"]
    log = x.files.get(spec["case"] + ".log", b"").decode(errors="replace")
    shown, logged = progress(x.screen), progress(log)
    out = []
    n = len(shown)
    if repr([t[:4] for t in shown]) != repr([t[:4] for t in logged]):
        out.append("screen and log show different iterations (%d and %d)" %
                   (n, len(logged)))
    if [t[0] for t in shown] != list(range(1, n + 1)):
        out.append("iterations shown are numbered %s" % [t[0] for t in shown][:20])
    if n > s["max_iter"]:
        out.append("%d iterations performed, %d allowed" % (n, s["max_iter"]))
    sat = x.screen.count("Convergence criteria satisfied")
    mx = x.screen.count("Maximum number of iterations reached")
    kt, pt = float(np.float32(s["k_tol"])), float(np.float32(s["psi_tol"]))
    if not x.ok:
        if any(not np.isfinite(v) for t in shown for v in t[1:4]) and sat:
            out.append("convergence claimed with a non-finite residual")
        if spec.get("must_end_well"):
            out.append("run ended with %s instead of success" % x.ended)
        return out
    f = x.files.get(spec["case"] + ".h5")
    d = None if f is None else ctx.h5(f)
    if d is None:
        return out + ["no readable result file"]
    k, ek, ep = (d["convergence/" + q].ravel() for q in ("k", "error_k", "error_psi"))
    for name in ("convergence/" + q for q in ("k", "error_k", "error_psi",
                                              "iteration_time")):
        if d[name].size != n:
            out.append("%s has %d entries, %d iterations were shown" %
                       (name, d[name].size, n))
    if out:
        return out
    if n and not solution_finite(d):
        out.append("success with a non-finite solution")
        return out
    for i, t in enumerate(shown):
        if not (near(t[1], k[i], 0, 6e-11) and near(t[2], ek[i], 6e-7, 1e-300) and
                near(t[3], ep[i], 6e-7, 1e-300)):
            out.append("iteration %d shown as %r, recorded as %r" %
                       (i + 1, t[1:4], (k[i], ek[i], ep[i])))
            break
    good = [bool(ek[i] < kt and ep[i] < pt and i + 1 > s["min_iter"]) for i in range(n)]
    if any(good[:-1]):
        out.append("criteria met at iteration %d but %d were performed" %
                   (good.index(True) + 1, n))
    if n and bool(sat) != good[-1]:
        out.append("convergence %s, last residuals %g %g, tolerances %g %g, "
                   "iteration %d, minimum %d" %
                   ("claimed" if sat else "not claimed", ek[-1], ep[-1], kt, pt, n,
                    s["min_iter"]))
    if n and not good[-1] and n < s["max_iter"]:
        out.append("gave up after %d of %d iterations" % (n, s["max_iter"]))
    if n and bool(mx) != (not good[-1]):
        out.append("maximum %s, converged: %s" %
                   ("announced" if mx else "not announced", good[-1]))
    if sat + mx > 1:
        out.append("outcome announced %d times" % (sat + mx))
    if not s["cmfd"]:
        prev = np.concatenate([[1.0], k[:-1]])
        e = np.abs(np.abs(k - prev) - ek)
        if n and e.max() > 1e-12 * max(1.0, np.abs(k).max()):
            i = int(e.argmax())
            out.append("iteration %d: recorded change of k %.15g, k went from "
                       "%.15g to %.15g" % (i + 1, ek[i], prev[i], k[i]))
    else:
        for i, t in enumerate(shown):
            if t[4] is not None and abs(abs(k[i] - t[4]) - ek[i]) > 1.1e-10:
                out.append("iteration %d: recorded change of k %.12g, k went from "
                           "%.12g to %.12g" % (i + 1, ek[i], t[4], k[i]))
                break
    # source residuals against the region fluxes of consecutive dumps
    if spec.get("psi"):
        for i in range(1, n):
            a, b = (x.files.get("%s_iter_%d.h5" % (spec["case"], j)) for j in (i, i + 1))
            a, b = (None if q is None else ctx.h5(q) for q in (a, b))
            if not a or not b:
                continue
            if any((v < 0).any() for q in (a, b) for n, v in q.items()
                   if n.startswith("fsr_flux")):
                # divergence: what the source is normalised to is arbitrary
                break
            e = psi_error(spec["psi"], a, b)
            if not near(e, ep[i], 1e-6, 1e-12):
                out.append("iteration %d: recorded source change %.12g, of the "
                           "dumped fluxes %.12g" % (i + 1, ep[i], e))
                break
    if n >= 2:
        ctx.stat["note runs with two or more iterations"] += 1
    return out


def fixed(ctx, spec):
    x = ctx.run(spec["job"], role="x")
    if x.hung:
        return ["run does not end (%s)" % x.ended]
    s = spec["limits"]
    log = x.files.get(spec["case"] + ".log", b"").decode(errors="replace")
    pick = lambda t: [(int(m.group(1)), float(m.group(2))) for m in
                      map(FIXED.match, solving(t).split("\n")) if m]
    shown = pick(x.screen)
    out = []
    n = len(shown)
    if shown != pick(log) and repr(shown) != repr(pick(log)):
        out.append("screen and log show different iterations")
    if [t[0] for t in shown] != list(range(n)):
        out.append("iterations shown are numbered %s" % [t[0] for t in shown][:20])
    if n > s["max_iter"]:
        out.append("%d iterations performed, %d allowed" % (n, s["max_iter"]))
    if not x.ok:
        if spec.get("must_end_well"):
            out.append("run ended with %s instead of success" % x.ended)
        return out
    f = x.files.get(spec["case"] + ".h5")
    d = None if f is None else ctx.h5(f)
    if d is None:
        return out + ["no readable result file"]
    if not solution_finite(d):
        return out + ["success with a non-finite solution"]
    tol = float(np.float32(s["flux_tol"]))
    good = [t[1] < tol for t in shown]
    if n == 0:
        return out + ["no iterations performed"]
    if any(good[:-1]):
        out.append("criterion met at iteration %d but %d were performed" %
                   (good.index(True) + 1, n))
    mx = x.screen.count("of iterations performed before convergence")
    if not good[-1] and n < s["max_iter"]:
        out.append("gave up after %d of %d iterations" % (n, s["max_iter"]))
    if (mx == 1) != (not good[-1]) or mx > 1:
        out.append("missing convergence announced %d times, last residual %g, "
                   "tolerance %g" % (mx, shown[-1][1], tol))
    if spec.get("step"):
        # the residual is the distance between the fluxes before and after
        a = ctx.run(spec["step"], role="before")
        fa = a.files.get(spec["case"] + ".h5")
        da = None if not a.ok or fa is None else ctx.h5(fa)
        if da:
            e = 0.0
            for g in range(spec["ng"]):
                q = "fsr_flux/%03d" % (g + 1)
                e += float(((d[q] - da[q]) ** 2).sum())
            e = e ** 0.5
            if not near(e, shown[-1][1], 1e-6, 1e-12):
                out.append("last residual %.12g, the flux changed by %.12g" %
                           (shown[-1][1], e))
    if n >= 2:
        ctx.stat["note runs with two or more iterations"] += 1
    return out


def montecarlo(ctx, spec):
    x = ctx.run(spec["job"], role="x")
    if x.hung:
        return ["run does not end (%s)" % x.ended]
    log = x.files.get(spec["case"] + ".log", b"").decode(errors="replace")
    pick = lambda t: [(int(m.group(1)), float(m.group(2)), (m.group(3) or "").split())
                      for m in map(MC.match, solving(t).split("\n")) if m]
    shown = pick(x.screen)
    out = []
    if shown != pick(log) and repr(shown) != repr(pick(log)):
        out.append("screen and log show different cycles")
    if not x.ok:
        if spec.get("must_end_well"):
            out.append("run ended with %s instead of success" % x.ended)
        return out
    f = x.files.get(spec["case"] + ".h5")
    d = None if f is None else ctx.h5(f)
    if d is None:
        return out + ["no readable result file"]
    k = d["k_history_tl"]
    n = spec["cycles"]
    if len(shown) != n or len(k) != n or len(d["h_history"]) != n:
        return out + ["%d cycles shown, %d and %d recorded, %d requested" %
                      (len(shown), len(k), len(d["h_history"]), n)]
    first = 1 - spec["inactive"]
    if [t[0] for t in shown] != list(range(first, first + n)):
        out.append("cycles shown are numbered %s" % [t[0] for t in shown])
    for i, t in enumerate(shown):
        if not near(t[1], k[i], 6e-5, 1e-12):
            out.append("cycle %d shown as %g, recorded as %g" % (t[0], t[1], k[i]))
            break
        a = i - spec["inactive"]
        if (a >= 0) != bool(t[2]):
            out.append("cycle %d: means shown in an inactive cycle or missing" % t[0])
            break
        if a >= 0:
            w = (d["k_mean_history_tl"][a], d["k_stdev_history_tl"][a],
                 d["k_mean_history_col"][a], d["k_mean_history_analog"][a])
            if not all(near(float(u), v, 6e-5, 1e-7) for u, v in zip(t[2], w)):
                out.append("cycle %d shows %s, recorded are %s" % (t[0], t[2], w))
                break
    ctx.stat["note runs with two or more iterations"] += 1
    return out


ORACLES = {"eigen": eigen, "fixed": fixed, "montecarlo": montecarlo}


def eigen_spec(ctx, r):
    kind = r.choice(["moc", "moc", "moc", "sn", "sn", "2d3d", "moc_2d3d"])
    p = work.rand_problem(r, kind)
    if kind == "2d3d":
        p.sweeper.pop("expose_sn", None)
    u = r.random()
    if u < 0.06:
        # nothing multiplies: the eigenvalue is not a number
        for m in p.mats:
            m["nf"] = [0.0] * p.ng
            m["f"] = [0.0] * p.ng
    mi = r.choice([0, 1, 1, 2, 3, 5, 8, 20, 40] if kind != "2d3d" else [1, 2, 3, 5])
    if mi == 0 and r.random() < 0.7:
        mi = 6
    p.solver.update(max_iter=mi, k_tol=r.choice(["1e-1", "1e-2", "1e-3", "1e-4", "1e-6", "1e-12"]),
                    psi_tol=r.choice(["1", "1e-1", "1e-2", "1e-3", "1e-4", "1e-6", "1e-12"]))
    lo = 0
    if r.random() < 0.5:
        lo = r.randint(0, mi)
        p.solver["min_iter"] = lo
    acc = p.cmfd is not None and p.cmfd.get("enabled") != "f"
    spec = dict(oracle="eigen", case=p.case(),
                limits=dict(max_iter=mi, min_iter=lo, cmfd=acc,
                            k_tol=p.solver["k_tol"], psi_tol=p.solver["psi_tol"]))
    if kind == "moc" and not acc and r.random() < 0.5 and mi:
        p.subplanes = [1] * p.nz
        p.sweeper["dump_fsr_flux"] = "t"
        p.dumps = list(range(1, mi + 1))
        spec["psi"] = dict(ng=p.ng, nf=[p.mats[q[2]]["nf"] for q in p.regions()])
    return p, spec


def fixed_spec(ctx, r):
    p = work.rand_problem(r, r.choice(["moc", "moc", "sn"]), cmfd=False)
    p.subplanes = [1] * p.nz
    bad = r.random() < 0.1
    work.make_fixed(ctx.sim, r, p, bad)
    if p.kind == "moc":
        p.sweeper["dump_fsr_flux"] = "t"
    spec = dict(oracle="fixed", case=p.case(), ng=p.ng,
                limits=dict(max_iter=p.solver["max_iter"], flux_tol=p.solver["flux_tol"]))
    return p, spec


def mc_spec(ctx, r):
    p = work.rand_problem(r, "mc")
    inactive = int(p.solver["inactive_cycles"])
    return p, dict(oracle="montecarlo", case=p.case(), inactive=inactive,
                   cycles=int(p.solver["cycles"]) + 1)


def case(ctx):
    r = ctx.rng
    p, spec = r.choice([eigen_spec] * 4 + [fixed_spec] * 2 + [mc_spec])(ctx, r)
    first = dict(spec, job=oracle.base_job(p, 1))
    ctx.check(first)
    ref = ctx.last["x"]
    if not ref.ok:
        ctx.stat["skipped further schedules (%s)" % ref.ended] += 1
        return
    if spec["oracle"] == "fixed" and p.kind == "moc":
        n = len([1 for l in solving(ref.screen).split("\n") if FIXED.match(l)])
        if n > 1:
            q = p.copy()
            q.solver = dict(p.solver, max_iter=n - 1)
            ctx.check(dict(first, step=oracle.base_job(q, 1)))
    # an acceleration that diverges is at the mercy of rounding
    sound = spec["oracle"] != "eigen" or not oracle.diverges(ref.screen)
    for i in range(4):
        if ctx.late():
            return
        t = r.choice([1, 2, 3, 4, 8])
        job = oracle.base_job(p, t, **oracle.limits(ref))
        if t > 1:
            job.update(oracle.schedule(r, ref.events))
        u = r.random()
        if u < 0.15:
            job["clock"] = "frozen"
        elif u < 0.3:
            job["jumps"] = [(r.randrange(max(1, ref.clock_reads)),
                             r.choice([-1e6, -10.0, 5.0, 1e7]))]
        ctx.check(dict(spec, job=job, must_end_well=sound))
        if i == 0:
            ctx.sample("%s %s | T=%d %s -> %s" % (spec["oracle"], p.summary(), t,
                       job.get("policy", "none"), ctx.last["x"].ended))
