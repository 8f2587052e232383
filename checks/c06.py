"""C06: converged solutions conserve neutrons in every cell and group."""
import numpy as np

import oracle
import work

ID = "C06"
LEVEL = "exploration"
CASES = dict(quick=2100, thorough=18000)
RULE = ("random MoC and Sn eigenvalue problems converged tightly under random "
        "team sizes and schedules; for each run that reports convergence the "
        "balance of every cell and group is computed from the output file and "
        "the input cross sections; non-trivial = converged run with at least one "
        "preemption, distinct = different sequence of switches")
TOL = 2e-5


def balance(model, d):
    """Messages for cells and faces that do not balance."""
    ng = model["ng"]
    reg = [tuple(q) for q in model["regions"]]
    vol = np.array([q[1] for q in reg])
    cell = np.array([q[0] for q in reg])
    mats = model["mats"]
    nz, ny, nx = model["shape"]
    nc = nz * ny * nx
    k = float(d["convergence/k"][-1])
    phi = []
    for g in range(ng):
        if model["kind"] == "moc":
            phi.append(d["fsr_flux/%03d" % (g + 1)].ravel())
        else:
            phi.append(d["flux/%03d" % (g + 1)].ravel()[cell])
    if any(len(f) != len(reg) for f in phi):
        return ["flux of %d regions instead of %d" % (len(phi[0]), len(reg))], 0.0
    col = lambda key, g: np.array([mats[q[2]][key][g] for q in reg])
    fis = sum(col("nf", g) * phi[g] for g in range(ng)) / k
    out = []
    rem, net, leak, faces = [], [], [], []
    for g in range(ng):
        tot = np.array([mats[q[2]]["abs"][g] + sum(row[g] for row in mats[q[2]]["sc"])
                        for q in reg])
        src = col("chi", g) * fis
        for h in range(ng):
            src = src + np.array([mats[q[2]]["sc"][g][h] for q in reg]) * phi[h]
        a = np.zeros(nc)
        np.add.at(a, cell, tot * phi[g] * vol)
        b = np.zeros(nc)
        np.add.at(b, cell, (tot * phi[g] - src) * vol)
        rem.append(a)
        net.append(b)
        # current densities times face areas
        side = np.repeat(np.array(model["hz"]), ny * nx) * model["pitch"]
        J = {s: d["current/%d/%s" % (g + 1, s)].ravel() *
             (model["pitch"] ** 2 if s in ("top", "bottom") else side)
             for s in ("north", "south", "east", "west", "top", "bottom")}
        leak.append(J["east"] - J["west"] + J["north"] - J["south"] +
                    J["top"] - J["bottom"])
        faces.append({s: v.reshape(nz, ny, nx) for s, v in J.items()})
    rem, net, leak = np.array(rem), np.array(net), np.array(leak)
    s = 1.0
    if model["kind"] == "sn":
        # the flux is normalised, the currents are not: one common factor
        den = float((net * net).sum())
        if den > (1e-4 * rem.max()) ** 2:
            s = -float((leak * net).sum()) / den
            if not s > 0:
                return ["leakage and net removal have opposite signs"], 1.0
        else:
            # nothing leaks: both sides must vanish by themselves
            jmax = max(float(np.abs(v).max()) for f in faces for v in f.values())
            s = jmax / rem.max() if jmax > 1e-3 else 1.0
    # convergence is judged on the whole: a group with next to no flux is left
    # with the error of the others
    scale = s * np.maximum(rem.max(axis=1, keepdims=True), 1e-2 * rem.max())
    e = np.abs(leak + s * net) / scale
    w = float(e.max())
    if w > TOL:
        g, c = np.unravel_index(int(e.argmax()), e.shape)
        out.append("cell %d group %d: leakage %.10g + removal %.10g != production "
                   "%.10g" % (c, g + 1, leak[g, c], s * rem[g, c],
                              s * (rem[g, c] - net[g, c])))
    edge = dict(west=(slice(None), slice(None), 0), east=(slice(None), slice(None), -1),
                south=(slice(None), 0), north=(slice(None), -1),
                bottom=(0,), top=(-1,))
    for g in range(ng):
        for side, ix in edge.items():
            if model["bc"][side] != "reflect":
                continue
            j = float(np.abs(faces[g][side][ix]).max()) / float(scale[g, 0])
            w = max(w, j)
            if j > TOL:
                out.append("group %d: relative current %.3g through the reflective "
                           "%s face" % (g + 1, j, side))
    # the current leaving one cell enters its neighbour
    for g in range(ng):
        f = faces[g]
        for a, b, ax in (("east", "west", 2), ("north", "south", 1), ("top", "bottom", 0)):
            n = f[a].shape[ax]
            if n < 2:
                continue
            u = np.take(f[a], range(n - 1), axis=ax)
            v = np.take(f[b], range(1, n), axis=ax)
            if np.abs(u - v).max() > TOL * scale[g, 0]:
                out.append("group %d: %s current of a cell differs from its "
                           "neighbour's" % (g + 1, a))
    return out, w


def conserve(ctx, spec):
    x = ctx.run(spec["job"], role="x")
    if not x.ok or "Convergence criteria satisfied" not in x.screen:
        return []
    f = x.files.get(spec["case"] + ".h5")
    d = None if f is None else ctx.h5(f)
    if d is None:
        return ["no readable result file"]
    if spec["model"]["kind"] == "sn" and any(
            (v <= 0).any() for n, v in d.items() if n.startswith("flux/")):
        # cells too thick for diamond differencing: the method gives a negative
        # flux, which is reported as zero
        ctx.stat["note runs left out, negative flux"] += 1
        return []
    if not oracle.settled(d):
        ctx.stat["note runs left out, convergence by accident"] += 1
        return []
    ctx.stat["note converged runs"] += 1
    m, w = balance(spec["model"], d)
    ctx.worst = max(getattr(ctx, "worst", 0.0), w)
    return m


ORACLES = {"conserve": conserve}


def problem(r):
    kind = r.choice(["moc", "sn"])
    p = work.rand_problem(r, kind, cmfd=r.random() < 0.4,
                          three_d=r.random() < (0.6 if kind == "sn" else 0.15),
                          uniform_pins=kind == "sn")
    p.solver.update(k_tol="1e-9", psi_tol="1e-9", max_iter=1500, cmfd="t")
    if kind == "sn":
        # corrected differencing is not conservative without corrections
        p.sweeper.update(equation="dd", axial=r.choice(["dd", "sc"]))
        if p.nz == 1:
            # the differencing of an undivided axis is immaterial
            p.bc["top"] = p.bc["bottom"] = "reflect"
    if kind == "moc" and p.nz > 1:
        # planes of a pure MoC problem are independent of each other, the axial
        # currents of the acceleration are not part of its balance
        p.cmfd = None
    if p.cmfd is None or p.cmfd.get("enabled") == "f":
        p.cmfd = dict(enabled="f", dump_current="t")
    else:
        p.cmfd = dict(dump_current="t", k_tol="1e-11", psi_tol="1e-11",
                      residual_reduction="1e-8", max_iter=100)
    p.subplanes = [1] * p.nz
    if kind == "moc":
        p.sweeper["dump_fsr_flux"] = "t"
        p.sweeper.pop("tl_splitting", None)
        # a region that few rays cross keeps to itself, and without fission it
        # goes on converging after the fission source has settled
        small = any(q["type"] == "cyl" and
                    (q["azi"] > 4 or max(q["sub_r"]) > 1 or len(q["radii"]) > 1 or
                     q["radii"][0] < 0.3) for q in p.pins)
        p.rays = (r.choice([0.07, 0.1] if small else [0.1, 0.15]),) + tuple(p.rays[1:])
        p.solver["min_iter"] = 60
    return p


def case(ctx):
    r = ctx.rng
    p = problem(r)
    model = dict(kind=p.kind, ng=p.ng, regions=p.regions(),
                 mats=[{k: m[k] for k in ("abs", "nf", "chi", "sc")} for m in p.mats],
                 shape=(p.nz, p.ny * p.cy, p.nx * p.cx), bc=p.bc,
                 pitch=p.pitch, hz=[h for h, _ in p.planes()])
    first = dict(oracle="conserve", case=p.case(), model=model,
                 job=oracle.base_job(p, 1, max_events=3_000_000_000))
    ctx.check(first)
    ref = ctx.last["x"]
    if not ref.ok:
        return ctx.skip("run refused (%s)" % ref.ended)
    if "Convergence criteria satisfied" not in ref.screen:
        return ctx.skip("not converged")
    for i in range(4 if ref.events < 60_000_000 else 2):
        if ctx.late():
            return
        t = r.choice([2, 3, 4, 8])
        job = oracle.base_job(p, t, **oracle.limits(ref))
        job.update(oracle.schedule(r, ref.events))
        ctx.check(dict(first, job=job))
        if i == 0:
            ctx.sample("%s | T=%d %s -> %s, worst imbalance %.2g" % (
                p.summary(), t, job["policy"], ctx.last["x"].ended,
                getattr(ctx, "worst", 0)))
