"""C24: a fixed-source solution answers for exactly the source it was given."""
import numpy as np

import oracle
import work

ID = "C24"
LEVEL = "exploration"
CASES = dict(quick=2700, thorough=24000)
RULE = ("random MoC and Sn fixed-source problems with random external sources "
        "converged tightly under random team sizes, schedules and initial "
        "memory contents; in closed (all reflective) problems the removal of "
        "every group is compared with what the input file supplies, in open "
        "ones the flux of a scaled or split source with the scaled or summed "
        "flux; non-trivial = at least one preemption, distinct = different "
        "sequence of switches")
TOL = 2e-5


def fluxes(model, d):
    ng = model["ng"]
    if model["kind"] == "moc":
        return np.array([d["fsr_flux/%03d" % (g + 1)].ravel() for g in range(ng)])
    return np.array([d["flux/%03d" % (g + 1)].ravel() for g in range(ng)])


def load(ctx, x, case):
    f = x.files.get(case + ".h5")
    return None if not x.ok or f is None else ctx.h5(f)


def balance(ctx, spec):
    """Removal minus in-scatter over the closed problem equals the source."""
    x = ctx.run(spec["job"], role="x")
    if "performed before convergence" in x.screen or not x.ok:
        return []
    d = load(ctx, x, spec["case"])
    if d is None:
        return ["no readable result file"]
    m = spec["model"]
    phi = fluxes(m, d)
    if m["kind"] == "sn" and (phi <= 0).any():
        # cells too thick for diamond differencing: the method gives a negative
        # flux, which is reported as zero
        ctx.stat["note runs left out, negative flux"] += 1
        return []
    vol, mat = np.array(m["vol"]), m["mat"]
    q = np.array(spec["source"]).reshape(m["ng"], -1)
    if phi.shape != q.shape:
        return ["flux of %d regions instead of %d" % (phi.shape[1], q.shape[1])]
    net, sup, big = [], [], []
    for g in range(m["ng"]):
        tot = np.array([m["mats"][i]["abs"][g] + sum(r[g] for r in m["mats"][i]["sc"])
                        for i in mat])
        a = tot * phi[g]
        for h in range(m["ng"]):
            a = a - np.array([m["mats"][i]["sc"][g][h] for i in mat]) * phi[h]
        net.append(float((a * vol).sum()))
        big.append(float((tot * phi[g] * vol).sum()))
        sup.append(float((q[g] * vol).sum()))
    net, sup, big = np.array(net), np.array(sup), np.array(big)
    s = 1.0
    if m["kind"] == "sn":
        # the reported flux is normalised: one common factor
        s = float((sup * net).sum() / (net * net).sum())
    e = np.abs(s * net - sup) / (sup.max() + s * big)
    if e.max() > TOL:
        g = int(e.argmax())
        return ["group %d: source %.10g, net removal %.10g" % (g + 1, sup[g], s * net[g])]
    ctx.stat["note balances computed"] += 1
    return []


def combine(ctx, spec):
    """The flux of a weighted sum of sources is the weighted sum of fluxes."""
    x = ctx.run(spec["job"], role="x")
    parts = [ctx.run(j, role="part%d" % i, cached=True)
             for i, j in enumerate(spec["parts"])]
    if any("performed before convergence" in y.screen or not y.ok for y in [x] + parts):
        return []
    d = load(ctx, x, spec["case"])
    if d is None:
        return ["no readable result file"]
    a = fluxes(spec["model"], d)
    b = sum(w * fluxes(spec["model"], load(ctx, y, spec["case"]))
            for w, y in zip(spec["weights"], parts))
    e = np.abs(a - b)
    if e.max() > TOL * np.abs(b).max():
        g, i = np.unravel_index(int(e.argmax()), e.shape)
        return ["group %d region %d: flux %.10g, sum of the parts %.10g" %
                (g + 1, i, a[g, i], b[g, i])]
    ctx.stat["note superpositions compared"] += 1
    return []


ORACLES = {"balance": balance, "combine": combine}


def case(ctx):
    r = ctx.rng
    closed = r.random() < 0.6
    kind = r.choice(["moc", "sn"]) if closed else "moc"
    p = work.rand_problem(r, kind, cmfd=False, three_d=r.random() < 0.3,
                          uniform_pins=kind == "sn")
    p.subplanes = [1] * p.nz
    p.cmfd = None
    if closed:
        p.bc = dict.fromkeys(p.bc, "reflect")
    if kind == "sn":
        p.sweeper.update(equation="dd", axial="dd")
    else:
        p.sweeper["dump_fsr_flux"] = "t"
        p.sweeper.pop("tl_splitting", None)
    work.make_fixed(ctx.sim, r, p)
    p.solver.update(max_iter=3000, flux_tol="1e-10")
    reg = p.regions()
    if kind == "moc":
        vol, mat = [q[1] for q in reg], [q[2] for q in reg]
    else:
        n = max(q[0] for q in reg) + 1
        vol, mat = [0.0] * n, [0] * n
        for c, v, m in reg:
            vol[c] += v
            mat[c] = m
    model = dict(kind=kind, ng=p.ng, vol=vol, mat=mat,
                 mats=[{k: m[k] for k in ("abs", "sc")} for m in p.mats])
    rs = np.random.RandomState(r.getrandbits(31))
    shape = (p.ng, len(vol))
    src = rs.rand(*shape) * (rs.rand(*shape) < r.choice([0.2, 0.6, 1.0]))
    src[rs.randint(p.ng), rs.randint(shape[1])] += 1.0

    def job(q, t=1, **kw):
        c = p.copy()
        c.more_files = {"src.h5": ctx.sim.mkh5({"source": q})}
        return oracle.base_job(c, t, **kw)

    ref = ctx.run(job(src), role="ref")
    if not ref.ok:
        return ctx.skip("reference run refused (%s)" % ref.ended)
    if "performed before convergence" in ref.screen:
        return ctx.skip("not converged")
    if closed:
        spec = dict(oracle="balance", source=src.ravel().tolist())
    else:
        w = [r.choice([0.5, 2.0, 3.0]), r.choice([0.25, 1.0])]
        other = rs.rand(*shape)
        spec = dict(oracle="combine", weights=w, parts=[job(src), job(other)])
        src = w[0] * src + w[1] * other
    spec.update(case=p.case(), model=model)
    ctx.check(dict(spec, job=job(src)))
    for i in range(3):
        if ctx.late():
            return
        t = r.choice([1, 2, 3, 4, 8])
        j = job(src, t, **oracle.limits(ref))
        if t > 1:
            j.update(oracle.schedule(r, ref.events))
        if r.random() < 0.5:
            j["heap_fill"] = r.choice([0, 127, 255, 256])
        ctx.check(dict(spec, job=j))
        if i == 0:
            ctx.sample("%s %s | T=%d %s heap=%s -> %s" % (
                spec["oracle"], p.summary(), t, j.get("policy", "none"),
                j.get("heap_fill"), ctx.last["x"].ended))
