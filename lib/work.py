"""Random small problems for mocc, and their XML."""
import copy
import math
import random


def fmt(x):
    return "%.15g" % x


class Problem:
    """A problem description that can be varied and rendered."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def copy(self, **kw):
        p = copy.deepcopy(self)
        p.__dict__.update(kw)
        return p

    # ---------------------------------------------------------- materials
    def xsl(self):
        out = ["random library", " %d %d" % (self.ng, len(self.mats)),
               " " + " ".join(fmt(1e7 / 10 ** g) for g in range(self.ng)), "!"]
        for m in self.mats:
            out.append("XSMACRO %s 0" % m["name"])
            for g in range(self.ng):
                out.append("  %s %s %s %s" % tuple(
                    fmt(m[k][g]) for k in ("abs", "nf", "f", "chi")))
            for to in range(self.ng):
                out.append("  " + " ".join(fmt(m["sc"][to][fr])
                                           for fr in range(self.ng)))
        return "\n".join(out) + "\n"

    # ---------------------------------------------------------- input file
    def xml(self):
        o = []
        if self.case_name:
            o.append("<case_name>%s</case_name>" % self.case_name)
        if self.threads is not None:
            o.append('<parallel num_threads="%d" />' % self.threads)
        o.append(self._solver())
        o.append('<material_lib path="%s">' % self.lib)
        for i, m in enumerate(self.mats):
            o.append('  <material id="%d" name="%s" />' % (i + 1, m["name"]))
        o.append("</material_lib>")
        for i, p in enumerate(self.pins):
            o.append('<mesh id="%d" type="%s" pitch="%s">' %
                     (i + 1, p["type"], fmt(self.pitch)))
            if p["type"] == "cyl":
                o.append("  <radii>%s</radii><sub_radii>%s</sub_radii>"
                         "<sub_azi>%s</sub_azi>" %
                         (" ".join(fmt(r) for r in p["radii"]),
                          " ".join(str(r) for r in p["sub_r"]), p["azi"]))
            else:
                o.append("  <sub_x>%d</sub_x><sub_y>%d</sub_y>" %
                         (p["sx"], p["sy"]))
            o.append("</mesh>")
            o.append('<pin id="%d" mesh="%d"> %s </pin>' %
                     (i + 1, i + 1, " ".join(str(m + 1) for m in p["mats"])))
        for i, lat in enumerate(self.lattices):
            o.append('<lattice id="%d" nx="%d" ny="%d">' %
                     (i + 1, self.nx, self.ny))
            for row in lat:
                o.append("  " + " ".join(str(p + 1) for p in row))
            o.append("</lattice>")
        for i, asy in enumerate(self.assemblies):
            o.append('<assembly id="%d" np="%d">' % (i + 1, self.nz))
            o.append("  <hz>%s</hz>" % " ".join(fmt(h) for h in self.hz))
            blocks = []
            k = 0
            # listed from the top down
            for n in reversed(self.subplanes):
                ids = " ".join(str(asy[k + j] + 1) for j in range(n))
                blocks.append("{%s}" % ids if n > 1 else ids)
                k += n
            o.append("  <lattices> %s </lattices>" % " ".join(blocks))
            o.append("</assembly>")
        o.append('<core nx="%d" ny="%d" %s>' % (
            self.cx, self.cy,
            " ".join('%s="%s"' % b for b in sorted(self.bc.items()))))
        for row in self.core:
            o.append("  " + " ".join(str(a + 1) for a in row))
        o.append("</core>")
        o += self.extra
        return "\n".join(o) + "\n"

    def _quad(self):
        q = self.quad
        if q[0] == "ls":
            return '<ang_quad type="ls" order="%d" />' % q[1]
        if q[0] == "user":
            return '<ang_quad type="user">%s</ang_quad>' % "".join(
                '<angle ox="%r" oy="%r" oz="%r" weight="%r" />' % a for a in q[1])
        return '<ang_quad type="%s" n_azimuthal="%d" n_polar="%d" />' % q

    def _rays(self):
        r = self.rays
        return '<rays spacing="%s" modularity="%s" volume_correction="%s"%s />' % (
            fmt(r[0]), r[1], r[2], ' modularization="%s"' % r[3] if r[3:] else "")

    def _attrs(self, d):
        return "".join(' %s="%s"' % kv for kv in sorted(d.items()))

    def _sweeper(self):
        s = self.sweeper
        k = self.kind
        if k in ("moc", "moc_2d3d"):
            return ('<sweeper type="%s"%s>%s%s</sweeper>' %
                    (k, self._attrs(s), self._quad(), self._rays()))
        if k == "sn":
            return ('<sweeper type="sn"%s>%s%s</sweeper>' %
                    (self._attrs(s), self._quad(), self.sn_data))
        if k == "2d3d":
            return ('<sweeper type="2d3d"%s>%s<moc_sweeper%s>%s</moc_sweeper>'
                    '<sn_sweeper%s /></sweeper>' %
                    (self._attrs(s), self._quad(), self._attrs(self.moc_sub),
                     self._rays(), self._attrs(self.sn_sub)))
        raise ValueError(k)

    def _solver(self):
        s = self.solver
        if self.kind == "mc":
            b = self.box
            return ('<solver type="eigenvalue_mc"%s><fission_box%s /></solver>' %
                    (self._attrs(s), self._attrs(b)))
        inner = []
        if self.cmfd is not None:
            inner.append("<cmfd%s />" % self._attrs(self.cmfd))
        if self.dumps is not None:
            inner.append("<dump_iterations>%s</dump_iterations>" %
                         " ".join(str(d) for d in self.dumps))
        inner.append('<source scattering="P0"%s />' %
                     (' file="%s"' % self.src_file if self.src_file else ""))
        inner.append(self._sweeper())
        return "<solver%s>%s</solver>" % (self._attrs(s), "".join(inner))

    # ---------------------------------------------------------- geometry
    def pin_regions(self, i):
        """[(area, material)] of the flat-source regions of pin i."""
        p = self.pins[i]
        out = []
        if p["type"] == "rect":
            a = self.pitch ** 2 / (p["sx"] * p["sy"])
            return [(a, m) for m in p["mats"]]
        prev = 0.0
        for rad, sub, m in zip(p["radii"], p["sub_r"], p["mats"]):
            a = math.pi * (rad * rad - prev * prev) / sub / p["azi"]
            out += [(a, m)] * (sub * p["azi"])
            prev = rad
        a = (self.pitch ** 2 - math.pi * prev * prev) / p["azi"]
        return out + [(a, p["mats"][-1])] * p["azi"]

    def planes(self):
        """Bottom up: (height, [[pin id per x] per y, bottom row first])."""
        out = []
        for iz in range(self.nz):
            k = self.nz - 1 - iz
            rows = []
            for crow in reversed(self.core):
                for iy in reversed(range(self.ny)):
                    rows.append([self.lattices[self.assemblies[a][k]][iy][ix]
                                 for a in crow for ix in range(self.nx)])
            out.append((self.hz[k], rows))
        return out

    def regions(self):
        """Regions in mesh order: (coarse cell index, volume, material)."""
        out = []
        npx, npy = self.nx * self.cx, self.ny * self.cy
        for iz, (h, rows) in enumerate(self.planes()):
            for acy in range(self.cy):
                for acx in range(self.cx):
                    for iy in range(self.ny):
                        for ix in range(self.nx):
                            x, y = acx * self.nx + ix, acy * self.ny + iy
                            cell = (iz * npy + y) * npx + x
                            for a, m in self.pin_regions(rows[y][x]):
                                out.append((cell, a * h, m))
        return out

    # ---------------------------------------------------------- run pieces
    def input_name(self):
        return self.fname

    def case(self):
        return self.case_name or self.fname.rsplit(".", 1)[0]

    def files(self):
        f = {self.fname: self.xml().encode(), self.lib: self.xsl().encode()}
        f.update(self.more_files)
        return f

    def summary(self):
        return "%s ng=%d pins=%dx%dx%d cores=%dx%d solver=%s sweeper=%s cmfd=%s" % (
            self.kind, self.ng, self.nx, self.ny, self.nz, self.cx, self.cy,
            self.solver, self.sweeper, self.cmfd)


def rand_mats(r, ng, n, rich=False):
    mats = []
    for i in range(n):
        fissile = i == 0 or (i == 1 and r.random() < (0.8 if rich else 0.4))
        full = ng > 1 and r.random() < 0.3
        sc = [[0.0] * ng for _ in range(ng)]
        for fr in range(ng):
            sc[fr][fr] = r.uniform(0.1, 0.6)
            if fr + 1 < ng:
                sc[fr + 1][fr] = r.uniform(0.02, 0.2)
            if fr + 2 < ng and r.random() < 0.5:
                sc[fr + 2][fr] = r.uniform(0.001, 0.05)
            if fr >= 1 and r.random() < 0.25:
                sc[fr - 1][fr] = r.uniform(0.001, 0.02)
            if full:
                # every group to every other one
                for to in range(ng):
                    if to != fr and r.random() < 0.8:
                        sc[to][fr] = r.uniform(0.01, 0.1)
        ab = [r.uniform(0.01, 0.25) for _ in range(ng)]
        if fissile:
            if rich:
                ab = [r.uniform(0.1, 0.4) for _ in range(ng)]
            f = [a * (r.uniform(0.6, 0.9) if rich else r.uniform(0.2, 0.7))
                 for a in ab]
            nf = [x * (r.uniform(2.4, 3.6) if rich else r.uniform(2.2, 2.6))
                  for x in f]
            if r.random() < 0.35:
                w = [r.uniform(0.1, 1.0) for _ in range(ng)]
                chi = [float(fmt(x / sum(w))) for x in w]
            else:
                chi = [1.0] if ng == 1 else (
                    [0.8, 0.2] + [0.0] * (ng - 2) if r.random() < 0.5
                    else [1.0] + [0.0] * (ng - 1))
        else:
            f = nf = chi = [0.0] * ng
        mats.append(dict(name="M%d" % i, abs=ab, nf=nf, f=f, chi=chi, sc=sc))
    return mats


def rand_pin(r, nm, kinds, maxsub=2, uniform=False):
    t = r.choice(kinds)
    if t == "cyl":
        nr = r.choice([1, 1, 2])
        radii = sorted(r.sample([0.2, 0.3, 0.4, 0.45], nr))
        # one ring keeps a material per region: inside rings + outside
        mats = [r.randrange(nm) for _ in range(nr + 1)]
        if uniform:
            mats = [mats[0]] * len(mats)
        return dict(type="cyl", radii=radii,
                    sub_r=[r.choice([1, 1, 2]) for _ in range(nr)],
                    azi=r.choice([4, 4, 8]), mats=mats)
    sx, sy = r.randint(1, maxsub), r.randint(1, maxsub)
    mats = [r.randrange(nm) for _ in range(sx * sy)]
    if uniform:
        mats = [mats[0]] * len(mats)
    return dict(type="rect", sx=sx, sy=sy, mats=mats)


def rand_problem(r, kind, cmfd=None, three_d=None, size=None, **over):
    """kind: moc sn 2d3d moc_2d3d mc"""
    ng = r.choice([1, 2, 2, 3, 3, r.choice([4, 5, 7])])
    nm = r.randint(2, 3)
    mats = rand_mats(r, ng, nm, rich=kind == "mc")
    uniform = over.get("uniform_pins", False)
    kinds = ["rect", "cyl"] if kind != "sn" or r.random() < 0.5 else ["rect"]
    if kind == "sn" and r.random() < 0.5:
        uniform = True
    pins = [rand_pin(r, nm, kinds, uniform=uniform) for _ in range(r.randint(2, 3))]
    # the first pin is always fissile somewhere
    pins[0]["mats"] = [0] * len(pins[0]["mats"]) if uniform else \
        [0] + pins[0]["mats"][1:]
    if size is None:
        nx, ny = r.choice([(1, 1), (2, 1), (1, 2), (2, 2), (2, 2), (3, 2)])
    else:
        nx, ny = size
    if three_d is None:
        three_d = {"moc": r.random() < 0.35, "sn": r.random() < 0.5,
                   "2d3d": r.random() < 0.8, "moc_2d3d": r.random() < 0.3,
                   "mc": r.random() < 0.5}[kind]
    nz = r.choice([2, 2, 3]) if three_d else 1
    cx = 2 if r.random() < 0.2 else 1
    cy = 2 if r.random() < 0.15 else 1
    nlat = r.randint(1, 2)
    lattices = [[[0 if (x == 0 and y == 0 and i == 0) else r.randrange(len(pins))
                  for x in range(nx)] for y in range(ny)] for i in range(nlat)]
    asys = [[0 if z == 0 and a == 0 else r.randrange(nlat) for z in range(nz)]
            for a in range(cx * cy)]
    sub = [1] * nz
    if nz > 1 and kind in ("moc", "2d3d") and r.random() < 0.35:
        # sub-planes must hold the same lattice
        sub = [2] + [1] * (nz - 2)
        for a in asys:
            a[nz - 1] = a[nz - 2]
    side = lambda: r.choice(["reflect", "vacuum"] if kind != "mc" else
                            ["reflect", "reflect", "reflect", "vacuum"])
    bc = {k: side() for k in ("north", "south", "east", "west")}
    if kind in ("moc", "moc_2d3d") or nz == 1:
        bc["top"] = bc["bottom"] = "reflect"
    else:
        bc["top"], bc["bottom"] = side(), side()
    if r.random() < 0.5:
        quad = ("ls", r.choice([2, 4]))
    else:
        quad = (("cg", r.randint(1, 3), r.randint(1, 2)) if r.random() < 0.7
                else ("cy", r.randint(1, 2), 3))
    rays = (r.choice([0.15, 0.2, 0.3, 0.4]), r.choice(["core", "pin"]),
            r.choice(["flat", "flat", "angle", "none"]))
    if rays[2] == "none":
        # few rays and no correction: the method diverges
        rays = (r.choice([0.1, 0.15]),) + rays[1:]
    solver = dict(type="eigenvalue", k_tol="1e-12", psi_tol="1e-12",
                  max_iter=r.choice([2, 3, 4]))
    use_cmfd = kind == "2d3d" or (r.random() < 0.4 if cmfd is None else cmfd)
    cm = None
    sweeper, moc_sub, sn_sub = {}, {}, {}
    box = {}
    if use_cmfd:
        solver["cmfd"] = "t"
        cm = dict(k_tol="1e-10", psi_tol="1e-9", max_iter=r.choice([20, 60]))
        if r.random() < 0.5:
            cm["dump_current"] = "t"
    elif kind == "moc_2d3d" or r.random() < 0.4:
        # currents tallied and reported, no acceleration
        solver["cmfd"] = "t"
        cm = dict(enabled="f", dump_current="t")
    if kind == "moc":
        sweeper = dict(n_inner=r.randint(1, 3))
        if r.random() < 0.6:
            sweeper["boundary_update"] = r.choice(["gs", "jacobi"])
        sweeper["dump_fsr_flux"] = r.choice(["t", "t", "f"])
        if r.random() < 0.2:
            sweeper["tl_splitting"] = "t"
    elif kind == "moc_2d3d":
        sweeper = dict(n_inner=r.randint(1, 2))
        if r.random() < 0.5:
            sweeper["boundary_update"] = r.choice(["gs", "jacobi"])
        sweeper["dump_fsr_flux"] = "t"
    elif kind == "sn":
        sweeper = dict(n_inner=r.randint(1, 3), boundary_update="jacobi")
        if r.random() < 0.6:
            sweeper.update(equation="dd", axial=r.choice(["dd", "sc"]))
        else:
            sweeper.update(equation="cdd", axial=r.choice(["dd", "sc", "fw"]))
    elif kind == "2d3d":
        if r.random() < 0.3:
            sweeper["relax"] = r.choice(["0.5", "0.8"])
        if r.random() < 0.3:
            sweeper["cycle"] = r.choice(["v", "saw"])
        if r.random() < 0.3:
            sweeper["sn_project"] = "t"
        if r.random() < 0.3 and max(sub) == 1:
            sweeper["moc_project"] = "t"
        if r.random() < 0.3:
            sweeper["expose_sn"] = "t"
        if r.random() < 0.4:
            sweeper["dump_corrections"] = "t"
        if r.random() < 0.2:
            sweeper["tl"] = "f"
        if r.random() < 0.2:
            sweeper["inactive_moc"] = "1"
        moc_sub = dict(n_inner=r.randint(1, 2))
        if r.random() < 0.4:
            moc_sub["boundary_update"] = r.choice(["gs", "jacobi"])
        sn_sub = dict(n_inner=r.randint(1, 2), equation="cdd",
                      axial=r.choice(["dd", "sc", "fw"]),
                      boundary_update="jacobi")
    pitch = r.choice([1.0, 1.0, 0.95, 1.26])
    hz = [r.choice([0.5, 1.0, 1.5]) for _ in range(nz)]
    if kind == "mc":
        solver = dict(cycles=r.choice([3, 4, 5]), inactive_cycles=r.choice([1, 2]),
                      particles_per_cycle=r.choice([20, 40, 80]),
                      seed=r.choice([1, 3, 11, 12345]))
        box = dict(x_min=0.0, y_min=0.0, z_min=0.0, x_max=pitch * nx * cx,
                   y_max=pitch * ny * cy, z_max=sum(hz))
        cm = None
    p = Problem(kind=kind, ng=ng, mats=mats, pins=pins, nx=nx, ny=ny, nz=nz,
                lattices=lattices, assemblies=asys, subplanes=sub, hz=hz,
                cx=cx, cy=cy,
                core=[list(range(y * cx, y * cx + cx)) for y in range(cy)], bc=bc, quad=quad, rays=rays,
                solver=solver, cmfd=cm, sweeper=sweeper, moc_sub=moc_sub,
                sn_sub=sn_sub, pitch=pitch, threads=None, case_name=None,
                fname="case.xml", lib="lib.xsl", dumps=None, src_file=None,
                extra=[], more_files={}, box=box, sn_data="")
    for k, v in over.items():
        if k != "uniform_pins":
            setattr(p, k, v)
    return p


def season(r, p):
    """Adds options that are off the beaten track."""
    if p.kind in ("moc", "sn") and r.random() < 0.12 and not (
            p.cmfd and p.cmfd.get("enabled") != "f"):
        for side in r.sample(["north", "south", "east", "west"], r.randint(1, 2)):
            p.bc[side] = "prescribed"
    if p.kind in ("moc", "2d3d", "moc_2d3d") and r.random() < 0.3:
        p.rays = tuple(p.rays[:3]) + (r.choice(["trig", "rational_fraction"]),)
    if p.kind == "2d3d":
        if r.random() < 0.15:
            p.sweeper["preserve_sn_quadrature"] = "t"
        if r.random() < 0.15:
            p.sweeper["moc_modulo"] = "2"
    if p.kind == "sn" and p.sweeper.get("equation") == "cdd" and r.random() < 0.3:
        p.sweeper["dump_corrections"] = "t"
    if p.kind == "mc" and r.random() < 0.2:
        p.solver.pop("seed", None)
    if p.kind == "sn" and r.random() < 0.1:
        a, b = 0.3500211745815407, 0.8688903007222012
        p.quad = ("user", r.choice([[(0.5773502691896257,) * 3 + (1.0,)],
                                    [(a, b, a, 0.25), (b, a, a, 0.5), (a, a, b, 0.25)]]))
    return p


def make_fixed(server, r, p, bad=False):
    """Turns problem p into a fixed-source one with a random source file."""
    import numpy as np
    rs = np.random.RandomState(r.getrandbits(31))
    reg = p.regions()
    n = len(reg) if p.kind == "moc" else len(set(q[0] for q in reg))
    q = rs.rand(p.ng, n) * (rs.rand(p.ng, n) < r.choice([0.3, 1.0]))
    q[0, rs.randint(n)] += 0.5
    if bad:
        q[rs.randint(p.ng), rs.randint(n)] = r.choice([float("nan"), float("inf")])
    p.cmfd = None
    p.dumps = None
    p.solver = dict(type="fixed_source", max_iter=r.choice([1, 2, 5, 40, 200]),
                    flux_tol=r.choice(["1e2", "0.5", "1e-2", "1e-4", "1e-6",
                                       "1e-9"]))
    p.src_file = "src.h5"
    p.more_files = {"src.h5": server.mkh5({"source": q})}
    return q


def thick(r, p):
    """Some planes share one cell of the coarse mesh."""
    n, sub = p.nz, []
    while n:
        sub.append(r.randint(1, n))
        n -= sub[-1]
    p.subplanes = sub
    for a in p.assemblies:
        # listed from the top down
        k = 0
        for m in reversed(sub):
            a[k:k + m] = [a[k]] * m
            k += m
