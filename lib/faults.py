"""Problems and fault plans shared by the fault-injection checks."""
import collections

import numpy as np

import oracle
import work

# what a device or a file system may answer, per operation
ERRORS = {
    "open": ["EACCES", "EMFILE", "ENFILE", "EIO", "ENOENT", "ENOMEM", "ESTALE"],
    "wopen": ["EACCES", "ENOSPC", "EROFS", "EMFILE", "ENFILE", "EIO", "EDQUOT",
              "EISDIR", "ENOMEM"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EROFS", "EPERM", "ESTALE"],
    "read": ["EIO", "ESTALE", "EISDIR", "ENOMEM"],
    "close": ["EIO", "ENOSPC", "EDQUOT"],
    "trunc": ["EIO", "ENOSPC", "EFBIG"],
    "stat": ["EIO", "EACCES", "ENOMEM", "ESTALE"],
    "seek": ["EIO"],
    "sync": ["EIO", "ENOSPC"],
    "rename": ["EIO", "EACCES", "ENOSPC"],
}
TRANSIENT = ("short", "EINTR")


def small(r, kind, **over):
    """A quickly solved problem."""
    over.setdefault("size", r.choice([(1, 1), (1, 1), (2, 1)]))
    p = work.rand_problem(r, kind, **over)
    p.cx, p.cy, p.core = 1, 1, [[0]]
    p.assemblies = p.assemblies[:1]
    if p.kind == "mc":
        p.box.update(x_max=p.pitch * p.nx, y_max=p.pitch * p.ny)
        p.solver["particles_per_cycle"] = r.choice([10, 20])
    else:
        p.solver["max_iter"] = r.choice([1, 2, 3])
    if p.kind == "2d3d":
        p.sweeper.pop("expose_sn", None)
    return p


def any_problem(ctx, r, kinds=("moc", "moc", "sn", "sn", "2d3d", "moc_2d3d", "mc",
                               "fixed")):
    """A quickly solved problem of any kind, with random extra output files."""
    k = r.choice(kinds)
    if k == "fixed":
        p = small(r, r.choice(["moc", "sn"]), cmfd=False)
        p.subplanes = [1] * p.nz
        work.make_fixed(ctx.sim, r, p)
        p.solver["max_iter"] = r.choice([1, 2, 5])
    else:
        p = small(r, k)
    if p.kind != "mc" and k != "fixed" and r.random() < 0.5:
        n = int(p.solver["max_iter"])
        p.dumps = sorted(r.sample(range(1, n + 1), r.randint(1, n)))
    if p.kind == "moc" and r.random() < 0.2:
        p.sweeper["dump_rays"] = "t"
    if r.random() < 0.2:
        p.extra = ['<geometry_output file="draw.py" plane="0" />']
    if r.random() < 0.2:
        p.case_name = r.choice(["other", "run-7"])
    return p


def outputs(p, ref):
    """Names of the result files of a run (not the log)."""
    return sorted(n for n in ref.files
                  if n not in p.files() and not n.endswith(".log"))


def written(p, ref):
    """Paths a run worked on besides its inputs, the log and the screen."""
    return set(o[1] for o in ref.io if o[1] not in p.files() and
               o[1] != "<screen>" and not o[1].endswith(".log"))


def ops(ref, names):
    """[(kind, path, nth of that kind on that path)] of the given files."""
    c = collections.Counter()
    out = []
    for kind, path, size, ret, ev in ref.io:
        if path in names:
            out.append((kind, path, c[kind, path], size))
            c[kind, path] += 1
    return out


def pick(r, table):
    """An operation: every file and every kind of operation equally likely."""
    path = r.choice(sorted(set(o[1] for o in table)))
    kind = r.choice(sorted(set(o[0] for o in table if o[1] == path)))
    return r.choice([o for o in table if o[1] == path and o[0] == kind])


def same_output(ctx, ref, x, names):
    """Messages where the files of x differ from those of ref."""
    out = []
    for n in names:
        if n not in x.files:
            out.append("%s is missing" % n)
        elif x.files[n] != ref.files[n]:
            if not n.endswith(".h5"):
                out.append("%s differs (%d bytes instead of %d)" %
                           (n, len(x.files[n]), len(ref.files[n])))
                continue
            a, b = ctx.h5(ref.files[n]), ctx.h5(x.files[n])
            if b is None:
                out.append("%s cannot be opened" % n)
                continue
            if a is None:
                continue
            m = oracle.diff(a, b, 0.0, exact=("",))
            if m:
                out.append("%s: %s" % (n, m[0]))
    return out


def with_data(ctx, r):
    """An Sn problem that reads corrections, cross sections and its angles from
    the result file of an earlier planar run; None if that run is refused."""
    p = small(r, "moc_2d3d", three_d=False)
    x = ctx.run(oracle.base_job(p, 1), role="data")
    f = x.files.get(p.case() + ".h5")
    d = None if not x.ok or f is None else ctx.h5(f)
    if d is None or not all(np.isfinite(v).all() for k, v in d.items()
                            if isinstance(v, np.ndarray) and v.dtype.kind == "f"
                            and k.split("/")[0] in ("alpha_x", "alpha_y", "beta", "xsmesh")):
        return None
    p.kind = "sn"
    p.cmfd = None
    p.solver = {k: v for k, v in p.solver.items() if k != "cmfd"}
    p.sweeper = dict(n_inner=r.choice([1, 2]), boundary_update="jacobi", equation="cdd",
                     axial=r.choice(["dd", "sc", "fw"]))
    p.more_files = {"data.h5": f}
    p.sn_data = '<data file="data.h5" />'
    if r.random() < 0.4:
        p.nz = 2
        p.hz = [r.choice([0.5, 1.0, 1.5]) for _ in range(2)]
        p.subplanes = [1, 1]
        p.assemblies = [[a[0], a[0]] for a in p.assemblies]
        p.sn_data = '<data file="data.h5" top_plane="1" />'
    return p
