"""Comparisons and schedule choices shared by the checks."""
import re

import numpy as np

import sim

# wall-clock data, and what names the build or repeats the input
VOLATILE = ("convergence/iteration_time", "convergence/abscissae", "git_sha1", "input_file")


def volatile(path):
    p = path.strip("/")
    return any(p == v or p.endswith("/" + v) for v in VOLATILE)


def top(path):
    p = path.strip("/").split("/")
    return p[0] if len(p) > 1 else path


def scales(d):
    """Largest magnitude per top-level group."""
    s = {}
    for k, v in d.items():
        if isinstance(v, np.ndarray) and v.size and v.dtype.kind == "f":
            w = v[np.isfinite(v)]
            if w.size:
                s[top(k)] = max(s.get(top(k), 0.0), float(np.max(np.abs(w))))
    return s


def diff(ref, got, tol, floor=1e-2, exact=(), skip=()):
    """Differences between two flattened HDF5 files, as messages.  Arrays are
    compared relative to the largest magnitude of their top-level group."""
    out = []
    rk = set(k for k in ref if not volatile(k))
    gk = set(k for k in got if not volatile(k))
    for k in sorted(rk - gk):
        out.append("missing data %s" % k)
    for k in sorted(gk - rk):
        out.append("unexpected data %s" % k)
    sc = scales(ref)
    for k in sorted(rk & gk):
        a, b = ref[k], got[k]
        if any(k.strip("/").startswith(s) for s in skip):
            continue
        if isinstance(a, np.ndarray) != isinstance(b, np.ndarray):
            out.append("type of %s differs" % k)
            continue
        if not isinstance(a, np.ndarray):
            if a != b:
                out.append("text %s differs" % k)
            continue
        if a.shape != b.shape:
            out.append("shape of %s: %s instead of %s" % (k, b.shape, a.shape))
            continue
        if a.dtype.kind != "f" or any(k.strip("/").startswith(e) for e in exact):
            if not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
                i = np.flatnonzero(~((a == b) | ((a != a) & (b != b))).ravel())[0]
                out.append("%s[%d] = %r instead of %r" %
                           (k, i, b.ravel()[i].item(), a.ravel()[i].item()))
            continue
        if "stdev" in k:
            # a vanishing variance may round to either side of zero
            a, b = np.nan_to_num(a, nan=0.0) ** 2, np.nan_to_num(b, nan=0.0) ** 2
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not np.array_equal(fa, fb):
            out.append("%s: finite where it should not be, or the reverse" % k)
            continue
        if not fa.any():
            continue
        s = 1.0 if "stdev" in k else max(sc.get(top(k), 0.0), floor)
        e = np.abs(np.where(fa, a, 0) - np.where(fb, b, 0))
        i = int(np.argmax(e))
        if e.ravel()[i] > tol * s:
            out.append("%s[%d] = %.17g instead of %.17g (scale %.3g)" %
                       (k, i, b.ravel()[i], a.ravel()[i], s))
    return out


def worst(ref, got, floor=1e-2):
    """Largest scaled difference (inf when the structure differs)."""
    w = 0.0
    if set(ref) != set(got):
        return float("inf")
    sc = scales(ref)
    for k in ref:
        a, b = ref[k], got[k]
        if volatile(k) or not isinstance(a, np.ndarray) or a.dtype.kind != "f":
            continue
        if a.shape != b.shape or not np.array_equal(np.isfinite(a), np.isfinite(b)):
            return float("inf")
        f = np.isfinite(a)
        if f.any():
            w = max(w, float(np.max(np.abs(a[f] - b[f]))) / max(sc.get(top(k), 0), floor))
    return w


def diverges(screen):
    """Whether an eigenvalue shown on the way is negative."""
    return re.search(r"(?<![eE])-\d+\.\d{10}(?![\de])", screen) is not None


NUM = re.compile(r"-?nan|-?inf|[-+]?\d+\.\d+(?:[eE][-+]?\d+)?", re.I)


def breakdown(a, b):
    """Whether the linear solver of the acceleration broke down in the run that
    showed b: the numbers are those of a up to and including the start of an
    acceleration step, whose own iterations then show no numbers.  That solver
    runs on one thread; whether it divides by zero is a matter of rounding."""
    def lines(s):
        out, on = [], False
        for t in s.split("\n"):
            on = on or "CMFD Converging to" in t
            v = NUM.findall(t)
            if on and v:
                f = t.split()
                kind = "start" if "Converging" in t else "cmfd" if (
                    len(f) == 6 and "." in f[0] and f[1].isdigit()) else ""
                out.append((kind, [float(x) for x in v[1 if not kind or
                                                       kind == "cmfd" else 0:]]))
        return out
    la, lb = lines(a), lines(b)
    started = False
    for x, y in zip(la, lb):
        if y[0] == "start":
            started = True
        elif not y[0]:
            started = False
        if not np.isfinite(y[1]).all():
            return started and y[0] == "cmfd"
        if x[0] != y[0] or len(x[1]) != len(y[1]):
            return False
        if y[0] != "cmfd" and not np.allclose(x[1], y[1], 1e-4, 1e-9):
            return False
    return False


def settled(d, tol=1e-7):
    """Whether the changes of the last iterations, bounded by a falling geometric
    sequence, leave less than tol to come.  A single small change can be an
    accident of a slow oscillation."""
    for n in ("convergence/error_k", "convergence/error_psi"):
        e = np.abs(d[n].ravel())
        w = min(12, len(e) // 2)
        if w < 2:
            return False
        b, a = e[-w:].max(), e[-2 * w:-w].max()
        if b > tol and not (b < a and b * b / (a - b) < tol):
            return False
    return True


def finite(d):
    return all(np.isfinite(v).all() for k, v in d.items()
               if isinstance(v, np.ndarray) and v.dtype.kind == "f"
               and not volatile(k))


def base_job(p, threads=1, **kw):
    j = sim.Job(argv=["mocc", p.fname], files=p.files(),
                env={"OMP_NUM_THREADS": str(threads)}, wall_ms=20000)
    j.update(kw)
    return j


def limits(ref):
    """Bound on the simulated events of a run that takes the reference ref."""
    return dict(max_events=60 * ref.events + 50_000_000)


def schedule(r, ref_events, pcs=(), fine=True):
    """A random scheduling policy for a run of about ref_events accesses."""
    n = max(1000, ref_events)
    kinds = ["rand", "rand", "pct", "stall", "sync"] + (["race"] * 3 if pcs else [])
    k = r.choice(kinds)
    if k == "rand":
        # between a handful and some ten thousand switches
        lo = max(3, n // 30000)
        q = int(lo * (n / 10 / lo) ** r.random()) if n / 10 > lo else lo
        return dict(policy="rand", quantum=max(3, q), seed=r.getrandbits(40))
    if k == "pct":
        return dict(policy="pct", depth=r.choice([1, 2, 3, 5, 10, 40]), est=n,
                    seed=r.getrandbits(40))
    if k == "stall":
        return dict(policy="stall", victim=r.randrange(8), seed=r.getrandbits(40),
                    quantum=r.choice([200, 2000, 20000]))
    if k == "sync":
        return dict(policy="sync", prob=r.choice([0.1, 0.5, 0.9]),
                    seed=r.getrandbits(40))
    m = min(len(pcs), r.choice([1, 2, 4, 16]))
    return dict(policy="race", pcs=sorted(r.sample(sorted(pcs), m)),
                prob=r.choice([0.02, 0.1, 0.5, 1.0]), seed=r.getrandbits(40))
