"""C16: leftovers of earlier runs never leak into a later run's files."""
import hashlib

import faults
import oracle

ID = "C16"
LEVEL = "exploration"
CASES = dict(quick=4800, thorough=40000)
RULE = ("sequences of one to three earlier runs of random problems on one "
        "simulated disk (same or another case name; complete, killed at a random "
        "event or I/O operation with a torn write, interrupted, out of space), "
        "some files cut or overwritten with garbage, then a run whose files are "
        "compared with those of the same run on a clean disk; non-trivial = the "
        "disk held a file that the last run writes, distinct = different "
        "contents of the disk")


def clean(ctx, spec):
    ref = ctx.run(spec["ref"], role="ref", cached=True)
    x = ctx.run(spec["job"], role="x")
    if not ref.ok:
        return []
    if x.hung:
        return ["run does not end (%s) with old files present" % x.ended]
    if not x.ok:
        return ["ended with %s with old files present, success without" % x.ended]
    out = ["old files present: " + m
           for m in faults.same_output(ctx, ref, x, spec["names"])]
    for n in ref.files:
        if n.endswith(".log") and x.files.get(n) != ref.files[n]:
            out.append("old files present: %s differs (%d bytes instead of %d)" %
                       (n, len(x.files.get(n, b"")), len(ref.files[n])))
    if x.screen != ref.screen:
        out.append("old files present: the screen shows something else")
    # files written under another name first, or for a while only
    passing = {o[1] for o in ref.io if o[0] == "write"}
    for n, v in spec["job"]["files"].items():
        if n not in ref.files and n not in passing and x.files.get(n) != v:
            out.append("%s does not belong to the run but was %s" %
                       (n, "changed" if n in x.files else "removed"))
    for n in x.files:
        if n not in ref.files and n not in spec["job"]["files"]:
            out.append("unexpected file %s" % n)
    return out


ORACLES = {"clean": clean}


def earlier(ctx, r, disk, p):
    """Runs something on the disk; returns the disk afterwards."""
    q = p if r.random() < 0.4 else faults.any_problem(ctx, r)
    keep = q.case_name, q.dumps
    if r.random() < 0.7:
        q.case_name = p.case_name
    if q is p and r.random() < 0.5 and p.kind != "mc":
        q.dumps = sorted(r.sample(range(1, 5), 2))
    t = r.choice([1, 2])
    job = oracle.base_job(q, t)
    q.case_name, q.dumps = keep
    y = ctx.run(job, role="probe")
    u = r.random()
    if u < 0.2:
        job["crash_event"] = r.randint(1, max(1, y.events))
    elif u < 0.4:
        job["crash_io"] = r.randrange(max(1, y.io_ops))
    elif u < 0.55:
        job["faults"] = [("write", r.choice([".h5", ".log", ""]), r.randrange(40), 1,
                          "torn", r.randint(0, 200))]
    elif u < 0.7:
        job["sig_event"] = r.randint(1, max(1, y.events))
    elif u < 0.8:
        job["capacity"] = r.randint(1000, 30000) + sum(len(v) for v in disk.values())
    mine = set(job["files"])
    job["files"] = dict(disk, **job["files"])
    job.update(max_events=60 * y.events + 50_000_000)
    z = ctx.run(job, role="earlier")
    return {n: v for n, v in z.files.items() if n not in mine}


def damage(r, v):
    u = r.random()
    if u < 0.3:
        return v[:r.randint(0, len(v))]
    if u < 0.5:
        return bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 7, 300])))
    if u < 0.7 and v:
        i = r.randrange(len(v))
        return v[:i] + bytes([r.getrandbits(8)]) + v[i + 1:]
    if u < 0.85:
        return v + b"\n" * r.choice([1, 5000])
    return v


def case(ctx):
    r = ctx.rng
    p = faults.any_problem(ctx, r)
    t = r.choice([1, 1, 2])
    ref_job = oracle.base_job(p, t, io_trace=1, clock="frozen")
    ref = ctx.run(ref_job, role="ref", cached=True)
    if not ref.ok:
        return ctx.skip("reference run refused (%s)" % ref.ended)
    names = faults.outputs(p, ref)
    base = dict(oracle="clean", ref=ref_job, names=names)
    for i in range(4 if ctx.tier == "quick" else 10):
        if ctx.late():
            return
        disk = {}
        for _ in range(r.choice([1, 1, 2, 3])):
            disk = earlier(ctx, r, disk, p)
        if r.random() < 0.4:
            for n in list(disk):
                if r.random() < 0.4:
                    disk[n] = damage(r, disk[n])
        if r.random() < 0.1:
            for n in list(ref.files):
                if n not in p.files() and r.random() < 0.7:
                    disk[n] = damage(r, ref.files[n])
        job = oracle.base_job(p, t, clock="frozen", **oracle.limits(ref))
        job["files"] = dict(disk, **job["files"])
        ctx.check(dict(base, job=job))
        if set(disk) & set(ref.files):
            ctx.key(p.summary(), sorted((n, hash_of(v)) for n, v in disk.items()))
        if i == 0:
            ctx.sample("%s | on disk %s -> %s" %
                       (p.summary(), sorted((n, len(v)) for n, v in disk.items()),
                        ctx.last["x"].ended))


def hash_of(v):
    return hashlib.sha256(v).hexdigest()[:16]
