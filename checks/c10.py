"""C10: running out of memory never yields a success with a wrong result."""
import array
import random

import faults
import oracle

ID = "C10"
LEVEL = "exploration"
CASES = dict(quick=12000, thorough=120000)
RULE = ("random problems of all solver types; an undisturbed run counts the "
        "allocations (all of them, or only those above a random size) and tells "
        "their call chains, then one of them (of a random call chain, or any), "
        "a few in a row, or all from some point on fail; in two cases of three "
        "a block of 64 cases shares one problem and goes through every call "
        "chain once; non-trivial = "
        "an allocation was refused, distinct = different (problem, allocation, "
        "number of refusals)")
ASSUMPTIONS = ["memory runs out as refused requests, not as a kill by the "
               "operating system"]


def honest(ctx, spec):
    ref = ctx.run(spec["ref"], role="ref", cached=True)
    x = ctx.run(spec["job"], role="x")
    if not ref.ok:
        return []
    if x.hung:
        return ["run does not end (%s)" % x.ended]
    if x.ok:
        m = faults.same_output(ctx, ref, x, spec["names"])
        if m:
            return ["success reported but " + m[0]]
    return []


ORACLES = {"honest": honest}


BLOCK = 64


def sweep(ctx):
    """One 64th of the call chains of a problem shared by a block of cases."""
    r = random.Random("%s/%d/block %d" % (ID, ctx.seed, ctx.index // BLOCK))
    p = faults.any_problem(ctx, r)
    t = r.choice([1, 1, 2])
    ref_job = oracle.base_job(p, t, alloc_sites=1)
    ref = ctx.run(ref_job, role="ref", cached=True)
    if not ref.ok:
        return ctx.skip("reference run refused (%s)" % ref.ended)
    sites = {}
    for i, k in enumerate(array.array("I", ref.raw["alloc_sites"])):
        sites.setdefault(k, []).append(i)
    # chains in the order they are first met, so that each case has some of all
    # parts of the run
    chains = sorted(sites.values())[ctx.index % BLOCK::BLOCK]
    for i, at in enumerate(chains):
        if ctx.late():
            return
        fail(ctx, p, t, 0, ref_job, ref, ctx.rng.choice(at) + 1, 1, i == 0)


def fail(ctx, p, t, lo, ref_job, ref, nth, n, sample):
    job = oracle.base_job(p, t, alloc_min=lo, alloc_fail=nth, alloc_count=n,
                          **oracle.limits(ref))
    job["wall_ms"] = 5000
    ctx.check(dict(oracle="honest", ref=ref_job, names=faults.outputs(p, ref),
                   job=job))
    x = ctx.last["x"]
    if x.alloc_failed:
        ctx.key(p.summary(), lo, nth, n)
    if sample:
        ctx.sample("%s | allocation %d of %d (>= %d bytes) and %d after it "
                   "-> %s" % (p.summary(), nth, ref.allocs, lo, n - 1, x.ended))


def case(ctx):
    if ctx.index // BLOCK % 3 != 2:
        return sweep(ctx)
    r = ctx.rng
    if r.random() < 0.12:
        p = faults.with_data(ctx, r)
        if p is None:
            return ctx.skip("no correction data")
    else:
        p = faults.any_problem(ctx, r)
    t = r.choice([1, 1, 2, 3])
    lo = r.choice([0, 0, 0, 16, 64, 256, 1024, 4096])
    ref_job = oracle.base_job(p, t, alloc_min=lo, alloc_sites=1)
    ref = ctx.run(ref_job, role="ref", cached=True)
    if not ref.ok:
        return ctx.skip("reference run refused (%s)" % ref.ended)
    if not ref.allocs:
        return ctx.skip("no allocations of this size")
    sites = {}
    for i, k in enumerate(array.array("I", ref.raw["alloc_sites"])):
        sites.setdefault(k, []).append(i)
    for i in range(12 if ctx.tier == "quick" else 30):
        if ctx.late():
            return
        if r.random() < 0.75:
            nth = r.choice(sites[r.choice(sorted(sites))]) + 1
        else:
            nth = r.randrange(1, ref.allocs + 1)
        n = r.choice([1, 1, 1, 2, 5, 1 << 30])
        fail(ctx, p, t, lo, ref_job, ref, nth, n, i == 0)
