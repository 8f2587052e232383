"""C03: 2D3D results and corrections do not depend on interleaving."""
import schedcheck
import work
from schedcheck import ORACLES  # noqa: F401

ID = "C03"
LEVEL = "exploration"
CASES = dict(quick=1440, thorough=12000)
RULE = ("random 2D3D and stand-alone 2D3D MoC problems, each run with one "
        "thread and then under random team sizes, schedules and heap contents; "
        "non-trivial = at least one preemption inside a parallel region, "
        "distinct = different sequence of switches")


def case(ctx):
    r = ctx.rng
    for _ in range(3):
        kind = r.choice(["2d3d", "2d3d", "moc_2d3d"])
        p = schedcheck.fixed_cmfd(work.season(r, work.rand_problem(r, kind)), r)
        before = ctx.stat["evaluations"]
        schedcheck.vary_case(ctx, p, 8 if ctx.tier == "quick" else 16)
        if ctx.stat["evaluations"] > before:
            return
