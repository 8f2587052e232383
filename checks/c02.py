"""C02: Sn results do not depend on threads or interleaving."""
import schedcheck
import work
from schedcheck import ORACLES  # noqa: F401

ID = "C02"
LEVEL = "exploration"
CASES = dict(quick=4800, thorough=32000)
RULE = ("random Sn problems (2-D and 3-D, diamond/step/corrected differencing, "
        "with and without acceleration), each run with one thread and then "
        "under random team sizes, schedules and heap contents; non-trivial = at "
        "least one preemption inside a parallel region, distinct = different "
        "sequence of switches")


def case(ctx):
    r = ctx.rng
    p = schedcheck.fixed_cmfd(work.season(r, work.rand_problem(r, "sn")), r)
    # with several threads the Jacobi update is used whatever was asked for
    alt = p.copy()
    if r.random() < 0.5:
        alt.sweeper["boundary_update"] = "gs"
    else:
        alt.sweeper.pop("boundary_update")
    schedcheck.vary_case(ctx, p, 8 if ctx.tier == "quick" else 16, alt=alt)
