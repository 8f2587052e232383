"""C04: Monte Carlo histories do not depend on threads or interleaving."""
import schedcheck
import work
from schedcheck import ORACLES  # noqa: F401

ID = "C04"
LEVEL = "exploration"
CASES = dict(quick=3600, thorough=32000)
RULE = ("random Monte Carlo problems, each run with one thread and then under "
        "random team sizes, schedules and heap contents; analog eigenvalue and "
        "entropy histories compared bit for bit; non-trivial = at least one "
        "preemption inside a parallel region, distinct = different sequence of "
        "switches")
EXACT = ("k_history_analog", "h_history", "seed", "ng")


def case(ctx):
    p = work.season(ctx.rng, work.rand_problem(ctx.rng, "mc"))
    schedcheck.vary_case(ctx, p, 8 if ctx.tier == "quick" else 16, tol=1e-9,
                         exact=EXACT, cond=False)
