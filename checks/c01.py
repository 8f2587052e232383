"""C01: MoC results do not depend on threads or interleaving."""
import schedcheck
import work
from schedcheck import ORACLES  # noqa: F401

ID = "C01"
LEVEL = "exploration"
CASES = dict(quick=1920, thorough=16000)
RULE = ("random MoC problems, each run with one thread and then under random "
        "team sizes, schedules and heap contents; non-trivial = at least one "
        "preemption inside a parallel region, distinct = different sequence of "
        "switches")


def case(ctx):
    r = ctx.rng
    p = schedcheck.fixed_cmfd(work.season(r, work.rand_problem(r, "moc")), r)
    schedcheck.vary_case(ctx, p, 8 if ctx.tier == "quick" else 16)
