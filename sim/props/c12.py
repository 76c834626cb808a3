"""C12: suggestions of the right length, end to end."""

from props import common
from props import suggest

LEVEL = common.LEVEL
COUNT = {"quick": 800, "thorough": 30000}
WALL_LIMIT = 120
RULE = (
    "A case is one shared suggestion service (language, utility parameters,"
    " compiled or interpreted) asked by 1-3 caller threads for suggestions from"
    " random contexts and model samples, under a seeded line-level schedule, a"
    " virtual clock that may be slow or stall past the solver's time budget, and"
    " cancelled or failed requests that are retried. Each result, and each"
    " template of the caller's own, is compared with the reference model."
    " Non-trivial: several requests, a fault, or an abnormal clock."
)
MEASURE = "distinct length and region decisions (values of all decisions in order)"
REAL = suggest.REAL + ["wrappers/prefix_truncation_wrapper"]
STUB = [common.STUB_COMPILER, common.STUB_SCHED, common.STUB_CLOCK,
        common.STUB_DISPLAY]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "the parse of the samples is taken as given here (C09 checks it)",
]
PROTECTED = ("wrapper",)

gen = lambda rng, tier, index: suggest.gen_case(rng, ["prefix", "prefix", "both"], tier)
valid = suggest.valid_case
run = suggest.run_case
