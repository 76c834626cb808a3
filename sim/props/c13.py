"""C13: API call suggestions, end to end, and the part-selection utility."""

import env  # pylint: disable=unused-import

from props import common
from props import suggest
from props import selection

LEVEL = common.LEVEL
COUNT = {"quick": 3000, "thorough": 60000}
WALL_LIMIT = 120
RULE = (
    "A case is either one shared call-suggestion service asked by 1-3 caller"
    " threads for the API calls worth showing from random contexts and samples,"
    " or one shared selection utility (random values per token) asked to price"
    " random selections of random trees against random intents; seeded"
    " line-level schedule, virtual clock that may exhaust the solver's budget,"
    " cancelled and failed requests that are retried. Results are compared with"
    " a reference extraction and a direct dynamic program. Non-trivial: several"
    " requests, a fault, or an abnormal clock."
)
MEASURE = "distinct (tree shape, selection) pairs"
REAL = suggest.REAL + [
    "wrappers/call_sequence_wrapper", "edit_distance_utility/part_selection_dags"
]
STUB = [common.STUB_COMPILER, common.STUB_SCHED, common.STUB_CLOCK,
        common.STUB_DISPLAY]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "the parse of the samples is taken as given here (C09 checks it)",
]
PROTECTED = ("wrapper", "params")


def gen(rng, tier, index):
  if rng.random() < 0.5:
    return selection.gen(rng, tier, index)
  return suggest.gen_case(rng, ["calls"], tier)


def valid(case):
  if "params" in case:
    return selection.valid(case)
  return suggest.valid_case(case)


def run(case, ctx):
  if "params" in case:
    selection.run(case, ctx)
  else:
    suggest.run_case(case, ctx)
