"""Writes properties.jsonl and MANIFEST.json from one table."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DD = "r_u_sure/decision_diagrams/"
SOLVER = DD + "consistent_path_dual_solver.py"
PACKED = DD + "packed_dags.py"
GATED = DD + "gated_state_dag.py"
TS = "r_u_sure/tree_structure/"
WR = "r_u_sure/wrappers/"
ED = "r_u_sure/edit_distance_utility/"

NO_NUMBA = (
    "Here they are only syntax-checked (no compiler installed); upstream they"
    " sample a handful of fixed examples."
)

PROPS = []


def prop(id_, title, statement, over, text, why, files, mechanism, observe,
         state=(), note=""):
  PROPS.append({
      "id": id_, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text},
      "why_tests_cant": why,
      "anchors": {
          "files": files,
          "state": [
              {"name": n, "meaning": m, "where": w} for n, m, w in state
          ],
          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
          "observe_at": observe,
          "hook_needed": None,
      },
      "_note": note,
  })


prop(
    "C01", "A solve respects its time budget under any clock",
    "A solve call with a time budget starts no further improvement sweep once"
    " the monotonic clock shows that the budget is used up, always makes at"
    " least the first sweep, and otherwise stops only when a full"
    " forward-and-backward pair of sweeps no longer improves the bound. The"
    " times and objective values it records are one pair per sweep, in order,"
    " never decreasing in time, measured from the start of that call. This holds"
    " for every clock behaviour: stalls, bursts, coarse ticks, wall-clock jumps.",
    ["schedules", "inputs", "fault_sequences", "histories"],
    "all systems of diagrams, all sequences of clock readings, all budgets, all"
    " resumed or interrupted solves",
    "The tests run solves to convergence on the real clock and never reach a"
    " budget; " + NO_NUMBA,
    [SOLVER],
    [("soft timeout test after each sweep",
      SOLVER + ":solve_system_with_sweeps"),
     ("clock reads", SOLVER + ":time.perf_counter")],
    ["return value of solve", "recorded objectives and times",
     "virtual clock reads"],
)
prop(
    "C02", "The reported objective is always a sound, never-decreasing bound",
    "At every moment of every solve, whether converged, cut off by its budget,"
    " interrupted or resumed, the reported objective is at most the total cost"
    " of every joint decision that all diagrams accept, and no improvement step"
    " lowers it. Solving never changes the total cost of any joint decision.",
    ["inputs", "histories", "fault_sequences", "crash_points"],
    "all systems of diagrams, all orders of improvement steps, all cut-off and"
    " interruption points between steps",
    "Soundness is a claim about every joint decision of every system at every"
    " intermediate step; " + NO_NUMBA,
    [SOLVER, PACKED],
    [("min-marginal averaging", SOLVER + ":min_marginal_average"),
     ("objective sum", SOLVER + ":system_min_marginals")],
    ["objective value after each step", "cost of each joint decision"],
)
prop(
    "C03", "A decoded decision is real, consistent and honestly priced",
    "Decoding returns one value for every decision variable, on which all"
    " diagrams agree and which every diagram accepts, chosen greedily by the"
    " current prices in the requested order; the reported cost is exactly what"
    " the diagrams charge for it (infinite or an explicit failure when no"
    " acceptable choice is left). Decoding leaves the system as it was.",
    ["inputs", "histories", "schedules", "fault_sequences"],
    "all systems, all states reached by complete, cut-off or interrupted solves,"
    " both decoding directions",
    "Needs every intermediate solver state, infeasible partial choices included;"
    " " + NO_NUMBA,
    [SOLVER, PACKED],
    [("greedy extraction on a clone", SOLVER + ":greedy_extract"),
     ("joint constraint pricing", SOLVER + ":constrain_system")],
    ["decoded assignment", "reported cost", "system state before and after"],
)
prop(
    "C04", "Cached path costs always equal a computation from scratch",
    "After any history of penalty changes, queries, copies and queries that were"
    " interrupted or ran out of memory, the minimum cost, per-choice minimum"
    " costs and best path read from a diagram's tables equal those computed from"
    " scratch on the diagram with the penalties currently in force.",
    ["histories", "inputs", "crash_points", "fault_sequences"],
    "all diagrams, all interleavings of updates and queries, all interruption"
    " points inside a query",
    "Cache invalidation bugs need specific update/query orders; " + NO_NUMBA,
    [PACKED],
    [("prefix/suffix invalidation", PACKED + ":set_penalties"),
     ("forward/backward tables", PACKED + ":update_prefixes_up_to")],
    ["minimal cost", "min-marginals", "best path"],
    state=[("prefix/suffix tables", "cached shortest-path costs with validity"
            " frontiers", PACKED)],
)
prop(
    "C05", "Copies of a system never influence each other",
    "Each member of a family of copied systems behaves exactly as if it were the"
    " only one: solving, constraining, perturbing, committing or decoding one"
    " copy, in any interleaving across threads and with cancellations half-way,"
    " changes nothing that another copy, the original or the shared diagrams"
    " show.",
    ["schedules", "histories", "fault_sequences"],
    "all interleavings of callers at line granularity, all families of copies,"
    " all cancellation points",
    "Aliasing only shows under particular sequences over several copies;"
    " " + NO_NUMBA,
    [SOLVER, PACKED],
    [("system copy", SOLVER + ":clone_system"),
     ("table copy", PACKED + ":copy_memo")],
    ["all prices, objectives and decodes of every member"],
    state=[("shared packed diagrams", "read-only structure used by every copy",
            PACKED)],
)
prop(
    "C06", "Preparing a diagram never changes what it means",
    "Building a diagram from states and edges, dropping its dead parts by any of"
    " the available routes, and packing it keeps exactly the set of complete"
    " paths with their costs and choices, whatever the hash values of the"
    " states, the size of the shared scratch table and what earlier, possibly"
    " cancelled, users left in it. Edges offered out of order are rejected as"
    " such, and a diagram without any complete path is reported as infeasible.",
    ["inputs", "histories", "configurations", "schedules", "fault_sequences"],
    "all diagrams, all state hashes, all scratch-table sizes and contents, all"
    " interleavings of users of one table",
    "Tests use one well-behaved diagram, fresh tables and no collisions;"
    " " + NO_NUMBA,
    [GATED, PACKED],
    [("scratch hash table with eviction", GATED + ":prune_unreachable_and_rewrite_states"),
     ("dead-part removal", GATED + ":prune_to_reachable"),
     ("packing", PACKED + ":convert_dag_to_packed")],
    ["complete paths of the packed diagram", "raised errors"],
    state=[("scratch table", "shared, reused between diagrams", GATED)],
)
prop(
    "C07", "Adjustments to a system price exactly what was asked for",
    "A constraint adds exactly its penalty to every joint decision that departs"
    " from it and nothing to the others; committing to a partial decision only"
    " forbids what contradicts it; a random perturbation prices each choice by a"
    " bounded amount that depends on nothing but its seed, and leaves the global"
    " random generator alone. This holds after any history of solves and"
    " adjustments and with other callers running.",
    ["histories", "inputs", "schedules"],
    "all systems, all sequences of adjustments and solves, all interleavings"
    " with other callers and users of the global generator",
    "Prices of all joint decisions after all histories; " + NO_NUMBA,
    [SOLVER],
    [("constraints", SOLVER + ":constrain_system"),
     ("perturbation", SOLVER + ":break_symmetry_randomly")],
    ["price of every joint decision", "state of the global random generator"],
)
prop(
    "C09", "Parsing keeps every character and finds the real structure",
    "Parsing any text in any supported language succeeds, and the leaves of the"
    " tree spell exactly that text. Bracket groups pair exactly the brackets"
    " that match, with empty stand-ins for missing partners, brackets inside"
    " strings and comments are plain text, statements are grouped at their"
    " terminators, and Python blocks nest as their indentation says. A request"
    " gets the same tree whatever was parsed, cancelled or failed before it or"
    " runs next to it.",
    ["inputs", "schedules", "histories", "fault_sequences"],
    "all texts and languages, all interleavings with other parse requests, all"
    " cancellation points",
    "The tests compare a few dozen fixed snippets, one at a time.",
    ["r_u_sure/parsing/pseudo_parser/stack_parser.py",
     "r_u_sure/parsing/pseudo_parser/utilities.py",
     "r_u_sure/parsing/sequence_from_pseudo_parse.py",
     "r_u_sure/parsing/subtokenizer.py", WR + "parser_tools.py"],
    [("bracket repair",
      "r_u_sure/parsing/pseudo_parser/stack_parser.py:"
      "error_correcting_prefix_and_suffix"),
     ("indent tokens",
      "r_u_sure/parsing/pseudo_parser/stack_parser.py:"
      "python_indent_dedent_desugar")],
    ["tree returned by the parser helper", "repair counts", "indentation unit",
     "docstring offsets"],
)
prop(
    "C10", "Tree transformations and packing keep the suggestion intact",
    "Every transformation of a suggestion tree (flattening, collapsing"
    " single-child groups, inserting region or exit markers, cutting off the"
    " context, removing markers) adds or removes exactly what it is meant to,"
    " keeps the remaining text and order, and never alters its input, which"
    " other callers may share. Packing a tree loses nothing: unpacking,"
    " traversals, paths, levels and rendered text agree with the original.",
    ["inputs", "schedules", "histories", "fault_sequences"],
    "all trees and pipelines of transformations, all interleavings of callers"
    " sharing a tree, all cancellation points",
    "The tests check each transformation on one or two hand-made trees, never"
    " shared ones.",
    [TS + "transforms.py", TS + "packed_sequence_nodes.py",
     TS + "sequence_node_helpers.py", TS + "sequence_nodes.py",
     WR + "parser_tools.py"],
    [("transformations", TS + "transforms.py"),
     ("packing", TS + "packed_sequence_nodes.py:pack")],
    ["transformed trees", "packed storage", "input trees afterwards"],
)

prop(
    "C11", "Suggestions mark regions consistently and claim only true utility",
    "Given a context and model samples, the returned suggestion is exactly the"
    " text of the chosen sample after the cursor, with uncertain regions that are"
    " properly opened, closed and nested. Its reported utility is the true average"
    " over the samples of the cheapest way to edit the marked suggestion into each"
    " sample, and no marking whatsoever beats the reported bound. This holds"
    " however slow the clock is, whatever other requests run next to it, and after"
    " cancelled or failed requests.",
    ["inputs", "schedules", "fault_sequences", "histories"],
    "all contexts, sample sets, languages and utility parameters, all clock"
    " behaviours, all interleavings and cancellation points of callers that share"
    " one suggestion service",
    "The tests compare the full output of one fixed example per mode; "
    + NO_NUMBA,
    [WR + "uncertainty_regions_wrapper.py", WR + "demo_runner.py",
     WR + "edit_distance_wrapper_base.py", WR + "wrapper_base.py",
     ED + "edit_dags.py", ED + "constraint_dags.py",
     ED + "region_decisions.py", SOLVER],
    [("combining samples", WR + "demo_runner.py:DemoRunner.combine"),
     ("region costs from effective precision",
      WR + "uncertainty_regions_wrapper.py:derive_uncertainty_region_costs"),
     ("well-formed regions",
      ED + "constraint_dags.py:make_constraint_dag_builder")],
    ["returned decisions, utility and bound", "extracted parts",
     "rendered suggestion and edit pages", "summary metrics"],
)
prop(
    "C12", "Truncated suggestions stop at one legal point with true utility",
    "When the service decides how much of a sample to show, the suggestion is an"
    " exact prefix of that sample ending at one of the offered stopping points (or"
    " all of it), nothing after the stop is shown, marked or counted, and regions"
    " in the shown part stay well formed. The reported utility is the true average"
    " edit utility of that prefix, and no other prefix beats the reported bound."
    " This holds for every clock, interleaving and history of failed requests.",
    ["inputs", "schedules", "fault_sequences", "histories"],
    "all contexts, sample sets, languages and parameters, with and without"
    " regions, all clock behaviours, all interleavings and cancellation points",
    "The tests compare the full output of one fixed example; " + NO_NUMBA,
    [WR + "prefix_truncation_wrapper.py", WR + "demo_runner.py",
     ED + "edit_dags.py", ED + "constraint_dags.py",
     ED + "region_decisions.py", TS + "transforms.py"],
    [("stopping points", TS + "transforms.py:insert_early_exit"),
     ("early exit in the edit utility", ED + "edit_dags.py"),
     ("prefix wrapper",
      WR + "prefix_truncation_wrapper.py:PrefixByEditDistanceWrapper")],
    ["returned decisions, utility and bound", "extracted parts",
     "rendered pages", "summary metrics"],
)
prop(
    "C13", "API-call suggestions extract real calls and price them truly",
    "Given a context and samples, exactly the call expressions of the chosen"
    " sample from the current line on are offered, in order, with identifiers"
    " classed as new or already seen in the context. Each selected part is a"
    " contiguous run of its call, and the price against an intent is the cheapest"
    " accounting in which found parts occur there whole and in order, each token"
    " paid once as right or wrong. This holds for every clock, interleaving and"
    " history of failed requests.",
    ["inputs", "schedules", "fault_sequences", "histories"],
    "all contexts, samples, languages, precisions, trees, selections and intents,"
    " all clock behaviours, all interleavings and cancellation points",
    "The tests compare the full output of one fixed example; " + NO_NUMBA,
    [WR + "call_sequence_wrapper.py", ED + "part_selection_dags.py",
     ED + "constraint_dags.py", ED + "region_decisions.py"],
    [("call extraction",
      WR + "call_sequence_wrapper.py:ApiCallSequenceWrapper"),
     ("selection utility",
      ED + "part_selection_dags.py:make_selection_dag_builder")],
    ["offered calls", "selected parts, utility and bound", "metrics",
     "rendered pages"],
)
prop(
    "C14", "Baseline suggestions follow their stated rule exactly",
    "Every baseline suggestion is what its rule says, from the sample and its"
    " token confidences alone: region baselines cover each low-confidence,"
    " too-late or too-deep token a region can hold and mark no more than needed;"
    " truncation baselines stop at the right stopping point for the given token"
    " confidence, average confidence, character or line limit; call baselines pick"
    " the stated calls. Every baseline is a legal suggestion of the sample's own"
    " text. Slow clocks, concurrent callers, earlier, cancelled or failed requests"
    " do not change it.",
    ["inputs", "schedules", "fault_sequences", "histories"],
    "all contexts, samples, token confidences, thresholds and baseline settings,"
    " all clock behaviours, interleavings and cancellation points",
    "The tests compare the output for one fixed example; " + NO_NUMBA,
    [WR + "uncertainty_regions_wrapper.py", WR + "prefix_truncation_wrapper.py",
     WR + "call_sequence_wrapper.py", WR + "demo_runner.py",
     TS + "token_prob_align.py"],
    [("region baselines",
      WR + "uncertainty_regions_wrapper.py:UncertaintyRegionsWrapper"),
     ("prefix baselines",
      WR + "prefix_truncation_wrapper.py:PrefixByEditDistanceWrapper"),
     ("call baselines",
      WR + "call_sequence_wrapper.py:ApiCallSequenceWrapper")],
    ["baseline decisions and names", "extracted parts"],
)
prop(
    "C15", "Token confidences survive re-tokenisation exactly",
    "Carrying the model's token log probabilities over to another tokenisation of"
    " the same text gives each new token exactly the sum over the model tokens that"
    " overlap it, a model token that straddles a boundary counting for both sides."
    " Texts that do not match, or are left over when all must be used, are refused"
    " with an error instead of being misaligned. Inputs are not altered, confidence"
    " pages show all text escaped, and concurrent, cancelled or failed callers do"
    " not influence the result.",
    ["inputs", "schedules", "fault_sequences"],
    "all texts, both ways of cutting them, all log probabilities, all trees, all"
    " interleavings and cancellation points",
    "The tests align a few fixed strings.",
    [TS + "token_prob_align.py", WR + "demo_runner.py"],
    [("alignment", TS + "token_prob_align.py:align_token_log_probs")],
    ["aligned log probabilities", "refusals", "rendered confidence pages"],
)
prop(
    "C16", "Drawn diagrams show every state and edge, correctly marked",
    "A drawing of a diagram contains exactly one box per state and one connected"
    " line per edge with its price, choice and hover text, distinguishes states and"
    " edges that lie on a possible path and exactly the edges to be emphasised,"
    " and the visible area contains everything. All text is escaped and placed as asked, every group is"
    " closed even when drawing inside it fails, and drawing never alters the"
    " diagram. Debug information requested for a scope is on every edge built inside"
    " it, however scopes nest, overlap or end, can be stripped again without loss,"
    " and is off afterwards.",
    ["inputs", "schedules", "fault_sequences", "histories"],
    "all diagrams, labels, positions, emphasised paths and nestings, all"
    " interleavings and cancellation points of callers sharing a diagram",
    "No test draws anything; the tests for debug information use one edge.",
    ["r_u_sure/rendering/", GATED, ED + "edit_dags.py",
     ED + "constraint_dags.py", ED + "part_selection_dags.py"],
    [("drawing", "r_u_sure/rendering/dag_annotator.py:render_dag"),
     ("groups", "r_u_sure/rendering/svg_renderer.py:SVGRenderer.group"),
     ("debug scopes", GATED + ":adding_edge_tracebacks")],
    ["drawing commands", "written pictures", "edge infos"],
)
prop(
    "C17", "Every template is priced by its cheapest edit into the intent",
    "For any suggestion tree, any placement of region and exit markers, any"
    " marking and any intended code, the price charged is the exact minimum over"
    " all ways to keep, delete and insert tokens, with each character, region and"
    " switch to editing charged at the rate of the region it is in, and the edit"
    " script shown for it costs exactly that. Markings that break the region rules have no finite price. The price does not depend on"
    " compiled or interpreted mode, state rewriting, scratch memory, or other"
    " requests, interleaved, cancelled or earlier.",
    ["inputs", "schedules", "fault_sequences", "histories"],
    "all trees, markings, intents and utility parameters, all interleavings and"
    " cancellation points of callers sharing one utility function",
    "The tests price a few hand-made examples; " + NO_NUMBA,
    [ED + "edit_dags.py", ED + "constraint_dags.py",
     WR + "edit_distance_wrapper_base.py", WR + "wrapper_base.py", GATED],
    [("edit utility", ED + "edit_dags.py:make_edit_dag_builder"),
     ("region rules", ED + "constraint_dags.py:make_constraint_dag_builder")],
    ["cost of each template against each intent", "cost breakdown",
     "price in the joint system", "edit scripts and pages"],
)
prop(
    "C18", "What is displayed is exactly what was computed",
    "Showing a suggestion, its edits into the samples, its utilities or the course"
    " of its optimisation displays exactly what that result holds (or says that"
    " there is nothing to show): the marked text of the suggestion, one comparison"
    " per sample, the true utility per sample, and every point of the curves."
    " Nothing of another request, caller, or cancelled or failed showing gets into"
    " it. Showing changes nothing in the result, so that it can be repeated.",
    ["inputs", "schedules", "fault_sequences", "histories"],
    "all requests, all orders and repetitions of showings, all interleavings and"
    " cancellation points of callers showing shared results",
    "No test calls the display functions; " + NO_NUMBA,
    [WR + "demo_runner.py", WR + "edit_distance_wrapper_base.py",
     WR + "call_sequence_wrapper.py"],
    [("showing", WR + "demo_runner.py:DemoRunner.show_suggestion"),
     ("curves", WR + "demo_runner.py:DemoRunner.show_optimization_details")],
    ["displayed pages", "printed text", "plotted points", "the result afterwards"],
)
prop(
    "C19", "Completions are cut off where their block or statement ends",
    "Given code and a cursor, the proposed cut-off is never before the cursor nor"
    " past the end, and lies where the innermost block (indented lines in Python,"
    " braces elsewhere) around the next token closes, at most one token later, or,"
    " outside all blocks, right after the next statement terminator. The docstrings"
    " found are exactly those that open a function's body, and each ends right after"
    " its own closing quotes or, if there are none, not at all. Other requests,"
    " concurrent, cancelled or failed, make no difference.",
    ["inputs", "schedules", "fault_sequences"],
    "all codes in all supported languages, all cursors, all interleavings and"
    " cancellation points",
    "The tests cut a handful of small well-formed programs at one cursor each.",
    ["r_u_sure/parsing/pseudo_parser/utilities.py",
     "r_u_sure/parsing/pseudo_parser/stack_parser.py"],
    [("cut-off", "r_u_sure/parsing/pseudo_parser/utilities.py:"
      "infer_truncation_with_fallbacks"),
     ("docstrings", "r_u_sure/parsing/pseudo_parser/utilities.py:"
      "find_python_function_docstrings")],
    ["cut-off positions", "docstring positions and ends"],
)

prop(
    "C08", "The same request has the same answer in every process",
    "A request (a suggestion, a baseline, a solve, a parse, a drawing) has exactly"
    " the same answer in every process: hash seeds, the order and history of other"
    " requests including cancelled and failed ones, the readings of a clock that"
    " leaves budget to spare, the state of global random generators, shared or fresh"
    " services, the size of scratch memory, and compiled or interpreted mode make no"
    " difference.",
    ["inputs", "histories", "fault_sequences", "schedules"],
    "all requests, all pairs of processes and histories in which they are asked",
    "A test runs once, in one process with one hash seed, in a fixed order.",
    ["r_u_sure/wrappers/", SOLVER, PACKED, GATED, "r_u_sure/parsing/",
     "r_u_sure/rendering/"],
    [("interned keys and values", SOLVER + ":make_system"),
     ("seeded perturbation", SOLVER + ":break_symmetry_randomly"),
     ("services", WR + "demo_runner.py:DemoRunner")],
    ["suggestions, utilities, bounds, pages, trees, pictures"],
)

NOTE = (
    "Seeded simulated executions of the real repository code against an"
    " executable oracle; one seed is one exactly repeatable run. Evidence, not"
    " proof: only the sampled runs are decided. Trusts the stand-in for the"
    " missing compiler (compiled functions run as their Python source) and the"
    " oracle."
)

NOT_APPLICABLE = [
]

EXTRA = os.path.join(HERE, "tools", "extra_props.py")


def main():
  if os.path.exists(EXTRA):
    with open(EXTRA) as f:
      exec(compile(f.read(), EXTRA, "exec"), globals())  # pylint: disable=exec-used
  PROPS.sort(key=lambda p: p["id"])
  na = {n["property"] for n in NOT_APPLICABLE}
  with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
      f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
  checks = []
  for p in PROPS:
    i = p["id"]
    if i in na:
      continue
    cmd = f"/opt/venv/bin/python sim/run.py --property {i}"
    checks.append({
        "property": i,
        "quick_cmd": f"{cmd} --tier quick",
        "thorough_cmd": f"{cmd} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": p["_note"] or NOTE,
    })
  manifest = {
      "version": 1,
      "setup_cmd": "/opt/venv/bin/python tools/setup_check.py",
      "hooks": {
          "guard": "R_U_SURE_SIM (unused: the code's own seams sufficed)",
          "enable": "nothing to enable; checks import /repo's working tree",
          "source_commits": [],
      },
      "checks": checks,
      "not_applicable": NOT_APPLICABLE,
      "notes": (
          "Every check imports /repo's working tree directly (pure Python, no"
          " build product). VERIF_SEED selects the seed block."
      ),
  }
  with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")


if __name__ == "__main__":
  main()
