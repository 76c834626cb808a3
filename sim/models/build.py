"""Builds repository diagrams from specs, through the public API."""

import env  # pylint: disable=unused-import
import numba
import numpy as np

from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.decision_diagrams import gated_state_dag
from r_u_sure.decision_diagrams import packed_dags

from models import dagmodel


class HashedState:
  """A state whose hash the simulator chooses (equality is by identity number)."""

  __slots__ = ("num", "h")

  def __init__(self, num, h):
    self.num = num
    self.h = h

  def __hash__(self):
    return self.h

  def __eq__(self, other):
    return isinstance(other, HashedState) and self.num == other.num

  def __repr__(self):
    return f"S{self.num}"


def complete_dag(spec, states=None, typed=False):
  """Builds a CompleteStateDAG with the builder functions."""
  states = states or list(range(spec["n"]))
  dag = gated_state_dag.partial_state_dag_starting_from(states[0])
  for s, d, c, k, v in spec["edges"]:
    gated_state_dag.partial_state_dag_add_edge(
        dag,
        gated_state_dag.Edge(
            source=states[s],
            dest=states[d],
            cost=dagmodel.INF if c == "inf" else float(c),
            required_assignment=(
                None
                if k is None
                else gated_state_dag.SharedVariableAssignment(k, v)
            ),
            info=None,
        ),
    )
  result = gated_state_dag.partial_state_dag_finish(dag, states[-1])
  if typed:
    result = gated_state_dag.CompleteStateDAG(
        initial_state=result.initial_state,
        edges=numba.typed.List(result.edges),
        final_state=result.final_state,
    )
  return result


def make_packer(with_numba):
  if not with_numba:
    return packed_dags.convert_dag_to_packed, (lambda d: d)
  fn, cast = packed_dags.make_specialized_fn__convert_dag_to_packed(
      example_state=0,
      example_variable_key=0,
      example_variable_value=0,
      example_info=None,
      with_numba=True,
  )
  return fn, cast


def pack(spec, prune="python", packer="python", scratch=None, states=None,
         ordering=True):
  """spec -> (packed dag, conversion data) through a chosen pipeline."""
  dag = complete_dag(spec, states=states, typed=prune in ("jit", "rewrite"))
  if prune == "python":
    dag = gated_state_dag.prune_to_reachable(dag)
  elif prune == "jit":
    dag = gated_state_dag.prune_to_reachable_jit(dag)
  elif prune == "rewrite":
    if scratch is None:
      scratch = np.full((64,), -1, dtype=np.int32)
    dag = gated_state_dag.prune_unreachable_and_rewrite_states(
        dag, scratch_table=scratch
    )
  fn, cast = make_packer(packer == "numba")
  dag = cast(dag)
  vals = numba.typed.List(spec["vals"]) if packer == "numba" else spec["vals"]
  return fn(dag, spec["missing"], vals if ordering else None)


def system(specs, weights=None, pipelines=None):
  converted = []
  for i, spec in enumerate(specs):
    kw = pipelines[i] if pipelines else {}
    converted.append(pack(spec, **kw))
  return solver.make_system(
      converted,
      dag_update_proportions=(
          None if weights is None else np.array(weights, dtype=np.float64)
      ),
  )
