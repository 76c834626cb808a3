"""Small helpers for the demonstrations (no part of the checks)."""

import math

import numpy as np


def dag(edges, missing=0, prune=True):
  """edges: (source, dest, cost, key or None, value); states are integers."""
  from r_u_sure.decision_diagrams import gated_state_dag as g
  d = g.partial_state_dag_starting_from(0)
  last = max(e[1] for e in edges)
  for s, t, c, k, v in edges:
    g.partial_state_dag_add_edge(d, g.Edge(
        source=s, dest=t, cost=float(c),
        required_assignment=(
            None if k is None else g.SharedVariableAssignment(k, v)),
        info=None))
  out = g.partial_state_dag_finish(d, last)
  return g.prune_to_reachable(out) if prune else out


def pack(edges, values=(0, 1), missing=0):
  from r_u_sure.decision_diagrams import packed_dags as p
  return p.convert_dag_to_packed(dag(edges), missing, list(values))


def system(*edge_lists, **kw):
  from r_u_sure.decision_diagrams import consistent_path_dual_solver as s
  return s.make_system([pack(e) for e in edge_lists], **kw)


def chain(costs):
  """One layer per variable k: value v costs costs[k][v]."""
  out = []
  for k, row in enumerate(costs):
    for v, c in enumerate(row):
      out.append((k, k + 1, c, k, v))
  return out


def expect(condition, message):
  if not condition:
    raise SystemExit("FAILED: " + message)


__all__ = ["dag", "pack", "system", "chain", "expect", "math", "np"]
