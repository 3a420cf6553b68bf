"""Harness nodes and enumerators for goos graphs."""
import contextlib
import sys
import itertools
from typing import List

import numpy as np

import vlib

vlib.import_spins()
from spins import goos
from spins.goos import flows

MOD = 1000003


class ProbeNode(goos.Function):
    """Computes an injective-looking integer from its inputs, and records."""
    node_type = "verif.probe"

    def __init__(self, deps: List[goos.ProblemGraphNode], tag: int) -> None:
        super().__init__(deps)
        self.tag = tag
        self.calls = []

    def eval(self, inputs, context):
        vals = [int(np.asarray(f.array).ravel()[0]) for f in inputs]
        self.calls.append((vals, [(bool(c.const_flags), bool(c.frozen_flags))
                                  for c in context.input_flags]))
        return flows.NumericFlow(np.array([combine(self.tag, vals)]))


class ProbeNodeNoContext(goos.Function):
    """Same as `ProbeNode` but `eval` does not take a context."""
    node_type = "verif.probe_no_context"

    def __init__(self, deps: List[goos.ProblemGraphNode], tag: int) -> None:
        super().__init__(deps)
        self.tag = tag
        self.calls = []

    def eval(self, inputs):
        vals = [int(np.asarray(f.array).ravel()[0]) for f in inputs]
        self.calls.append((vals, None))
        return flows.NumericFlow(np.array([combine(self.tag, vals)]))


def combine(tag, vals):
    acc = 17 * (tag + 1)
    for v in vals:
        acc = (acc * 7919 + v * 104729 + 13) % MOD
    return acc


class LinearNode(goos.Function):
    """sum_i w_i x_i + tag, with a gradient that is deliberately awkward.

    mode 0: fresh gradient objects; mode 1: hands out one shared object if all
    the weights are equal; mode 2: `None` for zero weights.
    """
    node_type = "verif.linear"

    def __init__(self, deps: List[goos.ProblemGraphNode], weights: List[int],
                 mode: int) -> None:
        super().__init__(deps)
        self.w = list(weights)
        self.mode = mode
        self.evals = 0
        self.grads = 0
        self.seen_grad = None

    def eval(self, inputs, context):
        self.evals += 1
        return flows.NumericFlow(
            np.array([
                1.0 + sum(w * f.array.ravel()[0]
                          for w, f in zip(self.w, inputs))
            ]))

    def grad(self, inputs, grad_val, context):
        self.grads += 1
        g = np.array(grad_val.array_grad, dtype=float)
        self.seen_grad = g.copy()
        if self.mode == 1 and len(set(self.w)) == 1 and self.w[0] == 1:
            return [grad_val] * len(self.w)
        out = []
        for w in self.w:
            if w == 0 and self.mode == 2:
                out.append(None)
            else:
                out.append(flows.NumericFlow.Grad(g * w))
        return out


def dags(n, max_in=2, all_reachable=True):
    """All DAGs on n nodes in topological order with ordered input lists.

    Node i has 0..max_in inputs among the nodes before it, in order and with
    repetition. With `all_reachable`, only those where every node can be
    reached from the last one are produced.
    """
    opts = []
    for i in range(n):
        o = [()]
        for k in range(1, max_in + 1):
            o += list(itertools.product(range(i), repeat=k))
        opts.append(o)
    for g in itertools.product(*opts):
        if all_reachable:
            seen = set()
            todo = [n - 1]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                todo.extend(g[x])
            if len(seen) < n:
                continue
        yield [list(x) for x in g]


def masks(n):
    return list(range(2**n))


@contextlib.contextmanager
def replaced_minimize(fn):
    """Replaces scipy.optimize.minimize, wherever spins holds it, by `fn`."""
    import scipy.optimize
    orig = scipy.optimize.minimize
    saved = []
    for mod in [scipy.optimize] + [
            m for n, m in list(sys.modules.items())
            if n.split(".")[0] == "spins" and m is not None
    ]:
        for k, v in list(vars(mod).items()):
            if v is orig:
                saved.append((mod, k))
                setattr(mod, k, fn)
    try:
        yield
    finally:
        for mod, k in saved:
            setattr(mod, k, orig)


# ------------------------------------------------------------ larger graphs


def families(n):
    """Named graphs of n nodes (n >= 4), each with a single last node."""
    m = n - 2
    return {
        "chain": [[]] + [[i] for i in range(n - 1)],
        "fan": [[]] + [[0] for _ in range(m)] + [list(range(1, n - 1))],
        "wide": [[] for _ in range(n - 1)] + [list(range(n - 1))],
        "ladder": [[], [0]] + [[i - 1, i - 2] for i in range(2, n)],
        "tree": [[]] * (n // 2) + [[2 * (i - n // 2) % i, (2 * (i - n // 2) + 1)
                                    % i] for i in range(n // 2, n)],
        "back": [[]] + [[i - 1, 0] for i in range(1, n)],
        "comb": [[]] + [[i - 1] if i % 2 else [max(0, i - 3), i - 1]
                        for i in range(1, n - 1)] +
                [sorted(set(range(1, n - 1, 2)) | {n - 2})],
        "late": [[]] + [[i - 1] for i in range(1, n - 1)] + [[n - 2, 0, n // 2]],
    }


FAMILIES = ["chain", "fan", "wide", "ladder", "tree", "back", "comb", "late"]
HEAVY = ["none", "all", "even", "third", "first", "last", "half"]


def heavy_mask(kind, n):
    return sum(1 << i for i in range(n) if {
        "none": False, "all": True, "even": i % 2 == 0, "third": i % 3 == 1,
        "first": i == 0, "last": i == n - 1, "half": i >= n // 2
    }[kind])
