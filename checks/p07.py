"""P07: shapes, groups of shapes and gradient routing.

`groups` enumerates every nesting of up to 4 (thorough 5) leaves into groups,
every assignment of drawing priorities and every pattern of sharing shapes, and
compares the evaluated list and the gradients (for several variable values one
after the other, on the same nodes) with a flat reference list.  `chains`
enumerates shape kinds x which inputs vary x chains of translate, rename, cast
and index operations; `index` all sequences of index operations on array nodes;
`pixels` all extents and pixel sizes of a grid of decimal values, against exact
rational arithmetic; `params` sequences of evaluations of parametrized shapes.
"""
import fractions
import itertools
from typing import List

import numpy as np

import vlib
from vlib import close, fail, require
import gooslib as gl

from spins import goos
from spins.goos import flows
from spins.goos import array as goos_array

chk = vlib.Check(
    "P07", "model_checking",
    assumptions=[
        "the harness node Use reads every entry of the flow it is given and "
        "returns the gradient of a fixed linear functional of it"
    ])

FIELDS = {
    "CuboidFlow": ["pos", "rot", "extents"],
    "CylinderFlow": ["pos", "rot", "radius", "height"],
    "SphereFlow": ["pos", "rot", "radius"],
    "PixelatedContShapeFlow": ["pos", "rot", "array"],
}


def weights(k, field, n):
    """Distinct weights for entry k of the list and each field element."""
    base = dict(pos=1, rot=2, extents=3, radius=4, height=5, array=6)[field]
    return (np.arange(n) + 1) * (10 * base + 100 * k + 1) % 997 + 0.5


def entries(flow):
    if isinstance(flow, goos.ArrayFlow):
        return [f for f in flow]
    return [flow]


class Use(goos.Function):
    """Linear functional of a shape or a list of shapes."""
    node_type = "verif.p07.use"

    def __init__(self, shape: goos.ProblemGraphNode, scale: float = 1.0) -> None:
        super().__init__(shape)
        self.scale = scale
        self.flags = None

    def eval(self, inputs, context):
        self.flags = context.input_flags[0]
        self.seen = inputs[0]
        out = 0.0
        for k, f in enumerate(entries(inputs[0])):
            for name in FIELDS[type(f).__name__]:
                v = np.asarray(getattr(f, name)).ravel()
                out += np.dot(weights(k, name, v.size), v)
        return flows.NumericFlow(np.array([out * self.scale]))

    def grad(self, inputs, grad_val, context):
        g = grad_val.array_grad.ravel()[0] * self.scale
        grads = []
        for k, f in enumerate(entries(inputs[0])):
            kw = {}
            for name in FIELDS[type(f).__name__]:
                v = np.asarray(getattr(f, name))
                kw[name + "_grad"] = g * weights(k, name, v.size).reshape(
                    v.shape)
            grads.append(type(f).Grad(**kw))
        if isinstance(inputs[0], goos.ArrayFlow):
            return [goos.ArrayFlow.Grad(grads)]
        return grads


KINDS = ["cuboid", "cylinder", "pixelated", "sphere"]


def mat(i):
    return goos.material.Material(index=float(i))


class Leaf:
    """A shape with all of its inputs variable (or constant)."""

    def __init__(self, kind, tag, priority=0, var=True, shapes=None):
        self.kind, self.tag = kind, tag
        self.inputs = {}
        self.priority = priority if kind == "cuboid" else 0

        def inp(name, val):
            val = np.array(val, dtype=float)
            v = var if isinstance(var, bool) else var.get(name, "T")
            if v is True or v == "T":
                node = goos.Variable(val)
            elif v == "F":
                node = goos.Variable(val)
                node.freeze()
            else:
                node = goos.Constant(val)
            self.inputs[name] = node
            return node

        t = float(tag + 1)
        pos = inp("pos", [t, -t, 2 * t])
        rot = inp("rot", [0.5 * t, 0, t])
        self.mats = [mat(2 + tag)]
        if kind == "cuboid":
            self.node = goos.Cuboid(inp("extents", [t + 1, t + 2, t + 3]), pos,
                                    rot, material=mat(2 + tag),
                                    priority=priority)
        elif kind == "cylinder":
            self.node = goos.Cylinder(pos, inp("radius", [t + 4]),
                                      inp("height", [t + 5]), rot,
                                      material=mat(2 + tag))
        elif kind == "sphere":
            self.node = goos.Sphere(pos, inp("radius", [t + 4]), rot,
                                    material=mat(2 + tag))
        else:
            self.mats.append(mat(3 + tag))
            self.node = goos.PixelatedContShape(
                inp("array", np.arange(4).reshape(2, 2, 1) * 0.25),
                [2.0, 2.0, t], pos, [4.0, 4.0, t], rot, material=mat(2 + tag),
                material2=mat(3 + tag))

    FLOWS = dict(cuboid="CuboidFlow", cylinder="CylinderFlow",
                 sphere="SphereFlow", pixelated="PixelatedContShapeFlow")

    def check_flow(self, plan, flow, offset=0):
        require(type(flow).__name__ == self.FLOWS[self.kind], "entry-type",
                lambda: "{} want {}".format(type(flow).__name__, self.kind))
        for name, node in self.inputs.items():
            want = value_of(plan, node)
            if name == "pos":
                want = want + offset
            got = getattr(flow, name)
            require(close(got, want), "entry-value",
                    lambda: "{} of {} is {}, want {}".format(
                        name, self.kind, got, want))
        require(flow.priority == self.priority, "entry-priority")
        eps = [flow.material]
        if self.kind == "pixelated":
            eps.append(flow.material2)
            t = float(self.tag + 1)
            require(close(np.array(flow.extents), np.array([4, 4, t])) and
                    close(np.array(flow.pixel_size), np.array([2, 2, t])),
                    "entry-geometry")
        for e, m in zip(eps, self.mats):
            require(close(e.permittivity(1550), m.index**2), "entry-material",
                    lambda: "{} want {}".format(e.permittivity(1550), m.index))


def value_of(plan, node):
    if isinstance(node, goos.Variable):
        return plan.get_var_value(node)
    return np.asarray(node.get().array)


# --------------------------------------------------------------------------


def compositions(n):
    """Ordered partitions of n into positive parts."""
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield [k] + rest


def trees(n, depth):
    """All group structures with n leaves: lists of 0 (leaf) or lists."""
    for comp in compositions(n):
        opts = []
        for c in comp:
            o = []
            if c == 1:
                o.append(0)
            if depth > 1:
                o += list(trees(c, depth - 1))
            opts.append(o)
        for t in itertools.product(*opts):
            yield list(t)


def growth(n):
    """Restricted growth strings: all patterns of sharing among n leaves."""

    def rec(prefix, m):
        if len(prefix) == n:
            yield prefix
            return
        for k in range(m + 1):
            yield from rec(prefix + [k], max(m, k + 1))

    yield from rec([], 0)


def group_cases(tier):
    out = []
    nmax = 4 if tier == "quick" else 5
    for n in range(0, nmax + 1):
        for depth in (3,) if n <= 3 else (2,):
            for t in trees(n, depth):
                share = [list(range(n))]
                if n <= 4 and (tier == "thorough" or n <= 3):
                    share = list(growth(n))
                for sh in share:
                    m = max(sh) + 1 if sh else 0
                    if n <= 3:
                        pri = itertools.product(range(3), repeat=m)
                    else:
                        pri = itertools.product(range(2), repeat=m)
                    for p in pri:
                        out.append([t, sh, list(p)])
    return out


def large_groups(tier):
    """Many shapes: flat, in groups of three, as a chain, shared, by priority."""
    for n in (range(6, 26, 3) if tier == "quick" else range(5, 40)):
        chain = [0]
        for _ in range(n - 1):
            chain = [chain, 0]
        trees_ = [[0] * n, [[0] * 3] * (n // 3) + [0] * (n % 3),
                  chain if n < 18 else [0] * n]
        for t in trees_:
            yield [t, list(range(n)), [0] * n]
            yield [t, list(range(n)), [(5 * i) % 4 for i in range(n)]]
            yield [t, [i % (n // 2) for i in range(n)], [0] * (n // 2)]


@chk.section("large-groups", lambda tier: list(large_groups(tier)),
             "groups of up to 24 (thorough 39) shapes: flat, in threes, nested "
             "in a chain; distinct or shared; with and without priorities",
             timeout=300)
def _(ctx, case):
    groups(ctx, case)


@chk.section("groups", group_cases,
             "all nestings of up to 4 (thorough 5) leaves x sharing patterns x "
             "priorities, shape kinds assigned cyclically; three rounds of "
             "evaluation and gradient with different variable values")
def groups(ctx, case):
    tree, share, pri = case
    with goos.OptimizationPlan() as plan:
        # Only cuboids carry a priority: use them if it is not zero.
        leaves = [
            Leaf(KINDS[i % 4] if p == 0 else "cuboid", i, p)
            for i, p in enumerate(pri)
        ]
        it = iter(share)
        flat = []

        def build(t):
            nodes = []
            for x in t:
                if x == 0:
                    i = next(it)
                    flat.append(i)
                    nodes.append(leaves[i].node)
                else:
                    nodes.append(build(x))
            return goos.GroupShape(nodes)

        group = build(tree)
        order = sorted(flat, key=lambda i: leaves[i].priority)
        use = Use(group)
        # A second user of the same group through another group.
        outer = goos.GroupShape([group])
        use2 = use + Use(outer, 3.0)
        wrt = [v for l in leaves for v in l.inputs.values()]
        if not wrt:
            require(len(group.get()) == 0, "entries", "expected none")
            return
        for rnd in range(3):
            ctx.step()
            flow = group.get()
            ctx.run()
            require(len(flow) == len(order), "entries",
                    lambda: "{} entries, want {}".format(
                        len(flow), len(order)))
            for f, i in zip(flow, order):
                leaves[i].check_flow(plan, f)
            for node, scale in ((use, 1.0), (use2, 4.0)):
                grads = node.get_grad(wrt)
                k = 0
                for i, l in enumerate(leaves):
                    for name, var in l.inputs.items():
                        v = plan.get_var_value(var)
                        want = np.zeros(v.shape)
                        for pos, j in enumerate(order):
                            if j == i:
                                want += scale * weights(pos, name,
                                                        v.size).reshape(v.shape)
                        got = grads[k].array_grad
                        k += 1
                        require(close(got, want), "gradient",
                                lambda: "d/d{} of shape {}: {}, want {}".
                                format(name, i, got, want))
            # Change the values of the variables of one leaf.
            l = leaves[rnd % len(leaves)]
            for name, var in l.inputs.items():
                var.set(plan.get_var_value(var) * 0.5 + rnd + 1)
            plan.run()
        ctx.state((repr(tree), tuple(share), tuple(pri)))
        ctx.outcome((tuple(order),))


# --------------------------------------------------------------------------

OPS = ["tr", "ren", "cast", "grp", "one"]


def chain_cases(tier):
    out = []
    depth = 2 if tier == "quick" else 3
    for kind in KINDS:
        names = dict(cuboid=["extents", "pos", "rot"],
                     cylinder=["pos", "radius", "height", "rot"],
                     sphere=["pos", "radius", "rot"],
                     pixelated=["array", "pos", "rot"])[kind]
        for st in itertools.product("TFC", repeat=len(names)):
            if not any(s != "C" for s in st):
                continue
            out.append([kind, dict(zip(names, st)), []])
        for k in range(1, depth + 1):
            for ops in itertools.product(OPS, repeat=k):
                for st in (["T"] * len(names),
                           ["T", "C", "F", "T"][:len(names)]):
                    out.append([kind, dict(zip(names, st)), list(ops)])
    return out


@chk.section("chains", chain_cases,
             "shape kind x state (free/frozen/constant) of each input; chains "
             "of translate/rename/cast/group/index up to 2 (thorough 3)")
def chains(ctx, case):
    kind, states, ops = case
    with goos.OptimizationPlan() as plan:
        leaf = Leaf(kind, 1, 0, states)
        plan.run()
        node = leaf.node
        offset = np.zeros(3)
        grouped = False
        for i, op in enumerate(ops):
            if op == "tr":
                off = np.array([1, -2, 0.5]) * (i + 1)
                offset = offset + off
                node = node.translate(off)
            elif op == "ren":
                node = goos.rename(node, "renamed{}".format(i))
            elif op == "cast":
                node = goos.cast(node, goos.Shape)
            elif op == "grp":
                node = goos.GroupShape([node])
                grouped = True
            elif op == "one" and grouped:
                node = goos.cast(goos_array.IndexOp(node, 0), type(leaf.node))
                grouped = False
        use = Use(node)
        for rnd in range(2):
            ctx.step()
            ctx.run()
            flow = node.get()
            require(isinstance(flow, goos.ArrayFlow) == grouped, "flow-type")
            if grouped:
                require(len(flow) == 1, "entries")
                flow = flow[0]
            leaf.check_flow(plan, flow, offset)
            wrt = [v for v in leaf.inputs.values()
                   if isinstance(v, goos.Variable)]
            grads = use.get_grad(wrt)
            k = 0
            for name, v in leaf.inputs.items():
                if not isinstance(v, goos.Variable):
                    continue
                got = grads[k].array_grad
                k += 1
                val = plan.get_var_value(v)
                want = weights(0, name, val.size).reshape(val.shape)
                # The gradient with respect to a frozen variable may be
                # skipped.
                if states[name] == "T" or np.any(got != 0):
                    require(close(got, want), "gradient",
                            lambda: "d/d{}: {}, want {}".format(
                                name, got, want))
            if not ops:
                for name in leaf.inputs:
                    fl = use.flags
                    c = getattr(fl.const_flags, name)
                    f = getattr(fl.frozen_flags, name)
                    require(bool(c) == (states[name] == "C"), "const-flag",
                            lambda: "{} {}: {}".format(name, states, c))
                    require(bool(f) == (states[name] in "CF"), "frozen-flag",
                            lambda: "{} {}: {}".format(name, states, f))
            for name, v in leaf.inputs.items():
                if states[name] == "T":
                    v.set(plan.get_var_value(v) + 1.5)
            plan.run()
        ctx.state(repr(case))
        ctx.outcome((kind, tuple(offset), grouped))


# --------------------------------------------------------------------------


def view_cases(tier):
    out = []
    depth = 2 if tier == "quick" else 3
    for kind in KINDS:
        for k in range(1, depth + 1):
            for ops in itertools.product(["tr", "ren", "cast"], repeat=k):
                if "tr" not in ops:
                    continue
                for order in itertools.permutations(range(k + 1)):
                    for pos in "TC":
                        out.append([kind, list(ops), list(order), pos])
    return out


@chk.section("views", view_cases,
             "a shape grouped, in every order, with every node of a chain of "
             "translate/rename/cast made from it: each entry is judged")
def views(ctx, case):
    kind, ops, order, pos_state = case
    with goos.OptimizationPlan() as plan:
        leaf = Leaf(kind, 1, 0, dict(pos=pos_state))
        plan.run()
        nodes = [(leaf.node, np.zeros(3))]
        for i, op in enumerate(ops):
            node, offset = nodes[-1]
            if op == "tr":
                off = np.array([1, -2, 0.5]) * (i + 1)
                nodes.append((node.translate(off), offset + off))
            elif op == "ren":
                nodes.append((goos.rename(node, "renamed{}".format(i)), offset))
            else:
                nodes.append((goos.cast(node, goos.Shape), offset))
        group = goos.GroupShape([nodes[i][0] for i in order])
        use = Use(group)
        for rnd in range(2):
            flow = group.get()
            require(len(flow) == len(order), "entries")
            for f, i in zip(flow, order):
                leaf.check_flow(plan, f, nodes[i][1])
            for node, offset in nodes + nodes[::-1]:
                leaf.check_flow(plan, node.get(), offset)
            wrt = [(n, v) for n, v in leaf.inputs.items()
                   if isinstance(v, goos.Variable)]
            grads = use.get_grad([v for _, v in wrt])
            for (name, v), g in zip(wrt, grads):
                val = plan.get_var_value(v)
                want = sum(weights(p, name, val.size).reshape(val.shape)
                           for p in range(len(order)))
                require(close(g.array_grad, want), "gradient",
                        lambda: "d/d{}: {}, want {}".format(
                            name, g.array_grad, want))
            for name, v in wrt:
                v.set(plan.get_var_value(v) + 1.5)
            plan.run()
            ctx.step(len(nodes) * 3 + 1)
            ctx.run()
        ctx.state(repr(case))
        ctx.outcome((kind, tuple(order), tuple(ops)))


# --------------------------------------------------------------------------


class Multi(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
    node_type = "verif.p07.multi"

    def __init__(self, deps: List[goos.ProblemGraphNode],
                 names: List[str]) -> None:
        super().__init__(deps, flow_types=[goos.Function] * len(deps),
                         flow_names=names)

    def eval(self, inputs):
        return goos.ArrayFlow([
            flows.NumericFlow(f.array * (i + 2)) for i, f in enumerate(inputs)
        ])

    def grad(self, inputs, grad_val):
        out = []
        for i, f in enumerate(inputs):
            g = grad_val[i]
            out.append(None if g is None else flows.NumericFlow.Grad(
                g.array_grad * (i + 2)))
        return out


def index_cases(tier):
    out = []
    depth = 3 if tier == "quick" else 4
    for names in ([None, None, None], ["a", "b", "c"], ["b", None, "a"]):
        keys = [0, 1, 2, -1] + [n for n in names if n]
        for k in range(1, depth + 1):
            for seq in itertools.product(keys, repeat=k):
                out.append([names, list(seq)])
    return out


@chk.section("index", index_cases,
             "all sequences of up to 3 (thorough 4) index operations by "
             "number, negative number and name on a node with three outputs")
def index(ctx, case):
    names, seq = case
    with goos.OptimizationPlan() as plan:
        vs = [goos.Variable([1.0 + i, 3.0 * i]) for i in range(3)]
        op = Multi(vs, list(names), name="op")
        total = None
        count = [0] * 3
        seen = {}
        for j, key in enumerate(seq):
            ctx.step()
            node = op[key]
            pos = names.index(key) if isinstance(key, str) else key % 3
            if pos in seen:
                require(node is seen[pos] or names[pos] is None, "same-node")
            seen[pos] = node
            if names[pos]:
                require(node._goos_name == "op." + names[pos], "name",
                        node._goos_name)
            require(close(node.get().array, (pos + 2) * vs[pos].get().array),
                    "value")
            term = goos.dot(goos.Constant([1.0 + j, 2.0]), node)
            total = term if total is None else total + term
            count[pos] += 1
        ctx.run()
        grads = total.get_grad(vs)
        for i in range(3):
            want = np.zeros(2)
            for j, key in enumerate(seq):
                pos = names.index(key) if isinstance(key, str) else key % 3
                if pos == i:
                    want += (i + 2) * np.array([1.0 + j, 2.0])
            require(close(grads[i].array_grad, want), "gradient",
                    lambda: "{}: {} want {}".format(i, grads[i].array_grad,
                                                    want))
        ctx.outcome(tuple(count))
        ctx.state((tuple(map(str, names)), tuple(map(str, seq))))


# --------------------------------------------------------------------------


def pixel_cases(tier):
    out = []
    n = 40 if tier == "quick" else 120
    # Decimal values k/10 and k*7/10, and integers.
    for unit in (["0.1", "1", "2.25"] if tier == "quick" else
                 ["0.1", "1", "2.25", "0.7", "40"]):
        for e in range(1, n + 1):
            out.append([unit, e])
    return out


@chk.section("pixels", pixel_cases,
             "extents k*u, pixel sizes j*u, k up to 40 (thorough 120), all j "
             "up to 20, for several units u that are not exact in binary")
def pixels(ctx, case):
    unit, e = case
    u = fractions.Fraction(unit)
    F = goos.PixelatedContShapeFlow
    for j in range(1, 21):
        ctx.step()
        ctx.run()
        ext, px = u * e, u * j
        extents = [float(ext), float(u * 3), float(px)]
        size = [float(px), float(u * 2), float(px)]
        want = [-(-ext // px), 2, 1]
        shape = F.get_shape(extents, size)
        require(list(shape) == want, "pixel-count",
                lambda: "{} pixels of {} in {}, want {}".format(
                    shape, size, extents, want))
        edges = F.get_relative_edge_coords(extents, size)
        cells = F.get_relative_cell_coords(extents, size)
        flow = F(pos=np.array([1.0, -2.0, 0.5]), extents=np.array(extents),
                 pixel_size=np.array(size), array=np.zeros(want))
        aedges, acells = flow.get_edge_coords(), flow.get_cell_coords()
        for a in range(3):
            w = [fractions.Fraction(size[a]).limit_denominator(10**6) *
                 (i - fractions.Fraction(want[a], 2))
                 for i in range(want[a] + 1)]
            x = fractions.Fraction(extents[a]).limit_denominator(10**6) / 2
            w[0], w[-1] = -x, x
            w = np.array([float(v) for v in w])
            require(close(edges[a], w), "edges",
                    lambda: "{} want {}".format(edges[a], w))
            require(edges[a][0] == -extents[a] / 2 and
                    edges[a][-1] == extents[a] / 2, "edges-span")
            require(close(cells[a], (w[1:] + w[:-1]) / 2), "cells",
                    lambda: "{} want {}".format(cells[a], w))
            p = flow.pos[a]
            require(close(aedges[a], w + p) and
                    close(acells[a], (w[1:] + w[:-1]) / 2 + p), "absolute")
        ctx.outcome(tuple(want))
    with goos.OptimizationPlan() as plan:
        var, shp = goos.pixelated_cont_shape(
            lambda s: np.full(s, 0.5), extents, size, [0, 0, 0],
            material=mat(1), material2=mat(2))
        require(list(plan.get_var_value(var).shape) == want, "variable-shape")
        lo, hi = plan.get_var_bounds(var)
        require(np.all(lo == 0) and np.all(hi == 1), "variable-bounds")
        require(close(shp.get().array, np.full(want, 0.5)), "variable-value")
    ctx.state(case)


# --------------------------------------------------------------------------


def param_cases(tier):
    out = []
    seqs = list(itertools.product(range(3), repeat=3))
    if tier == "thorough":
        seqs = list(itertools.product(range(3), repeat=4))
    for nx, ny in ([6, 6], [8, 6], [6, 9]):
        for sym in ([0, 0], [1, 0], [0, 1], [1, 1]):
            for cps in (2.0, 3.0):
                for s in seqs:
                    out.append([nx, ny, sym, cps, list(s)])
    return out


@chk.section("params", param_cases,
             "interpolated shapes: sizes x symmetries x control point spacing "
             "x all sequences of three (thorough four) evaluations or "
             "gradients at three values")
def params(ctx, case):
    nx, ny, sym, cps, seq = case
    with goos.OptimizationPlan() as plan:
        sizes = []

        def init(size):
            sizes.append(size)
            return np.full(size, 0.5)

        var, shp = goos.cubic_param_shape(
            init, [float(nx), float(ny), 2.0], 1.0, cps, [1.0, 2.0, 3.0],
            reflection_symmetry=sym, material=mat(1), material2=mat(2))
        shape = plan.get_var_value(var).shape
        vals = [
            (0.2 + 0.1 * ((np.arange(np.prod(shape)) * (3 + k)) % 5)).reshape(
                shape) for k in range(3)
        ]
        use = Use(shp)
        seen = {}
        for k in seq:
            ctx.step()
            ctx.run()
            var.set(vals[k])
            plan.run()
            flow = shp.get()
            require(list(flow.array.shape) == goos.PixelatedContShapeFlow.
                    get_shape(flow.extents, flow.pixel_size), "array-shape")
            require([len(c) for c in flow.get_cell_coords()] == list(
                flow.array.shape), "array-shape")
            require(close(flow.pos, np.array([1.0, 2.0, 3.0])), "pos")
            require(close(flow.material.permittivity(1), 1) and
                    close(flow.material2.permittivity(1), 4), "material")
            for a in range(2):
                if sym[a]:
                    require(close(flow.array, np.flip(flow.array, a)),
                            "symmetry")
            g = use.get_grad([var])[0].array_grad
            require(g.shape == shape, "gradient-shape")
            # The value at the time of the gradient is still this one.
            got = (flow.array.copy(), g)
            if k in seen:
                require(close(got[0], seen[k][0]) and close(got[1],
                                                            seen[k][1]),
                        "history", "value {} differs when repeated".format(k))
            seen[k] = got
        # Derivative along the differences between the values (the map is
        # linear for values inside the bounds).
        w = weights(0, "array", flow.array.size).reshape(flow.array.shape)
        ks = sorted(seen)
        for a, b in itertools.combinations(ks, 2):
            lhs = np.sum(w * (seen[b][0] - seen[a][0]))
            rhs = np.sum(seen[a][1] * (vals[b] - vals[a]))
            require(close(lhs, rhs, 1e-7, 1e-7), "gradient",
                    lambda: "{} want {}".format(rhs, lhs))
        ctx.outcome((nx, ny, tuple(sym), cps, tuple(ks)))
        ctx.state(repr(case))


if __name__ == "__main__":
    chk.main()
