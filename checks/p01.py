"""P01: evaluating a flow graph, for every graph, flag set and schedule."""
import itertools

import numpy as np

import vlib
from vlib import require, fail
import gooslib as gl
from gooslib import goos, flows
from spins.goos import graph_executor

chk = vlib.Check(
    "P01", "model_checking", [
        "heavy nodes are explored at the granularity of whole node evaluations "
        "(every order in which the workers of every parallel batch can finish)",
        "graphs have up to 4 (quick) or 5 (thorough) function nodes with at "
        "most 2 inputs each",
    ])


def out_lists(n):
    last = [n - 1]
    res = [last, list(range(n)), list(range(n))[::-1], [n - 1, n - 1]]
    if n > 1:
        res.append([0, n - 1])
        res.append([n - 2, 0, n - 2])
    return res


def reference(g, over):
    """Plain recursive evaluation. Returns values and (const, frozen)."""
    val, flag = {}, {}

    def ev(i):
        if i in val:
            return
        if i in over:
            val[i], flag[i] = over[i]
            return
        for j in g[i]:
            ev(j)
        val[i] = gl.combine(i, [val[j] for j in g[i]])
        flag[i] = (all(flag[j][0] for j in g[i]), all(flag[j][1] for j in g[i]))

    for i in range(len(g)):
        ev(i)
    return val, flag


def needed(g, outs, over):
    """Nodes that have to be evaluated, and nodes that may be."""
    must, may = set(), set()

    def walk(i, stop, acc):
        if i in acc or (stop and i in over):
            return
        acc.add(i)
        for j in g[i]:
            walk(j, stop, acc)

    for o in outs:
        walk(o, True, must)
        walk(o, False, may)
    return must, may - set(over)


def execute(g, heavy, outs, over, schedule, single=False):
    """Runs the real executor; returns (values, nodes, points)."""
    nodes = []
    for i, deps in enumerate(g):
        # Nodes with and without a context argument.
        cls = gl.ProbeNode if i % 3 != 2 else gl.ProbeNodeNoContext
        node = cls([nodes[j] for j in deps], i)
        if heavy >> i & 1:
            node.parallelize()
        nodes.append(node)
    om = {}
    for i, (v, (c, f)) in over.items():
        om[nodes[i]] = (flows.NumericFlow(np.array([v])),
                        goos.NodeFlags(flows.NumericFlow.ConstFlags(c),
                                       flows.NumericFlow.ConstFlags(f)))
    with vlib.controlled_executor(schedule) as points:
        if single:
            res = [graph_executor.eval_fun(nodes[outs[0]], om or None)]
        else:
            res = graph_executor.eval_fun([nodes[o] for o in outs], om)
    return [int(r.array[0]) for r in res], nodes, points


def judge(ctx, g, heavy, outs, over, schedule, single=False):
    vals, nodes, points = execute(g, heavy, outs, over, schedule, single)
    ref, flag = reference(g, over)
    desc = "graph={} heavy={:b} outs={} supplied={} schedule={}".format(
        g, heavy, outs, over, schedule)
    require(vals == [ref[o] for o in outs], "value",
            lambda: "{}: got {} want {}".format(desc, vals,
                                                [ref[o] for o in outs]))
    must, may = needed(g, outs, over)
    for i, node in enumerate(nodes):
        k = len(node.calls)
        ctx.step(k)
        lo = 1 if i in must else 0
        hi = 1 if i in may else 0
        require(lo <= k <= hi, "evaluation-count",
                lambda: "{}: node {} evaluated {} times".format(desc, i, k))
        for got, fl in node.calls:
            require(got == [ref[j] for j in g[i]], "inputs",
                    lambda: "{}: node {} was given {}".format(desc, i, got))
            if fl is not None:
                require(fl == [flag[j] for j in g[i]], "flags",
                        lambda: "{}: node {} saw flags {}, want {}".format(
                            desc, i, fl, [flag[j] for j in g[i]]))
    ctx.run()
    ctx.state((g, heavy, outs, sorted(over), schedule))
    ctx.outcome((vals, len(points)))
    return points


def graph_cases(tier):
    res = []
    for n in range(1, 5):
        res += list(gl.dags(n))
    # Nodes with three inputs.
    res += [g for g in gl.dags(3, 3) if max(map(len, g)) == 3]
    res += [g for g in gl.dags(4, 3)
            if max(map(len, g)) == 3 and sum(map(len, g)) <= 5]
    if tier == "thorough":
        res += list(gl.dags(5))
    # Layered graphs with more nodes: two parallel batches separated by, or
    # next to, ordinary nodes; chains; graphs with several outputs.
    res += [
        [[], [0], [0], [1, 2], [3], [3], [4, 5]],
        [[], [], [0, 1], [1, 0], [2, 3], [3, 2], [4, 5]],
        [[], [0], [1], [2], [3], [4]],
        [[], [0], [0], [0], [1, 2, 3], [4, 0]],
        [[], [0], [1, 0], [2, 1, 0], [3, 2, 1, 0]],
    ]
    return res


def multi_cases(tier):
    """Graphs in which some nodes are not used by the last one."""
    res = []
    for n in range(2, 5):
        full = [g for g in gl.dags(n, 2, all_reachable=False)]
        reach = [g for g in gl.dags(n, 2)]
        res += [g for g in full if g not in reach]
    return res


@chk.section("schedules", graph_cases,
             "all graphs, all sets of heavy nodes, all orders in which the "
             "workers of each parallel batch run, all output lists")
def schedules(ctx, g):
    n = len(g)
    for heavy in gl.masks(n):
        for outs in out_lists(n):
            vlib.all_schedules(
                lambda s: judge(ctx, g, heavy, outs, {}, s))
    judge(ctx, g, 0, [n - 1], {}, [], single=True)


@chk.section("supplied", graph_cases,
             "all graphs, all subsets of nodes supplied with a value, all sets "
             "of heavy nodes (graphs up to 3 nodes) or all/none/alternating")
def supplied(ctx, g):
    n = len(g)
    fl = [(False, False), (True, False), (False, True), (True, True)]
    for mask in range(1, 2**n):
        over = {
            i: (1000 + i, fl[(i + mask) % 4]) for i in range(n) if mask >> i & 1
        }
        hs = gl.masks(n) if n <= 4 else [0, 2**n - 1, 0b010101, 0b101010]
        for heavy in hs:
            vlib.all_schedules(
                lambda s: judge(ctx, g, heavy, [n - 1], over, s))
        judge(ctx, g, 0, list(range(n)), over, [])
        judge(ctx, g, 2**n - 1, list(range(n))[::-1], over, [])


@chk.section("several-outputs", multi_cases,
             "all graphs up to 4 nodes with several sinks, all sets of heavy "
             "nodes, all pairs of outputs in both orders and all outputs")
def several(ctx, g):
    n = len(g)
    for heavy in gl.masks(n):
        for outs in [list(range(n))] + [
                list(p) for p in itertools.permutations(range(n), 2)
        ]:
            judge(ctx, g, heavy, outs, {}, [])


@chk.section("large", lambda tier: [
    [f, n, h] for f in gl.FAMILIES
    for n in (range(5, 25) if tier == "quick" else range(5, 70))
    for h in gl.HEAVY],
             "eight families of graphs of every size up to 24 (thorough 69) x "
             "seven sets of heavy nodes x first and last worker first, with "
             "and without a supplied node in the middle")
def large(ctx, case):
    fam, n, h = case
    g = gl.families(n)[fam]
    heavy = gl.heavy_mask(h, n)
    for outs in ([n - 1], [n - 1, 0, n // 2], list(range(n))):
        points = judge(ctx, g, heavy, outs, {}, [])
        if any(p > 1 for p in points):
            judge(ctx, g, heavy, outs, {}, "last")
    judge(ctx, g, heavy, [n - 1], {n // 2: (1000, (True, False))}, [])


# ---------------------------------------------------------------- plan level

LEAVES = ["var", "frozen", "param", "const", "probe"]


def flag_cases(tier):
    res = []
    shapes = [[[], [0]], [[], [], [0, 1]], [[], [], [0, 1], [0, 2]],
              [[], [], [], [0, 1], [3, 2]], [[], [0], [0, 1], [2, 2]]]
    for g in shapes:
        leaves = [i for i, d in enumerate(g) if not d]
        for kinds in itertools.product(LEAVES, repeat=len(leaves)):
            for heavy in ([0, 2**len(g) - 1]):
                for real in (0, 1):
                    res.append([g, list(kinds), heavy, real])
    return res


@chk.section("plan-flags", flag_cases,
             "all leaf kinds (thawed and frozen variables, parameters, "
             "constants, functions) on 5 graph shapes, serial and heavy, inner "
             "nodes being harness probes or goos sums/products")
def plan_flags(ctx, case):
    g, kinds, heavy, real = case
    leaves = [i for i, d in enumerate(g) if not d]
    with goos.OptimizationPlan() as plan:
        nodes, val, flag = [], [], []
        for i, deps in enumerate(g):
            if not deps:
                k = kinds[leaves.index(i)]
                v = 3 + 2 * i
                if k in ("var", "frozen"):
                    node = goos.Variable(v)
                    if k == "frozen":
                        node.freeze()
                elif k == "param":
                    node = goos.Variable(v, parameter=True)
                elif k == "const":
                    node = goos.Constant([v])
                else:
                    node = gl.ProbeNode([], i)
                    v = gl.combine(i, [])
                val.append(v)
                flag.append({"var": (False, False), "frozen": (False, True),
                             "param": (False, True), "const": (True, True),
                             "probe": (True, True)}[k])
            else:
                ins = [nodes[j] for j in deps]
                last = i == len(g) - 1
                if real and not last:
                    node = goos.Sum(ins) if i % 2 else goos.Product(ins)
                    acc = [val[j] for j in deps]
                    val.append(sum(acc) if i % 2 else int(np.prod(acc)))
                else:
                    node = gl.ProbeNode(ins, i)
                    val.append(gl.combine(i, [val[j] for j in deps]))
                flag.append((all(flag[j][0] for j in deps),
                             all(flag[j][1] for j in deps)))
            if heavy >> i & 1:
                node.parallelize()
            nodes.append(node)
        plan.run()
        for rep in range(2):
            res = plan.eval_nodes(nodes)
            for i, r in enumerate(res):
                require(int(np.ravel(r.array)[0]) == val[i], "value",
                        "{}: node {} is {}, want {}".format(
                            case, i, r, val[i]))
            for i, node in enumerate(nodes):
                if isinstance(node, gl.ProbeNode):
                    require(len(node.calls) == rep + 1, "evaluation-count",
                            "{}: node {} {}".format(case, i, node.calls))
                    require(node.calls[-1][1] == [flag[j] for j in g[i]],
                            "flags", "{}: node {} saw {} want {}".format(
                                case, i, node.calls[-1][1],
                                [flag[j] for j in g[i]]))
        one = nodes[-1].get()
        require(int(np.ravel(one.array)[0]) == val[-1], "value", str(case))
        ctx.run()
        ctx.step(len(nodes))
        ctx.state(case)
        ctx.outcome((val, flag))


if __name__ == "__main__":
    chk.main()
