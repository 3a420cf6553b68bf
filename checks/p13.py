"""P13: invdes objectives: value and gradient of every expression.

Expressions are built with the operator overloads and constructors of the real
code and evaluated by the real graph executor; the oracle is an independent
forward-mode (dual number) interpreter of the expression as it was written.
"""
import itertools

import numpy as np
import scipy.sparse
from scipy.sparse.linalg import aslinearoperator

import gooslib as gl
import vlib
from vlib import require

vlib.import_spins()
from spins.invdes import parametrization, problem
from spins.invdes.problem import graph_executor, objective

chk = vlib.Check(
    "P13", "model_checking", [
        "expressions have up to 3 operators over a fixed alphabet of leaves, "
        "a two-element structure and three parametrizations",
        "points where an expression is not differentiable or not defined are "
        "only required to give a finite gradient, or are left out",
        "the worker pool runs tasks one after another, in every order",
    ])

# --------------------------------------------------------------- the alphabet


class Legacy(problem.OptimizationFunction):
    """Old-style objective: x0*x1 + 2*x0."""

    def __init__(self):
        pass

    def calculate_objective_function(self, param):
        x = param.get_structure()
        return x[0] * x[1] + 2 * x[0]

    def calculate_gradient(self, param):
        x = param.get_structure()
        return np.array([x[1] + 2, x[0]]) @ dense_jac(param)


class Heavy(problem.OptimizationFunction):
    """Heavy objective: x0**2 - 3*x1."""

    def __init__(self, x):
        super().__init__(x, heavy_compute=True)

    def eval(self, vals):
        return vals[0][0]**2 - 3 * vals[0][1]

    def grad(self, vals, g):
        return [g * np.array([2 * vals[0][0], -3.0])]


class ToComplex(problem.OptimizationFunction):
    """Linear map from the real structure to complex vectors (as a simulation)."""

    def __init__(self, x, mat, heavy=False):
        super().__init__(x, heavy_compute=heavy)
        self.mat = np.array(mat)

    def eval(self, vals):
        return self.mat @ vals[0]

    def grad(self, vals, g):
        g = np.asarray(g)
        return [np.real(g @ self.mat if g.ndim else g * self.mat)]


class Total(problem.OptimizationFunction):
    """Sum of the elements (makes a scalar out of a vector)."""

    def __init__(self, f):
        super().__init__(f)

    def eval(self, vals):
        return np.sum(vals[0])

    def grad(self, vals, g):
        return [g * np.ones(np.shape(vals[0]))]


class MatParam(parametrization.Parametrization):
    """Structure A @ p + b, Jacobian in a chosen representation."""
    A = np.array([[1, 2, 0.5], [-1, 0.25, 3]])
    b = np.array([0.125, -0.5])

    def __init__(self, p, form):
        self.p = np.array(p, dtype=float)
        self.form = form

    def get_structure(self):
        return self.A @ self.p + self.b

    def calculate_gradient(self):
        if self.form == "dense":
            return self.A.copy()
        if self.form == "sparse":
            return scipy.sparse.csr_matrix(self.A)
        return aslinearoperator(self.A)

    def encode(self):
        return self.p.copy()

    def decode(self, v):
        self.p = np.array(v)


def dense_jac(param):
    if isinstance(param, MatParam):
        return param.A
    return np.eye(len(param.to_vector()))


def make_param(kind):
    if kind == "direct":
        return parametrization.DirectParam(np.array([0.75, -1.5]),
                                           bounds=[-9, 9])
    if kind == "zero":
        return parametrization.DirectParam(np.array([0.0, 2.0]),
                                           bounds=[-9, 9])
    return MatParam([0.5, -0.25, 0.75], kind)


# Leaves: name -> (factory of the object given the variable, value, jacobian).
CM = np.array([1.5 - 0.5j, -0.25 + 1j])
RAW = {
    "n-3": -3, "n0": 0, "n1.5": 1.5, "nz": 2 - 1j, "nf": np.float64(0.5),
    "n0d": np.array(2.0), "narr": np.array([1.0, -2.0]),
    "nint": np.array([3, 2]), "nzarr": np.array([1j, 2.0])
}
CONST = {
    "c2": 2.0, "c0": 0, "c-1": -1, "cz": 1 + 2j, "carr": np.array([0.5, 3.0]),
    "czarr": np.array([1 - 1j, 2.0])
}
PARAMS = {"P3": 3.0, "Parr": np.array([-1.0, 4.0])}
OBJ = ["x", "x0", "x1", "L", "H", "Z", "W"]


class Undefined(Exception):
    pass


class Dual:

    def __init__(self, val, jac, typ, kink=False):
        self.val = np.asarray(val)
        self.jac = np.asarray(jac)
        self.typ = typ      # "r" or "c": whether the type is complex
        self.kink = kink


def leaf_dual(name, x):
    n = len(x)
    eye = np.eye(n)

    def const(v):
        v = np.asarray(v)
        return Dual(v, np.zeros(v.shape + (n,)),
                    "c" if np.iscomplexobj(v) else "r")

    if name in RAW:
        return const(RAW[name])
    if name in CONST:
        return const(CONST[name])
    if name in PARAMS:
        return const(PARAMS[name])
    if name == "x":
        return Dual(x, eye, "r")
    if name in ("x0", "x1"):
        i = int(name[1])
        return Dual(x[i], eye[i], "r")
    if name == "L":
        return Dual(x[0] * x[1] + 2 * x[0], [x[1] + 2, x[0]], "r")
    if name == "H":
        return Dual(x[0]**2 - 3 * x[1], [2 * x[0], -3.0], "r")
    if name == "Z":
        return Dual(CM @ x, CM, "c")
    if name == "W":
        m = np.array([CM, [1j, 2.0]])
        return Dual(m @ x, m, "c")
    raise KeyError(name)


def build_leaf(name, var):
    if name in RAW:
        v = RAW[name]
        return np.array(v) if isinstance(v, np.ndarray) else v
    if name in CONST:
        return problem.Constant(CONST[name])
    if name in PARAMS:
        return problem.Parameter(PARAMS[name])
    if name == "x":
        return var
    if name in ("x0", "x1"):
        return var[int(name[1])]
    if name == "L":
        return Legacy()
    if name == "H":
        return Heavy(var)
    if name == "Z":
        return ToComplex(var, CM)
    if name == "W":
        return ToComplex(var, [CM, [1j, 2.0]], heavy=True)
    raise KeyError(name)


def bj(j, v, shape):
    """Jacobian times broadcast value: j has one more axis than its value."""
    return np.asarray(j) * np.asarray(v)[..., None]


def dual(e, x):
    """Value and derivative of the expression `e`."""
    if isinstance(e, str):
        return leaf_dual(e, x)
    op = e[0]
    if op in ("+", "-", "*"):
        a, b = dual(e[1], x), dual(e[2], x)
        return binary(op, a, b)
    if op in ("dup+", "dup-", "dup*"):
        a = dual(e[1], x)
        return binary(op[-1], a, a)
    if op == "neg":
        a = dual(e[1], x)
        return Dual(-a.val, -a.jac, a.typ, a.kink)
    if op == "pow" or op == "cpow":
        a, k = dual(e[1], x), e[2]
        v = a.val
        if np.any(v == 0) and k < 1:
            raise Undefined
        if k != int(k) and (a.typ == "c" or np.any(v < 0)):
            raise Undefined
        if a.typ == "r" and k < 0:
            v = v * 1.0
        return Dual(v**k, bj(a.jac, k * v**(k - 1.0) if k != 0 else 0 * v, 0),
                    a.typ, a.kink)
    if op == "abs":
        a = dual(e[1], x)
        m = np.abs(a.val)
        kink = bool(np.any(m == 0))
        s = np.conj(a.val) / np.where(m == 0, 1, m)
        return Dual(m, np.real(bj(a.jac, s, 0)), "r", a.kink or kink)
    if op == "re":
        a = dual(e[1], x)
        return Dual(np.real(a.val), np.real(a.jac), "r", a.kink)
    if op in ("ip", "im", "pc"):
        a = dual(e[1], x)
        if a.typ == "c":
            raise Undefined
        v = a.val * 1.0
        if op == "ip":
            lo, hi, k = -np.inf, e[2], e[3]
        elif op == "im":
            lo, hi, k = e[2], np.inf, e[3]
        else:
            lo, hi, k = e[2], e[3], e[4]
        ev = np.where(v > hi, v - hi, 0) + np.where(v < lo, lo - v, 0)
        over = np.where(v > hi, v - hi, 1.0)
        under = np.where(v < lo, lo - v, 1.0)
        d = (np.where(v > hi, k * over**(k - 1), 0) -
             np.where(v < lo, k * under**(k - 1), 0))
        val = np.where(v > hi, over**k, 0) + np.where(v < lo, under**k, 0)
        del ev
        kink = k == 1 and bool(np.any((v == hi) | (v == lo)))
        return Dual(val, bj(a.jac, d, 0), "r", a.kink or kink)
    parts = [dual(f, x) for f in e[1]]
    if op == "sum":
        w = e[2] if len(e) > 2 else [1] * len(parts)
        tot = Dual(0.0, np.zeros(len(x)), "r")
        for wi, p in zip(w, parts):
            tot = binary("+", tot, Dual(wi * p.val, wi * p.jac, p.typ, p.kink))
        return tot
    if op == "prod":
        tot = Dual(1.0, np.zeros(len(x)), "r")
        for p in parts:
            tot = binary("*", tot, p)
        return tot
    if any(p.typ == "c" or p.val.ndim for p in parts) or not parts:
        raise Undefined
    v = np.array([float(p.val) for p in parts])
    j = np.array([p.jac for p in parts])
    kink = any(p.kink for p in parts)
    w = np.exp(v - v.max())
    w = w / w.sum()
    if op == "lse":
        return Dual(v.max() + np.log(np.sum(np.exp(v - v.max()))), w @ j, "r",
                    kink)
    m = np.dot(v, w)
    return Dual(m, (w * (1 + v - m)) @ j, "r", kink)


def binary(op, a, b):
    typ = "c" if "c" in (a.typ, b.typ) else "r"
    kink = a.kink or b.kink
    if op == "-":
        b = Dual(-b.val, -b.jac, b.typ)
        op = "+"
    shape = np.broadcast(a.val, b.val).shape
    n = a.jac.shape[-1]
    if op == "+":
        val = a.val + b.val
        jac = (np.broadcast_to(a.jac, shape + (n,)) +
               np.broadcast_to(b.jac, shape + (n,)))
    else:
        val = a.val * b.val
        jac = a.jac * b.val[..., None] + b.jac * a.val[..., None]
        jac = np.broadcast_to(jac, shape + (n,))
    return Dual(val, jac, typ, kink)


def build(e, var, made):
    """Builds the expression with the real operators; `made` collects all."""
    if isinstance(e, str):
        o = build_leaf(e, var)
    else:
        op = e[0]
        if op in ("+", "-", "*"):
            a, b = build(e[1], var, made), build(e[2], var, made)
            o = a + b if op == "+" else a - b if op == "-" else a * b
        elif op in ("dup+", "dup-", "dup*"):
            a = build(e[1], var, made)
            o = a + a if op[-1] == "+" else a - a if op[-1] == "-" else a * a
        elif op == "neg":
            o = -build(e[1], var, made)
        elif op == "pow":
            o = build(e[1], var, made)**e[2]
        elif op == "cpow":
            o = build(e[1], var, made)**problem.Constant(e[2])
        elif op == "abs":
            o = problem.AbsoluteValue(build(e[1], var, made))
        elif op == "re":
            o = objective.RealPart(build(e[1], var, made))
        elif op == "ip":
            o = problem.IndicatorPlus(build(e[1], var, made), e[2], e[3])
        elif op == "im":
            o = problem.IndicatorMin(build(e[1], var, made), e[2], e[3])
        elif op == "pc":
            o = problem.PowerComparison(
                build(e[1], var, made), np.array([e[2], e[3]]), e[4])
        else:
            fs = [build(f, var, made) for f in e[1]]
            if op == "sum":
                o = (problem.Sum(fs, weights=np.array(e[2])) if len(e) > 2 else
                     problem.Sum(fs))
            elif op == "prod":
                o = problem.Product(fs)
            elif op == "lse":
                o = problem.LogSumExp(fs)
            elif op == "smax":
                o = problem.SoftmaxAverage(fs)
            else:
                raise KeyError(op)
    if not isinstance(o, problem.OptimizationFunction):
        if isinstance(e, str):
            return o
        vlib.fail("not-an-objective", "{} is {}".format(e, type(o)))
    made.append((e, o))
    return o


def is_raw(e):
    return isinstance(e, str) and e in RAW


def check_expr(ctx, e, pkind, all_subs=True):
    param = make_param(pkind)
    x = param.get_structure()
    try:
        with np.errstate(all="ignore"):
            ref = dual(e, x)
    except Undefined:
        return False
    if not np.all(np.isfinite(ref.val)) or np.max(np.abs(ref.val)) > 1e8:
        return False
    var = problem.Variable(2)
    made = []
    o = build(e, var, made)
    got = o.calculate_objective_function(param)
    ctx.run()
    require(vlib.close(got, ref.val), "value",
            lambda: "{} at {}: got {}, expected {}".format(e, x, got, ref.val))
    if all_subs:
        # The operands still mean what they meant, alone and all together.
        uniq = {id(v): (k, v) for k, v in made}
        uniq.pop(id(var), None)
        objs = list(uniq.values())
        try:
            with np.errstate(all="ignore"):
                refs = [dual(k, x).val for k, _ in objs]
        except Undefined:
            refs = None
        if refs:
            vals = graph_executor.eval_fun([v for _, v in objs], param)
            for (k, _), r, v in zip(objs, refs, vals):
                ctx.step()
                require(vlib.close(v, r), "operand-value",
                        lambda: "{} within {}: got {}, expected {}".format(
                            k, e, v, r))
    root = o
    jac = ref.jac
    if ref.val.ndim:
        root = Total(o)
        jac = jac.sum(axis=tuple(range(ref.val.ndim)))
    if ref.typ == "c":
        # A complex expression is made an objective by its real part.
        root = objective.RealPart(root)
        jac = np.real(jac)
    grad = np.asarray(root.calculate_gradient(param))
    want = jac @ dense_jac(param)
    ctx.step()
    ctx.state((e, pkind))
    ctx.outcome(np.round(want, 9).tolist())
    if ref.kink:
        require(grad.shape == want.shape and np.all(np.isfinite(grad)),
                "gradient-not-finite",
                lambda: "{} at {}: {}".format(e, x, grad))
        return True
    require(vlib.close(grad, want), "gradient",
            lambda: "{} at {}: got {}, expected {}".format(e, x, grad, want))
    # Evaluating did not change the objective.
    again = o.calculate_objective_function(param)
    require(vlib.close(again, ref.val), "value-changed",
            lambda: "{} at {}: now {}, before {}".format(e, x, again, ref.val))
    return True


LEAVES = OBJ + list(CONST) + list(PARAMS)
LEAVES_S = ["x", "x0", "L", "H", "W", "Z", "c2", "cz", "carr", "P3"]
RAWS_S = ["n-3", "narr", "nz"]
UN = [["neg"], ["abs"], ["re"], ["pow", 2], ["pow", 3], ["pow", -1],
      ["pow", 0.5], ["cpow", 2], ["pow", 1], ["pow", 0], ["ip", 0.25, 2],
      ["ip", 0.5, 1], ["im", 0.25, 2], ["im", -0.5, 3], ["pc", -0.5, 0.5, 1],
      ["pc", 0.25, 0.25, 2], ["dup+"], ["dup-"], ["dup*"]]
UN_S = [["neg"], ["abs"], ["re"], ["pow", 2], ["pow", -1], ["ip", 0.25, 2],
        ["pc", -0.5, 0.5, 1], ["dup*"], ["dup-"]]


def app(u, e):
    return [u[0], e] + u[1:]


def level1(leaves, raws, un):
    for u in un:
        for e in leaves:
            yield app(u, e)
    for op in "+-*":
        for a in leaves + raws:
            for b in leaves + raws:
                if not (a in raws and b in raws):
                    yield [op, a, b]
    for n in (0, 1, 2, 3):
        for t in itertools.product(leaves, repeat=n):
            if n == 3 and len(set(t)) < 2:
                continue
            if n == 3 and len(leaves) > 12:
                continue
            for op in ("sum", "prod", "lse", "smax"):
                if n == 0 and op in ("lse", "smax"):
                    continue
                yield [op, list(t)]
            if n:
                yield ["sum", list(t), [2.0, -0.5, 0.0][:n]]


def blocks(cases, size):
    cases = list(cases)
    return [cases[i:i + size] for i in range(0, len(cases), size)]


def run_block(ctx, pkind, es, all_subs=True):
    for e in es:
        check_expr(ctx, e, pkind, all_subs)


@chk.section("one-operator", lambda tier: [
    [pk, b] for pk in ("direct", "zero", "dense", "sparse", "linop")
    for b in blocks(level1(LEAVES, list(RAW), UN), 60)],
             "every expression with one operator over all the leaves (plain "
             "numbers and arrays on either side), five parametrizations: value, "
             "gradient, values of all the operands in one evaluation")
def one_operator(ctx, case):
    run_block(ctx, *case)


def level2(tier):
    if tier == "quick":
        l1 = [e for e in level1(LEAVES_S, RAWS_S, UN_S)
              if e[0] not in ("sum", "prod", "lse", "smax") or len(e[1]) == 2]
        outer = ["x", "x1", "L", "c2", "cz", "n-3", "narr"]
        un = UN_S
    else:
        l1 = list(level1(LEAVES_S, list(RAW), UN))
        outer = LEAVES_S + list(RAW)
        un = UN
    for e in l1:
        for u in un:
            yield app(u, e)
        for o in outer:
            for op in "+-*":
                yield [op, e, o]
                yield [op, o, e]


@chk.section("two-operators", lambda tier: [
    [pk, b] for pk in (("sparse",) if tier == "quick" else
                       ("direct", "zero", "sparse"))
    for b in blocks(level2(tier), 200)],
             "every expression with two nested operators over the reduced "
             "leaves")
def two_operators(ctx, case):
    run_block(ctx, case[0], case[1], False)


def level3(tier):
    """Operators on two compound operands, and chains of three operators."""
    ls = ["x", "x0", "c2", "L"] if tier == "quick" else [
        "x", "x0", "c2", "L", "W", "narr", "n-3"]
    simple = [[op, a, b] for op in "+-*" for a in ls for b in ls
              if not (is_raw(a) and is_raw(b))]
    simple += [app(u, a) for u in (["neg"], ["pow", 2], ["abs"]) for a in ls
               if not is_raw(a)]
    simple += [["sum", [a, b], [3.0, -1.0]] for a in ls for b in ls
               if not is_raw(a) and not is_raw(b)]
    if tier == "quick":
        simple = simple[::1]
    for a in simple:
        for b in simple:
            for op in "+-*":
                yield [op, a, b]
    small = [s for s in simple if "L" not in s]
    for a in small:
        for op in "+-*":
            for op2 in "+-*":
                yield [op, [op2, a, "x1"], "n1.5"]
                yield [op, "n1.5", [op2, "x1", a]]
                yield [op, [op2, "n1.5", a], "c2"]


@chk.section("three-operators", lambda tier: [
    ["sparse", b] for b in blocks(level3(tier), 300)],
             "an operator over every pair of one-operator expressions, and "
             "every chain of three operators, over four to seven leaves")
def three_operators(ctx, case):
    run_block(ctx, case[0], case[1], False)


# -------------------------------------------------- sharing and heavy markings


class Mix(problem.OptimizationFunction):
    """k + sum_i (i+2) in_i + product of the inputs; heavy or not."""

    def __init__(self, k, inputs, heavy):
        super().__init__(inputs, heavy_compute=heavy)
        self.k = k
        self.n = 0

    def eval(self, vals):
        self.n += 1
        v = self.k
        p = 1
        for i, a in enumerate(vals):
            v = v + (i + 2) * a
            p = p * a
        return v + p

    def grad(self, vals, g):
        res = []
        for i in range(len(vals)):
            p = 1
            for j, a in enumerate(vals):
                if j != i:
                    p = p * a
            res.append(g * ((i + 2) + p))
        return res


def mix_dual(k, ins):
    v, p = Dual(float(k), np.zeros(2), "r"), Dual(1.0, np.zeros(2), "r")
    for i, a in enumerate(ins):
        v = binary("+", v, Dual((i + 2) * a.val, (i + 2) * a.jac, "r"))
        p = binary("*", p, a)
    return binary("+", v, p)


def dag_cases(tier):
    n_max = 3 if tier == "quick" else 4
    res = []
    # Node i takes its inputs among x0, x1 (0, 1) and the nodes before it.
    for n in range(1, n_max + 1):
        opts = []
        for i in range(n):
            avail = ([0, 1] if i == 0 else [0]) + list(range(2, 2 + i))
            sets = [list(c) for r in (1, 2, 3)
                    for c in itertools.combinations(avail, r)]
            sets += [[a, a] for a in avail if i < 2]
            if n == 4:
                sets = [s for s in sets if len(s) <= 2 and len(set(s)) == len(s)]
            opts.append(sets)
        for g in itertools.product(*opts):
            used = set(j for s in g for j in s)
            if all(2 + i in used for i in range(n - 1)):
                res.append([list(s) for s in g])
    res += [
        [[0], [0], [1], [2, 3], [3, 4], [5, 6]],
        [[0], [2], [3], [4], [5]],
        [[0], [0], [0], [2, 3, 4]],
        [[0], [1], [2, 3], [2, 3], [4, 5], [6, 2]],
    ]
    return res


@chk.section("shared-heavy", dag_cases,
             "every graph of up to 3 (thorough 4) functions with shared "
             "inputs, every marking of the functions as heavy, legacy leaf or "
             "not, every order of the workers: value, gradient, every function "
             "evaluated once")
def shared_heavy(ctx, g):
    x = np.array([0.5, -0.75])
    eye = np.eye(2)
    n = len(g)
    for legacy in (False, True):
        leafs = [Dual(x[0], eye[0], "r"), Dual(x[1], eye[1], "r")]
        if legacy:
            leafs[0] = leaf_dual("L", x)
        duals = list(leafs)
        for i, s in enumerate(g):
            duals.append(mix_dual(i + 1, [duals[j] for j in s]))
        want_v, want_g = duals[-1].val, duals[-1].jac
        for mask in range(2**n):

            def make():
                var = problem.Variable(2)
                nodes = [Legacy() if legacy else var[0], var[1]]
                for i, s in enumerate(g):
                    nodes.append(Mix(i + 1, [nodes[j] for j in s],
                                     bool(mask >> i & 1)))
                return nodes

            param = parametrization.DirectParam(x.copy(), bounds=[-9, 9])

            def run_v(choices):
                nodes = make()
                with vlib.controlled_executor(choices) as points:
                    v = nodes[-1].calculate_objective_function(param)
                ctx.run()
                require(vlib.close(v, want_v), "value",
                        lambda: "{} heavy {:b} legacy {} order {}: {} != {}"
                        .format(g, mask, legacy, choices, v, want_v))
                for nd in nodes[2:]:
                    require(nd.n == 1, "evaluated-more-than-once",
                            lambda: "{} heavy {:b}: {} evaluations".format(
                                g, mask, nd.n))
                return points

            def run_g(choices):
                nodes = make()
                with vlib.controlled_executor(choices) as points:
                    d = nodes[-1].calculate_gradient(param)
                ctx.run()
                ctx.step(n)
                require(vlib.close(d, want_g), "gradient",
                        lambda: "{} heavy {:b} legacy {} order {}: {} != {}"
                        .format(g, mask, legacy, choices, d, want_g))
                return points

            def run_l(choices):
                nodes = make()
                with vlib.controlled_executor(choices) as points:
                    vals = graph_executor.eval_fun(nodes[::-1] + [nodes[-1]],
                                                   param)
                ctx.run()
                want = [d.val for d in duals[::-1]] + [want_v]
                require(all(vlib.close(a, b) for a, b in zip(vals, want)) and
                        len(vals) == len(want), "list-value",
                        lambda: "{} heavy {:b}: {} != {}".format(
                            g, mask, vals, want))
                return points

            ctx.state((g, legacy, mask))
            ctx.outcome((g, float(want_v)))
            for r in (run_v, run_g, run_l):
                vlib.all_schedules(r)


class Lean(Mix):
    """A weighted sum of the inputs and half the square of the first one."""

    def eval(self, vals):
        self.n += 1
        v = 0.25 * vals[0]**2 + self.k
        for i, a in enumerate(vals):
            v = v + (i + 1) * a / (len(vals) + 1)
        return np.tanh(v)

    def grad(self, vals, g):
        n = self.n
        t = self.eval(vals)
        self.n = n
        return [g * (1 - t**2) * ((i + 1) / (len(vals) + 1) +
                                  (0.5 * vals[0] if i == 0 else 0))
                for i in range(len(vals))]


@chk.section("large-graphs", lambda tier: [
    [f, n, h] for f in gl.FAMILIES
    for n in (range(6, 30, 4) if tier == "quick" else range(5, 60))
    for h in gl.HEAVY],
             "eight families of graphs of up to 26 (thorough 59) functions x "
             "seven sets of heavy functions x first and last worker first")
def large_graphs(ctx, case):
    fam, n, h = case
    g = gl.families(n)[fam]
    mask = gl.heavy_mask(h, n)
    x = np.array([0.5, -0.75])
    param = parametrization.DirectParam(x.copy(), bounds=[-9, 9])
    vals, jacs = [x[0], x[1]], [np.array([1.0, 0]), np.array([0, 1.0])]
    ins = [[j + 2 for j in s] or [i % 2] for i, s in enumerate(g)]
    for i, s in enumerate(ins):
        v = 0.25 * vals[s[0]]**2 + (i % 3) * 0.1
        d = 0.5 * vals[s[0]] * jacs[s[0]]
        for k, j in enumerate(s):
            v = v + (k + 1) * vals[j] / (len(s) + 1)
            d = d + (k + 1) * jacs[j] / (len(s) + 1)
        vals.append(np.tanh(v))
        jacs.append((1 - np.tanh(v)**2) * d)
    for choices in ([], "last"):
        var = problem.Variable(2)
        nodes = [var[0], var[1]]
        for i, s in enumerate(ins):
            nodes.append(Lean((i % 3) * 0.1, [nodes[j] for j in s],
                              bool(mask >> i & 1)))
        with vlib.controlled_executor(choices):
            v = nodes[-1].calculate_objective_function(param)
        require(vlib.close(v, vals[-1]), "value", lambda: "{}: {} != {}".format(
            case, v, vals[-1]))
        require(all(nd.n <= 1 for nd in nodes[2:]), "evaluated-more-than-once",
                lambda: str(case))
        with vlib.controlled_executor(choices):
            d = nodes[-1].calculate_gradient(param)
        require(vlib.close(d, jacs[-1]), "gradient", lambda:
                "{}: {} != {}".format(case, d, jacs[-1]))
        ctx.run(2)
        ctx.step(n)
    ctx.state(case)
    ctx.outcome(float(np.round(vals[-1], 9)))


# ------------------------------------------------ parallel lists and problems


def exprs_small():
    return ["x0", ["pow", "x0", 2], ["*", "x0", "x1"], "L", "H", "c2",
            ["abs", "Z"]]


@chk.section("parallel-and-problem", lambda tier: [
    list(t) for n in range(0, 4) for t in itertools.product(
        range(len(exprs_small())), repeat=n)],
             "every list of up to 3 objectives: parallel values and gradients "
             "in the order given, for every worker order; the same as equality "
             "and inequality constraints of a problem with every split; the "
             "same with slack variables")
def parallel(ctx, case):
    es = exprs_small()
    for pk in ("direct", "sparse"):
        param = make_param(pk)
        x = param.get_structure()
        J = dense_jac(param)
        refs = [dual(es[i], x) for i in case]
        want_v = [float(np.real(r.val)) for r in refs]
        want_g = [np.real(r.jac) @ J for r in refs]
        n_par = len(param.to_vector())

        def make():
            var = problem.Variable(2)
            return [build(es[i], var, []) for i in case]

        def same(kind, got, want):
            require(len(got) == len(want) and
                    all(vlib.close(a, b) for a, b in zip(got, want)), kind,
                    lambda: "{}: {} != {}".format([es[i] for i in case], got,
                                                  want))

        def run(choices):
            with vlib.controlled_executor(choices) as points:
                same("parallel-value", objective.calculate_objective_parallel(
                    make(), param), want_v)
            ctx.run()
            return points

        def run_grad(choices):
            with vlib.controlled_executor(choices) as points:
                same("parallel-gradient", objective.calculate_gradient_parallel(
                    make(), param), want_g)
            ctx.run()
            return points

        vlib.all_schedules(run)
        vlib.all_schedules(run_grad)
        ctx.state((case, pk))
        ctx.outcome(want_v)
        if not case:
            continue
        # Constraints: the first is the objective, every split of the others.
        for k in range(len(case)):

            def make_problem():
                objs = make()
                return problem.OptimizationProblem(
                    objs[0], cons_eq=objs[1:1 + k], cons_ineq=objs[1 + k:])

            def run_problem(choices):
                opt = make_problem()
                with vlib.controlled_executor(choices) as points:
                    same("objective", [opt.calculate_objective_function(param)],
                         want_v[:1])
                    same("objective-gradient", [opt.calculate_gradient(param)],
                         want_g[:1])
                    eq, ineq = opt.calculate_constraints(param)
                    geq, gineq = opt.calculate_constraint_gradients(param)
                ctx.run()
                same("equality-constraints", eq, want_v[1:1 + k])
                same("inequality-constraints", ineq, want_v[1 + k:])
                same("equality-gradients", geq, want_g[1:1 + k])
                same("inequality-gradients", gineq, want_g[1 + k:])
                return points

            vlib.all_schedules(run_problem)
            # With slack variables: f; g = 0; h + s = 0, s >= 0.
            opt = make_problem()
            slack = problem.SlackOptimizationProblem(opt)
            sp = slack.build_param(param)
            m = len(case) - 1 - k
            before = param.to_vector().copy()
            s = np.array([0.5, 2.0, 3.0])[:m]
            sp.from_vector(np.append(before, s))
            require(np.array_equal(sp.to_vector(), np.append(before, s)),
                    "slack-vector", lambda: str(sp.to_vector()))
            ctx.run()
            z = np.zeros(m)
            same("slack-objective", [slack.calculate_objective_function(sp)],
                 want_v[:1])
            same("slack-objective-gradient", [slack.calculate_gradient(sp)],
                 [np.append(want_g[0], z)])
            eq, ineq = slack.calculate_constraints(sp)
            geq, gineq = slack.calculate_constraint_gradients(sp)
            require(len(ineq) == 0 and len(gineq) == 0, "slack-inequality", "")
            want_eq = want_v[1:1 + k] + [
                v + si for v, si in zip(want_v[1 + k:], s)]
            want_geq = [np.append(d, z) for d in want_g[1:1 + k]]
            for i, d in enumerate(want_g[1 + k:]):
                e = z.copy()
                e[i] = 1
                want_geq.append(np.append(d, e))
            same("slack-constraints", eq, want_eq)
            same("slack-constraint-gradients", geq, want_geq)
            lo, hi = sp.get_bounds()
            require(len(lo) == n_par + m and len(hi) == n_par + m,
                    "slack-bounds", lambda: "{} {}".format(lo, hi))
            require(all(v == 0 for v in lo[n_par:]) and
                    all(v is None or v == np.inf for v in hi[n_par:]),
                    "slack-bounds", lambda: "{} {}".format(lo, hi))
            pb = param.get_bounds()
            want_lo = [None] * n_par if pb is None else list(pb[0])
            want_hi = [None] * n_par if pb is None else list(pb[1])
            require(list(lo[:n_par]) == want_lo and
                    list(hi[:n_par]) == want_hi, "slack-bounds",
                    lambda: "{} {} of {}".format(lo, hi, pb))
            require(np.array_equal(param.to_vector(), before) and
                    opt.get_inequality_constraints() == opt.cons_ineq and
                    len(opt.cons_ineq) == m and len(opt.cons_eq) == k,
                    "slack-changed-the-problem", "")


# ------------------------------------------------------ histories of parameters

H_OPS = ["set0", "set1", "move0", "move1", "eval", "grad"]


@chk.section("parameter-history", lambda tier: [
    list(h) for h in itertools.product(
        range(len(H_OPS)), repeat=4 if tier == "quick" else 6)
    if h[-1] >= 4],
             "every history of setting a parameter, moving the parametrization "
             "and evaluating an objective: it always reflects the current "
             "values, and a constant keeps the value it was made with")
def parameter_history(ctx, h):
    var = problem.Variable(2)
    par = problem.Parameter(2.0)
    arr = np.array([1.0, 3.0])
    const = problem.Constant(arr)
    arr[:] = 100
    obj = Total(par * var * const + par**2) - par * problem.AbsoluteValue(var[1])
    param = parametrization.DirectParam(np.array([0.5, -1.0]), bounds=[-9, 9])
    a, x = 2.0, np.array([0.5, -1.0])
    c = np.array([1.0, 3.0])
    for i in h:
        op = H_OPS[i]
        ctx.step()
        if op.startswith("set"):
            a = [-1.5, 4.0][int(op[3])]
            par.set_parameter_value(a)
        elif op.startswith("move"):
            x = np.array([[2.0, 0.25], [-3.0, 1.0]][int(op[4])])
            param.from_vector(x.copy())
        elif op == "eval":
            want = np.sum(a * x * c + a**2) - a * abs(x[1])
            got = obj.calculate_objective_function(param)
            require(vlib.close(got, want), "value",
                    lambda: "{} != {}".format(got, want))
            ctx.outcome(float(want))
        else:
            want = a * c - np.array([0, a * np.sign(x[1])])
            got = obj.calculate_gradient(param)
            require(vlib.close(got, want), "gradient",
                    lambda: "{} != {}".format(got, want))
        ctx.state((a, tuple(x), op))
    ctx.run()


# ------------------------------------------------------------ field objectives


def toy_space(dims, dxes=None):

    class Space:
        pass

    sp = Space()
    sp.dims = dims
    if dxes is None:
        dxes = [[np.array([1.0 + 0.25 * i + 0.125 * k for i in range(dims[k])])
                 for k in range(3)] for _ in range(2)]
    sp.dxes = dxes
    return sp


def complex_basis(n, seed):
    return np.array([((i * 7 + seed * 3) % 11 - 5) / 4 + 1j *
                     (((i * 5 + seed * 2) % 7) - 3) / 4 for i in range(n)])


def transmission_cases(tier):
    for dims in ([3, 2, 2], [2, 3, 4]) if tier == "quick" else (
            [3, 2, 2], [2, 3, 4], [3, 3, 3], [1, 3, 2]):
        for axis in range(3):
            for pol in (1, -1):
                for pos in range(dims[axis]):
                    for part in (0, 1):
                        yield [dims, axis, pol, pos, part]


@chk.section("poynting", lambda tier: list(transmission_cases(tier)),
             "power through every plane of small grids: value against the "
             "Poynting vector computed by hand, gradient through a real to "
             "complex map")
def poynting(ctx, case):
    from spins.invdes.problem_graph.functions import poynting as py
    dims, axis, pol, pos, part = case
    wlen = 1.5
    sp = toy_space(dims)
    n = 3 * int(np.prod(dims))
    sl = [slice(0, d) for d in dims]
    sl[axis] = slice(pos, pos + 1)
    if part:
        o = (axis + 1) % 3
        sl[o] = slice(0, max(1, dims[o] - 1))
    var = problem.Variable(2)
    mat = np.stack([complex_basis(n, 1), complex_basis(n, 4)], axis=1)
    field = ToComplex(var, mat)
    fn = py.PowerTransmissionFunction(field, sp, wlen, tuple(sl), axis, pol)
    x = np.array([0.5, -0.75])

    def power(x):
        e = np.stack([c.reshape(dims, order="F")
                      for c in np.split(mat @ x, 3)])
        return pol * plane_power(e, sp.dxes, 2 * np.pi / wlen, axis, sl)

    param = parametrization.DirectParam(x.copy(), bounds=[-9, 9])
    got = fn.calculate_objective_function(param)
    want = power(x)
    require(vlib.close(got, want), "value",
            lambda: "{} != {}".format(got, want))
    # The power is a quadratic form of x: its derivative is exact.
    h = 0.5
    wg = np.array([(power(x + h * d) - power(x - h * d)) / (2 * h)
                   for d in np.eye(2)])
    grad = fn.calculate_gradient(param)
    ctx.run()
    ctx.state(case)
    ctx.outcome(np.round(want, 9))
    if vlib.close(grad, wg):
        return
    if vlib.close(2 * np.asarray(grad), wg):
        vlib.fail("half-gradient", "{} is half of {}".format(grad, wg))
    vlib.fail("gradient", "{} != {}".format(grad, wg))


def plane_power(e, dxes, omega, axis, sl):
    """sum of 0.5 Re(E x H*) dA over the plane with the Yee averaging used by
    fdfd_tools: E x H evaluated with the E component of the neighbouring cell.
    """
    dx_e = dxes[0]

    def cell(d, k):
        s = [1, 1, 1]
        s[k] = -1
        return d[k].reshape(s)

    def fwd(f, k):
        return np.roll(f, -1, axis=k)

    # curl E (forward differences over dx_e), H = curl E / (-i omega mu).
    curl = []
    for k in range(3):
        a, b = (k + 1) % 3, (k + 2) % 3
        curl.append((fwd(e[b], a) - e[b]) / cell(dx_e, a) -
                    (fwd(e[a], b) - e[a]) / cell(dx_e, b))
    h = [c / (-1j * omega) for c in curl]
    u, v = (axis + 1) % 3, (axis + 2) % 3
    s = (fwd(e[u], axis) * np.conj(h[v]) - fwd(e[v], axis) * np.conj(h[u]))
    s = s * cell(dx_e, u) * cell(dx_e, v)
    return np.sum(0.5 * np.real(s)[tuple(sl)])


@chk.section("overlap-and-structure", lambda tier: [
    [k, i, f] for k in ("overlap", "diff-eps", "fit-eps") for i in range(6)
    for f in ("direct", "sparse", "dense", "linop")],
             "overlap, permittivity difference and permittivity fit objectives "
             "with real and complex vectors: value and gradient")
def overlap_structure(ctx, case):
    from spins.invdes.problem_graph import creator_em
    from spins.invdes.problem.structure_objectives import Fit2Eps
    kind, i, form = case
    param = make_param(form)
    x = param.get_structure()
    J = dense_jac(param)
    var = problem.Variable(2)
    n = 4
    A = np.stack([complex_basis(n, i), complex_basis(n, i + 2)], axis=1)
    c = complex_basis(n, i + 5)
    if i % 2:
        A = np.real(A)
    if i % 3 == 0:
        c = np.real(c)
    if kind == "overlap":
        f = problem.AbsoluteValue(
            creator_em.OverlapFunction(ToComplex(var, A), c))**2
        z = c @ A @ x
        want = abs(z)**2
        wg = 2 * np.real(np.conj(z) * (c @ A)) @ J
    elif kind == "diff-eps":
        f = creator_em.DiffEpsilon(ToComplex(var, A), lambda: c)
        d = A @ x - c
        want = np.sum(np.abs(d)**2)
        wg = 2 * np.real(np.conj(d) @ A) @ J
    else:
        bg = complex_basis(n, i + 1)
        if i % 2:
            bg = np.real(bg)
        f = Fit2Eps(bg, scipy.sparse.csr_matrix(np.real(A)), c)
        d = bg + np.real(A) @ x - c
        want = np.sum(np.abs(d)**2)
        wg = 2 * np.real(np.conj(d) @ np.real(A)) @ J
    got = f.calculate_objective_function(param)
    require(vlib.close(got, want), "value", lambda: "{} {}".format(got, want))
    grad = np.asarray(f.calculate_gradient(param))
    ctx.run()
    ctx.state(case)
    ctx.outcome(np.round(want, 9))
    require(vlib.close(grad, wg), "gradient",
            lambda: "{} != {}".format(grad, wg))
    # Combined with other objectives.
    g = 2 * f - var[0] * 3 + f * f
    wg2 = 2 * wg - 3 * J[0] + 2 * want * wg
    grad = np.asarray(g.calculate_gradient(param))
    require(vlib.close(grad, wg2), "combined-gradient",
            lambda: "{} != {}".format(grad, wg2))


if __name__ == "__main__":
    chk.main()
