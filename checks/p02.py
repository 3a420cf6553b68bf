"""P02: gradients of flow graphs equal the true derivative.

Oracles: exact integer path sums for linear graphs; an independent forward
(dual number) differentiation for expressions; Wirtinger derivatives by central
differences of the exact value for complex inputs.
"""
import itertools

import numpy as np

import vlib
from vlib import require
import gooslib as gl
from gooslib import goos, flows

chk = vlib.Check(
    "P02", "model_checking", [
        "values are generic points away from the kinks of abs and max",
        "expressions have operator depth up to 3; linear graphs up to 5 nodes",
    ])

# ------------------------------------------------------- linear graphs, exact


def linear_cases(tier):
    res = []
    for n in range(2, 5):
        for g in gl.dags(n):
            if any(not d for d in g[:-1]) and g[-1]:
                res.append(g)
    res += [
        [[], [0], [0], [1, 2], [3], [3], [4, 5]],
        [[], [], [0, 1], [1, 0], [2, 3], [3, 2], [4, 5]],
        [[], [0], [1], [2], [3], [4]],
        [[], [0], [0], [0], [1, 2, 3], [4, 0]],
        [[], [], [], [0, 1, 2], [0, 1, 3, 0]],
    ]
    if tier == "thorough":
        for g in gl.dags(5):
            if g[-1]:
                res.append(g)
    return res


def weights_for(g, kind):
    ws = []
    for i, d in enumerate(g):
        if kind == 0:
            ws.append([1] * len(d))
        elif kind == 1:
            ws.append([i + 2 + 3 * k for k in range(len(d))])
        else:
            ws.append([(i + k) % 3 for k in range(len(d))])
    return ws


@chk.section("path-sums", linear_cases,
             "all graphs, all sets of heavy nodes, all worker orders, three "
             "weightings (shared gradient objects, distinct, None for zero)")
def path_sums(ctx, g):
    check_paths(ctx, g, range(3))


@chk.section("large-path-sums", lambda tier: [
    [f, n, h] for f in gl.FAMILIES
    for n in (range(6, 21, 2) if tier == "quick" else range(5, 50))
    for h in gl.HEAVY],
             "eight families of graphs of up to 20 (thorough 49) nodes x seven "
             "sets of heavy nodes x first and last worker first")
def large_path_sums(ctx, case):
    fam, n, h = case
    g = gl.families(n)[fam]
    inner = [i for i in range(n) if g[i]]
    check_paths(ctx, g, (0, 1), gl.heavy_mask(h, len(inner)))


def check_paths(ctx, g, kinds, heavy=None):
    n = len(g)
    for kind in kinds:
        ws = weights_for(g, kind)
        coef = [0] * n
        coef[n - 1] = 1
        for i in range(n - 1, -1, -1):
            for j, w in zip(g[i], ws[i]):
                coef[j] += coef[i] * w
        inner = [i for i in range(n) if g[i]]
        leaves = [i for i in range(n) if not g[i]]
        hm = [heavy] if heavy is not None else gl.masks(
            len(inner)) if n <= 4 else [
                0, 2**len(inner) - 1, 0b10101, 0b01010, 0b00110
            ]
        for hmask in hm:

            def run(schedule):
                with goos.OptimizationPlan() as plan:
                    nodes = []
                    for i, d in enumerate(g):
                        if d:
                            node = gl.LinearNode([nodes[j] for j in d], ws[i],
                                                 kind)
                            if hmask >> inner.index(i) & 1:
                                node.parallelize()
                        else:
                            node = goos.Variable(float(i + 1))
                        nodes.append(node)
                    unused = goos.Variable([[1.0, 2.0], [3.0, 4.0]])
                    wrt = [nodes[i] for i in leaves] + [unused]
                    with vlib.controlled_executor(schedule) as points:
                        grads = plan.eval_grad(nodes[-1], wrt)
                desc = "graph={} weights={} heavy={:b} schedule={}".format(
                    g, ws, hmask, schedule)
                for i, gr in zip(leaves, grads):
                    require(vlib.close(np.ravel(gr.array_grad), [coef[i]]),
                            "gradient", "{}: d/dx{} = {}, want {}".format(
                                desc, i, gr.array_grad, coef[i]))
                require(
                    vlib.close(grads[-1].array_grad, np.zeros((2, 2))),
                    "unrelated-variable", desc + " {}".format(grads[-1]))
                for i in inner:
                    require(nodes[i].evals == 1 and nodes[i].grads <= 1,
                            "evaluation-count", desc)
                    if nodes[i].grads:
                        require(
                            vlib.close(np.ravel(nodes[i].seen_grad), [coef[i]]),
                            "partial-gradient",
                            "{}: node {} was differentiated before its "
                            "gradient was complete: {}".format(
                                desc, i, nodes[i].seen_grad))
                ctx.run()
                ctx.step(2 * len(inner))
                ctx.outcome((coef, len(points)))
                ctx.state((g, kind, hmask, schedule))
                return points

            if heavy is None:
                vlib.all_schedules(run)
            else:
                points = run([])
                if any(p > 1 for p in points):
                    run("last")


# ----------------------------------------------------- expressions, dual numbers

VAL = {
    "s": np.array([1.3]),
    "t": np.array([0.7]),
    "v": np.array([0.9, 1.6, 2.3]),
    "w": np.array([1.1, 0.4, 1.9]),
    "i": np.array([2, 3, 5]),  # integer valued variable
    "n": np.array([-0.8, 1.2, -1.7]),
}
CONST = {
    "2": 2,
    "c": np.array([0.5, -1.5, 2.5]),
    "k": np.array([3, 1, 2]),
}
VARS = sorted(VAL)
OFF = {}
_o = 0
for _v in VARS:
    OFF[_v] = _o
    _o += VAL[_v].size
NV = _o


class Dual:
    """Value and Jacobian with respect to all the variables."""

    def __init__(self, x, J):
        self.x = x
        self.J = J  # shape x.shape + (NV,)


def dleaf(name):
    if name in VAL:
        x = VAL[name].astype(float)
        J = np.zeros(x.shape + (NV,))
        for k in range(x.size):
            J[k, OFF[name] + k] = 1
        return Dual(x, J)
    x = np.asarray(CONST[name], dtype=float)
    return Dual(x, np.zeros(x.shape + (NV,)))


class Singular(Exception):
    """The expression is not differentiable at the point (e.g. sqrt at 0)."""


def dun(a, f, fp):
    if not np.all(np.isfinite(fp(a.x))):
        raise Singular()
    return Dual(f(a.x), fp(a.x)[..., None] * a.J)


def bcast(a, shape):
    """Broadcasts a dual; a one-element vector counts as a scalar."""
    if a.x.shape == shape:
        return a
    x = a.x.reshape(()) if a.x.size == 1 else a.x
    J = a.J.reshape(NV) if a.x.size == 1 else a.J
    return Dual(np.broadcast_to(x, shape), np.broadcast_to(J, shape + (NV,)))


def dbin(op, a, b):
    shape = np.broadcast_shapes(a.x.shape, b.x.shape)
    a, b = bcast(a, shape), bcast(b, shape)
    if op == "add":
        return Dual(a.x + b.x, a.J + b.J)
    if op == "sub":
        return Dual(a.x - b.x, a.J - b.J)
    if op == "mul":
        return Dual(a.x * b.x, a.x[..., None] * b.J + b.x[..., None] * a.J)
    if op == "div":
        return Dual(
            a.x / b.x,
            (b.x[..., None] * a.J - a.x[..., None] * b.J) / b.x[..., None]**2)
    if op == "max":
        m = a.x >= b.x
        return Dual(np.where(m, a.x, b.x), np.where(m[..., None], a.J, b.J))
    if op == "dot":
        x = np.sum(a.x * b.x)
        J = a.x[..., None] * b.J + b.x[..., None] * a.J
        return Dual(np.asarray(x), J.reshape(-1, NV).sum(0))
    raise KeyError(op)


def dnorm(a, p):
    x = a.x.ravel()
    n = np.sum(np.abs(x)**p)**(1 / p)
    w = np.sign(x) * np.abs(x)**(p - 1) / n**(p - 1)
    return Dual(np.asarray(n), w @ a.J.reshape(-1, NV))


UN = ["neg", "pow2", "pow3", "inv", "sqrtabs", "abs", "sig", "norm1", "norm2",
      "norm3", "slice", "cast", "rename"]
BIN = ["add", "sub", "mul", "div", "max", "dot"]


def deval(e):
    if isinstance(e, str):
        return dleaf(e)
    op, args = e[0], [deval(a) for a in e[1:]]
    a = args[0]
    if op in BIN:
        return dbin(op, *args)
    if op == "sum":
        r = args[0]
        for b in args[1:]:
            r = dbin("add", r, b)
        return r
    if op == "prod":
        r = args[0]
        for b in args[1:]:
            r = dbin("mul", r, b)
        return r
    if op == "maxn":
        r = args[0]
        for b in args[1:]:
            r = dbin("max", r, b)
        return r
    if op == "neg":
        return Dual(-a.x, -a.J)
    if op == "pow2":
        return dun(a, lambda x: x**2, lambda x: 2 * x)
    if op == "pow3":
        return dun(a, lambda x: x**3, lambda x: 3 * x**2)
    if op == "inv":
        return dun(a, lambda x: 1 / x, lambda x: -1 / x**2)
    if op == "sqrtabs":
        return dun(a, lambda x: np.sqrt(np.abs(x)),
                   lambda x: 0.5 * np.sign(x) / np.sqrt(np.abs(x)))
    if op == "abs":
        return dun(a, np.abs, np.sign)
    if op == "sig":
        s = lambda x: 1 / (1 + np.exp(-x))
        return dun(a, s, lambda x: s(x) * (1 - s(x)))
    if op.startswith("norm"):
        return dnorm(a, int(op[4:]))
    if op in ("cast", "rename"):
        return a
    if op == "slice":
        if a.x.ndim == 0:
            return a
        k = min(1, a.x.size - 1)
        return Dual(a.x[k:k + 1], a.J[k:k + 1])
    if op == "slice2":
        return Dual(a.x[1:3], a.J[1:3])
    if op == "slicec":
        k = a.x.size // 2
        return Dual(a.x[k:k + 1], a.J[k:k + 1])
    raise KeyError(op)


_n = [0]


def build(e, env, heavy):
    """Builds the goos expression; equal sub-expressions are one shared node."""
    key = repr(e)
    if key in env:
        return env[key]
    if isinstance(e, str):
        node = goos.Constant(CONST[e])
    else:
        op = e[0]
        args = [build(a, env, heavy) for a in e[1:]]
        a = args[0]
        if op == "add":
            node = a + args[1]
        elif op == "sub":
            node = a - args[1]
        elif op == "mul":
            node = a * args[1]
        elif op == "div":
            node = a / args[1]
        elif op == "max":
            node = goos.max(a, args[1])
        elif op == "maxn":
            node = goos.max(*args)
        elif op == "dot":
            node = goos.dot(a, args[1])
        elif op == "sum":
            node = goos.Sum(args)
        elif op == "prod":
            node = goos.Product(args)
        elif op == "neg":
            node = -a
        elif op == "pow2":
            node = a**2
        elif op == "pow3":
            node = a**3
        elif op == "inv":
            node = 1 / a
        elif op == "sqrtabs":
            node = goos.abs(a)**0.5
        elif op == "abs":
            node = goos.abs(a)
        elif op == "sig":
            node = goos.Sigmoid(a)
        elif op.startswith("norm"):
            node = goos.norm(a, order=int(op[4:]))
        elif op == "cast":
            node = goos.cast(a, goos.Function)
        elif op == "rename":
            _n[0] += 1
            node = goos.rename(a, name="renamed_{}".format(_n[0]))
        elif op == "slice":
            x = deval(e[1]).x
            node = a if x.ndim == 0 else goos.Slice(a, [min(1, x.size - 1)])
        elif op == "slice2":
            node = goos.Slice(a, [[1, 3]])
        elif op == "slicec":
            node = goos.Slice(a, ["c"])
        else:
            raise KeyError(op)
    if heavy and not isinstance(e, str):
        node.parallelize()
    env[key] = node
    return node


def to_scalar(e):
    return ["dot", "c", e]


def check_expression(ctx, e, heavies=(False, True)):
    with np.errstate(all="ignore"):
        try:
            d = deval(e)
        except Singular:
            return
    if not np.all(np.isfinite(d.J)) or np.any(np.abs(d.x) > 1e8):
        return
    for heavy in heavies:
        with goos.OptimizationPlan() as plan:
            env = {repr(v): goos.Variable(VAL[v]) for v in VARS}
            wrt = [env[repr(v)] for v in VARS]
            node = build(e, env, heavy)
            val = plan.eval_node(node).array
            require(vlib.close(np.ravel(val), np.ravel(d.x)), "value",
                    lambda: "{}: {} want {}".format(e, val, d.x))
            if np.size(d.x) == 1:
                grads = plan.eval_grad(node, wrt)
                for v, gr in zip(VARS, grads):
                    want = d.J.reshape(-1, NV)[0][OFF[v]:OFF[v] + VAL[v].size]
                    want = want.reshape(VAL[v].shape)
                    require(vlib.close(gr.array_grad, want, 1e-8, 1e-8),
                            "gradient", lambda: "{} (heavy={}): d/d{} = {}, "
                            "want {}".format(e, heavy, v, gr.array_grad, want))
                # The variables still have their values.
                for v in VARS:
                    require(
                        vlib.close(plan.get_var_value(env[repr(v)]), VAL[v]),
                        "variable-changed", lambda: str(e))
        ctx.run()
        ctx.step()
    ctx.state(e)
    ctx.outcome(np.round(np.ravel(d.J), 8).tobytes())


LV = ["s", "v", "n", "i", "2", "c"]
L2 = ["t", "w", "2", "k"]


def level1(leaves):
    out = [[u, a] for u in UN for a in leaves]
    out += [[b, a, c] for b in BIN for a in leaves for c in leaves]
    return out


def is_var(e):
    return e in VAL if isinstance(e, str) else any(is_var(a) for a in e[1:])


def shape_ok(e):
    return True


def expr_cases(tier):
    l1 = [e for e in level1(LV) if is_var(e)]
    res = [[to_scalar(e)] for e in l1]
    res += [[["norm2", e]] for e in l1]
    for e in l1:
        res.append([to_scalar([u, e]) for u in UN])
        res.append([to_scalar([b, e, x]) for b in BIN for x in L2])
        res.append([to_scalar([b, x, e]) for b in BIN for x in L2])
        # Shared use of one sub-expression.
        res.append([to_scalar([b, e, e]) for b in BIN] +
                   [to_scalar(["add", ["mul", e, e], ["neg", e]]),
                    ["add", ["norm2", e], ["norm1", e]]])
    if tier == "thorough":
        small = [e for e in level1(["s", "v", "2"]) if is_var(e)]
        for e in small:
            for f in small:
                res.append([to_scalar([b, e, f]) for b in BIN] +
                           [to_scalar(["add", ["mul", e, f], e])])
            for u in UN:
                res.append([to_scalar([b, [u, e], f]) for b in BIN
                            for f in ("s", "v", "w")])
    return res


@chk.section("expressions", expr_cases,
             "all expressions of operator depth 2 over scalar, vector and "
             "integer variables and constants (13 unary, 6 binary operators), "
             "each serial and all-heavy, reduced to a scalar")
def expressions(ctx, case):
    for e in case:
        check_expression(ctx, e)


def nary_cases(tier):
    res = []
    syms = ["s", "v", "w", "2", "c"]
    for k in range(1, 4 if tier == "quick" else 5):
        for combo in itertools.product(syms, repeat=k):
            if any(is_var(x) for x in combo):
                for op in ("sum", "prod", "maxn"):
                    res.append(to_scalar([op] + list(combo)))
    for combo in itertools.product(["s", "v", "w"], repeat=4):
        res.append(to_scalar(["sum"] + list(combo)))
        res.append(to_scalar(["prod"] + list(combo)))
        res.append(to_scalar(["add", ["add", ["add", combo[0], combo[1]],
                                      combo[2]], combo[3]]))
        res.append(to_scalar(["mul", ["mul", combo[0], combo[1]],
                              ["mul", combo[2], combo[3]]]))
    for a in ("v", "i", "w"):
        for sl in ("slice", "slice2", "slicec"):
            for u in ("pow2", "inv", "sig"):
                for n in ("norm1", "norm2", "norm3"):
                    res.append([n, [u, [sl, a]]])
                    res.append([n, [sl, [u, a]]])
    return res


@chk.section("n-ary", nary_cases,
             "all sums, products and maxima of up to 4 terms over 5 symbols "
             "with repetition, flat and nested; slices of vectors")
def nary(ctx, e):
    check_expression(ctx, e)


OPERANDS = {
    "int": 3, "zero": 0, "one": 1, "neg": -1, "float": 2.5,
    "np": np.float64(1.7), "npint": np.int64(4),
    "arr": np.array([0.5, 2.0, -3.0]), "iarr": np.array([2, 3, 4]),
}


def operand_cases(tier):
    return [[o, k, side, x] for o in ("add", "sub", "mul", "div")
            for k in OPERANDS for side in ("l", "r")
            for x in ("s", "v", "sv", "vw", "ss")]


@chk.section("operands", operand_cases,
             "operators with plain numbers and arrays on either side")
def operands(ctx, case):
    o, k, side, xs = case
    c = OPERANDS[k]
    if o == "div" and side == "r" and k == "zero":
        return
    f = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b,
         "mul": lambda a, b: a * b, "div": lambda a, b: a / b}[o]
    base = xs[0] if len(xs) == 1 else [
        {"sv": "prod", "vw": "sum", "ss": "prod"}[xs]] + list(xs)
    d = deval(base)
    cd = Dual(np.asarray(c, float), np.zeros(np.shape(c) + (NV,)))
    want = dbin(o, d, cd) if side == "r" else dbin(o, cd, d)
    want = dbin("dot", dleaf("c"), want)
    with goos.OptimizationPlan() as plan:
        env = {repr(v): goos.Variable(VAL[v]) for v in VARS}
        x = build(base, env, False)
        y = f(x, c) if side == "r" else f(c, x)
        y = goos.dot(CONST["c"], y)
        require(vlib.close(np.ravel(y.get().array), np.ravel(want.x)), "value",
                "{}: {} want {}".format(case, y.get().array, want.x))
        for v in VARS:
            g = y.get_grad([env[repr(v)]])[0].array_grad
            w = want.J[OFF[v]:OFF[v] + VAL[v].size].reshape(VAL[v].shape)
            require(vlib.close(g, w, 1e-8, 1e-8), "gradient",
                    "{}: d/d{} {} want {}".format(case, v, g, w))
    ctx.run()
    ctx.step()
    ctx.outcome((case[:2], float(want.x)))
    ctx.state(case)


# ------------------------------------------------------------------- complex


def cx_cases(tier):
    inner = ["z", "z2", "z+k", "z*k", "k*z*z", "1/z", "conj", "conj2", "z*zz",
             "zz+conj(z)"]
    return [[i, o] for i in inner for o in ("abs", "norm2", "abs2", "norm3")]


@chk.section("complex", cx_cases,
             "|.|, |.|^2 and norms of holomorphic and conjugated expressions "
             "of a complex variable, Wirtinger derivative")
def complex_expr(ctx, case):
    inner, outer = case
    k = np.array([1 - 2j, 0.5j])
    z0 = np.array([1.2 - 0.7j, -0.3 + 0.9j])
    zz = np.array([0.4 + 1.1j, 1.3 - 0.2j])

    def fi(z, conj):
        return {
            "z": lambda: z, "z2": lambda: z**2, "z+k": lambda: z + k,
            "z*k": lambda: z * k, "k*z*z": lambda: k * z * z,
            "1/z": lambda: 1 / z, "conj": lambda: conj(z),
            "conj2": lambda: conj(conj(z) * k), "z*zz": lambda: z * zz,
            "zz+conj(z)": lambda: zz + conj(z) * k
        }[inner]()

    def fo(w):
        if outer == "abs":
            return np.sum(np.array([1.5, -0.5]) * np.abs(w))
        if outer == "abs2":
            return np.sum(np.array([1.5, -0.5]) * np.abs(w)**2)
        return np.sum(np.abs(w)**int(outer[4:]))**(1 / int(outer[4:]))

    with goos.OptimizationPlan() as plan:
        z = goos.Variable(z0)
        w = fi(z, goos.Conjugate)
        if outer == "abs":
            y = goos.dot([1.5, -0.5], goos.abs(w))
        elif outer == "abs2":
            y = goos.dot([1.5, -0.5], goos.abs(w)**2)
        else:
            y = goos.norm(w, order=int(outer[4:]))
        val = y.get().array
        want = fo(fi(z0, np.conj))
        require(vlib.close(np.ravel(val), np.ravel(want)), "value", str(case))
        g = y.get_grad([z])[0].array_grad
    h = 1e-6
    num = np.zeros(2, complex)
    for i in range(2):
        e = np.zeros(2)
        e[i] = h
        dx = (fo(fi(z0 + e, np.conj)) - fo(fi(z0 - e, np.conj))) / (2 * h)
        dy = (fo(fi(z0 + 1j * e, np.conj)) - fo(fi(z0 - 1j * e, np.conj))) / (
            2 * h)
        num[i] = (dx - 1j * dy) / 2
    require(vlib.close(g, num, 1e-6, 1e-7), "gradient",
            "{}: {} want {}".format(case, g, num))
    ctx.run()
    ctx.step()
    ctx.outcome(np.round(num, 6).tobytes())
    ctx.state(case)


@chk.section("zero-norm", [1, 2, 3, 4],
             "the norm of a zero vector has zero gradient")
def zero_norm(ctx, order):
    for z in (np.zeros(3), np.zeros((2, 2)), np.zeros(1)):
        with goos.OptimizationPlan():
            x = goos.Variable(z)
            for y in (goos.norm(x, order=order),
                      goos.norm(x, order=order) + goos.dot(x, 0 * z)):
                require(vlib.close(np.ravel(y.get().array), [0]), "value")
                g = y.get_grad([x])[0].array_grad
                require(vlib.close(g, np.zeros_like(z)), "gradient", str(g))
        ctx.run()
        ctx.state((order, z.shape))
        ctx.outcome((order, z.shape))


if __name__ == "__main__":
    chk.main()
