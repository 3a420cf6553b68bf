"""P16: invdes optimizers honour limits, bounds and every constraint.

Gradient optimizers are driven through all sequences of calls and compared
with reference update rules; the scipy wrapper and the penalty and augmented
Lagrangian optimizers run against a stand-in minimiser which inspects
everything it is given on a lattice of points and, where the continuation
depends on its answer, returns every answer of a small set.
"""
import itertools

import numpy as np
import scipy.optimize

import vlib
from vlib import require, fail

vlib.import_spins()
import gooslib as gl
from spins.invdes import optimization as optim
from spins.invdes import parametrization as pz
from spins.invdes import problem
from spins.invdes.problem import slack_optimization_problem as slk

chk = vlib.Check("P16", "model_checking", [
    "objectives and constraints are quadratic with small coefficients",
    "at most three optimize calls with limits out of {none, 0, 1, 2, 3}",
    "numeric minimisers are scipy's; they are trusted to solve the small "
    "problems they are given (the stand-in checks what they are given)",
])


class Quad(problem.OptimizationFunction):
    """sum_i w_i (x_i - c_i)^2 + b.x + d; counts and keeps its gradients."""

    def __init__(self, w, c, b=0.0, d=0.0, scale=1.0, cache=False):
        self.w, self.c = np.array(w, float), np.array(c, float)
        self.b = np.zeros(len(self.w)) + b
        self.d, self.scale = d, scale
        self.cache = {} if cache else None

    def value(self, x):
        return self.scale * (np.sum(self.w * (x - self.c)**2) +
                             np.dot(self.b, x) + self.d)

    def deriv(self, x):
        return self.scale * (2 * self.w * (x - self.c) + self.b)

    def calculate_objective_function(self, param):
        return self.value(param.get_structure())

    def calculate_gradient(self, param):
        g = np.asarray(self.deriv(param.get_structure()) @
                       param.calculate_gradient())
        if self.cache is None:
            return g
        # A function that remembers its gradients, as simulations do.
        return self.cache.setdefault(tuple(param.encode()), g)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


# ------------------------------------------------------ gradient optimizers


def clip(x, bnd):
    return x if bnd is None else np.clip(x, bnd[0], bnd[1])


class Ref:
    """Reference update rules."""

    def __init__(self, kind, obj, x, bnd, opt):
        self.kind, self.obj, self.x, self.bnd, self.o = kind, obj, x, bnd, opt
        self.n = 0
        self.m = self.v = 0.0
        self.alpha = opt.get("rate", 0.01)

    def step(self):
        """One iteration; True to stop."""
        g = self.obj.deriv(self.x)
        o, kind = self.o, self.kind
        self.n += 1
        if kind == "gd":
            if o.get("normalize"):
                n = np.linalg.norm(g)
                g = g / n if n > 0 else g
            new = self.x - self.alpha * g
        elif kind == "agd":
            if np.linalg.norm(g) < o["tol"]:
                return True
            f = self.obj.value(self.x)
            while True:
                new = clip(self.x - self.alpha * g, self.bnd)
                if self.obj.value(new) <= f:
                    self.alpha *= o["up"]
                    break
                self.alpha *= o["down"]
        elif kind == "adagrad":
            self.v = self.v + g * g
            new = self.x - self.alpha * g / np.sqrt(self.v + 1e-6)
        elif kind == "rms":
            self.v = o["gamma"] * self.v + (1 - o["gamma"]) * g * g
            new = self.x - self.alpha * g / np.sqrt(self.v + 1e-6)
        elif kind == "adam":
            self.m = o["b1"] * self.m + (1 - o["b1"]) * g
            self.v = o["b2"] * self.v + (1 - o["b2"]) * g * g
            new = self.x - self.alpha * (self.m / (1 - o["b1"]**self.n)) / (
                np.sqrt(self.v / (1 - o["b2"]**self.n)) + 1e-8)
        elif kind == "nag":
            g = self.obj.deriv(
                clip(self.x - o["gamma"] * self.m, self.bnd))
            self.m = o["gamma"] * self.m + self.alpha * g
            new = self.x - self.m
        self.x = clip(new, self.bnd)
        return False


KINDS = {
    "gd": (optim.GradientDescent, [
        dict(rate=0.25), dict(rate=0.25, normalize=True),
        dict(rate=2.0)], dict(rate="learning_rate",
                              normalize="normalize_gradient")),
    "agd": (optim.AdaptiveGradientDescent, [
        dict(rate=0.25, up=1.5, down=0.5, tol=1e-8),
        dict(rate=8.0, up=1.5, down=0.25, tol=1.0)],
            dict(rate="learning_rate", up="success_factor",
                 down="failure_factor", tol="stop_tolerance")),
    "adagrad": (optim.Adagrad, [dict(rate=0.5), dict(rate=4.0)],
                dict(rate="learning_rate")),
    "rms": (optim.RmsProp, [dict(rate=0.25, gamma=0.5),
                            dict(rate=0.01, gamma=0.9)],
            dict(rate="learning_rate", gamma="gamma")),
    "adam": (optim.Adam, [dict(rate=0.25, b1=0.5, b2=0.75),
                          dict(rate=0.01, b1=0.9, b2=0.999)],
             dict(rate="learning_rate", b1="beta1", b2="beta2")),
    "nag": (optim.Nag, [dict(rate=0.25, gamma=0.5),
                        dict(rate=0.01, gamma=0.9)],
            dict(rate="learning_rate", gamma="gamma")),
}

# A call: (iters, new max_iters or "keep", what happens to the parametrization)
def call_sequences(tier):
    first = [(i, m) for i in (None, 0, 1, 2) for m in (None, 0, 1, 3)
             if i is not None or m is not None]
    later = [(0, "keep"), (1, "keep"), (2, "keep"), (None, 3), (1, None)]
    res = [[f] for f in first]
    res += [[f, l] for f in first for l in later]
    if tier == "thorough":
        res += [[f, l, k] for f in first for l in later for k in later]
    else:
        res += [[f, l, k] for f in [(1, None), (None, 1), (2, 3)]
                for l in later for k in later]
    return res


def grad_cases(tier):
    res = []
    for kind in sorted(KINDS):
        for oi in range(len(KINDS[kind][1])):
            for bnd in (None, (0, 1)):
                for start in ((0.25, 0.75), (0.5, -0.5), (1.0, 1.0)):
                    for cache in (0, 1):
                        if tier != "thorough" and cache and start[0] != 0.25:
                            continue
                        res.append([kind, oi, bnd, start, cache])
    return res


@chk.section("gradient-optimizers", grad_cases,
             "6 optimizers, 2-3 settings, with and without bounds, 3 starting "
             "points (one is the optimum); all sequences of up to 2 calls (3 "
             "for a subset) with limits per call and in total; every iterate "
             "compared with the update rule")
def gradient_optimizers(ctx, case):
    kind, oi, bnd, start, cache = case
    cls, opts, argn = KINDS[kind]
    opt = opts[oi]
    for seq in call_sequences(ctx.tier):
        run_sequence(ctx, case, cls, opt, argn, seq, False)
    for seq in [[(1, None), (1, "keep")], [(2, None), (2, "keep")]]:
        run_sequence(ctx, case, cls, opt, argn, seq, True)


def run_sequence(ctx, case, cls, opt, argn, seq, move):
    kind, _, bnd, start, cache = case
    obj = Quad([1, 0.5], [1, 1], cache=cache)
    x0 = np.array(start)
    param = pz.DirectParam(x0.copy(), bounds=bnd)
    o = cls(obj, param, **{argn[k]: v for k, v in opt.items()})
    ref = Ref(kind, Quad([1, 0.5], [1, 1]), x0.copy(), bnd, opt)
    total, limit = 0, None
    for ci, (iters, maxi) in enumerate(seq):
        if maxi != "keep":
            limit = maxi
            o.max_iters = maxi
        if move and ci == 1:
            # The parametrization is changed between the calls.
            param.from_vector(np.array([3.0, -2.0]))
            ref.x = clip(np.array([3.0, -2.0]), bnd)
        if iters is None and limit is None:
            return
        want = []
        while True:
            if iters is not None and len(want) >= iters:
                break
            if limit is not None and total >= limit:
                break
            stop = ref.step()
            total += 1
            want.append(ref.x.copy())
            if stop:
                break
        got = []

        def callback(p):
            require(p is o.param, "callback-argument", str(case))
            got.append(np.array(p.to_vector()))
            if len(got) > len(want) + 5:
                fail("iteration-limit",
                     "{} calls {}: more than {} iterations".format(
                         case, seq[:ci + 1], len(want)))

        o.optimize(iters, callback=callback)
        require(len(got) == len(want), "iteration-limit",
                lambda: "{} calls {}: {} iterations, want {}".format(
                    case, seq[:ci + 1], len(got), len(want)))
        for k, (g, w) in enumerate(zip(got, want)):
            require(close(g, w), "update-rule",
                    lambda: "{} calls {} iteration {}: {} want {}".format(
                        case, seq[:ci + 1], k, g, w))
        require(close(o.param.to_vector(), ref.x), "update-rule", str(case))
        require(o.iter == total, "iteration-count", str((case, seq)))
        ctx.step(len(want))
    ctx.run()
    ctx.state((case, seq, move))
    ctx.outcome((kind, total, np.round(ref.x, 6).tolist()))


class Endless(optim.GradientOptimizer):
    """Stops by itself after n iterations."""

    def __init__(self, n):
        super().__init__()
        self.n = n

    def iterate(self):
        return self.iter + 1 >= self.n


@chk.section("termination", [[n, i, m] for n in range(1, 5)
                             for i in (None, 0, 1, 2, 7)
                             for m in (None, 0, 1, 3)],
             "an optimizer that decides to stop itself, all limits")
def termination(ctx, case):
    n, iters, maxi = case
    o = Endless(n)
    o.max_iters = maxi
    calls = []
    o.optimize(iters, callback=calls.append)
    want = min([v for v in (n, iters, maxi) if v is not None])
    require(o.iter == want == len(calls), "iteration-limit",
            lambda: "{}: {} {}".format(case, o.iter, want))
    ctx.run()
    ctx.step(want)
    ctx.state(case)
    ctx.outcome(want)


# ------------------------------------------------------------ scipy wrapper

METHODS = [
    "Nelder-Mead", "Powell", "CG", "BFGS", "L-BFGS-B", "TNC", "COBYLA",
    "SLSQP"
]
JAC = {"CG", "BFGS", "L-BFGS-B", "TNC", "SLSQP"}
BOUNDED = {"L-BFGS-B", "TNC", "SLSQP"}
CONSTRAINED = {"COBYLA", "SLSQP"}
LATTICE = [np.array(p) for p in itertools.product((0.0, 0.5, 1.0), repeat=2)]
CONS = [
    Quad([0, 0], [0, 0], [1, 1], -1), Quad([1, 1], [0, 0], 0, -1),
    Quad([0, 0], [0, 0], [1, -2], 0.25), Quad([1, 0], [1, 0], [0, 1], 0)
]


def make_param(kind, x=(0.25, 0.5)):
    x = np.array(x, float)
    if kind == "unit":
        return pz.DirectParam(x), [(0, 1), (0, 1)]
    if kind == "list":
        return pz.DirectParam(x, bounds=[[0, -1], [1, 2]]), [(0, 1), (-1, 2)]
    if kind == "array":
        return pz.DirectParam(
            x, bounds=[np.array([0.0, -1.0]), np.array([1.0, 2.0])]
        ), [(0, 1), (-1, 2)]
    if kind == "half":
        return pz.DirectParam(x, bounds=[0, None]), [(0, None), (0, None)]
    if kind == "free":
        return pz.DirectParam(x, bounds=None), [(None, None), (None, None)]
    if kind == "composite":
        return pz.CompositeParam([
            pz.DirectParam(x[:1], bounds=[0, 1]),
            pz.DirectParam(x[1:], bounds=[-1, 2])
        ]), [(0, 1), (-1, 2)]
    raise ValueError(kind)


PKINDS = ["unit", "list", "array", "half", "free", "composite"]


def norm_bounds(b):
    if b is None:
        return None
    res = []
    for lo, hi in b:
        lo = None if lo is None or lo == -np.inf else float(lo)
        hi = None if hi is None or hi == np.inf else float(hi)
        res.append((lo, hi))
    return None if all(r == (None, None) for r in res) else res


def wrap_cases(tier):
    res = []
    for method in METHODS:
        for pk in PKINDS:
            for ne in range(3):
                for ni in range(3):
                    res.append([method, pk, ne, ni])
    return res


@chk.section("scipy-wrapper", wrap_cases,
             "8 methods, 6 kinds of parametrizations, 0-2 equality and 0-2 "
             "inequality constraints: the stand-in minimiser evaluates "
             "everything it is given on a lattice, in every order of two "
             "points")
def scipy_wrapper(ctx, case):
    method, pk, ne, ni = case
    param, bnds = make_param(pk)
    obj = Quad([1, 2], [0.5, 0.25], [0.5, 0], 1)
    eqs, ineqs = CONS[:ne], CONS[2:2 + ni]
    prob = problem.OptimizationProblem(obj, list(eqs), list(ineqs))
    options = {"maxiter": 7, "tol": 0.125}
    given = dict(options)
    extra = [{"type": "eq", "fun": lambda x: 0.0}]
    own_bounds = [(0.25, 0.5), (None, 1)] if ne == 1 else None
    answer = np.array([0.75, 0.5])
    calls = []
    seen = []

    def callback(x):
        seen.append((np.array(x), np.array(param.to_vector())))

    def stand_in(fun, x0, jac=None, tol=None, method=None, options=None,
                 callback=None, constraints=None, bounds=None, **kw):
        calls.append(method)
        require(not kw.get("args"), "arguments", str(kw))
        require(close(x0, [0.25, 0.5]), "start", str((case, x0)))
        require(tol == 0.125 and options == {"maxiter": 7}, "options",
                lambda: "{}: {} {}".format(case, tol, options))
        require((jac is not None and jac is not False) == (method in JAC),
                "jacobian", str(case))
        if method in BOUNDED:
            want = own_bounds if own_bounds is not None else bnds
            require(norm_bounds(bounds) == norm_bounds(want), "bounds",
                    lambda: "{}: {} want {}".format(case, bounds, want))
        cons = list(constraints or ())
        want = []
        if method in CONSTRAINED:
            want = [("eq", c, 1) for c in eqs] + [("ineq", c, -1)
                                                  for c in ineqs]
            require(len(cons) == len(want) + 1 and cons[-1] is extra[0],
                    "constraints-number", lambda: "{}: {}".format(case, cons))
            require([c["type"] for c in cons[:-1]] == [w[0] for w in want],
                    "constraint-types", lambda: "{}: {}".format(case, cons))
        else:
            require(not cons, "constraints-number", str((case, cons)))
        # Everything is evaluated at every point, whatever was evaluated
        # before and wherever.
        for x, y in itertools.product(LATTICE, repeat=2):
            fun(y)
            require(close(fun(x), obj.value(x)), "objective-value",
                    str((case, x)))
            fun(y)
            if method in JAC:
                require(close(jac(x), obj.deriv(x)), "objective-gradient",
                        str((case, x)))
            for c, (_, ref, sign) in zip(cons, want):
                fun(y)
                require(close(c["fun"](x), sign * ref.value(x)),
                        "constraint-value",
                        lambda: "{}: constraint {} at {}: {} want {}".format(
                            case, want.index((_, ref, sign)), x, c["fun"](x),
                            sign * ref.value(x)))
                fun(y)
                require(close(c["jac"](x), sign * ref.deriv(x)),
                        "constraint-gradient", str((case, x)))
            ctx.step(2 + 2 * len(cons))
        for x in LATTICE[:3]:
            fun(x + 0.125)
            callback(np.copy(x))
            require(close(x, seen[-1][0]) and close(x, seen[-1][1]),
                    "callback-parametrization",
                    lambda: "{}: callback at {} sees {}".format(
                        case, x, seen[-1]))
        require(len(seen) == 3, "callback-count", str(case))
        fun(x + 0.125)
        return scipy.optimize.OptimizeResult(x=answer, fun=0.0, success=True)

    with gl.replaced_minimize(stand_in):
        o = optim.ScipyOptimizer(method=method, options=options,
                                 constraints=extra, bounds=own_bounds)
        res = o(prob, param, callback)
        require(res is param and close(param.to_vector(), answer), "result",
                str(case))
        # A second optimizer with the same options is the same optimizer.
        require(options == given, "options-changed",
                lambda: "{}: {}".format(case, options))
        param.from_vector(np.array([0.25, 0.5]))
        seen.clear()
        o2 = optim.ScipyOptimizer(prob if ne + ni else obj, param,
                                  method=method, options=options,
                                  constraints=extra, bounds=own_bounds)
        o2.optimize(callback)
        require(len(calls) == 2 and close(param.to_vector(), answer),
                "result", str(case))
        require(len(extra) == 1, "constraints-changed", str(case))
    ctx.run(2)
    ctx.state(case)
    ctx.outcome((case, len(calls)))


def qp_cases(tier):
    cs = [-0.5, 0.25, 0.75, 1.5]
    res = []
    for c in itertools.product(cs, repeat=2):
        for con in itertools.product(range(3), repeat=3):
            # For each of three linear functions: absent, equality, inequality
            if sum(v == 1 for v in con) <= 1:
                res.append([list(c), list(con)])
    return res


LIN = [(np.array([1.0, 1.0]), 1.0), (np.array([1.0, -1.0]), 0.25),
       (np.array([-1.0, 0.5]), -0.125)]


def solve_qp(c, cons, bnds):
    """Exact minimiser of |x-c|^2 under linear constraints: enumerate the
    active sets."""
    eq = [(a, b) for (a, b), k in zip(LIN, cons) if k == 1]
    ineq = [(a, b) for (a, b), k in zip(LIN, cons) if k == 2]
    for i, (lo, hi) in enumerate(bnds):
        e = np.zeros(2)
        e[i] = 1
        ineq += [(e, hi), (-e, -lo)]
    best = None
    for n in range(0, 3 - len(eq)):
        for act in itertools.combinations(ineq, n):
            A = np.array([a for a, _ in eq] + [a for a, _ in act]).reshape(
                -1, 2)
            b = np.array([v for _, v in eq] + [v for _, v in act])
            if len(A):
                if np.linalg.matrix_rank(A) < len(A):
                    continue
                x = c - A.T @ np.linalg.solve(A @ A.T, A @ c - b)
            else:
                x = c.copy()
            if all(a @ x <= v + 1e-9 for a, v in ineq):
                f = np.sum((x - c)**2)
                if best is None or f < best[0]:
                    best = (f, x)
    return None if best is None else best[1]


@chk.section("constrained-optimum", qp_cases,
             "16 quadratic objectives and all combinations of three linear "
             "functions as equality (at most one) or inequality constraints, "
             "with bounds: SLSQP and L-BFGS-B reach the exact optimum found "
             "by enumerating the active sets")
def constrained_optimum(ctx, case):
    c, cons = np.array(case[0]), case[1]
    want = solve_qp(c, cons, [(0, 1), (0, 1)])
    if want is None:
        return
    obj = Quad([1, 1], c)
    fs = [Quad([0, 0], [0, 0], a, -b) for a, b in LIN]
    prob = problem.OptimizationProblem(
        obj, [f for f, k in zip(fs, cons) if k == 1],
        [f for f, k in zip(fs, cons) if k == 2])
    methods = ["SLSQP"] + (["L-BFGS-B", "TNC"] if not any(cons) else [])
    for method in methods:
        param = pz.DirectParam(np.array([0.5, 0.5]))
        n = []
        optim.ScipyOptimizer(method=method)(prob, param, n.append)
        x = param.to_vector()
        require(close(x, want, 1e-4), "optimum",
                lambda: "{} {}: {} want {}".format(method, case, x, want))
        require(np.all(x >= 0) and np.all(x <= 1), "out-of-bounds", str(case))
        ctx.step(len(n))
        ctx.run()
    ctx.state(case)
    ctx.outcome(np.round(want, 4).tolist())


@chk.section("iteration-limits", [[m, n, pk] for m in
                                  ("L-BFGS-B", "BFGS", "CG", "SLSQP",
                                   "Nelder-Mead", "Powell", "TNC")
                                  for n in (1, 2, 3) for pk in PKINDS],
             "scipy's own minimisers stop at the iteration limit and call "
             "the callback at most once per iteration, with the current "
             "parametrization")
def iteration_limits(ctx, case):
    method, n, pk = case
    param, bnds = make_param(pk)
    obj = Quad([1, 20], [0.75, 0.125], [0, 0.1])
    key = "maxfun" if method == "TNC" else "maxiter"
    seen = []

    def callback(x):
        p = np.array(param.to_vector())
        q, _ = make_param(pk)
        q.from_vector(np.array(x))
        require(close(p, q.to_vector()), "callback-parametrization",
                lambda: "{}: {} {}".format(case, p, x))
        seen.append(p)

    o = optim.ScipyOptimizer(method=method, options={key: n})
    o(problem.OptimizationProblem(obj), param, callback)
    if method != "TNC":
        require(len(seen) <= n, "iteration-limit", str((case, len(seen))))
    x = param.to_vector()
    for v, (lo, hi) in zip(x, bnds):
        require((lo is None or v >= lo) and (hi is None or v <= hi),
                "out-of-bounds", str((case, x)))
    q, _ = make_param(pk)
    q.from_vector(o.get_results()["x"])
    require(close(x, q.to_vector()), "result", str(case))
    ctx.run()
    ctx.step(len(seen))
    ctx.state(case)
    ctx.outcome((method, len(seen)))


# -------------------------------------------------------------------- slack


def slack_cases(tier):
    return [[pk, ne, ni, s] for pk in PKINDS for ne in range(3)
            for ni in range(4) for s in range(2)] + [
        [pk, ne, ni, s] for pk in ("unit", "composite") for ne in (0, 2)
        for ni in ((4, 5, 9, 11, 12) if tier == "quick" else range(4, 20))
        for s in range(2)]


SCONS = CONS + [Quad([0.5, 0], [0, 0], [0, 2], -0.5)] + [
    Quad([0.25 * i, 1], [0.5, -0.125 * i], [i, 1], 0.5 * i - 2)
    for i in range(20)]


def slack_values(values, n):
    """All the combinations, or some if there are too many."""
    if n <= 3:
        return list(itertools.product(values, repeat=n))
    m = len(values)
    return [tuple(values[(i * a + b) % m] for i in range(n))
            for a in (1, 2) for b in range(m)] + [
                tuple(0.25 * i for i in range(n))]


@chk.section("slack-problem", slack_cases,
             "6 kinds of parametrizations, 0-2 equality and 0-3 (a few of up "
             "to 12) inequality constraints: vectors, bounds, values and gradients of the "
             "problem with slack variables on a lattice")
def slack_problem(ctx, case):
    pk, ne, ni, order = case
    param, bnds = make_param(pk)
    obj = Quad([1, 2], [0.5, 0.25], [0.5, 0], 1)
    eqs, ineqs = SCONS[:ne], SCONS[2:2 + ni]
    if order:
        ineqs = ineqs[::-1]
    prob = problem.OptimizationProblem(obj, list(eqs), list(ineqs))
    sp = slk.SlackOptimizationProblem(prob)
    p = sp.build_param(param)
    require(close(p.to_vector(), [0.25, 0.5] + [0] * ni), "start", str(case))
    lo, hi = p.get_bounds()
    require(len(lo) == len(hi) == 2 + ni, "bounds",
            lambda: "{}: {} {}".format(case, lo, hi))
    require(
        norm_bounds(zip(lo, hi)) == norm_bounds(bnds + [(0, None)] * ni),
        "bounds", lambda: "{}: {} {}".format(case, lo, hi))
    require(len(sp.get_inequality_constraints()) == 0 and
            len(sp.get_equality_constraints()) == ne + ni,
            "constraints-number", str(case))
    values = (0.0, 0.5, 2.0)
    for x in LATTICE[::2]:
        for s in slack_values(values, ni):
            v = np.concatenate([x, s])
            p.from_vector(v)
            require(close(p.to_vector(), v), "vector", str((case, v)))
            require(close(p.get_param().to_vector(), x) and
                    p.get_param() is param, "wrapped", str((case, v)))
            require(close(sp.calculate_objective_function(p), obj.value(x)),
                    "objective-value", str((case, v)))
            require(
                close(sp.calculate_gradient(p),
                      np.concatenate([obj.deriv(x), np.zeros(ni)])),
                "objective-gradient", str((case, v)))
            eq, ineq = sp.calculate_constraints(p)
            want = [c.value(x) for c in eqs] + [
                c.value(x) + t for c, t in zip(ineqs, s)
            ]
            require(close(eq, want) and len(ineq) == 0, "constraint-value",
                    lambda: "{} at {}: {} want {}".format(case, v, eq, want))
            eg, ig = sp.calculate_constraint_gradients(p)
            wg = [np.concatenate([c.deriv(x), np.zeros(ni)]) for c in eqs]
            for i, c in enumerate(ineqs):
                e = np.zeros(ni)
                e[i] = 1
                wg.append(np.concatenate([c.deriv(x), e]))
            require(len(eg) == len(wg) and len(ig) == 0 and
                    all(close(a, b) for a, b in zip(eg, wg)),
                    "constraint-gradient",
                    lambda: "{} at {}: {} want {}".format(case, v, eg, wg))
            ctx.step(4)
        # Slack variables are never negative.
        for s in slack_values((-1.0, 0.25), ni):
            p.from_vector(np.concatenate([x, s]))
            require(close(p.to_vector(), np.concatenate(
                [x, np.maximum(s, 0)])), "negative-slack",
                    lambda: "{} at {}: {}".format(case, s, p.to_vector()))
        data = p.serialize()
        other = sp.build_param(make_param(pk)[0])
        other.deserialize(data)
        require(close(other.to_vector(), p.to_vector()), "serialize",
                str(case))
    ctx.run()
    ctx.state(case)
    ctx.outcome((pk, ne, ni))


# ------------------------------------------------- penalty, aug. Lagrangian


def penalty_cases(tier):
    res = []
    for pk in ("unit", "composite", "free"):
        for ne in range(3):
            for ni in range(3):
                for cyc in (0, 1, 3):
                    for start in (0, 1):
                        res.append([pk, ne, ni, cyc, start])
    return res


@chk.section("penalty-optimizer", penalty_cases,
             "0-2 equality and 0-2 inequality constraints, 0-3 cycles, started "
             "from the beginning or a later cycle, used twice: the inner "
             "optimizer checks the objective of each cycle on a lattice")
def penalty_optimizer(ctx, case):
    pk, ne, ni, cycles, start = case
    obj = Quad([1, 2], [0.5, 0.25], [0.5, 0], 1)
    eqs, ineqs = CONS[:ne], CONS[2:2 + ni]
    prob = problem.OptimizationProblem(obj, list(eqs), list(ineqs))
    log = []
    answers = [np.array([0.5, 0.25]), np.array([0.25, 1.0]),
               np.array([1.0, 0.5])]

    def check(f, v):
        x, s = v[:2], v[2:]
        h = [c.value(x) for c in eqs] + [
            c.value(x) + t for c, t in zip(ineqs, s)]
        return obj.value(x) + log[-1]["mu"] * sum(t**2 for t in h)

    def fake(fun, x0, jac=None, callback=None, options=None, bounds=None,
             method=None, **kw):
        mu = 2.0
        for _ in range(len(log) if not start else len(log)):
            mu = mu**1.5
        log.append({"mu": mu, "options": dict(options or {})})
        require(method == "L-BFGS-B", "method", str(case))
        require(len(x0) == 2 + ni, "start", str((case, x0)))
        require(
            norm_bounds(bounds) == norm_bounds(
                make_param(pk)[1] + [(0, None)] * ni), "bounds",
            lambda: "{}: {}".format(case, bounds))
        for x in LATTICE[::3]:
            for s in itertools.product((0.0, 0.5), repeat=ni):
                v = np.concatenate([x, s])
                require(close(fun(v), check(fun, v)), "penalty-value",
                        lambda: "{} cycle {} at {}: {} want {}".format(
                            case, len(log) - 1, v, fun(v), check(fun, v)))
                num = [(check(fun, v + e) - check(fun, v - e)) / 2e-6
                       for e in 1e-6 * np.eye(len(v))]
                require(close(jac(v), num, 1e-5), "penalty-gradient",
                        lambda: "{} cycle {} at {}: {} want {}".format(
                            case, len(log) - 1, v, jac(v), num))
                ctx.step(2)
        y = np.concatenate([answers[len(log) - 1], np.full(ni, 0.25)])
        fun(y + 0.125)
        callback(np.copy(y))
        return scipy.optimize.OptimizeResult(x=y, fun=0.0, success=True)

    o = optim.PenaltyOptimizer(options={
        "mu0": 2.0, "tau": 1.5, "pf": 2, "num_cycles": cycles, "maxiter": 5})
    with gl.replaced_minimize(fake):
        for use in range(2):
            param, _ = make_param(pk)
            log.clear()
            seen, cyc = [], []

            def callback(p):
                require(p is param, "callback-argument", str(case))
                seen.append((o.cycle_num, o.mu, np.array(p.to_vector())))

            def cycle_callback(p):
                cyc.append(np.array(p.to_vector()))

            first = 0
            if start and not use:
                o.cycle_num = first = 1
            res = o(prob, param, callback, cycle_callback)
            n = max(0, cycles - first)
            require(res is param, "result", str(case))
            require(len(log) == n, "cycle-count",
                    lambda: "{} use {}: {} cycles, want {}".format(
                        case, use, len(log), n))
            require(len(seen) == len(cyc) == n, "callback-count",
                    lambda: "{}: {} {}".format(case, seen, cyc))
            for k, (c, mu, x) in enumerate(seen):
                require(c == first + k and close(mu, log[k]["mu"]) and
                        close(x, answers[k]) and close(cyc[k], answers[k]),
                        "callback-state", lambda: "{}: {}".format(case, seen))
                require(log[k]["options"].get("maxiter") == 5,
                        "iteration-limit", str(case))
            if n:
                require(close(param.to_vector(), answers[n - 1]), "result",
                        str(case))
            ctx.run()
    ctx.state(case)
    ctx.outcome((ne, ni, cycles, start))


def auglag_cases(tier):
    pts = list(range(4))
    depth = 3 if tier == "thorough" else 2
    res = []
    for ne in range(3):
        for ni in range(3):
            if ne + ni:
                for seq in itertools.product(pts, repeat=depth):
                    res.append([ne, ni, list(seq)])
    return res


APTS = [np.array([0.5, 0.5]), np.array([0.25, 1.0]), np.array([0.0, 1.0]),
        np.array([0.625, 0.375])]


@chk.section("augmented-lagrangian", auglag_cases,
             "1-4 constraints, all sequences of answers of the inner minimiser "
             "out of 4 points (2 cycles, thorough 3): multipliers and penalty "
             "factor follow Nocedal and Wright's algorithm 17.4")
def augmented_lagrangian(ctx, case):
    ne, ni, seq = case
    obj = Quad([1, 2], [0.5, 0.25], [0.5, 0], 1)
    eqs = [CONS[0], CONS[1]][:ne]
    ineqs = CONS[2:2 + ni]
    prob = problem.OptimizationProblem(obj, list(eqs), list(ineqs))
    st = {"lam": np.ones(ne + ni), "mu": 10.0, "ctol": 1 / 10.0**0.1,
          "ltol": 1 / 10.0**2, "k": 0}

    def cons(v):
        x, s = v[:2], v[2:]
        return np.array([c.value(x) for c in eqs] +
                        [c.value(x) + t for c, t in zip(ineqs, s)])

    def lag(v):
        h = cons(v)
        return obj.value(v[:2]) - st["lam"] @ h + 0.5 * st["mu"] * h @ h

    def fake(fun, x0, jac=None, callback=None, options=None, bounds=None,
             **kw):
        require(close(options["ftol"], st["ltol"]) and
                options["maxiter"] == 4, "options",
                lambda: "{}: {} want {}".format(case, options, st))
        for x in LATTICE[::3]:
            for s in itertools.product((0.0, 0.5), repeat=ni):
                v = np.concatenate([x, s])
                require(close(fun(v), lag(v)), "lagrangian-value",
                        lambda: "{} cycle {} at {}: {} want {}".format(
                            case, st["k"], v, fun(v), lag(v)))
                num = [(lag(v + e) - lag(v - e)) / 2e-6
                       for e in 1e-6 * np.eye(len(v))]
                require(np.allclose(jac(v), num, rtol=1e-4,
                                    atol=1e-6 * max(1, st["mu"])),
                        "lagrangian-gradient",
                        lambda: "{} cycle {} at {}: {} want {}".format(
                            case, st["k"], v, jac(v), num))
                ctx.step(2)
        x = APTS[seq[st["k"]]]
        # The best slack variables.
        y = np.concatenate([x, [max(0.0, -c.value(x)) for c in ineqs]])
        callback(np.copy(y))
        h = cons(y)
        st["k"] += 1
        err = np.sum(np.abs(h))
        if err < st["ctol"]:
            st["lam"] = st["lam"] - st["mu"] * h
            st["ctol"] /= st["mu"]**0.9
            st["ltol"] /= st["mu"]
        else:
            st["mu"] *= 100
            st["ctol"] = 1 / st["mu"]**0.1
            st["ltol"] = 1 / st["mu"]
        return scipy.optimize.OptimizeResult(x=y, fun=0.0, success=True)

    param, _ = make_param("unit")
    o = optim.AugmentedLagrangianOptimizer(
        options={"maxiter": 4, "num_cycles": len(seq), "mu0": 10})
    seen = []
    with gl.replaced_minimize(fake):
        res = o(prob, param, seen.append)
    require(res is param and close(param.to_vector(), APTS[seq[-1]]),
            "result", str(case))
    require(st["k"] == len(seq) == len(seen), "cycle-count", str(case))
    ctx.run()
    ctx.state(case)
    ctx.outcome((ne, ni, np.round(st["lam"], 6).tolist(), st["mu"]))


if __name__ == "__main__":
    chk.main()
