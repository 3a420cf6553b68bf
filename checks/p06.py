"""P06: the goos optimizer.

The minimiser is the environment of `ScipyOptimizer`.  Sections `handover` and
`calls` replace it by a controlled one: every problem of a family (variable
shapes, frozen/parameter/free, bounds, constraint lists, methods, options,
iteration variables, number of iterations already done) is run, and every
sequence of calls a minimiser can make (objective, gradient, each constraint,
each constraint Jacobian, callback, at every one of a set of points) up to a
depth is executed; what the optimizer hands over and returns is compared with a
reference written in NumPy.  `real` runs SciPy itself on all problems of a
family with a known optimum and monitors every evaluation.  `resume` stops the
optimization at every event and resumes it.
"""
import itertools
import os
import pickle
from typing import List

import numpy as np
import scipy.optimize

import vlib
from vlib import close, fail, require
import gooslib as gl

from spins import goos
from spins.goos import flows

chk = vlib.Check(
    "P06", "model_checking",
    assumptions=[
        "scipy.optimize.minimize honours the bounds, constraints and maxiter "
        "it is given (checked on the enumerated problems in section real)",
        "the objective is evaluated at points the minimiser chooses from a "
        "fixed set of three points in sections handover and calls"
    ])

SPY = []


def coef(j, i, n):
    """Fixed pseudo-arbitrary integer coefficients."""
    k = np.arange(n)
    return ((7 * j + 3 * i + 5 * k + 2) % 7 - 3).astype(float)


def ref_obj(vals, tag):
    out = 0.0
    for i, v in enumerate(vals):
        out += np.sum((v.ravel() - coef(tag, i, v.size))**2) * (i + 1)
    return out + np.prod([np.sum(v) for v in vals])


def ref_obj_grad(vals, tag):
    s = [np.sum(v) for v in vals]
    out = []
    for i, v in enumerate(vals):
        g = 2 * (i + 1) * (v - coef(tag, i, v.size).reshape(v.shape))
        out.append(g + np.prod(s[:i] + s[i + 1:]))
    return out


def ref_con(vals, tag, shape):
    m = int(np.prod(shape))
    out = np.zeros(m)
    for j in range(m):
        out[j] = tag - j + sum(
            np.dot(coef(tag + j, i, v.size), v.ravel()**2)
            for i, v in enumerate(vals))
    return out.reshape(shape)


def ref_con_jac(vals, tag, shape):
    m = int(np.prod(shape))
    return [
        np.array([2 * coef(tag + j, i, v.size) * v.ravel() for j in range(m)])
        for i, v in enumerate(vals)
    ]


class Obj(goos.Function):
    node_type = "verif.p06.obj"

    def __init__(self, deps: List[goos.ProblemGraphNode], tag: int) -> None:
        super().__init__(deps)
        self.tag = tag

    def eval(self, inputs):
        vals = [f.array for f in inputs]
        SPY.append([np.array(v) for v in vals])
        return flows.NumericFlow(np.array([ref_obj(vals, self.tag)]))

    def grad(self, inputs, grad_val):
        g = grad_val.array_grad.ravel()[0]
        return [
            flows.NumericFlow.Grad(g * x)
            for x in ref_obj_grad([f.array for f in inputs], self.tag)
        ]


class Con(goos.Function):
    node_type = "verif.p06.con"

    def __init__(self, deps: List[goos.ProblemGraphNode], tag: int,
                 shape: List[int]) -> None:
        super().__init__(deps)
        self.tag, self.shape = tag, tuple(shape)

    def eval(self, inputs):
        return flows.NumericFlow(
            ref_con([f.array for f in inputs], self.tag, self.shape))

    def grad(self, inputs, grad_val):
        vals = [f.array for f in inputs]
        g = np.broadcast_to(grad_val.array_grad, self.shape).ravel()
        return [
            flows.NumericFlow.Grad((g @ j).reshape(v.shape))
            for v, j in zip(vals, ref_con_jac(vals, self.tag, self.shape))
        ]


SHAPES = [[1], [2], [2, 2]]
BOUNDS = [
    None, [0, None], [None, 0], [-1, 2], "elem"
]


def bound_arrays(b, shape):
    """Reference: (lower, upper) arrays of a bound specification."""
    n = int(np.prod(shape))
    if b is None:
        b = [None, None]
    if b == "elem":
        lo = np.resize([-np.inf, -2.0, 0.0, -1.0], n).reshape(shape)
        hi = np.resize([3.0, np.inf, 0.0, 1.0], n).reshape(shape)
        return lo, hi
    lo = -np.inf if b[0] is None else b[0]
    hi = np.inf if b[1] is None else b[1]
    return np.full(shape, float(lo)), np.full(shape, float(hi))


def initial(i, shape):
    n = int(np.prod(shape))
    return (0.25 + 0.5 * np.arange(n) + i).reshape(shape)


def make(case):
    """Builds the plan of a case. Returns (plan parts)."""
    vs = []
    for i, (shape, state, b) in enumerate(case["vars"]):
        lo, hi = bound_arrays(b, shape)
        kw = {}
        if b == "elem":
            kw = dict(lower_bounds=lo, upper_bounds=hi)
        elif b is not None:
            kw = dict(lower_bounds=b[0], upper_bounds=b[1])
        v = goos.Variable(initial(i, shape), parameter=(state == "P"),
                          name="v{}".format(i), **kw)
        if state == "F":
            v.freeze()
        vs.append(v)
    it = None
    if case.get("iter") == "P":
        it = goos.Variable([0], parameter=True, name="it")
    elif case.get("iter") == "T":
        it = goos.Variable([0], name="it")
    elif case.get("iter") == "F":
        it = goos.Variable([0], name="it")
        it.freeze()
    obj = Obj(vs, 1)
    cons = {
        k: [
            Con([vs[i] for i in c[2]], c[0], c[1])
            for c in case.get(k, [])
        ] for k in ("eq", "ineq")
    }
    kw = {}
    for k in ("eq", "ineq"):
        if cons[k] or case.get("empty_lists"):
            kw["constraints_" + k] = cons[k]
    for k in ("max_iters", "ftol", "gtol", "maxls"):
        if k in case:
            kw[k] = case[k]
    mons = [obj] + vs
    f = goos.opt.scipy_maximize if case.get("max") else goos.opt.scipy_minimize
    f(obj, method=case["method"], monitor_list=mons, iteration=it, **kw)
    return vs, it, obj


def points(case):
    """The three points (vectors over the free variables) used."""
    x0 = np.hstack([np.zeros(0)] + [
        initial(i, s).ravel() for i, (s, st, _) in enumerate(case["vars"])
        if st == "T"
    ])
    n = np.arange(len(x0))
    return [x0, x0 + 0.5 - n, 2 - 0.25 * x0 + n]


def full(case, x):
    """Reference: values of all the variables if the free ones are x."""
    out = []
    k = 0
    for i, (s, st, _) in enumerate(case["vars"]):
        if st == "T":
            n = int(np.prod(s))
            out.append(np.reshape(x[k:k + n], s))
            k += n
        else:
            out.append(initial(i, s))
    return out


def free(case, grads):
    return [
        np.asarray(g) for g, (s, st, _) in zip(grads, case["vars"])
        if st == "T"
    ]


def con_ref(case, kind, c, x):
    vals = [full(case, x)[i] for i in c[2]]
    sign = 1 if kind == "eq" else -1
    v = sign * ref_con(vals, c[0], c[1]).ravel()
    js = ref_con_jac(vals, c[0], c[1])
    m = int(np.prod(c[1]))
    cols = []
    for i, (s, st, _) in enumerate(case["vars"]):
        if st != "T":
            continue
        j = np.zeros((m, int(np.prod(s))))
        for pos, dep in enumerate(c[2]):
            if dep == i:
                j += js[pos]
        cols.append(j)
    return v, sign * np.hstack(cols)


def check_handover(case, got):
    """What was handed to the minimiser, without calling anything."""
    x0 = points(case)[0]
    require(close(got["x0"], x0), "x0",
            lambda: "starts at {}, want {}".format(got["x0"], x0))
    require(got["method"] == case["method"], "method", str(got["method"]))
    want = []
    for s, st, b in case["vars"]:
        if st == "T":
            lo, hi = bound_arrays(b, s)
            want += list(zip(lo.ravel(), hi.ravel()))
    have = got["bounds"]
    if have is None:
        have = [(-np.inf, np.inf)] * len(x0)
    if isinstance(have, scipy.optimize.Bounds):
        have = list(zip(np.broadcast_to(have.lb, x0.shape),
                        np.broadcast_to(have.ub, x0.shape)))
    have = [(-np.inf if a is None else a, np.inf if b is None else b)
            for a, b in have]
    require(have == want, "bounds",
            lambda: "bounds {}, want {}".format(have, want))
    opts = dict(got["options"] or {})
    want = {}
    if "max_iters" in case:
        want["maxiter"] = case["max_iters"] - case.get("done", 0)
    for k in ("ftol", "gtol", "maxls"):
        if k in case:
            want[k] = case[k]
    for k in want:
        require(opts.get(k) == want[k], "options",
                lambda: "options {}, want {}".format(opts, want))
    require("maxiter" not in opts or "maxiter" in want, "options",
            lambda: "options {}, want {}".format(opts, want))
    cons = list(got["constraints"] or [])
    if case["method"] in ("SLSQP", "COBYLA"):
        kinds = sorted(c["type"] for c in cons)
        wk = ["eq"] * len(case.get("eq", [])) + ["ineq"] * len(
            case.get("ineq", []))
        require(kinds == wk, "constraints",
                lambda: "{} handed over, want {}".format(kinds, wk))
        # Order within a kind is the order given.
        got["cons"] = ([c for c in cons if c["type"] == "eq"] +
                       [c for c in cons if c["type"] == "ineq"])
    else:
        require(not cons, "constraints", "passed to a method without them")
        got["cons"] = []


def ops(case, npoints):
    """All calls a minimiser can make."""
    out = []
    ncons = 0
    if case["method"] in ("SLSQP", "COBYLA"):
        ncons = len(case.get("eq", [])) + len(case.get("ineq", []))
    names = ["f", "g", "cb"]
    if case["method"] in ("COBYLA", "Nelder-Mead"):
        names = ["f", "cb"]
    for p in range(npoints):
        for nm in names:
            out.append([nm, p])
        for c in range(ncons):
            out.append(["c{}".format(c), p])
            if case["method"] == "SLSQP":
                out.append(["j{}".format(c), p])
    return out


def run_case(ctx, case, seq, last, d):
    pts = points(case)
    cons_ref = [("eq", c) for c in case.get("eq", [])
               ] + [("ineq", c) for c in case.get("ineq", [])]
    sign = -1 if case.get("max") else 1
    called = []

    def standin(fun, x0, args=(), method=None, jac=None, bounds=None,
                constraints=(), callback=None, options=None, **kw):
        got = dict(x0=np.array(x0), method=method, bounds=bounds,
                   options=options, constraints=constraints)
        called.append(got)
        check_handover(case, got)
        for nm, p in seq:
            x = pts[p].copy()
            ctx.step()
            if nm == "f":
                v = np.asarray(fun(x)).ravel()
                w = sign * ref_obj(full(case, x), 1)
                require(close(v, [w]), "objective",
                        lambda: "{}: {} want {}".format(p, v, w))
            elif nm == "g":
                g = jac
                if jac is True:
                    g = lambda y: fun(y)[1]
                require(callable(g), "gradient", "no gradient handed over")
                v = np.asarray(g(x))
                w = sign * np.hstack([
                    a.ravel()
                    for a in free(case, ref_obj_grad(full(case, x), 1))
                ])
                require(close(v, w), "gradient",
                        lambda: "{}: {} want {}".format(p, v, w))
            elif nm == "cb":
                callback(x)
            else:
                c = got["cons"][int(nm[1:])]
                kind, spec = cons_ref[int(nm[1:])]
                wv, wj = con_ref(case, kind, spec, x)
                if nm[0] == "c":
                    v = np.atleast_1d(c["fun"](x))
                    require(close(v, wv), "constraint-value",
                            lambda: "{} {}: {} want {}".format(
                                nm, spec, v, wv))
                else:
                    v = np.atleast_2d(c["jac"](x))
                    require(close(v, wj), "constraint-gradient",
                            lambda: "{} {}: {} want {}".format(
                                nm, spec, v, wj))
            require(np.array_equal(x, pts[p]), "input-modified",
                    "the optimizer modified the vector it was given")
        return scipy.optimize.OptimizeResult(
            x=pts[last].copy(), fun=0.0, nit=1, success=True)

    ctx.run()
    with goos.OptimizationPlan(save_path=d) as plan:
        vs, it, _ = make(case)
        with gl.replaced_minimize(standin):
            plan.run(auto_checkpoint=False)
        if case.get("max_iters", 1) == 0:
            require(not called, "iterations", "ran although max_iters is 0")
            return
        require(len(called) == 1, "minimiser-calls", str(len(called)))
        want = full(case, pts[last])
        for i, v in enumerate(vs):
            got = plan.get_var_value(v)
            require(close(got, want[i]), "final-value",
                    lambda: "v{} is {}, want {}".format(i, got, want[i]))
        ncb = sum(1 for o in seq if o[0] == "cb")
        if it is not None:
            got = plan.get_var_value(it)
            require(close(got, [ncb]), "iteration-variable",
                    lambda: "{} after {} iterations".format(got, ncb))
        for i, (s, st, b) in enumerate(case["vars"]):
            lo, hi = plan.get_var_bounds(vs[i])
            wlo, whi = bound_arrays(b, s)
            require(np.array_equal(lo, wlo) and np.array_equal(hi, whi),
                    "bounds-changed")
    if d is not None:
        check_events(ctx, case, [pts[p] for nm, p in seq if nm == "cb"], d, 0,
                     sign)
    ctx.outcome((case["method"], len(seq), ncb, last))


def check_events(ctx, case, xs, d, done, sign):
    """The step logs written: one per iteration with its values."""
    logs = []
    for f in os.listdir(d):
        if f.startswith("step"):
            with open(os.path.join(d, f), "rb") as fp:
                logs.append((int(f[4:-4]), pickle.load(fp)))
    logs.sort(key=lambda t: t[0])
    logs = [l for _, l in logs if l.get("event") is not None and
            "iteration" in (l["event"] or {})]
    require(len(logs) == len(xs), "events",
            lambda: "{} events for {} iterations".format(len(logs), len(xs)))
    for k, (x, log) in enumerate(zip(xs, logs)):
        want = full(case, x)
        require(log["event"]["iteration"] == done + k + 1, "event-iteration",
                str(log["event"]))
        for i, v in enumerate(want):
            require(
                close(np.array(log["variable_data"]["v{}".format(i)]["value"]),
                      v) and close(log["monitor_data"]["v{}".format(i)], v),
                "event-values",
                lambda: "event {} logs v{}={} (monitor {}), want {}".format(
                    k, i, log["variable_data"]["v{}".format(i)]["value"],
                    log["monitor_data"]["v{}".format(i)], v))
        if case.get("iter"):
            require(
                close(np.array(log["variable_data"]["it"]["value"]).ravel(),
                      [done + k + 1]), "event-iteration-variable")
        objs = [v for n, v in log["monitor_data"].items()
                if n not in ["v{}".format(i) for i in range(99)]]
        require(len(objs) == 1 and close(np.ravel(objs[0]), [
            ref_obj(want, 1)
        ]), "event-monitor", lambda: str(objs))


# ---------------------------------------------------------------------------

CONS_POOL = [[1, [1], [0]], [2, [1], [0]], [3, [2], [0]], [4, [1, 2], [0]]]


def handover_cases(tier):
    out = []
    # All one and two variable problems: shape x state, and bounds.
    one = [(s, st) for s in SHAPES for st in "TFP"]
    two = list(itertools.product(one, one))
    if tier == "thorough":
        two += list(itertools.product(one, one, one))
    for combo in [(o,) for o in one] + two:
        if not any(st == "T" for _, st in combo):
            continue
        for m in ("L-BFGS-B", "SLSQP"):
            out.append(
                dict(vars=[[s, st, None] for s, st in combo], method=m,
                     eq=[[1, [1], list(range(len(combo)))]],
                     ineq=[[2, [2], [len(combo) - 1]]], iter="P", max_iters=4))
    for s in SHAPES:
        for b in BOUNDS:
            out.append(dict(vars=[[s, "T", b]], method="L-BFGS-B"))
            for b2 in BOUNDS:
                for st in "TFP":
                    if st == "P" and b2 is not None:
                        continue
                    out.append(
                        dict(vars=[[s, "T", b], [[2], st, b2]],
                             method="SLSQP"))
    # All lists of constraints (order and multiplicity) up to length 2 each.
    lists = [[]] + [[c] for c in CONS_POOL] + [
        [a, b] for a in CONS_POOL for b in CONS_POOL
    ]
    for s in ([2], [2, 2]):
        for e in lists:
            for i in lists:
                if tier == "quick" and len(e) + len(i) > 3:
                    continue
                out.append(dict(vars=[[s, "T", None]], method="SLSQP", eq=e,
                                ineq=i))
    # Methods x directions x iteration variables x options.
    for m in ("L-BFGS-B", "SLSQP", "COBYLA", "CG", "BFGS", "TNC",
              "Nelder-Mead"):
        for mx in (False, True):
            for it in (None, "P", "T", "F"):
                for opt in ({}, dict(max_iters=0), dict(max_iters=1),
                            dict(max_iters=7, ftol=0, gtol=0.5, maxls=3),
                            dict(ftol=0.25, gtol=0, maxls=0)):
                    c = dict(vars=[[[2], "T", [-1, 2]], [[1], "F", None]],
                             method=m, ineq=[CONS_POOL[0]], iter=it)
                    c.update(opt)
                    if mx:
                        c["max"] = True
                    if it is None:
                        c["empty_lists"] = True
                    out.append(c)
    # Larger problems: other shapes, many variables, many constraints.
    more = [[2, 1, 3], [3, 2], [1, 4], [2, 2, 2], [7], [1, 1]]
    for s in more:
        for b in BOUNDS:
            for st in "TF":
                out.append(dict(vars=[[[2], st, None], [s, "T", b],
                                      [[3], "T", "elem"]], method="SLSQP",
                                eq=[[1, [1], [1, 2]]], ineq=[[2, [2], [1]]]))
    for n in (4, 7, 11, 12) if tier == "quick" else range(4, 25):
        vs = [[(SHAPES + more)[i % 9], "TTF"[(i * i) % 3], BOUNDS[i % 5]]
              for i in range(n)]
        out.append(dict(vars=vs, method="L-BFGS-B", iter="P"))
        out.append(dict(vars=vs, method="SLSQP", iter="T", eq=[
            [1 + i % 4, [1 + i % 2], [i % n, (3 * i) % n]]
            for i in range(n // 2)], ineq=[
                [1 + i % 3, [1 + (i // 2) % 2], [(2 * i + 1) % n]]
                for i in range(n)]))
    return out


@chk.section("handover", handover_cases,
             "all problems with up to 2 (thorough 3) variables (shape x "
             "free/frozen/parameter x bounds), all constraint lists up to 2+2, "
             "methods x options x iteration variables; every possible "
             "minimiser call made once at two points")
def handover(ctx, case):
    seq = ops(case, 2)
    with vlib.scratch() as d:
        run_case(ctx, case, seq, 2, d)
    ctx.state(repr(case))


def calls_cases(tier):
    base = [
        dict(vars=[[[2], "T", [0, None]], [[1], "F", None], [[2, 2], "T", None]],
             method="SLSQP", eq=[[1, [1], [0, 1]]], ineq=[[2, [2], [2]]],
             iter="P"),
        dict(vars=[[[1], "T", None], [[1], "T", None]], method="L-BFGS-B",
             max=True, iter="T"),
        dict(vars=[[[2], "P", None], [[2], "T", None]], method="SLSQP",
             ineq=[[1, [1], [0, 1]], [2, [1], [1]]], iter="F"),
    ]
    depth = 3 if tier == "quick" else 4
    out = []
    for b in range(len(base)):
        np_ = 2 if b != 1 else 3
        o = ops(base[b], np_)
        for k in range(0, depth + (1 if b == 1 else 0) + 1):
            for seq in itertools.product(range(len(o)), repeat=k):
                for last in range(3):
                    if tier == "quick" and last != (sum(seq) + k) % 3 and k > 1:
                        continue
                    out.append([b, list(seq), last])
    calls_cases.base = base
    return out


calls_cases.base = None


@chk.section("calls", calls_cases,
             "three problems x every sequence of minimiser calls up to length "
             "3-4 (thorough 4-5) x result point")
def calls(ctx, case):
    if calls_cases.base is None:
        calls_cases(ctx.tier)
    b, seq, last = case
    prob = calls_cases.base[b]
    o = ops(prob, 2 if b != 1 else 3)
    seq = [o[i] for i in seq]
    ctx.state((b, tuple(map(tuple, seq)), last))
    if any(s[0] == "cb" for s in seq):
        with vlib.scratch() as d:
            run_case(ctx, prob, seq, last, d)
    else:
        run_case(ctx, prob, seq, last, None)


# ---------------------------------------------------------------------------


class Bowl(goos.Function):
    """sum (x - t)^2 * w, recording where it is evaluated."""
    node_type = "verif.p06.bowl"

    def __init__(self, deps: List[goos.ProblemGraphNode], t: List[float],
                 w: float) -> None:
        super().__init__(deps)
        self.t, self.w = np.array(t, dtype=float), w

    def eval(self, inputs):
        v = np.hstack([f.array.ravel() for f in inputs])
        SPY.append(v.copy())
        return flows.NumericFlow(np.array([self.w * np.sum((v - self.t)**2)]))

    def grad(self, inputs, grad_val):
        g = grad_val.array_grad.ravel()[0]
        out = []
        k = 0
        for f in inputs:
            n = f.array.size
            d = 2 * self.w * (f.array.ravel() - self.t[k:k + n]) * g
            out.append(flows.NumericFlow.Grad(d.reshape(f.array.shape)))
            k += n
        return out


def real_cases(tier):
    ts = [-2.0, 0.0, 3.0]
    bs = [None, [0, None], [None, 0], [-1, 2], [0, 0.5]]
    out = []
    for m in ("L-BFGS-B", "SLSQP", "TNC"):
        for t in itertools.product(ts, repeat=3):
            for b0, b1 in itertools.product(bs, repeat=2):
                for st in ("T", "F"):
                    if tier == "quick" and (st == "F") != (t[0] == 0):
                        continue
                    out.append([m, list(t), b0, b1, st, None, False])
    for mx in (False, True):
        for t in itertools.product(ts, repeat=2):
            for con in ("eq", "ineq-active", "ineq-two", "vector", "all"):
                for b in (None, [-1, 2]):
                    out.append(["SLSQP", list(t) + [1.0], b, None, "T", con,
                                mx])
    return out


@chk.section("real", real_cases,
             "SciPy L-BFGS-B, SLSQP and TNC on every separable quadratic with "
             "targets in a grid x bounds x frozen variable x constraint sets; "
             "every evaluation monitored, optimum known in closed form")
def real(ctx, case):
    m, t, b0, b1, st, con, mx = case
    del SPY[:]
    ctx.run()
    with vlib.scratch() as d, goos.OptimizationPlan(save_path=d) as plan:
        kw = lambda b: {} if b is None else dict(lower_bounds=b[0],
                                                 upper_bounds=b[1])
        x = goos.Variable(np.clip([0.25, 0.5], *bound_arrays(b0, [2])),
                          name="x", **kw(b0))
        y0 = np.clip([0.125], *bound_arrays(b1, [1]))
        y = goos.Variable(y0, name="y", **kw(b1))
        if st == "F":
            y.freeze()
        obj = Bowl([x, y], t, -1.0 if mx else 1.0)
        lin = []  # Rows (a, c, kind): a . (x, y) + c
        if con == "eq":
            lin = [([1, 1, 0], -1.0, "eq")]
        elif con == "ineq-active":
            lin = [([1, -1, 0], -0.5, "ineq")]
        elif con == "ineq-two":
            lin = [([1, 0, 0], -0.75, "ineq"), ([0, -1, 0], -0.25, "ineq")]
        elif con == "all":
            lin = [([0, 0, 1], -0.5, "eq"), ([1, 0, 0], -0.75, "ineq"),
                   ([0, 1, 0], -0.25, "ineq")]
        elif con == "vector":
            lin = [([1, 0, 0], -0.75, "vec"), ([0, 1, 0], 0.25, "vec")]
        eqs, ineqs = [], []
        for a, c, k in lin:
            if k != "vec":
                node = (goos.dot(goos.Constant([float(a[0]), float(a[1])]), x) +
                        float(a[2]) * y + c)
                (eqs if k == "eq" else ineqs).append(node)
        if con == "vector":
            ineqs = [x + goos.Constant([-0.75, 0.25])]
        f = goos.opt.scipy_maximize if mx else goos.opt.scipy_minimize
        act = f(obj, method=m, constraints_eq=eqs, constraints_ineq=ineqs,
                max_iters=100, ftol=1e-14, monitor_list=[x, y])
        plan.run(auto_checkpoint=False)
        xv, yv = plan.get_var_value(x), plan.get_var_value(y)
        got = np.hstack([xv.ravel(), yv.ravel()])
        nit = act._results.nit if hasattr(act, "_results") else None
    lo = np.hstack([bound_arrays(b0, [2])[0], bound_arrays(b1, [1])[0]])
    hi = np.hstack([bound_arrays(b0, [2])[1], bound_arrays(b1, [1])[1]])
    if st == "F":
        lo[2], hi[2] = -np.inf, np.inf
    for p in SPY:
        ctx.step()
        require(np.all(p >= lo - 1e-12) and np.all(p <= hi + 1e-12),
                "out-of-bounds",
                lambda: "evaluated at {} with bounds {} {}".format(p, lo, hi))
        if st == "F":
            require(p[2] == y0[0], "frozen-changed", str(p))
    want = optimum(t, lo, hi, lin, st, y0[0])
    if want is not None:
        require(np.all(np.abs(got - want) < 2e-4), "optimum",
                lambda: "{} want {}".format(got, want))
    ctx.outcome((m, tuple(np.round(got, 3)), con))
    ctx.state((m, tuple(t), repr(b0), repr(b1), st, con, mx))


@chk.section("limits", lambda tier: [
    [m, n, t, it] for m in ("L-BFGS-B", "SLSQP", "CG", "BFGS")
    for n in range(1, 5) for t in ([-2.0, 3.0], [1.5, 0.5])
    for it in (None, "P", "T")
], "SciPy methods x maximum number of iterations 1..4 x start x iteration "
    "variable kind on a non-quadratic problem")
def limits(ctx, case):
    m, n, t, it = case
    prob = dict(vars=[[[2], "T", None], [[1], "F", None]], method=m,
                max_iters=n)
    if it:
        prob["iter"] = it
    ctx.run()
    with vlib.scratch() as d:
        with goos.OptimizationPlan(save_path=d) as plan:
            x = goos.Variable(t, name="x")
            itv = None
            if it:
                itv = goos.Variable([0], parameter=(it == "P"), name="it")
            b = goos.Constant([1.0, 2.0])
            obj = goos.dot(x - b, x - b)**2 + (goos.dot(b, x) - 1)**4
            goos.opt.scipy_minimize(obj, method=m, max_iters=n, iteration=itv,
                                    monitor_list=[obj, x])
            plan.run(auto_checkpoint=False)
            last = plan.get_var_value(x)
            if it:
                got = plan.get_var_value(itv).ravel()
        logs = []
        for k in range(1, 100):
            f = os.path.join(d, "step{}.pkl".format(k))
            if os.path.exists(f):
                with open(f, "rb") as fp:
                    logs.append(pickle.load(fp))
        logs = [l for l in logs if "iteration" in (l.get("event") or {})]
        require(1 <= len(logs) <= n, "iterations",
                lambda: "{} iterations, at most {} asked for".format(
                    len(logs), n))
        require([l["event"]["iteration"] for l in logs] ==
                list(range(1, len(logs) + 1)), "event-iteration")
        vals = [np.array(l["variable_data"]["x"]["value"]) for l in logs]
        for l, v in zip(logs, vals):
            ctx.step()
            w = np.sum((v - [1, 2])**2)**2 + (v[0] + 2 * v[1] - 1)**4
            mons = [np.ravel(a) for a in l["monitor_data"].values()]
            require(any(close(a, [w], 1e-8) for a in mons), "event-monitor",
                    lambda: "{} want {}".format(mons, w))
        require(close(last, vals[-1]), "final-value",
                lambda: "{} want {}".format(last, vals[-1]))
        if it:
            require(close(got, [len(logs)]), "iteration-variable", str(got))
    ctx.outcome((m, n, len(logs), it))


def optimum(t, lo, hi, lin, st, y0):
    """Closed form / active set enumeration of the projection problem."""
    t = np.array(t, dtype=float)
    fixed = {2: y0} if st == "F" else {}
    rows = []  # a.x <= b, with flag eq
    for a, c, k in lin:
        rows.append((np.array(a, dtype=float), -c, k == "eq"))
    for i in range(3):
        e = np.zeros(3)
        e[i] = 1
        if i in fixed:
            rows.append((e, fixed[i], True))
            continue
        if np.isfinite(hi[i]):
            rows.append((e, hi[i], False))
        if np.isfinite(lo[i]):
            rows.append((-e, -lo[i], False))
    best = None
    eq = [r for r in rows if r[2]]
    ineq = [r for r in rows if not r[2]]
    for k in range(0, 4 - len(eq)):
        for act in itertools.combinations(ineq, k):
            a = eq + list(act)
            if a:
                A = np.array([r[0] for r in a])
                b = np.array([r[1] for r in a])
                if np.linalg.matrix_rank(A) < len(a):
                    continue
                x = t + A.T @ np.linalg.solve(A @ A.T, b - A @ t)
            else:
                x = t
            if all(r[0] @ x <= r[1] + 1e-9 for r in ineq) and all(
                    abs(r[0] @ x - r[1]) < 1e-9 for r in eq):
                v = np.sum((x - t)**2)
                if best is None or v < best[0] - 1e-12:
                    best = (v, x)
    return None if best is None else best[1]


# ---------------------------------------------------------------------------


class Stop(Exception):
    pass


def resume_cases(tier):
    out = []
    for total in range(1, 5 if tier == "quick" else 7):
        for stop in range(1, total + 1):
            for it in (None, "P", "T"):
                for stop2 in [0] + list(range(stop + 1, total + 1)):
                    for fresh in (0, 1):
                        out.append([total, stop, stop2, it, fresh])
    return out


@chk.section("resume", resume_cases,
             "total iterations 1..4 (thorough 6) x every iteration at which "
             "it stops x every second stop x iteration variable kind x "
             "rebuilt or reloaded plan")
def resume(ctx, case):
    total, stop, stop2, it, reload_ = case
    prob = dict(vars=[[[2], "T", None], [[1], "F", None]], method="L-BFGS-B",
                max_iters=total)
    if it:
        prob["iter"] = it
    seen = []
    limit = [stop]

    def standin(fun, x0, jac=None, callback=None, options=None, **kw):
        x = np.array(x0, dtype=float)
        seen.append(options["maxiter"])
        for _ in range(options["maxiter"]):
            x = 0.5 * x - 1
            fun(x + 3)
            callback(x)
            run.append(x.copy())
            if len(run) == limit[0]:
                raise Stop()
        return scipy.optimize.OptimizeResult(x=x, fun=fun(x), success=True)

    run = []
    xs = []
    x = points(prob)[0]
    for _ in range(total):
        x = 0.5 * x - 1
        xs.append(x)
    with vlib.scratch() as d:
        with goos.OptimizationPlan(save_path=d) as plan:
            make(prob)
            plan.save(d)
            with gl.replaced_minimize(standin):
                try:
                    plan.run(auto_checkpoint=False)
                except Stop:
                    pass
        stops = [stop, stop2] if stop2 else [stop]
        for k, s in enumerate(stops):
            ctx.run()
            limit[0] = stops[k + 1] if k + 1 < len(stops) else 0
            with goos.OptimizationPlan(save_path=d) as plan:
                if reload_:
                    plan.load(d)
                else:
                    make(prob)
                newest = max((f for f in os.listdir(d)
                              if f.startswith("step")),
                             key=lambda f: int(f[4:-4]))
                plan.read_checkpoint(os.path.join(d, newest))
                done = [False]
                with gl.replaced_minimize(standin):
                    try:
                        plan.resume()
                        done[0] = True
                    except Stop:
                        pass
                if done[0]:
                    got = plan.get_var_value(plan.get_node("v0"))
                    require(close(got, full(prob, xs[-1])[0]), "final-value",
                            lambda: "{} want {}".format(got, xs[-1]))
                    if it:
                        g = plan.get_var_value(plan.get_node("it"))
                        require(close(g, [total]), "iteration-variable",
                                str(g))
            ctx.step()
        want = [total] + [total - s for s in stops if s < total]
        require(seen == want, "iterations-left",
                lambda: "minimiser asked for {} iterations, want {}".format(
                    seen, want))
        require(len(run) == total and close(np.array(run), np.array(xs)),
                "iterations", lambda: "{} want {}".format(run, xs))
        check_events(ctx, prob, xs, d, 0, 1)
    ctx.outcome((total, stop, stop2, it))
    ctx.state(case)


if __name__ == "__main__":
    chk.main()
