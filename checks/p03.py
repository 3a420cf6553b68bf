"""P03: the state machine of plan variables.

Breadth-first enumeration of all operation sequences up to a depth over a small
alphabet, on the real plan, against a boring reference (a dictionary and a
queue).  Every observable is compared after every step.
"""
import itertools
from typing import List

import numpy as np

import vlib
from vlib import require, fail
import gooslib as gl
from gooslib import goos, flows

chk = vlib.Check(
    "P03", "model_checking", [
        "two variables and a parameter, sequences of up to 4 (quick) / 5 "
        "(thorough) operations followed by running and probing the plan",
    ])


class Probe(goos.Action):
    """Records its execution and what the plan shows to an action."""
    node_type = "verif.probe_action"

    def __init__(self, tag: int, fails: int) -> None:
        super().__init__()
        self.tag = tag
        self.fails = fails
        self.seen = []

    def run(self, plan):
        self.seen.append(
            (sorted(v._goos_name for v in plan.get_thawed_vars()), self.tag))
        if self.fails:
            self.fails -= 1
            raise KeyError("probe action failed")


class Bounder(goos.Action):
    """Sets a value, bounds and frozen state from inside an action."""
    node_type = "verif.bounder"

    def __init__(self, var: goos.Variable, lo: float, hi: float) -> None:
        super().__init__(var)
        self.var, self.lo, self.hi = var, lo, hi

    def run(self, plan):
        b = [np.array([self.lo]), np.array([self.hi])]
        plan.set_var_bounds(self.var, b)
        b[0][:] = 77  # The caller may reuse what it passed in.
        b[1] = None


class Model:
    """The reference: values, flags and a queue."""

    def __init__(self):
        self.val = {"x": np.array([1.5]), "y": np.array([2.0, 3.0]),
                    "p": np.array([4.0])}
        self.frozen = {"x": False, "y": False, "p": True}
        self.bounds = {"x": (-5.0, 5.0), "y": (-np.inf, np.inf),
                       "p": (-np.inf, np.inf)}
        self.queue = []
        self.ptr = 0
        self.ran = []

    def run(self):
        """Returns the type of error raised, or None."""
        while self.ptr < len(self.queue):
            err = self.queue[self.ptr](self)
            if err:
                return err
            self.ptr += 1
        return None


def q_set(name, fn):

    def act(m):
        v = fn(m)
        if m.frozen[name] and name != "p":
            return ValueError
        m.val[name] = v

    return act


def q_flag(name, value):

    def act(m):
        m.frozen[name] = value

    return act


def q_bounds(name, lo, hi):

    def act(m):
        m.bounds[name] = (lo, hi)

    return act


def q_probe(tag, fails):
    left = [fails]

    def act(m):
        m.ran.append((sorted(n for n in m.frozen if not m.frozen[n]), tag))
        if left[0]:
            left[0] -= 1
            return KeyError

    return act


# Each operation: name -> (do on the real plan, do on the model).
OPS = [
    "run", "x=7", "x=x*y0+p", "y=v", "y=y+x", "p=9", "freeze x", "thaw x",
    "freeze y", "thaw y", "bounds x", "fail", "poke",
]
# Operations used for the deeper enumeration.
CORE = ["run", "x=7", "x=x*y0+p", "y=y+x", "freeze x", "thaw x", "fail",
        "bounds x", "p=9"]


class Real:

    def __init__(self, **kwargs):
        self.plan = goos.OptimizationPlan(**kwargs)
        goos.optplan.push_plan(self.plan)
        init = np.array([1.5])
        self.lo = np.array([-5.0])
        self.x = goos.Variable(init, lower_bounds=self.lo, upper_bounds=5.0,
                               name="x")
        init[0] = -100  # The caller owns this array.
        self.lo[0] = 55
        self.y = goos.Variable([2.0, 3.0], name="y")
        self.p = goos.Variable(4.0, parameter=True, name="p")
        self.probes = []
        self.k = 0

    def close(self):
        goos.optplan.pop_plan()


def apply_op(op, r, m):
    """Applies one operation to the real plan and to the model."""
    plan = r.plan
    r.k += 1
    if op == "run":
        want = m.run()
        got = None
        try:
            plan.run()
        except (ValueError, KeyError) as e:
            got = type(e)
        require(got is want, "run-outcome", lambda: "run raised {}, want {}".
                format(got, want))
    elif op == "x=7":
        m.queue.append(q_set("x", lambda mm: np.array([7.0])))
        a = np.array([7.0])
        r.x.set(a)
        a[0] = -3
    elif op == "x=x*y0+p":
        m.queue.append(
            q_set("x", lambda mm: mm.val["x"] * mm.val["y"][:1] + mm.val["p"]))
        r.x.set(r.x * goos.Slice(r.y, [0]) + r.p)
    elif op == "y=v":
        m.queue.append(q_set("y", lambda mm: np.array([0.5, -0.5])))
        r.y.set(np.array([0.5, -0.5]))
    elif op == "y=y+x":
        m.queue.append(q_set("y", lambda mm: mm.val["y"] + mm.val["x"]))
        r.y.set(r.y + r.x)
    elif op == "p=9":
        m.queue.append(q_set("p", lambda mm: np.array([9.0])))
        r.p.set(9)
    elif op.startswith("freeze"):
        n = op[-1]
        m.queue.append(q_flag(n, True))
        getattr(r, n).freeze()
    elif op.startswith("thaw"):
        n = op[-1]
        m.queue.append(q_flag(n, False))
        getattr(r, n).thaw()
    elif op == "bounds x":
        m.queue.append(q_bounds("x", -float(r.k), float(r.k)))
        plan.add_action(Bounder(r.x, -r.k, r.k))
    elif op == "fail":
        pr = Probe(r.k, 1)
        r.probes.append(pr)
        plan.add_action(pr)
        m.queue.append(q_probe(r.k, 1))
    elif op == "poke":
        # Everything a caller may do to what it was given.
        for n in "xyp":
            var = getattr(r, n)
            plan.get_var_value(var)[...] = 1e6
            for b in plan.get_var_bounds(var):
                b[...] = 1e6
            plan.get_var_bounds(var)[0] = None
            var.get().array[...] = 1e6
            plan.eval_nodes([var])[0].array[...] = 1e6
            plan.eval_grad(var, [var])[0].array_grad[...] = 1e6


def observe(r, m, where):
    plan = r.plan
    for n in "xyp":
        var = getattr(r, n)
        for got in (plan.get_var_value(var), plan.eval_node(var).array,
                    var.get().array):
            require(vlib.close(got, m.val[n]), "value",
                    lambda: "{}: {} = {}, want {}".format(where, n, got, m.val[
                        n]))
        lo, hi = plan.get_var_bounds(var)
        require(
            np.all(lo == m.bounds[n][0]) and np.all(hi == m.bounds[n][1]) and
            np.size(lo) == np.size(m.val[n]), "bounds",
            lambda: "{}: bounds of {} are {}, want {}".format(
                where, n, (lo, hi), m.bounds[n]))
    # A function of the variables follows them.
    # No modification outside of an action.
    for f in (lambda: plan.set_var_value(r.x, np.array([0.0])),
              lambda: plan.set_var_bounds(r.x, [np.array([0.]), np.array([1.])
                                               ]),
              lambda: plan.freeze_var(r.x), lambda: plan.thaw_var(r.x),
              lambda: plan.write_event({})):
        try:
            f()
        except ValueError:
            continue
        fail("modified-outside-action",
             "{}: the plan could be modified outside of an action".format(
                 where))


def run_sequence(ctx, seq):
    r, m = Real(), Model()
    try:
        for k, op in enumerate(seq):
            where = "after {}".format(seq[:k + 1])
            apply_op(op, r, m)
            observe(r, m, where)
            ctx.step()
        # Drain: run until nothing raises any more (a frozen variable being set
        # keeps failing), then probe the flags from inside an action.
        for _ in range(len(seq) + 2):
            before = m.ptr
            apply_op("run", r, m)
            if m.ptr == before:
                break
        observe(r, m, "after {} and run".format(seq))
        pr = Probe(999, 0)
        r.probes.append(pr)
        r.plan.add_action(pr)
        m.queue.append(q_probe(999, 0))
        apply_op("run", r, m)
        got = [s for p in r.probes for s in p.seen]
        require(
            sorted(got, key=repr) == sorted(m.ran, key=repr),
            "actions-executed",
            lambda: "{}: executed {}, want {}".format(seq, got, m.ran))
        ctx.run()
        ctx.outcome((sorted((n, v.tobytes()) for n, v in m.val.items()),
                     sorted(m.frozen.items()), m.bounds, m.ran, m.ptr))
        ctx.state((sorted((n, v.tobytes()) for n, v in m.val.items()),
                   sorted(m.frozen.items()), m.bounds, m.ptr, len(m.queue)))
    finally:
        r.close()


def seq_cases(tier):
    res = []
    for d in (1, 2, 3):
        res += [list(s) for s in itertools.product(OPS, repeat=d)]
    res += [list(s) for s in itertools.product(OPS, repeat=4)]
    if tier == "thorough":
        res += [list(s) for s in itertools.product(CORE, repeat=5)]
    return res


@chk.section("histories", seq_cases,
             "all sequences of up to 4 operations out of 13 (thorough: and of 5 "
             "out of 9)")
def histories(ctx, seq):
    run_sequence(ctx, seq)


@chk.section("long-histories", lambda tier: [
    [a, b, c, n] for a in range(len(OPS)) for b in range(1, len(OPS))
    for c in ((0, 1) if tier == "quick" else range(4))
    for n in ((14, 26) if tier == "quick" else (14, 26, 60))],
             "operation i is (start + i * stride + bend * i^2) modulo 13, for "
             "every start and stride: histories of 14 and 26 (thorough 60)")
def long_histories(ctx, case):
    a, b, c, n = case
    run_sequence(ctx, [OPS[(a + i * b + c * i * i) % len(OPS)]
                       for i in range(n)])


# ------------------------------------------------------------ autorun, plans


@chk.section("autorun",
             [list(s) for d in (1, 2, 3) for s in itertools.product(
                 ["x=7", "x=x*y0+p", "y=y+x", "p=9", "thaw x", "freeze y",
                  "bounds x"], repeat=d)],
             "all sequences of up to 3 actions in a plan that runs them at once")
def autorun(ctx, seq):
    m = Model()

    r = Real(autorun=True)
    try:
        for k, op in enumerate(seq):
            got = None
            try:
                apply_op(op, r, m)
            except ValueError:
                got = ValueError
            want = m.run()
            require(got is want, "autorun-outcome",
                    lambda: "{}: raised {}, want {}".format(seq, got, want))
            if want is not None:
                return
            observe(r, m, "autorun after {}".format(seq[:k + 1]))
            ctx.step()
        ctx.run()
        ctx.state((seq, "auto"))
        ctx.outcome(sorted((n, v.tobytes()) for n, v in m.val.items()))
    finally:
        r.close()


@chk.section("two-plans", [list(s) for d in (1, 2, 3, 4)
                           for s in itertools.product(range(4), repeat=d)],
             "all interleavings of up to 4 set/run operations on two plans "
             "sharing a variable")
def two_plans(ctx, seq):
    plans = [goos.OptimizationPlan(), goos.OptimizationPlan()]
    with plans[0]:
        x = goos.Variable(1.0, name="x")
    val, queue = [1.0, 1.0], [[], []]
    plans[1].add_node(x)
    for k, op in enumerate(seq):
        i = op % 2
        with plans[i]:
            require(goos.get_default_plan() is plans[i], "default-plan", "")
            if op < 2:
                x.set(float(10 * k + i))
                queue[i].append(float(10 * k + i))
            else:
                plans[i].run()
                if queue[i]:
                    val[i] = queue[i][-1]
        require(goos.get_default_plan() is None, "default-plan",
                "the plan is still active after its block")
        for j in (0, 1):
            with plans[j]:
                require(
                    vlib.close(x.get().array, [val[j]]), "value",
                    lambda: "{}: plan {} shows {}, want {}".format(
                        seq, j, x.get().array, val[j]))
        ctx.step()
    ctx.run()
    ctx.state(seq)
    ctx.outcome(val)


# ---------------------------------------------------------- construction


def ctor_cases(tier):
    return [[v, lo, hi, par] for v in ("s", "v", "m", "i")
            for lo in ("none", "num", "arr", "zero") for hi in
            ("none", "num", "arr", "zero") for par in (0, 1)]


@chk.section("construction", ctor_cases,
             "all combinations of scalar, vector, matrix and integer initial "
             "values with absent, scalar, zero and array bounds, for variables "
             "and parameters")
def construction(ctx, case):
    v, lo, hi, par = case
    init = {"s": 2.5, "v": [1.0, 2.0, 3.0], "m": [[1.0, 2.0], [3.0, 4.0]],
            "i": 3}[v]
    want = np.array(init, ndmin=1)
    bl = {"none": None, "num": -1.5, "zero": 0,
          "arr": -1.0 - np.arange(want.size).reshape(want.shape)}[lo]
    bh = {"none": None, "num": 7.5, "zero": 0,
          "arr": 8.0 + np.arange(want.size).reshape(want.shape)}[hi]
    with goos.OptimizationPlan() as plan:
        x = goos.Variable(init, lower_bounds=bl, upper_bounds=bh,
                          parameter=bool(par))
        require(vlib.close(plan.get_var_value(x), want), "value", str(case))
        require(vlib.close(x.get().array, want), "value", str(case))
        glo, ghi = plan.get_var_bounds(x)
        wlo = np.broadcast_to(-np.inf if bl is None else bl, want.shape)
        whi = np.broadcast_to(np.inf if bh is None else bh, want.shape)
        require(
            glo.shape == want.shape and np.all(glo == wlo) and
            ghi.shape == want.shape and np.all(ghi == whi), "bounds",
            lambda: "{}: {} {}".format(case, glo, ghi))
        pr = Probe(0, 0)
        plan.add_action(pr)
        if par:
            try:
                x.thaw()
                fail("parameter-thawed", str(case))
            except ValueError:
                pass
        plan.run()
        names = pr.seen[0][0]
        require((x._goos_name in names) == (not par), "frozen",
                "{}: {}".format(case, names))
        # Parameters can be set, they just never thaw.
        x.set(want * 2)
        pr2 = Probe(1, 0)
        plan.add_action(pr2)
        plan.run()
        require(vlib.close(x.get().array, want * 2), "value", str(case))
        require(pr2.seen == [(names, 1)], "frozen", str(case))
        # A scalar given to a scalar variable keeps it a vector.
        if want.size == 1:
            x.set(4)
            plan.run()
            require(vlib.close(x.get().array, np.array([4.0])), "value",
                    lambda: "{}: {}".format(case, x.get()))
    ctx.run()
    ctx.step(4)
    ctx.state(case)
    ctx.outcome((wlo.tobytes(), whi.tobytes(), par, v))


if __name__ == "__main__":
    chk.main()
