"""P15: an interrupted invdes plan resumes exactly where its records say.

A reference transition system of `run_plan` (parametrizations, parameters, the
records written, the minimiser steps taken) is bound to the code by comparing
every file and every executed step.  Each plan is cut at every crash point
(each operation on the save folder, torn writes included, and each minimiser
iteration), resumed, possibly cut again, and resumed.  Every process image
initialises its parametrizations to different values, so state that is not
restored from the records shows.
"""
import itertools
import logging
import os
import pickle
import re
import shutil

import numpy as np
import scipy.optimize
from schematics import types

import vlib
from vlib import require, fail

vlib.import_spins()
import crashfs
import gooslib as gl
from spins.invdes import parametrization
from spins.invdes.problem_graph import creator  # registers the creators
from spins.invdes.problem_graph import optplan, schema_utils, solver, workspace

del creator
chk = vlib.Check("P15", "fault_enumeration", [
    "crash model: the process is killed; what was written before stays in the "
    "file system in order (no power failure, no reordering)",
    "the numeric minimiser is a memoryless stand-in, so that a resumed "
    "optimization can be compared with the reference step by step",
    "the save folder is not shared by two plans",
])

CUR = {"fs": None, "journal": None, "inc": 0}


def tick(what):
    if CUR["fs"] is not None:
        CUR["fs"].point(("step",) + what)


def initial(name, inc):
    """Initial value of a parametrization in process image `inc`."""
    base = {"p1": [0.25, 0.75], "p2": [0.125, 0.375], "p3": [0.5, 0.25]}[name]
    return np.array(base) + inc / 64


class KParam(parametrization.DirectParam):
    """Pixels with one more piece of state."""

    def __init__(self, name, inc):
        super().__init__(initial(name, inc))
        self.k = 1.0
        self.name = name

    def set_k(self, k):
        CUR["journal"].append(("set_k", self.name, float(k)))
        tick(("set_k",))
        self.k = k
        tick(("set_k done",))

    def serialize(self):
        return {"vector": self.to_vector(), "k": self.k}

    def deserialize(self, data):
        self.from_vector(data["vector"])
        self.k = data["k"]


class PolyParam(KParam):
    """A parametrization that can be exported as polygons."""

    def generate_polygons(self, dx):
        a, b = self.to_vector() * 1000
        return [np.array([[0, 0], [a, 0], [a, b], [0, b]]) * dx]


class VerifSpace(optplan.ProblemGraphNode):
    type = schema_utils.polymorphic_model_type("verif_space")
    dx = types.FloatType(default=1)


class VerifParametrization(optplan.Parametrization):
    type = schema_utils.polymorphic_model_type("parametrization.verif")
    poly = types.BooleanType(default=False)
    simulation_space = optplan.ReferenceType(VerifSpace)


@optplan.register_node(VerifSpace)
def create_space(params, work):
    return params


@optplan.register_node(VerifParametrization)
def create_verif(params, work):
    cls = PolyParam if params.poly else KParam
    return cls(params.name, CUR["inc"])


# The alphabet. Per operation: kind, parametrization, parameter in the
# objective, logging of iterations, parameters to set first
# (parameter, parametrization the value is computed from, inverse).
OPS = {
    # optimize, nothing to set: the parameter keeps its value
    "O1": dict(kind="opt", p="p1", par="a", cb=True, sets=[]),
    # optimize with parameter set from its own parametrization
    "O1s": dict(kind="opt", p="p1", par="a", cb=True,
                sets=[("a", "p1", True)]),
    # other parametrization; parameter computed from the first one; a second
    # parameter which is not part of the objective
    "O2": dict(kind="opt", p="p2", par="b", cb=True,
               sets=[("b", "p1", False), ("c", "p2", False)]),
    # no log of iterations
    "O2n": dict(kind="opt", p="p2", par="a", cb=False, sets=[]),
    # no options at all, an unset parameter
    "O3": dict(kind="opt", p="p3", par="d", cb=True, sets=[], noopt=True),
    # penalty cycles
    "N1": dict(kind="pen", p="p1", par="b", cb=True, sets=[("b", "p2", True)]),
    # no log at all
    "S1": dict(kind="sig", p="p1", value=3.0, sets=[]),
    "S2": dict(kind="sig", p="p2", value=5.0, sets=[("a", "p2", True)]),
}
MAXITER = 2
DEFAULT_ITERS = 1
CYCLES = 2
INIT = {"a": 1.0, "b": 2.0, "c": 3.0, "d": 0.5}
STEP = 1 / 512  # Small enough to stay within the bounds.


def build(prog):
    """The plan, as read from its file."""
    optplan.reset_graph()
    space = VerifSpace(name="space")
    par = {k: optplan.Parameter(name=k, initial_value=v)
           for k, v in INIT.items()}
    prm = {
        k: VerifParametrization(name=k, poly=(k == "p3"),
                                simulation_space=space)
        for k in ("p1", "p2", "p3")
    }
    pen = optplan.DiscretePenalty(name="pen")
    mon = optplan.SimpleMonitor(name="mon", function=pen)
    trans = []
    for i, name in enumerate(prog):
        op = OPS[name]
        sets = [
            optplan.SetParam(parameter=par[a], function=pen,
                             parametrization=prm[q], inverse=inv)
            for a, q, inv in op["sets"]
        ]
        if op["kind"] == "sig":
            t = optplan.CubicParamSigmoidStrength(value=op["value"])
        else:
            ml = optplan.ScipyOptimizerMonitorList(
                callback_monitors=[mon] if op["cb"] else [],
                start_monitors=[mon],
                end_monitors=[])
            obj = par[op["par"]] * pen
            if op["kind"] == "opt":
                t = optplan.ScipyOptimizerTransformation(
                    optimizer="L-BFGS-B", objective=obj, monitor_lists=ml)
                if not op.get("noopt"):
                    t.optimization_options = optplan.ScipyOptimizerOptions(
                        maxiter=MAXITER)
            else:
                t = optplan.PenaltyTransformation(
                    optimizer="L-BFGS-B", objective=obj, monitor_lists=ml,
                    constraints_eq=[pen],
                    optimization_options=optplan.PenaltyOptimizerOptions(
                        num_cycles=CYCLES, maxiter=MAXITER, mu0=2, tau=1.5,
                        pf=2))
        trans.append(
            optplan.Transformation(name="t{}".format(i), transformation=t,
                                   parametrization=prm[op["p"]],
                                   parameter_list=sets))
    plan = optplan.OptimizationPlan(transformations=trans)
    return optplan.loads(optplan.dumps(plan))


def descend(fun, x0, jac=None, callback=None, options=None, **kwargs):
    """A minimiser without memory; stops like scipy's."""
    x = np.array(x0, dtype=float)
    k = 0
    while True:
        tick(("minimise", k))
        x = x - STEP * np.asarray(jac(x))
        fun(x + 1)  # A trial point which is not accepted.
        k += 1
        CUR["journal"].append(("iterate", np.round(x, 9).tolist()))
        if callback:
            callback(np.copy(x))
        if k >= (options or {}).get("maxiter", DEFAULT_ITERS):
            break
    return scipy.optimize.OptimizeResult(x=x, fun=fun(x), success=True)


# ---------------------------------------------------------------- the model


def penalty(x):
    return float(np.sum(x * (1 - x)))


class Model:
    """Reference transition system."""

    def __init__(self, prog, inc):
        self.prog, self.inc = prog, inc
        self.P, self.A = {}, {}
        self.counter = 0
        self.records = []  # (file name, content)
        self.journal = []

    def param(self, p):
        if p not in self.P:
            self.P[p] = [initial(p, self.inc), 1.0]
        return self.P[p]

    def value(self, a):
        return self.A.setdefault(a, INIT[a])

    def log(self, i, p, event, monitors):
        self.counter += 1
        x, k = self.P[p]
        self.records.append(("step{}.pkl".format(self.counter), {
            "transformation": "t{}".format(i),
            "event": event,
            "parametrization": (x.copy(), k),
            "parameters": dict(self.A),
            "monitor_data": {"mon": penalty(x)} if monitors else {},
            "log_counter": self.counter,
        }))

    def checkpoint(self, i):
        self.records.append(("t{}.chkpt.pkl".format(i), {
            "parameters": dict(self.A),
            "parametrizations": {k: (v[0].copy(), v[1])
                                 for k, v in self.P.items()},
        }))

    def iterate(self, i, op, n, grad, event):
        for k in range(n):
            st = self.P[op["p"]]
            st[0] = st[0] - STEP * grad(st[0])
            self.journal.append(("iterate", np.round(st[0], 9).tolist()))
            if op["cb"]:
                self.log(i, op["p"], event(), True)

    def run(self, start=0, event=None):
        for i in range(start, len(self.prog)):
            op = OPS[self.prog[i]]
            if op["kind"] != "sig":
                self.value(op["par"])
            if event is None:
                for a, q, inv in op["sets"]:
                    v = penalty(self.param(q)[0])
                    self.A[a] = 1 / v if inv else v
            self.param(op["p"])
            if op["kind"] == "sig":
                self.P[op["p"]][1] = op["value"]
                self.journal.append(("set_k", op["p"], op["value"]))
            else:
                self.optimize(i, op, event)
            event = None
            self.checkpoint(i)

    def optimize(self, i, op, event):
        p = op["p"]
        state = event["state"] if event else None
        if state is None:
            self.log(i, p, {"state": "start"}, True)
        a = self.A[op["par"]]
        done = (event or {}).get("iteration", 0)
        count = [done]
        if state in (None, "start", "optimizing"):
            if op["kind"] == "opt":

                def ev():
                    count[0] += 1
                    return {"state": "optimizing", "iteration": count[0]}

                n = DEFAULT_ITERS if op.get("noopt") else MAXITER - done
                self.iterate(i, op, n, lambda x: a * (1 - 2 * x), ev)
            else:
                mu = (event or {}).get("mu", 2.0)
                for c in range((event or {}).get("cycle_num", 0), CYCLES):

                    def evc():
                        count[0] += 1
                        return {"state": "optimizing", "iteration": count[0],
                                "cycle_num": c, "mu": mu}

                    self.iterate(
                        i, op, MAXITER, lambda x: (a + 2 * mu * penalty(x)) *
                        (1 - 2 * x), evc)
                    mu = mu**1.5
            state = "optimizing"
        if state == "optimizing":
            self.log(i, p, {"state": "end"}, False)

    def resume(self, records):
        """Continues from the records of earlier process images."""
        self.records = list(records)
        start, last, event = 0, None, None
        for name, data in records:
            m = re.fullmatch(r"t(\d+)\.chkpt\.pkl", name)
            if m:
                start = int(m.group(1)) + 1
                self.P = {k: [v[0].copy(), v[1]]
                          for k, v in data["parametrizations"].items()}
                self.A = dict(data["parameters"])
            else:
                last = data
                self.counter = data["log_counter"]
        if last is not None and last["transformation"] == "t{}".format(start):
            self.P[OPS[self.prog[start]]["p"]] = [
                last["parametrization"][0].copy(), last["parametrization"][1]]
            self.A.update(last["parameters"])
            event = last["event"]
        self.run(start, event)


# ------------------------------------------------------------ the real thing


def names(d):
    return sorted(f for f in os.listdir(d)
                  if re.fullmatch(r"step\d+\.pkl|.*\.chkpt\.pkl", f))


def close(u, v):
    return np.shape(u) == np.shape(v) and np.allclose(
        u, v, rtol=1e-9, atol=1e-11)


def same_params(got, want, inc):
    """Parameters known to the model are right, others have not changed."""
    return (set(want) <= set(got) and
            all(close(got[k], want[k]) for k in want) and
            all(close(v, INIT[k]) for k, v in got.items() if k not in want))


def same_param(got, want):
    return close(got["vector"], want[0]) and close(got["k"], want[1])


def same_event(got, want):
    return set(got) == set(want) and all(
        got[k] == v if isinstance(v, (str, int)) else close(got[k], v)
        for k, v in want.items())


def read(d, f):
    try:
        with open(os.path.join(d, f), "rb") as fp:
            data = pickle.load(fp)
            rest = fp.read()
    except Exception as e:  # pylint: disable=broad-except
        fail("incomplete-file", "{} cannot be read: {!r}".format(f, e))
    require(not rest, "incomplete-file", "{} has trailing data".format(f))
    return data


def check_record(d, f, want, where, incs):
    data = read(d, f)

    def bad(what, g, w):
        fail("record-" + what, "{}: {} of {} is {}, want {}".format(
            where, what, f, g, w))

    if not same_params(data["parameters"], want["parameters"], incs):
        bad("parameters", data["parameters"], want["parameters"])
    if "parametrizations" in want:
        g, w = data["parametrizations"], want["parametrizations"]
        if not set(w) <= set(g) or not all(same_param(g[k], w[k]) for k in w):
            bad("parametrizations", g, w)
        for k in set(g) - set(w):
            # Created but not used so far.
            if not any(same_param(g[k], (initial(k, i), 1.0)) for i in incs):
                bad("parametrizations", g, w)
        return
    if data["transformation"] != want["transformation"]:
        bad("transformation", data["transformation"], want["transformation"])
    if data["log_counter"] != want["log_counter"]:
        bad("number", data["log_counter"], want["log_counter"])
    if not same_event(data["event"], want["event"]):
        bad("event", data["event"], want["event"])
    if not same_param(data["parametrization"], want["parametrization"]):
        bad("parametrization", data["parametrization"],
            want["parametrization"])
    g, w = data["monitor_data"], want["monitor_data"]
    if set(g) != set(w) or not all(close(g[k], w[k]) for k in w):
        bad("monitors", g, w)


def drop_handlers():
    root = logging.getLogger("")
    for h in list(root.handlers):
        root.removeHandler(h)
        h.close()


def execute(prog, d, fs, resume, inc):
    """Runs the plan in d. Returns (completed, journal)."""
    CUR["journal"], CUR["inc"], CUR["fs"] = [], inc, None
    plan = build(prog)
    CUR["fs"] = fs
    try:
        with gl.replaced_minimize(descend):
            if fs is None:
                solver.run_plan(plan, d, resume=resume)
            else:
                with fs.active():
                    solver.run_plan(plan, d, resume=resume)
        return True, CUR["journal"]
    except crashfs.Crash:
        return False, CUR["journal"]
    finally:
        CUR["fs"] = None
        drop_handlers()


def check_disk(d, model, where, incs):
    """Everything on disk is a prefix of the model's records; returns it."""
    have = names(d)
    want = [f for f, _ in model.records]
    k = len(have)
    require(have == sorted(want[:k]), "records-in-order",
            lambda: "{}: records {}, want the first of {}".format(
                where, have, want))
    for f, data in model.records[:k]:
        check_record(d, f, data, where, incs)
    return model.records[:k]


def check_journal(got, model, completed, where):
    k = len(got)
    require(got == model.journal[:k] and
            (not completed or k == len(model.journal)), "steps-executed",
            lambda: "{}: executed {}, want {}".format(where, got,
                                                      model.journal))


def check_gds(d, prog, model, where):
    path = os.path.join(d, "spins_design.gds")
    if OPS[prog[-1]]["p"] != "p3":
        return
    require(os.path.exists(path), "no-final-design", where)
    from spins.gds import parse_gds
    with open(path, "rb") as fp:
        g = parse_gds.GDSImport(fp)
    pts = np.concatenate(g.get_polygons((0, 0)))
    want = model.P["p3"][0]
    require(np.allclose(np.max(pts, axis=0), want, atol=2e-3),
            "final-design", lambda: "{}: {} {}".format(where, pts, want))


def crash(prog, d, k, inc):
    os.makedirs(d)
    fs = crashfs.CrashFS(d, crash_at=k)
    ok, journal = execute(prog, d, fs, False, inc)
    return fs, ok, journal


def count_points(ctx, prog, base):
    d = os.path.join(base, "ref")
    os.makedirs(d)
    fs = crashfs.CrashFS(d)
    ok, journal = execute(prog, d, fs, False, 0)
    require(ok, "harness", "did not complete")
    m = Model(prog, 0)
    m.run()
    where = "plan {} uninterrupted".format(prog)
    require(len(check_disk(d, m, where, (0,))) == len(m.records),
            "records-missing", lambda: "{}: {}".format(where, names(d)))
    check_journal(journal, m, True, where)
    check_gds(d, prog, m, where)
    ctx.run()
    return d, fs.n, m


def snapshot(d):
    res = {}
    for f in names(d):
        with open(os.path.join(d, f), "rb") as fp:
            res[f] = fp.read()
    return res


def check_resume(ctx, prog, d, records, inc, where, fs=None):
    """Resumes in d; the records on disk are `records`."""
    before = snapshot(d)
    m = Model(prog, inc)
    m.resume(records)
    done, journal = execute(prog, d, fs, True, inc)
    check_journal(journal, m, done, where)
    rec = check_disk(d, m, where, tuple(range(inc + 1)))
    after = snapshot(d)
    for f, data in before.items():
        require(after.get(f) == data, "overwritten",
                lambda: "{}: {} was changed".format(where, f))
    if done:
        require(len(rec) == len(m.records), "records-missing",
                lambda: "{}: {} want {}".format(where, names(d), [
                    f for f, _ in m.records]))
        check_gds(d, prog, m, where)
        ctx.outcome((prog, len(records), len(journal)))
    return done, rec


def single_cases(tier):
    ops = sorted(OPS)
    res = [[o] for o in ops] + [list(p) for p in
                                itertools.product(ops, repeat=2)]
    third = itertools.product(ops, repeat=3)
    if tier == "thorough":
        res += [list(p) for p in third]
    else:
        small = ["O1s", "O2", "S1", "N1"]
        res += [list(p) for p in itertools.product(small, repeat=3)]
    return res


@chk.section("single-crash", single_cases,
             "all plans of up to 2 transformations out of 8 kinds and of 3 out "
             "of 4 (thorough: 8); all crash points; resumed by a new process "
             "with other initial values")
def single(ctx, prog, part=0, parts=1):
    with vlib.scratch() as base:
        ref, n, model = count_points(ctx, prog, base)
        for k in range(part, n, parts):
            d = os.path.join(base, "c")
            fs, ok, journal = crash(prog, d, k, 0)
            require(not ok, "harness", "crash point not reached")
            where = "plan {} stopped before {}".format(prog, fs.log[-1][1])
            check_journal(journal, model, False, where)
            records = check_disk(d, model, where, (0,))
            done, _ = check_resume(ctx, prog, d, records, 1, where)
            require(done, "harness", "not completed")
            ctx.run(2)
            ctx.step(k + 1)
            ctx.state((prog, k))
            shutil.rmtree(d)
        # Resuming a plan which is complete changes nothing.
        check_resume(ctx, prog, ref, model.records, 1,
                     "plan {} completed".format(prog))


LONG = {
    "iterations": (["O1s"], 13), "cycles": (["N1"], 12),
    "two": (["O1", "O2"], 11),
    "transformations": (["S1", "O1", "S2", "S1", "O2n", "S2", "S1", "O1s",
                         "S2", "S1", "S2", "O2"], 1),
}


@chk.section("long-runs", lambda tier: [[k, p] for k in LONG
                                        for p in range(8)],
             "runs of 11 to 13 iterations per transformation or cycle and of "
             "12 transformations; all crash points", timeout=300)
def long_runs(ctx, case):
    global MAXITER
    prog, iters = LONG[case[0]]
    old = MAXITER
    MAXITER = iters
    try:
        single(ctx, prog, case[1], 8)
    finally:
        MAXITER = old


def double_cases(tier):
    res = [["O1"], ["O2"], ["N1"], ["S1", "O1s"], ["O1s", "S2"]]
    if tier == "thorough":
        res += [[o] for o in sorted(OPS) if [o] not in res]
        res += [list(p) for p in itertools.product(
            ["O1s", "O2", "S1", "N1"], repeat=2)]
    # Split by the first crash point to spread the work.
    return [[p, r] for p in res for r in range(4)]


@chk.section("crash-while-resuming", double_cases,
             "all pairs of crash points, one in the run and one in the resumed "
             "run")
def double(ctx, case):
    prog, part = case
    with vlib.scratch() as base:
        _, n, model = count_points(ctx, prog, base)
        for k in range(part, n, 4):
            d0 = os.path.join(base, "c")
            crash(prog, d0, k, 0)
            where0 = "plan {} stopped at {}".format(prog, k)
            records = check_disk(d0, model, where0, (0,))
            j = 0
            while True:
                d = os.path.join(base, "x")
                shutil.copytree(d0, d)
                where = "{} then {}".format(where0, j)
                fs = crashfs.CrashFS(d, crash_at=j)
                done, rec = check_resume(ctx, prog, d, records, 1, where, fs)
                if not done:
                    check_resume(ctx, prog, d, rec, 2, where)
                ctx.run(2)
                ctx.step(j + 1)
                ctx.state((prog, k, j))
                shutil.rmtree(d)
                if done:
                    break
                j += 1
            shutil.rmtree(d0)


def counts(f):
    return re.fullmatch(r"step\d+\.pkl", f)


@chk.section("real-minimiser", [["O1"], ["O1s", "O2"]],
             "scipy's own minimiser: total number of iterations is within the "
             "limit for every crash point; numbering and states in order")
def real_minimiser(ctx, prog):
    with vlib.scratch() as base:

        def run(d, fs, resume, inc):
            CUR["journal"], CUR["inc"], CUR["fs"] = [], inc, None
            plan = build(prog)
            try:
                if fs is None:
                    solver.run_plan(plan, d, resume=resume)
                else:
                    with fs.active():
                        solver.run_plan(plan, d, resume=resume)
                return True
            except crashfs.Crash:
                return False
            finally:
                drop_handlers()

        k = 0
        while True:
            d = os.path.join(base, "r")
            os.makedirs(d)
            done = run(d, crashfs.CrashFS(d, crash_at=k), False, 0)
            if not done:
                run(d, None, True, 1)
            where = "plan {} stopped at {}".format(prog, k)
            steps = [f for f in names(d) if counts(f)]
            seq = []
            for i in range(1, len(steps) + 1):
                data = read(d, "step{}.pkl".format(i))
                require(data["log_counter"] == i, "record-number", where)
                seq.append((data["transformation"], data["event"]["state"],
                            data["event"].get("iteration")))
            want = []
            for i in range(len(prog)):
                t = "t{}".format(i)
                its = [s for s in seq if s[:2] == (t, "optimizing")]
                require(len(its) <= MAXITER, "iteration-limit",
                        lambda: "{}: {}".format(where, seq))
                want += [(t, "start", None)] + [
                    (t, "optimizing", j + 1) for j in range(len(its))
                ] + [(t, "end", None)]
            require(seq == want, "records-in-order",
                    lambda: "{}: {}".format(where, seq))
            shutil.rmtree(d)
            ctx.run(2)
            ctx.step(k + 1)
            ctx.state((prog, k))
            ctx.outcome((prog, len(seq)))
            if done:
                break
            k += 1


STEP_NAMES = ["step1.pkl", "step2.pkl", "step10.pkl", "step11.pkl.tmp",
              "step.pkl", "t0.chkpt.pkl", "mystep12.pkl", "step3.pkl.bak",
              "stepx.pkl"]


@chk.section("latest-log", [list(c) for n in range(len(STEP_NAMES) + 1)
                            for c in itertools.combinations(STEP_NAMES, n)],
             "the latest log is the one with the highest number, for every "
             "subset of 9 file names")
def latest(ctx, files):
    with vlib.scratch() as d:
        for f in files:
            with open(os.path.join(d, f), "w"):
                pass
        want = 0
        for f in files:
            m = re.fullmatch(r"step(\d+)\.pkl", f)
            if m:
                want = max(want, int(m.group(1)))
        require(workspace.get_latest_log_step(d) == want, "latest-log",
                str(files))
        got = workspace.get_latest_log_file(d)
        require(got == (os.path.join(d, "step{}.pkl".format(want))
                        if want else None), "latest-log", str((files, got)))
        ctx.step(2)
        ctx.run()
        ctx.state(files)
        ctx.outcome(want)


if __name__ == "__main__":
    chk.main()
