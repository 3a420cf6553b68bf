"""P04: a goos run that stops anywhere resumes to the same result.

For every small plan, the run is cut at every crash point (each operation on
the log directory, torn writes included, and each step inside an action), and
resumed from the newest complete record in a fresh plan, possibly crashing
again.  Oracle: the uninterrupted run.
"""
import itertools
import os
import pickle
import re
import shutil
from typing import List

import numpy as np
import scipy.optimize

import vlib
from vlib import require, fail
import gooslib as gl
from gooslib import goos
from spins.goos import optimize
import crashfs

chk = vlib.Check(
    "P04", "fault_enumeration", [
        "crash model: the process is killed; what was written before stays in "
        "the file system in order (no power failure, no reordering)",
        "actions that write events implement resume exactly or are idempotent",
    ])

CUR = {"fs": None, "journal": None}


def tick(what):
    if CUR["fs"] is not None:
        CUR["fs"].point(("action",) + what)


def note(what):
    CUR["journal"].append(what)


class Loop(goos.Action):
    """A resumable action: n iterations, an event after each."""
    node_type = "verif.loop"

    def __init__(self, var: goos.Variable, n: int, ind: int) -> None:
        super().__init__(var)
        self.var, self.n, self.ind = var, n, ind

    def run(self, plan, start=0):
        note((self.ind, "resume" if start else "run"))
        for k in range(start, self.n):
            tick((self.ind, k))
            plan.set_var_value(
                self.var, plan.get_var_value(self.var) * 3 + k + self.ind)
            tick((self.ind, k, "set"))
            plan.write_event({"iteration": k + 1}, [self.var])
        tick((self.ind, "end"))
        note((self.ind, "done"))

    def resume(self, plan, event):
        self.run(plan, event["iteration"])


class Idem(goos.Action):
    """Not resumable, writes an event, idempotent."""
    node_type = "verif.idem"

    def __init__(self, var: goos.Variable, ind: int) -> None:
        super().__init__(var)
        self.var, self.ind = var, ind

    def run(self, plan):
        note((self.ind, "run"))
        tick((self.ind,))
        plan.set_var_value(self.var, np.array([5.0, self.ind]),
                           check_frozen=False)
        plan.write_event({"state": "set"}, [])
        tick((self.ind, "end"))
        note((self.ind, "done"))


class Plain(goos.Action):
    """No events, not idempotent; changes value, bounds and frozen state."""
    node_type = "verif.plain"

    def __init__(self, x: goos.Variable, y: goos.Variable, kind: str,
                 ind: int) -> None:
        super().__init__([x, y])
        self.x, self.y, self.kind, self.ind = x, y, kind, ind

    def run(self, plan):
        note((self.ind, "run"))
        tick((self.ind,))
        if self.kind == "inc":
            plan.set_var_value(self.x, plan.get_var_value(self.x) * 2 + 1)
        elif self.kind == "flag":
            thawed = [v._goos_name for v in plan.get_thawed_vars()]
            if "y" in thawed:
                plan.freeze_var(self.y)
            else:
                plan.thaw_var(self.y)
        elif self.kind == "bnd":
            lo, hi = plan.get_var_bounds(self.y)
            plan.set_var_bounds(self.y, [lo - 1, hi + 2])
        tick((self.ind, "end"))
        note((self.ind, "done"))


def descend(fun, x0, jac=None, callback=None, options=None, **kwargs):
    """A minimiser without memory: resuming it continues exactly."""
    x = np.array(x0, dtype=float)
    for k in range((options or {}).get("maxiter", 3)):
        tick(("minimise", k))
        x = x - 0.25 * np.asarray(jac(x))
        fun(x + 1)  # A trial point which is not accepted.
        callback(x)
    return scipy.optimize.OptimizeResult(x=x, fun=fun(x), success=True)


LOOPS, OPT_ITERS = 2, 3
ALPHA = ["inc", "loop", "idem", "flag", "bnd", "set"]


def build(plan, prog):
    x = goos.Variable([1.0], name="x")
    y = goos.Variable([2.0, 3.0], lower_bounds=-4, upper_bounds=4, name="y")
    if "opt" in prog:
        it = goos.Variable([0.0], parameter=True, name="it")
    for i, a in enumerate(prog):
        if a == "loop":
            plan.add_action(Loop(x, LOOPS, i, name="a{}".format(i)))
        elif a == "idem":
            plan.add_action(Idem(y, i, name="a{}".format(i)))
        elif a == "opt":
            plan.add_action(
                optimize.ScipyOptimizer((x - 1)**2 + goos.dot(y, y), "L-BFGS-B",
                                    monitor_list=[x], max_iters=OPT_ITERS,
                                    iteration=it, name="a{}".format(i)))
        elif a == "set":
            plan.add_action(
                goos.SetVariable(x, x * x + 1, name="a{}".format(i)))
        else:
            plan.add_action(Plain(x, y, a, i, name="a{}".format(i)))


def final_state(plan):
    st = plan.get_state_dict()["variable_data"]
    return {
        k: (np.array(v["value"]).tolist(), bool(v["frozen"]),
            [np.array(b).tolist() for b in v["bounds"]])
        for k, v in sorted(st.items())
    }


def records(d):
    return sorted(f for f in os.listdir(d)
                  if re.fullmatch(r"step\d+\.pkl|.*\.chkpt", f))


def read_all(d):
    out = {}
    for f in records(d):
        try:
            with open(os.path.join(d, f), "rb") as fp:
                data = pickle.load(fp)
                rest = fp.read()
        except Exception as e:  # pylint: disable=broad-except
            fail("incomplete-file", "{} cannot be read: {!r}".format(f, e))
        require(not rest, "incomplete-file", "{} has trailing data".format(f))
        out[f] = canon(data)
    return out


def canon(data):
    data = dict(data)
    data.pop("time", None)
    return repr(sorted((k, repr(v)) for k, v in data.items()))


def run_to(prog, d, fs, resume_from=None, mode="code"):
    """Runs or resumes the plan in directory d. Returns (plan, journal)."""
    CUR["journal"] = []
    with goos.OptimizationPlan(save_path=d) as plan:
        if resume_from is None:
            build(plan, prog)
            plan.save(d)
        elif mode == "load":
            plan.load(d)
        else:
            build(plan, prog)
        CUR["fs"] = fs
        try:
            with gl.replaced_minimize(descend):
                if fs is None:
                    go(plan, d, resume_from, mode)
                else:
                    with fs.active():
                        go(plan, d, resume_from, mode)
        finally:
            CUR["fs"] = None
        return plan, list(CUR["journal"]), final_state(plan)


def go(plan, d, resume_from, mode):
    if resume_from is None or resume_from == "":
        plan.run()
    elif mode == "load":
        plan.resume(checkpoint=os.path.join(d, resume_from))
    else:
        plan.read_checkpoint(os.path.join(d, resume_from))
        plan.resume()


def reference(prog, base):
    d = os.path.join(base, "ref")
    os.makedirs(d)
    fs = crashfs.CrashFS(d)
    _, journal, state = run_to(prog, d, fs)
    # Order in which the records came into existence.
    order = []
    for what in fs.log:
        for name in what[1:]:
            if isinstance(name, str) and re.fullmatch(
                    r"step\d+\.pkl|.*\.chkpt", name):
                if name in order:
                    order.remove(name)
                order.append(name)
    files = read_all(d)
    require(set(order) == set(files), "records",
            "{} vs {}".format(order, sorted(files)))
    return d, fs.n, state, order, files, journal


def newest(d, order):
    have = [f for f in order if f in records(d)]
    return have[-1] if have else ""


def check_resume(ctx, prog, d, order, files, state, mode, fs, where):
    """Resumes in d and compares with the reference. True if it completed."""
    before = read_all(d)
    for f, c in before.items():
        require(f in files and files[f] == c, "record-content",
                lambda: "{}: {} differs from the uninterrupted run:\n{}\n{}".
                format(where, f, c, files.get(f)))
    rec = newest(d, order)
    # A record can only exist if all the earlier ones do.
    k = order.index(rec) + 1 if rec else 0
    require(sorted(before) == sorted(order[:k]), "records-in-order",
            lambda: "{}: {}".format(where, sorted(before)))
    if rec:
        with open(os.path.join(d, rec), "rb") as fp:
            data = pickle.load(fp)
        done = completed(rec, data)
    else:
        done = 0
    try:
        plan, journal, st = run_to(prog, d, fs, rec or "", mode)
    except crashfs.Crash:
        return False
    require(st == state, "result",
            lambda: "{}: resumed from {!r} to {}, want {}".format(
                where, rec, st, state))
    # Harness actions executed, in order (goos actions are not journalled).
    want = []
    for i, a in enumerate(prog):
        if a in ("set", "opt") or i < done:
            continue
        want.append(i)
    got = [e[0] for e in journal if e[1] == "done"]
    require(got == want, "actions-executed",
            lambda: "{}: resumed from {!r}, executed {}, want {}".format(
                where, rec, got, want))
    started = [e[0] for e in journal if e[1] != "done"]
    require(started == want, "actions-executed",
            lambda: "{}: started {}, want {}".format(where, started, want))
    after = read_all(d)
    for f in before:
        require(after.get(f) == before[f], "overwritten",
                lambda: "{}: {} was changed by resuming".format(where, f))
    if "idem" in prog:
        # An action that cannot resume is run again and logs again.
        steps = sorted(int(f[4:-4]) for f in after if f.endswith(".pkl"))
        require(
            steps == list(range(1, len(steps) + 1)) and
            set(files) <= set(after) and
            [f for f in after if f.endswith(".chkpt")] ==
            [f for f in files if f.endswith(".chkpt")],
            "records-after-resume",
            lambda: "{}: records are {}".format(where, sorted(after)))
        ctx.outcome((rec, mode, len(got), len(steps)))
        return True
    require(after == files, "records-after-resume",
            lambda: "{}: records are {}, want {}; differing: {}".format(
                where, sorted(after), sorted(files),
                [f for f in after if after[f] != files.get(f)]))
    ctx.outcome((rec, mode, len(got)))
    return True


def completed(rec, data):
    """Number of actions a record shows as completed."""
    m = re.fullmatch(r"action(\d+)\.chkpt", rec)
    if m:
        return int(m.group(1)) + 1
    return int(data["action_ptr"])


def crash_run(prog, d, k):
    os.makedirs(d)
    fs = crashfs.CrashFS(d, crash_at=k)
    try:
        run_to(prog, d, fs)
        return fs, True
    except crashfs.Crash:
        return fs, False


def prog_cases(tier):
    res = []
    for n in (1, 2, 3):
        res += [list(p) for p in itertools.product(ALPHA, repeat=n)]
    # The optimizer, with other actions before and after.
    res += [p for p in (list(p) for n in (1, 2)
                        for p in itertools.product(ALPHA + ["opt"], repeat=n))
            if "opt" in p]
    res += [[a, "opt", b] for a in ALPHA for b in ALPHA]
    if tier == "thorough":
        res += [list(p) for p in itertools.product(
            ["inc", "loop", "idem", "flag"], repeat=4)]
        res += [p for p in (list(p) for p in itertools.product(
            ALPHA + ["opt"], repeat=3)) if "opt" in p and p not in res]
    return res


@chk.section("single-crash", prog_cases,
             "all plans of up to 3 actions out of 6 kinds; all crash points; "
             "resumed from the newest record in a rebuilt and a loaded plan")
def single(ctx, prog, part=0, parts=1):
    with vlib.scratch() as base:
        _, n, state, order, files, _ = reference(prog, base)
        for k in range(part, n, parts):
            d0 = os.path.join(base, "c{}".format(k))
            fs, finished = crash_run(prog, d0, k)
            require(not finished, "harness", "crash point not reached")
            where = "plan {} stopped before {}".format(prog, fs.log[-1][1])
            for mode in ("code", "load"):
                d = d0 + mode
                shutil.copytree(d0, d)
                check_resume(ctx, prog, d, order, files, state, mode, None,
                             where + " (" + mode + ")")
                shutil.rmtree(d)
                ctx.run()
                ctx.step(k + 1)
            ctx.state((prog, k))
            shutil.rmtree(d0)
        # Resuming a run that completed does nothing.
        d = os.path.join(base, "ref")
        check_resume(ctx, prog, d, order, files, state, "code", None,
                     "plan {} completed".format(prog))


LONG = {
    "actions": (["inc", "loop", "bnd", "set", "flag", "inc", "flag", "inc",
                 "bnd", "inc", "loop", "inc"], 1, 3),
    "events": (["inc", "loop", "inc"], 13, 3),
    "iterations": (["opt", "inc"], 2, 12),
    "both": (["loop", "opt", "loop"], 5, 6),
}


@chk.section("long-runs", lambda tier: [[k, p] for k in LONG
                                        for p in range(8)],
             "runs of 12 actions, of 13 events in an action, of 12 iterations "
             "of an optimizer; all crash points", timeout=300)
def long_runs(ctx, case):
    global LOOPS, OPT_ITERS
    old = LOOPS, OPT_ITERS
    prog, LOOPS, OPT_ITERS = LONG[case[0]]
    try:
        single(ctx, prog, case[1], 8)
    finally:
        LOOPS, OPT_ITERS = old


def double_cases(tier):
    res = [["loop"], ["inc", "loop"], ["loop", "inc"],
           ["set", "loop"], ["flag", "bnd"], ["opt"], ["opt", "inc"]]
    if tier == "thorough":
        res += [list(p) for p in itertools.product(ALPHA, repeat=2)]
        res += [["loop", "inc", "loop"], ["inc", "bnd", "loop"],
                ["set", "flag", "loop"]]
    return [
        r for i, r in enumerate(res) if r not in res[:i] and "idem" not in r
    ]


@chk.section("crash-while-resuming", double_cases,
             "all pairs of crash points: one in the run, one in the resumed run")
def double(ctx, prog):
    with vlib.scratch() as base:
        _, n, state, order, files, _ = reference(prog, base)
        for k in range(n):
            d0 = os.path.join(base, "c{}".format(k))
            crash_run(prog, d0, k)
            j = 0
            while True:
                d = d0 + "x"
                shutil.copytree(d0, d)
                fs = crashfs.CrashFS(d, crash_at=j)
                where = "plan {} stopped at {} then {}".format(prog, k, j)
                done = check_resume(ctx, prog, d, order, files, state, "code",
                                    fs, where)
                if not done:
                    check_resume(ctx, prog, d, order, files, state, "load",
                                 None, where)
                ctx.run(2)
                ctx.step(j + 1)
                ctx.state((prog, k, j))
                shutil.rmtree(d)
                if done:
                    break
                j += 1
            shutil.rmtree(d0)


@chk.section("explicit-checkpoint",
             [list(p) for p in itertools.product(ALPHA, repeat=2)],
             "a checkpoint file that exists is replaced completely or not at "
             "all when it is written again; resuming without automatic "
             "checkpoints writes none")
def explicit(ctx, prog):
    with vlib.scratch() as base:
        d = os.path.join(base, "d")
        os.makedirs(d)
        with goos.OptimizationPlan(save_path=d) as plan:
            CUR["journal"] = []
            build(plan, prog)
            plan.run(auto_checkpoint=False)
            require(not [f for f in records(d) if f.endswith("chkpt")],
                    "checkpoint-unasked", str(records(d)))
            path = os.path.join(d, "mine.chkpt")
            plan.write_checkpoint(path)
            old = read_all(d)
            plan.get_node("x").set(np.array([77.0]))
            plan.run(auto_checkpoint=False)
            k = 0
            while True:
                fs = crashfs.CrashFS(d, crash_at=k)
                try:
                    with fs.active():
                        plan.write_checkpoint(path)
                    break
                except crashfs.Crash:
                    got = read_all(d)
                    require(got["mine.chkpt"] == old["mine.chkpt"],
                            "record-content", "checkpoint half written")
                k += 1
                ctx.run()
                ctx.step()
            require(read_all(d)["mine.chkpt"] != old["mine.chkpt"],
                    "record-content", "checkpoint not written")
        ctx.state(prog)
        ctx.outcome((prog, k))


@chk.section("resume-flags",
             [[p, a] for p in itertools.product(["inc", "loop", "flag"],
                                                repeat=3) for a in (0, 1)],
             "resume honours the automatic-checkpoint flag for all remaining "
             "actions, from every checkpoint")
def resume_flags(ctx, case):
    prog, auto = case
    with vlib.scratch() as base:
        ref, n, state, order, files, _ = reference(prog, base)
        for rec in order:
            d = os.path.join(base, "r")
            os.makedirs(d)
            with goos.OptimizationPlan(save_path=d) as plan:
                CUR["journal"] = []
                build(plan, prog)
                plan.resume(os.path.join(ref, rec), auto_checkpoint=bool(auto))
                require(final_state(plan) == state, "result", str(case))
            ch = [f for f in records(d) if f.endswith(".chkpt")]
            k = order.index(rec) + 1
            want = [f for f in order[k:] if f.endswith(".chkpt")
                   ] if auto else []
            require(sorted(ch) == sorted(want), "checkpoints-written",
                    lambda: "{} from {}: {} want {}".format(
                        case, rec, ch, want))
            shutil.rmtree(d)
            ctx.run()
            ctx.step()
            ctx.state((case, rec))
            ctx.outcome((ch,))


if __name__ == "__main__":
    chk.main()
