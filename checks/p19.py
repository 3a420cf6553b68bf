"""P19: the log tools return exactly the data that was logged, in log order.

Every log history up to a depth is written to disk, loaded in every order in
which the directory may list the files, and all the queries are compared with
a reference which works on the plain list of entries.
"""
import builtins
import collections
import contextlib
import io
import itertools
import os
import pickle
import shutil
import tempfile
import types
from unittest import mock

import numpy as np
import yaml

import vlib
from vlib import require

vlib.import_spins()
from matplotlib import pyplot as plt

from spins.goos import util as goos_util
from spins.invdes import problem
from spins.invdes.problem_graph import creator_monitor
from spins.invdes.problem_graph import log_tools as lt
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import workspace
from spins.invdes.problem_graph.log_tools import loader
from spins.invdes.problem_graph.log_tools import monitor_spec as ms
from spins.invdes.problem_graph.log_tools import plotter

chk = vlib.Check("P19", "model_checking", [
    "a transformation is not entered again once another one has begun, and its "
    "events come in blocks (start, optimizing, end in any order)",
    "iteration numbers increase within a transformation, and an event either "
    "always or never has one, as the optimizers log them",
    "a monitor value that is NaN counts as missing",
    "a query for an iteration names one that was logged for that event",
])

EVENTS = ("start", "optimizing", "end")
TRANS = ("zeta", "alpha")
FIRST = 8  # The numbers of the logs cross from one to two digits.


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="p19-")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def same(a, b):
    """Equality of logged values (a column may widen floats to complex)."""
    if isinstance(a, (list, np.ndarray)) and np.ndim(a):
        return (isinstance(b, (list, np.ndarray)) and np.ndim(b) and
                len(a) == len(b) and
                all(np.array_equal(x, y) for x, y in zip(a, b)))
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and a == b
    return (np.ndim(a) == 0 and np.ndim(b) == 0 and
            complex(a) == complex(b))


def value(kind, pos, mon):
    """Monitor value; no two entries have the same one."""
    x = 1.0 + pos + 0.25 * "mn".index(mon)
    if kind == 0:
        return x
    if kind == 1:
        return complex(-x, x / 2)
    if kind == 2:
        return [np.full((2, 1), x * (c + 1)) for c in range(3)]
    if kind == 3:
        return np.array(x)
    return np.float64(x) * 0


def entries_of(case):
    """case: list of [transformation, event, monitors, kind]."""
    out = []
    iters = collections.Counter()
    for pos, (t, ev, mons, kind) in enumerate(case):
        event = {"state": EVENTS[ev]}
        if EVENTS[ev] == "optimizing":
            iters[t] += 1
            event["iteration"] = 2 * iters[t] - 1
        out.append({
            "transformation": TRANS[t],
            "event": event,
            "time": "now",
            "parametrization": {"vector": np.array([1.0 * pos])},
            "parameters": {} if pos % 2 else {"beta": 1.0 * pos},
            "monitor_data": {m: value(kind, pos, m) for m in mons},
            "log_counter": FIRST + pos,
        })
    return out


# ------------------------------------------------------------- the reference


def ref_data(entries, names, event):
    """OrderedDict transformation -> (values, iterations)."""
    names = [names] if isinstance(names, str) else names
    out = collections.OrderedDict()
    for e in entries:
        if e["transformation"] not in out:
            out[e["transformation"]] = None
    for t in list(out):
        for name in names:
            hits = [
                e for e in entries if e["transformation"] == t and
                e["event"]["state"] == event and name in e["monitor_data"]
            ]
            if hits:
                out[t] = ([e["monitor_data"][name] for e in hits], [
                    e["event"]["iteration"]
                    for e in hits
                    if "iteration" in e["event"]
                ])
                break
        else:
            del out[t]
    return out


def ref_single(entries, names, trans, iteration, event):
    order = []
    for e in entries:
        if e["transformation"] not in order:
            order.append(e["transformation"])
    for t in reversed(order if trans is None else [trans]):
        blocks = []
        for e in entries:
            if e["transformation"] == t and e["event"]["state"] not in blocks:
                blocks.append(e["event"]["state"])
        for ev in reversed(blocks if event is None else [event]):
            data = ref_data(entries, names, ev).get(t)
            if data is None:
                continue
            if iteration is not None:
                return data[0][data[1].index(iteration)]
            return data[0][-1]
    return []


def histories(n, contents):
    """All contiguous histories of n entries; contents: (monitors, kind)."""
    # A history is a sequence of blocks; each (transformation, event) is one
    # block and each transformation is one run of blocks.
    def grow(seq):
        if len(seq) == n:
            yield list(seq)
            return
        for t in range(len(TRANS)):
            for ev in range(len(EVENTS)):
                if seq:
                    lt_, le = seq[-1]
                    if t < lt_ or t > lt_ + 1:
                        continue
                    if (t, ev) != (lt_, le) and (t, ev) in seq:
                        continue
                elif t != 0:
                    continue
                yield from grow(seq + [(t, ev)])

    for skel in grow([]):
        for cont in itertools.product(contents, repeat=n):
            yield [[t, ev, list(m), k] for (t, ev), (m, k) in zip(skel, cont)]


NAMES = ["m", ["m", "n"], ["n", "m"], ["x", "n"]]


def check_queries(ctx, df, entries, case):
    require(len(df) == len(entries) and
            df["log_counter"].tolist() == [e["log_counter"] for e in entries],
            "records", lambda: "{}: {}".format(case, df["log_counter"].tolist()))
    require(df["transformation"].tolist() ==
            [e["transformation"] for e in entries] and
            df["event:state"].tolist() ==
            [e["event"]["state"] for e in entries] and all(
                same(x, e["parametrization"]["vector"]) for x, e in zip(
                    df["parametrization:vector"].tolist(), entries)),
            "record-contents", str(case))
    for names in NAMES:
        for ev in EVENTS:
            got = lt.get_monitor_data(df, names, ev)
            want = ref_data(entries, names, ev)
            require(list(got) == list(want), "transformations",
                    lambda: "{} {} {}: {} want {}".format(
                        case, names, ev, list(got), list(want)))
            for t in want:
                require(len(got[t].data) == len(want[t][0]) and all(
                    same(a, b) for a, b in zip(got[t].data, want[t][0])),
                        "data", lambda: "{} {} {}: {} want {}".format(
                            case, names, ev, got[t].data, want[t][0]))
                require(list(got[t].iteration) == want[t][1], "iterations",
                        lambda: "{} {} {}: {} want {}".format(
                            case, names, ev, got[t].iteration, want[t][1]))
            # Joined across the transformations.
            flat = [v for t in want for v in want[t][0]]
            if all(np.ndim(v) == 0 and not isinstance(v, list) for v in flat):
                changes, its, n = [], [], 0
                for t in want:
                    if n:
                        changes.append(n)
                    n += len(want[t][0])
                    off = its[-1] if its else 0
                    its += [i + off for i in want[t][1]]
                for op in (None,) if isinstance(names, str) else (
                        "magnitude_squared",):
                    got = lt.get_joined_scalar_monitors(df, names, ev, op)
                    require(list(got.transformation_changes) == changes and
                            list(got.iterations) == its, "joined",
                            lambda: "{} {} {}: {} want {} {}".format(
                                case, names, ev, got, changes, its))
                    vals = [ref_scalar(op, v) for v in flat]
                    require(vlib.close(list(got.data), vals), "joined-data",
                            lambda: "{} {} {} {}: {} want {}".format(
                                case, names, ev, op, got.data, vals))
            ctx.step(2)
            for trans in (None,) + TRANS:
                its = [None]
                if trans in want:
                    its += want[trans][1]
                for it in its:
                    check_single(ctx, df, entries, case, names, trans, it, ev)
        for trans in (None,) + TRANS:
            check_single(ctx, df, entries, case, names, trans, None, None)


def check_single(ctx, df, entries, case, names, trans, it, ev):
    got = lt.get_single_monitor_data(df, names, transformation_name=trans,
                                     iteration=it, event_name=ev)
    want = ref_single(entries, names, trans, it, ev)
    require(same(got, want), "single", lambda: "{} {}: {} want {}".format(
        case, (names, trans, it, ev), got, want))
    ctx.step()


def ref_scalar(op, v):
    v = complex(v)
    if op in (None, ""):
        return v
    return {
        "real": v.real,
        "imag": v.imag,
        "magnitude": abs(v),
        "magnitude_squared": v.real**2 + v.imag**2,
        "phase": np.arctan2(v.imag, v.real),
    }[op.lower()]


# ------------------------------------------------------------------ histories

SMALL = [("", 0), ("m", 0), ("mn", 1), ("n", 2)]
TINY = [("m", 0), ("n", 1), ("", 0)]


def history_cases(tier):
    out = list(histories(1, [(m, k) for m in ("", "m", "n", "mn")
                             for k in range(5)]))
    out += histories(2, SMALL + [("m", 3), ("n", 4)])
    out += natural(histories(3, TINY if tier == "quick" else SMALL))
    long = natural(histories(4, TINY[:2] if tier == "quick" else TINY))
    out += [h for h in long if tier == "thorough" or
            sum(c[2] == ["n"] for c in h) == 1 and h[-1][0] == 1]
    if tier == "thorough":
        out += histories(3, TINY)
        out += natural(histories(5, TINY[:2]))
    return out


def natural(hists):
    """Those whose events come in the order start, optimizing, end."""
    return [h for h in hists if [c[:2] for c in h] == sorted(
        c[:2] for c in h)]


@chk.section("histories", history_cases,
             "all log histories: blocks of events in two transformations x "
             "the monitors logged and their kinds of values; all the queries")
def _(ctx, case):
    entries = entries_of(case)
    # An order in which the files are read that is not the log order.
    df = lt.create_log_data_frame([dict(e) for e in entries[::-1]])
    check_queries(ctx, df, entries, case)
    ctx.run()
    ctx.state(case)
    ctx.outcome([(e["transformation"], sorted(e["event"].items()),
                  sorted(e["monitor_data"])) for e in entries])


def order_cases(tier):
    out = []
    depth = 4 if tier == "quick" else 5
    for n in range(1, depth):
        hs = natural(histories(n, [("m", 0), ("n", 2)]))
        if n == 3:
            hs = [h for h in hs if tier == "thorough" or
                  {c[1] for c in h} == {1} or [c[1] for c in h] == [0, 1, 2]]
        if n == 4:
            hs = [h for h in hs if [c[2] for c in h] == [["m"]] * 4]
        out += [[h, p] for h in hs for p in range(
            len(list(itertools.permutations(range(n)))))]
    return out


@chk.section("listing-orders", order_cases,
             "log files on disk x all the orders in which the directory may "
             "list them, among checkpoints and other files")
def _(ctx, case):
    hist, pi = case
    entries = entries_of(hist)
    perm = list(itertools.permutations(range(len(entries))))[pi]
    with scratch() as d:
        names = []
        for e in entries:
            name = "step{}.pkl".format(e["log_counter"])
            with open(os.path.join(d, name), "wb") as fp:
                pickle.dump(e, fp)
            names.append(name)
        with open(os.path.join(d, "alpha.chkpt.pkl"), "wb") as fp:
            pickle.dump({"time": "", "parameters": {}, "parametrizations": {}},
                        fp)
        for junk in ("step99.pkl.tmp", "monitor_spec.yml", "spins.log"):
            with open(os.path.join(d, junk), "wb") as fp:
                fp.write(b"junk")
        listing = ["spins.log"] + [names[i] for i in perm[:1]] + [
            "alpha.chkpt.pkl", "step99.pkl.tmp"
        ] + [names[i] for i in perm[1:]] + ["monitor_spec.yml"]
        real = os.listdir

        def listdir(path="."):
            if os.path.realpath(path) == os.path.realpath(d):
                return list(listing)
            return real(path)

        with mock.patch.object(os, "listdir", listdir):
            logs = lt.load_all_logs(d)
            require(sorted(x["log_counter"] for x in logs) ==
                    [e["log_counter"] for e in entries], "loaded", str(case))
            df = lt.create_log_data_frame(logs)
        check_queries(ctx, df, entries, case)
        latest = workspace.get_latest_log_file(d)
        require(workspace.get_latest_log_step(d) == entries[-1]["log_counter"]
                and os.path.realpath(latest) == os.path.realpath(
                    os.path.join(d, names[-1])), "latest", str(latest))
    ctx.run()
    ctx.state(case)
    ctx.outcome((len(entries), pi, [e["transformation"] for e in entries]))


@chk.section("long-logs", lambda tier: [
    [n, split, order, mons]
    for n in ((11, 30, 103) if tier == "quick" else (9, 10, 11, 30, 99, 103, 260))
    for split in (0, 1, n // 2, n - 1) for order in ("text", "back", "number")
    for mons in (("m", "m"), ("m", "mn"))],
             "logs of up to three-digit numbers of steps, split between two "
             "transformations at every kind of place, listed in the order of "
             "names, of numbers and backwards")
def _(ctx, case):
    n, split, order, mons = case
    ev = lambda i, m: 0 if i == 0 else 2 if i == m - 1 else 1
    hist = [[0, ev(i, split), list(mons[i % 2]), i % 2] for i in range(split)]
    hist += [[1, ev(i, n - split), list(mons[i % 2]), i % 2]
             for i in range(n - split)]
    if not split:
        hist = [[0] + h[1:] for h in hist]
    entries = entries_of(hist)
    with scratch() as d:
        for e in entries:
            e["log_counter"] += 1 - FIRST
            with open(os.path.join(d, "step{}.pkl".format(e["log_counter"])),
                      "wb") as fp:
                pickle.dump(e, fp)
        real = os.listdir
        names = real(d)
        names.sort(key=(lambda x: int(x[4:-4])) if order == "number" else None)
        if order == "back":
            names.reverse()

        def listdir(path="."):
            if os.path.realpath(path) == os.path.realpath(d):
                return list(names)
            return real(path)

        with mock.patch.object(os, "listdir", listdir):
            df = lt.create_log_data_frame(lt.load_all_logs(d))
        require(df["log_counter"].tolist() == list(range(1, n + 1)), "order",
                lambda: str(df["log_counter"].tolist()))
        for nm in ("m", ["n", "m"]):
            for event in EVENTS:
                want = ref_data(entries, nm, event)
                got = lt.get_monitor_data(df, nm, event)
                require(list(got) == list(want) and all(
                    len(got[t].data) == len(want[t][0]) and
                    all(same(a, b) for a, b in zip(got[t].data, want[t][0])) and
                    list(got[t].iteration) == want[t][1] for t in want), "data",
                        lambda: "{} {}: {} want {}".format(nm, event, got,
                                                           want))
                for t in want:
                    for it in [None] + want[t][1][::7] + want[t][1][-1:]:
                        check_single(ctx, df, entries, case, nm, t, it, event)
        check_single(ctx, df, entries, case, "m", None, None, None)
        require(workspace.get_latest_log_step(d) == n, "latest", str(case))
        require(os.path.basename(workspace.get_latest_log_file(d)) ==
                "step{}.pkl".format(n), "latest", str(case))
    ctx.run()
    ctx.state(case)
    ctx.outcome(case)


# ------------------------------------------------------ logs of the real logger


class Probe(problem.OptimizationFunction):
    """Function whose value is set from outside."""

    def __init__(self):
        super().__init__([])
        self.value = None

    def eval(self, inputs):
        return self.value

    def grad(self, inputs, grad_val):
        return []


class FakeWork:

    def __init__(self, objects, parameters):
        self.objects = objects
        self.parameters = parameters

    def get_object(self, node):
        return self.objects[node.name]

    def get_objects_by_type(self, kind):
        return self.parameters


@chk.section("written-logs", lambda tier: [
    h for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4))
    for h in natural(histories(n, [("m", 0), ("mn", 1), ("n", 2), ("", 0)][
        :4 if n < 3 else 2]))
], "histories written by the logger, then loaded and queried")
def _(ctx, case):
    from spins.invdes import parametrization
    entries = entries_of(case)
    probes = {m: Probe() for m in "mn"}
    beta = Probe()
    work = FakeWork({m: creator_monitor.SimpleMonitor(p)
                     for m, p in probes.items()}, {"beta": beta})
    with scratch() as d:
        log = workspace.Logger(os.path.join(d, "new", "logs"), work)
        for pos, e in enumerate(entries):
            log.set_transformation_name(e["transformation"])
            for m, v in e["monitor_data"].items():
                probes[m].value = v
            beta.value = 3.0 * pos
            e["log_counter"] = pos + 1
            mons = [types.SimpleNamespace(name=m) for m in "nm"
                    if m in e["monitor_data"]]
            log.write(dict(e["event"]),
                      parametrization.DirectParam(
                          e["parametrization"]["vector"], bounds=None),
                      mons or None)
            ctx.step()
        logs = lt.load_all_logs(os.path.join(d, "new", "logs"))
        df = lt.create_log_data_frame(logs)
        check_queries(ctx, df, entries, case)
        require([float(np.real(b)) for b in df["parameters:beta"].tolist()] ==
                [3.0 * i for i in range(len(entries))], "parameters", str(case))
        require(sorted(os.listdir(os.path.join(d, "new", "logs"))) == sorted(
            "step{}.pkl".format(i + 1) for i in range(len(entries))),
                "files", str(case))
    ctx.run()
    ctx.state(case)
    ctx.outcome([(c[0], c[1], c[2]) for c in case])


# ------------------------------------------------------------- latest log file

FILES = ["step1.pkl", "step2.pkl", "step9.pkl", "step10.pkl", "step11.pkl",
         "step100.pkl", "step12.pkl.tmp", "step13.chkpt.pkl", "step.pkl",
         "stepx.pkl", "laststep77.pkl", "zeta.chkpt.pkl"]


@chk.section("latest-log", lambda tier: [
    list(c) for n in range(0, 4 if tier == "quick" else 7)
    for c in itertools.combinations(FILES, n)
], "all the sets of log, checkpoint and other files")
def _(ctx, case):
    with scratch() as d:
        for f in case:
            open(os.path.join(d, f), "wb").close()
        steps = [int(f[4:-4]) for f in case
                 if f.startswith("step") and f[4:-4].isdigit() and
                 f.endswith(".pkl")]
        got = workspace.get_latest_log_step(d)
        require(got == max(steps, default=0), "step",
                "{}: {}".format(case, got))
        got = workspace.get_latest_log_file(d)
        if steps:
            require(os.path.realpath(got) == os.path.realpath(os.path.join(
                d, "step{}.pkl".format(max(steps)))), "file", str(got))
        else:
            require(got is None, "file", str(got))
        require(goos_util.get_latest_log_step(d) == max(steps, default=0) and
                goos_util.get_latest_log_file(d) ==
                workspace.get_latest_log_file(d), "goos", str(case))
    ctx.run()
    ctx.step(2)
    ctx.state(case)
    ctx.outcome(max(steps, default=0))


# ------------------------------------------------------ monitor specifications

DESCS = [(t, s, v) for t, s, v in itertools.product(
    ("scalar", "planar", "volume"), (None, "real", "magnitude_squared"),
    (None, "magnitude", "x")) if t != "scalar" or v is None]


def spec_cases(tier):
    out = [[]]
    few = [0, 1, 4, 8]
    for n in (1, 2, 3):
        kinds = range(len(DESCS)) if n < 3 else few
        joins = "jk" if tier == "quick" or n < 3 else "jkl"
        if n == 2 and tier == "quick":
            kinds = list(kinds)[::2] + few[1:2]
        out += [[list(x) for x in c] for c in itertools.product(
            itertools.product(joins, kinds), repeat=n)]
    return out


def load_spec(f):
    """load_from_yml.

    The installed PyYAML refuses yaml.load without a loader, which is recorded
    as a finding (section "load-specification"); here the file is then read the
    way the function means to, so that what was saved is still judged.
    """
    try:
        return ms.load_from_yml(f)
    except TypeError as e:
        if "Loader" not in str(e):
            raise
    with open(f) as fp:
        return ms.MonitorDescriptionList(yaml.safe_load(fp))


@chk.section("load-specification", [[0]],
             "a saved monitor specification is loaded with load_from_yml")
def _(ctx, case):
    t, s, v = DESCS[case[0]]
    mon = optplan.SimpleMonitor(name="mon0", function=optplan.Constant(
        value=optplan.ComplexNumber(real=1.0)))
    with scratch() as d:
        f = os.path.join(d, "spec.yml")
        ms.save_to_yml(ms.convert_element_list([ms.MonitorDescription(
            monitor=mon, joiner_id="j", monitor_type=t, scalar_operation=s,
            vector_operation=v)]), f)
        try:
            back = ms.load_from_yml(f)
        except TypeError as e:
            require("Loader" not in str(e), "yaml-load-refused", str(e))
            raise
        require([list(m.monitor_names) for m in back.monitor_list] ==
                [["mon0"]], "round-trip", str(back.monitor_list))
    ctx.step()
    ctx.run()
    ctx.state(case)
    ctx.outcome(1)


@chk.section("specifications", spec_cases,
             "all lists of monitor descriptions, joined, saved and loaded")
def _(ctx, case):
    fun = optplan.Constant(value=optplan.ComplexNumber(real=1.0))
    descs = []
    groups = collections.OrderedDict()
    clash = False
    for i, (join, k) in enumerate(case):
        t, s, v = DESCS[k]
        mon = optplan.SimpleMonitor(name="mon{}".format(i), function=fun)
        descs.append(ms.MonitorDescription(
            monitor=mon, joiner_id=join, monitor_type=t, scalar_operation=s,
            vector_operation=v))
        if join in groups:
            clash = clash or groups[join][1] != (t, s, v)
            groups[join][0].append(mon.name)
        else:
            groups[join] = ([mon.name], (t, s, v))
    for kind in (None, "scalar", "planar", "volume"):
        got = [m.name for m in ms.get_monitor_objects(descs, kind)]
        want = ["mon{}".format(i) for i, (_, k) in enumerate(case)
                if kind is None or DESCS[k][0] == kind]
        require(got == want, "objects", "{} {}: {}".format(case, kind, got))
        ctx.step()
    try:
        joined = ms.convert_element_list(descs)
    except ValueError:
        require(clash, "rejected", str(case))
        ctx.run()
        ctx.state(case)
        ctx.outcome("rejected")
        return
    require(not clash, "accepted", str(case))

    def flat(lst):
        return [(m.joiner_id, list(m.monitor_names), m.monitor_type,
                 m.scalar_operation, m.vector_operation)
                for m in lst.monitor_list]

    want = [(j, g[0]) + g[1] for j, g in groups.items()]
    require(flat(joined) == want, "joined",
            "{}: {} want {}".format(case, flat(joined), want))
    with scratch() as d:
        f = os.path.join(d, "spec.yml")
        ms.save_to_yml(joined, f)
        back = load_spec(f)
        require(flat(back) == want, "round-trip",
                "{}: {} want {}".format(case, flat(back), want))
        ms.save_to_yml(back, f)
        require(flat(load_spec(f)) == want, "second-round-trip",
                str(case))
    by = lt.get_monitors_by_type(None, back)
    for kind, lst in zip(("scalar", "planar", "volume"),
                         (by.scalars, by.planars, by.volumes)):
        require(flat(lst) == [w for w in want if w[2] == kind], "by-type",
                str(case))
    for j in "jkl":
        got = ms.get_joined_monitor_description(back, j)
        if j in groups:
            require(list(got.monitor_names) == groups[j][0], "by-id", str(case))
        else:
            require(got is None, "by-id", str(case))
    for w in want:
        one = ms.JoinedMonitorDescription(monitor_name=w[1][0],
                                          monitor_type=w[2])
        require(one.joiner_id == w[1][0] and list(one.monitor_names) ==
                [w[1][0]], "single-name", str(case))
    ctx.step(6)
    ctx.run()
    ctx.state(case)
    ctx.outcome(want)


# ----------------------------------------------------------------- processing

VALS = [0.0, 1.0, -2.0, 1j, -1j, 3 - 4j, -1 + 1j]
OPS = [None, "", "real", "imag", "magnitude", "magnitude_squared", "phase"]


@chk.section("scalar-operations", [[op, list(c), up]
                                   for op in OPS for n in (0, 1, 2)
                                   for c in itertools.product(
                                       range(len(VALS)), repeat=n)
                                   for up in (0, 1)],
             "all operations on all lists of values and on single values")
def _(ctx, case):
    op, idx, up = case
    data = [VALS[i] for i in idx]
    name = op.upper() if up and op else op
    got = lt.process_scalar(list(data), name)
    require(vlib.close(list(got), [ref_scalar(op, v) for v in data]) and
            len(got) == len(data), "list", "{}: {}".format(case, got))
    for v in data:
        got = lt.process_scalar(v, name)
        require(vlib.close(got, ref_scalar(op, v)), "single",
                "{}: {}".format(v, got))
        ctx.step()
    ctx.run()
    ctx.step()
    ctx.state(case)
    ctx.outcome((op, [ref_scalar(op, v) for v in data]))


@chk.section("unknown-operations", [["power"], ["abs"], ["magnitudes"]],
             "names which are not operations")
def _(ctx, case):
    try:
        lt.process_scalar([1.0], case[0])
    except ValueError:
        ctx.run()
        ctx.outcome(case)
        return
    vlib.fail("accepted", str(case))


@chk.section("field-operations", [[v, s, list(t), a]
                                  for v in (None, "magnitude", "x", "y", "z",
                                            "X", "Magnitude")
                                  for s in OPS
                                  for t in itertools.product(range(3), repeat=3)
                                  for a in (0, 1)],
             "all vector and scalar operations on small fields")
def _(ctx, case):
    vop, sop, t, arr = case
    pick = [1.0, 3 - 4j, -2j]
    field = [np.array([[pick[i], 0.5 * pick[(i + 1) % 3]]]) for i in t]
    got = lt.process_field(np.array(field) if arr else field, vop, sop)
    key = (vop or "magnitude").lower()
    want = np.zeros((1, 2), complex)
    for j in range(2):
        comps = [f[0, j] for f in field]
        if key == "magnitude":
            v = np.sqrt(sum(abs(c)**2 for c in comps))
        else:
            v = comps["xyz".index(key)]
        want[0, j] = ref_scalar(sop, v)
    require(np.shape(got) == (1, 2) and vlib.close(got, want), "field",
            "{}: {} want {}".format(case, got, want))
    ctx.run()
    ctx.step()
    ctx.state(case)
    ctx.outcome((key, sop, np.round(want, 6).tolist()))


# -------------------------------------------------------------- field monitors


def monitor_cases(tier):
    out = []
    shapes = [s for s in itertools.product((1, 2, 3), repeat=3)]
    for shape in shapes if tier == "thorough" else shapes[::2]:
        out += [[list(shape), ax, sign] for ax in range(3) for sign in (1, -1)]
    return out


@chk.section("field-monitors", monitor_cases,
             "field monitors of small spaces: all the cells x normals")
def _(ctx, case):
    shape, ax, sign = case
    # Cells of different sizes.
    edges = [np.cumsum([-3.0] + [4.0 + 2 * i + a for i in range(n)])
             for a, n in enumerate(shape)]
    space = types.SimpleNamespace(edge_coords=edges, dims=list(shape))
    rng = np.random.RandomState(5)
    vec = rng.rand(3 * int(np.prod(shape))) + 1j * rng.rand(
        3 * int(np.prod(shape)))
    # The field vectors are in Fortran order, one component after another.
    comps = [c.reshape(shape, order="F") for c in np.split(vec, 3)]
    normal = [0, 0, 0]
    normal[ax] = sign
    got = creator_monitor.FieldMonitor(Probe(), space).eval([vec])
    require(all(np.array_equal(a, b) for a, b in zip(got, comps)), "full",
            str(case))
    for cell in itertools.product(*[range(n) for n in shape]):
        for frac in (0.25, 0.75):
            pt = [float(edges[a][c] + frac * (edges[a][c + 1] - edges[a][c]))
                  for a, c in enumerate(cell)]
            mon = creator_monitor.FieldMonitor(Probe(), space, slice_point=pt,
                                               slice_normal=normal)
            got = mon.eval([vec])
            want = [np.take(c, [cell[ax]], axis=ax) for c in comps]
            require(len(got) == 3 and all(
                np.array_equal(np.squeeze(a), np.squeeze(b))
                for a, b in zip(got, want)), "plane",
                    lambda: "{} at {}".format(case, pt))
            ctx.step()
    ctx.run()
    ctx.state(case)
    ctx.outcome((tuple(shape), ax))


# --------------------------------------------------------------------- slices


@chk.section("slices", [list(s) for s in itertools.product((1, 2, 3, 4),
                                                           repeat=3)],
             "all array shapes x all indices, center and none per axis")
def _(ctx, case):
    arr = np.arange(np.prod(case)).reshape(case)
    for sel in itertools.product(*[[None, "center"] + list(range(n))
                                   for n in case]):
        got = arr[goos_util.make_slice(x=sel[0], y=sel[1], z=sel[2],
                                       shape=arr.shape)]
        want = arr
        for a, s in enumerate(sel):
            if s is not None:
                i = case[a] // 2 if s == "center" else s
                want = np.take(want, [i], axis=a)
        require(np.array_equal(np.squeeze(got), np.squeeze(want)), "slice",
                "{} {}: {} want {}".format(case, sel, got, want))
        ctx.step()
    ctx.run()
    ctx.state(case)
    ctx.outcome(case)


@chk.section("pictures", [[list(s), a, i]
                          for s in ((1, 3, 4), (2, 3, 4), (4, 2, 3))
                          for a in range(3)
                          for i in ("center", 0, s[a] - 1)],
             "slices drawn of fields and permittivities", timeout=120)
def _(ctx, case):
    shape, ax, idx = case
    rng = np.random.RandomState(3)
    fields = rng.rand(3, *shape) + 1j * rng.rand(3, *shape)
    i = shape[ax] // 2 if idx == "center" else idx
    kw = {"xyz"[ax]: idx}
    plane = [np.take(f, i, axis=ax) for f in fields]
    if min(plane[0].shape) == 1:
        ctx.run()
        return  # Not a picture.
    plt.close("all")
    goos_util.visualize_fields(fields, **kw)
    got = [a.images[0].get_array() for a in plt.gcf().axes if a.images and
           a.get_title()]
    want = [np.real(p) for p in plane] + [np.imag(p) for p in plane]
    titles = [a.get_title() for a in plt.gcf().axes
              if a.images and a.get_title()]
    pics = dict(zip(titles, got))
    for c, n in enumerate("xyz"):
        for part, fn in (("Re", np.real), ("Im", np.imag)):
            g = pics["{}[E{}]".format(part, n)]
            require(np.allclose(g, fn(plane[c])), "fields",
                    "{} {} {}".format(case, part, n))
    plt.close("all")
    goos_util.visualize_eps(fields[0], **kw)
    got = [a.images[0].get_array() for a in plt.gcf().axes
           if a.images and a.get_title()]
    require(len(got) == 1 and np.allclose(got[0], np.real(plane[0])), "eps",
            str(case))
    plt.close("all")
    ctx.run()
    ctx.step(2)
    ctx.state(case)
    ctx.outcome(case)


# ---------------------------------------------------------------------- plots

PLOT_HIST = [h for n in (2, 3) for h in histories(
    n, [("m", 0), ("mn", 1), ("n", 0)])]


@chk.section("plots", lambda tier: [
    [h, m, s] for m in range(4)
    for h in PLOT_HIST[m::131 if tier == "quick" else 23] for s in (0, 1)
], "histories x the specification plotted, on one or on several plots",
             timeout=120)
def _(ctx, case):
    hist, which, same_plt = case
    entries = entries_of(hist)
    df = lt.create_log_data_frame(entries[::-1])
    ops = [None, "imag", "magnitude", "magnitude_squared"]
    specs = [[("j", ["m"])], [("j", ["m", "n"])], [("j", ["n"]), ("k", ["m"])],
             [("j", ["m"]), ("k", ["n", "m"]), ("l", ["x"])]][which]
    desc = ms.MonitorDescriptionList(monitor_list=[
        ms.JoinedMonitorDescription(joiner_id=j, monitor_names=names,
                                    monitor_type="scalar",
                                    scalar_operation=ops[which])
        for j, names in specs
    ])
    plt.close("all")
    plotter.plot_scalar_monitors(desc, df, same_plt=bool(same_plt), show=False)
    axes = [a for n in plt.get_fignums() for a in plt.figure(n).axes]
    require(len(axes) == (1 if same_plt else len(specs)), "axes", str(case))
    for k, (j, names) in enumerate(specs):
        ref = ref_data(entries, names, "optimizing")
        xs, ys = [], []
        for t in ref:
            off = xs[-1] if xs else 0
            xs += [i + off for i in ref[t][1]]
            ys += [ref_scalar(ops[which] or "real", v) for v in ref[t][0]]
        ax = axes[0] if same_plt else axes[k]
        line = [l for l in ax.lines if l.get_label() == j]
        require(len(line) == 1 and vlib.close(line[0].get_xdata(), xs) and
                vlib.close(line[0].get_ydata(), ys), "line",
                lambda: "{} {}: {} want {} {}".format(
                    case, j, [l.get_xydata() for l in line], xs, ys))
        if not same_plt:
            require(len(ax.lines) == 1 + max(0, len(ref) - 1), "changes",
                    str(case))
        ctx.step()
    plt.close("all")
    # The summary on the command line.
    out = io.StringIO()
    have = [s for s in specs if any(
        n in e["monitor_data"] for n in s[1] for e in entries)]
    with contextlib.redirect_stdout(out):
        lt.display_summary(df, ms.MonitorDescriptionList(monitor_list=[
            m for m in desc.monitor_list
            if m.joiner_id in [h[0] for h in have]
        ] if ops[which] else []))
    if ops[which]:
        want = "".join("{}: {:1.4E}\n".format(
            j, ref_scalar(ops[which], ref_single(entries, names, None, None,
                                                 None)))
                       for j, names in have)
        require(out.getvalue() == want, "summary",
                "{}: {!r} want {!r}".format(case, out.getvalue(), want))
    ctx.run()
    ctx.state(case)
    ctx.outcome((which, same_plt, len(entries)))


@chk.section("field-plots", [[t, v, s] for t in range(3)
                             for v in ("magnitude", "x", "y", "z")
                             for s in (None, "real", "magnitude_squared")],
             "the last field logged x operations", timeout=120)
def _(ctx, case):
    t, vop, sop = case
    rng = np.random.RandomState(11)
    fields = [[rng.rand(3, 1, 2) + 0.5 for _ in range(3)] for _ in range(3)]
    entries = entries_of([[0, 1, "", 0], [0, 2, "", 0], [1, 1, "", 0]])
    for i, f in enumerate(fields):
        if i <= t:
            entries[i]["monitor_data"]["f"] = f
    df = lt.create_log_data_frame(entries[::-1])
    desc = ms.MonitorDescriptionList(monitor_list=[
        ms.JoinedMonitorDescription(joiner_id="field", monitor_names=["f"],
                                    monitor_type="planar",
                                    vector_operation=vop, scalar_operation=sop)
    ])
    plt.close("all")
    plotter.plot_field_data(desc, df, show=False)
    ims = [a.images[0].get_array() for n in plt.get_fignums()
           for a in plt.figure(n).axes if a.get_title() == "field" and a.images]
    f = [c[:, 0, :] for c in fields[t]]
    want = np.sqrt(sum(np.abs(c)**2 for c in f)) if vop == "magnitude" else (
        f["xyz".index(vop)])
    want = want**2 if sop == "magnitude_squared" else want
    require(len(ims) == 1 and np.allclose(ims[0], want.T), "image",
            "{}: {} want {}".format(case, ims, want.T))
    # An overlap monitor.
    for i, e in enumerate(entries):
        e["monitor_data"] = {"eta_Overlap.1": complex(1, i), "m": 1.0}
    df = lt.create_log_data_frame(entries)
    require(lt.get_overlap_monitor_names(df) == ["eta_Overlap.1"], "overlaps",
            str(lt.get_overlap_monitor_names(df)))
    plt.close("all")
    plotter.plot_overlaps(df, show=False)
    ax = plt.gcf().axes[0]
    line = [l for l in ax.lines if l.get_label() == "eta_Overlap.1"]
    require(len(line) == 1 and vlib.close(line[0].get_ydata(), [1.0, 5.0]) and
            vlib.close(line[0].get_xdata(), [1, 2]), "overlap-plot",
            str([l.get_xydata() for l in ax.lines]))
    plt.close("all")
    ctx.run()
    ctx.step(2)
    ctx.state(case)
    ctx.outcome(case)


if __name__ == "__main__":
    chk.main()
