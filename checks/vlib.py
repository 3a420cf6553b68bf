"""Explorer core shared by all the checks.

A check is a set of *sections*.  A section names a finite, completely
enumerated list of cases (an input, an operation sequence, a schedule, a crash
point, ...) and a function which executes the real code from /repo on one case
and compares what it observes with a reference model.  The core enumerates all
cases of all the sections (sharded over the cores, in a fixed order that does
not depend on the seed), counts what it covered, writes the evidence file, and
turns every disagreement into a replayable artefact.

    python checks/p01.py                 # tier from VERIF_TIER (default quick)
    python checks/p01.py --tier thorough
    python checks/p01.py --replay F      # re-run the one case recorded in F

Exit status: 0 held on everything explored, 1 + VIOLATION line otherwise.
"""
import argparse
import collections
import concurrent.futures
import contextlib
import hashlib
import json
import logging
import multiprocessing
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings

for _k, _v in (("PYTHONDONTWRITEBYTECODE", "1"), ("MPLBACKEND", "agg"),
               ("OPENBLAS_NUM_THREADS", "1"), ("OMP_NUM_THREADS", "1"),
               ("MKL_NUM_THREADS", "1")):
    os.environ.setdefault(_k, _v)
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE_DIR = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.json")

sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


class Violation(Exception):
    """The real code disagreed with the reference on the current case."""

    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind
        self.msg = msg


def fail(kind, msg):
    raise Violation(kind, msg)


def require(cond, kind, msg=""):
    if not cond:
        raise Violation(kind, msg() if callable(msg) else msg)


class CaseTimeout(Exception):
    pass


class Ctx:
    """Per-run counters, also the handle a section uses to report coverage."""

    def __init__(self, tier):
        self.tier = tier
        self.transitions = 0
        self.executions = 0
        self.outcomes = set()
        self.states = set()

    def step(self, n=1):
        """One transition (an operation executed on the real code)."""
        self.transitions += n

    def run(self, n=1):
        """One complete execution of the implementation."""
        self.executions += n

    def state(self, key):
        """A distinct state reached."""
        self.states.add(hashlib.md5(repr(key).encode()).digest()[:10])

    def outcome(self, key):
        """A distinct outcome observed (to show the runs are not vacuous)."""
        self.outcomes.add(hashlib.md5(repr(key).encode()).digest()[:8])


class Section:

    def __init__(self, name, cases, fn, rule, timeout):
        self.name = name
        self.cases = cases
        self.fn = fn
        self.rule = rule
        self.timeout = timeout


_STATE = {}

SETUP = "building the cases"


def _uncaught(etype, exc, tb):
    """The code under test failed while the check was being set up."""
    traceback.print_exception(etype, exc, tb)
    pid = os.path.basename(sys.argv[0])[:-3].upper()
    text = "".join(traceback.format_exception(etype, exc, tb))
    if not (issubclass(etype, Exception) and pid.startswith("P") and
            (os.path.join(REPO, "spins") in text or "spins" in str(exc))):
        return
    os.makedirs(EVIDENCE_DIR, exist_ok=True)
    path = os.path.join(EVIDENCE_DIR, "replay-{}-setup.json".format(pid))
    with open(path, "w") as fp:
        json.dump(dict(property=pid, section="setup", message=text,
                       how="/opt/venv/bin/python " +
                       os.path.abspath(sys.argv[0])), fp, indent=1)
    print("VIOLATION property={} replay={}".format(pid, path))
    sys.stdout.flush()


if multiprocessing.current_process().name == "MainProcess":
    sys.excepthook = _uncaught


def _alarm(signum, frame):
    raise CaseTimeout()


def _run_case(section, case, ctx):
    """Runs one case; returns None or a (kind, message) violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(section.timeout)
    try:
        section.fn(ctx, case)
        return None
    except Violation as v:
        return (v.kind, v.msg)
    except CaseTimeout:
        return ("no-termination",
                "no result within {} s".format(section.timeout))
    except Exception as e:  # The code under test must not raise here.
        tb = traceback.format_exc(limit=-6)
        return ("exception-" + type(e).__name__, tb)
    finally:
        signal.alarm(0)


def _worker(span):
    si, lo, hi = span
    section = _STATE["sections"][si]
    cases = _STATE["cases"][si]
    ctx = Ctx(_STATE["tier"])
    bad = []
    done = 0
    slowest = 0.0
    for i in range(lo, hi):
        if _STATE["hung"].value >= 2 or (_STATE["fresh"].value and
                                         time.time() > _STATE["deadline"]):
            # Violations were found already and the rest would take too long.
            break
        start = time.time()
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
            res = _run_case(section, cases[i], ctx)
        done += 1
        slowest = max(slowest, time.time() - start)
        if res is not None:
            bad.append((si, i, res[0], res[1]))
            if _find_known(_STATE["known"], section, cases[i], res[0]) is None:
                _STATE["fresh"].value = 1
                if res[0] == "no-termination":
                    _STATE["hung"].value += 1
            if len(bad) >= 20:
                break
    return (si, done, ctx.transitions, ctx.executions, ctx.states,
            ctx.outcomes, bad, slowest)


def _find_known(known, section, case, kind):
    for k in known:
        if (k["section"] == section.name and k["kind"] == kind and
                case in k["cases"]):
            return k
    return None


class Check:

    def __init__(self, pid, level, assumptions=(), exhaustive=True, serial=False):
        self.pid = pid
        self.level = level
        self.assumptions = list(assumptions)
        self.exhaustive = exhaustive
        self.sections = []
        self.serial = serial

    def section(self, name, cases, rule="", timeout=150):
        """Decorator: registers `fn(ctx, case)` for every case in `cases`.

        `cases` is a list of JSON-able values or a function tier -> list.
        """

        def deco(fn):
            self.sections.append(Section(name, cases, fn, rule, timeout))
            return fn

        return deco

    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier",
                        default=os.environ.get("VERIF_TIER", "quick"),
                        choices=["quick", "thorough"])
        ap.add_argument("--replay")
        ap.add_argument("--only", help="run a single section")
        ap.add_argument("--jobs", type=int, default=0)
        ap.add_argument("--verbose", action="store_true")
        args = ap.parse_args()
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
        t0 = time.time()

        if args.replay:
            with open(args.replay) as fp:
                rec = json.load(fp)
            section = [s for s in self.sections if s.name == rec["section"]][0]
            if rec["case"] == SETUP:
                try:
                    section.cases(rec.get("tier", "quick"))
                    res = None
                except Exception as e:
                    res = ("exception-" + type(e).__name__,
                           traceback.format_exc(limit=-6))
            else:
                res = _run_case(section, rec["case"],
                                Ctx(rec.get("tier", "quick")))
            if res:
                print(res[0] + ": " + res[1])
                print("VIOLATION property={} replay={}".format(
                    self.pid, args.replay))
                sys.exit(1)
            print("replay: the case holds")
            sys.exit(0)

        sections = [
            s for s in self.sections if args.only in (None, s.name)
        ]
        cases = []
        broken = []
        for s in sections:
            try:
                cs = s.cases(args.tier) if callable(s.cases) else s.cases
                # Cases are plain JSON data: a recorded one replays exactly.
                cases.append(json.loads(json.dumps(list(cs))))
            except Exception as e:
                # Some cases are built with the code under test.
                cases.append([SETUP])
                broken.append((len(cases) - 1, 0,
                               "exception-" + type(e).__name__,
                               traceback.format_exc(limit=-6)))
        known = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as fp:
                known = [
                    k for k in json.load(fp).get("known", [])
                    if k["property"] == self.pid
                ]
        _STATE.update(sections=sections, cases=cases, tier=args.tier,
                      known=known, hung=multiprocessing.Value("i", 0),
                      fresh=multiprocessing.Value("i", 0),
                      deadline=t0 + (0 if os.environ.get("VERIF_FAILFAST") else
                                     600 if args.tier == "quick" else 7200))

        jobs = args.jobs or min(8, os.cpu_count() or 1)
        spans = []
        for si, cs in enumerate(cases):
            n = 0 if cs == [SETUP] else len(cs)
            chunk = max(1, min(200, -(-n // (jobs * 6))))
            for lo in range(0, n, chunk):
                spans.append((si, lo, min(n, lo + chunk)))

        per = {
            s.name: dict(cases=0, transitions=0, executions=0, states=set(),
                         outcomes=set(), rule=s.rule, slowest=0.0)
            for s in sections
        }
        bad = list(broken)

        def absorb(res):
            si, n, tr, ex, st, out, b, slowest = res
            p = per[sections[si].name]
            p["cases"] += n
            p["slowest"] = max(p["slowest"], slowest)
            p["transitions"] += tr
            p["executions"] += ex
            p["states"] |= st
            p["outcomes"] |= out
            bad.extend(b)

        if jobs == 1 or self.serial:
            for sp in spans:
                absorb(_worker(sp))
        else:
            pending = list(spans)
            try:
                with concurrent.futures.ProcessPoolExecutor(
                        max_workers=jobs,
                        mp_context=multiprocessing.get_context("fork")) as ex:
                    futs = {ex.submit(_worker, sp): sp for sp in spans}
                    for f in concurrent.futures.as_completed(futs):
                        absorb(f.result())
                        pending.remove(futs[f])
            except concurrent.futures.process.BrokenProcessPool:
                # A worker died.  Redo what is left one process per chunk so
                # that the death can be attributed to a case.
                for sp in pending:
                    with concurrent.futures.ProcessPoolExecutor(
                            max_workers=1,
                            mp_context=multiprocessing.get_context(
                                "fork")) as ex:
                        try:
                            absorb(ex.submit(_worker, sp).result())
                        except concurrent.futures.process.BrokenProcessPool:
                            bad.append((sp[0], sp[1], "process-died",
                                        "a process executing cases {}..{} died"
                                        .format(sp[1], sp[2])))
        bad.sort(key=lambda b: (b[0], b[1]))
        self._finish(args, seed, t0, sections, cases, per, bad, known)

    def _finish(self, args, seed, t0, sections, cases, per, bad, known):
        os.makedirs(EVIDENCE_DIR, exist_ok=True)
        known_hit = collections.OrderedDict()
        fresh = []
        for si, i, kind, msg in bad:
            case = cases[si][i]
            hit = _find_known(known, sections[si], case, kind)
            if hit is not None:
                known_hit[hit["id"]] = hit
            else:
                fresh.append((si, i, kind, msg))
        # One report per (section, kind): the first, i.e. simplest, case.
        shown = collections.OrderedDict()
        for b in fresh:
            shown.setdefault((b[0], b[2]), b)
        replays = []
        for n, (si, i, kind, msg) in enumerate(shown.values()):
            if n >= 20:
                break
            path = os.path.join(EVIDENCE_DIR,
                                "replay-{}-{}.json".format(self.pid, n))
            with open(path, "w") as fp:
                json.dump(
                    dict(property=self.pid, section=sections[si].name,
                         case=cases[si][i], tier=args.tier, kind=kind,
                         message=msg,
                         how="/opt/venv/bin/python {} --replay {}".format(
                             os.path.abspath(sys.argv[0]), path)), fp,
                    indent=1)
            replays.append(path)
            print("[{}] section={} case={} {}: {}".format(
                self.pid, sections[si].name, json.dumps(cases[si][i])[:300],
                kind, msg[-1500:]))
        n_cases = sum(p["cases"] for p in per.values())
        n_states = sum(len(p["states"]) for p in per.values())
        n_out = sum(len(p["outcomes"]) for p in per.values())
        n_tr = sum(p["transitions"] for p in per.values())
        n_ex = sum(p["executions"] for p in per.values())
        samples = []
        for s, cs in zip(sections, cases):
            if cs:
                samples.append(dict(section=s.name, first=cs[0],
                                    middle=cs[len(cs) // 2], last=cs[-1]))
        detail = {
            name: dict(cases=p["cases"], transitions=p["transitions"],
                       executions=p["executions"],
                       distinct_states=len(p["states"]),
                       distinct_outcomes=len(p["outcomes"]),
                       slowest_case_s=round(p["slowest"], 2), space=p["rule"])
            for name, p in per.items()
        }
        cov = dict(sections=detail, samples=samples,
                   exhaustive=bool(self.exhaustive and not args.only))
        if self.level == "model_checking":
            cov.update(states=n_states, transitions=n_tr,
                       traces_validated_against_impl=n_ex or n_cases,
                       distinct_outcomes=n_out)
        else:
            cov.update(
                evaluations=max(n_ex, n_cases), distinct_nontrivial=n_out,
                transitions=n_tr, states=n_states,
                rule="Every case of every section is executed on the code in "
                "/repo (spaces: see sections). A case is counted as distinct "
                "and non-trivial by the observation it produced: equal "
                "observations within a section count once.")
        ev = dict(property=self.pid, tier=args.tier, seed=seed,
                  level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - t0, 2),
                  violations=len(fresh))
        tmp = os.path.join(EVIDENCE_DIR, "." + self.pid + ".tmp")
        with open(tmp, "w") as fp:
            json.dump(ev, fp, indent=1)
        os.replace(tmp, os.path.join(EVIDENCE_DIR, self.pid + ".json"))
        for name, p in detail.items():
            print("[{}] {}: cases={} executions={} transitions={} states={} "
                  "outcomes={}".format(self.pid, name, p["cases"],
                                       p["executions"], p["transitions"],
                                       p["distinct_states"],
                                       p["distinct_outcomes"]))
        print("[{}] tier={} cases={} wall={:.1f}s violations={}".format(
            self.pid, args.tier, n_cases, time.time() - t0, len(fresh)))
        for k in known_hit.values():
            print("KNOWN-FINDING: property={} {}".format(self.pid, k["what"]))
        if fresh:
            for path in replays:
                print("VIOLATION property={} replay={}".format(self.pid, path))
            sys.stdout.flush()
            sys.exit(1)
        sys.stdout.flush()
        sys.exit(0)


# --------------------------------------------------------------------------
# Helpers


def close(a, b, rtol=1e-9, atol=1e-9):
    """Equality of numeric values including shape; NaN never equals."""
    import numpy as np
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def import_spins():
    """Imports spins and makes sure it is the tree under test."""
    import spins
    got = os.path.realpath(os.path.dirname(spins.__file__))
    want = os.path.realpath(os.path.join(REPO, "spins"))
    if got != want:
        raise RuntimeError("spins imported from {}, not {}".format(got, want))
    return spins


class OrderedExecutor:
    """Stand-in for concurrent.futures executors under a controlled schedule.

    Every task of a batch runs to completion in the order given by the
    schedule (`choose(n)` returns which of the n remaining tasks runs next),
    either all when the batch is submitted or when results are demanded.
    """
    choose = staticmethod(lambda n: 0)
    log = None

    def __init__(self, max_workers=None, *args, **kwargs):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._queue = []

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self._drain()
        return False

    def shutdown(self, wait=True, **kwargs):
        self._drain()

    def submit(self, fn, *args, **kwargs):
        fut = _OrderedFuture(self)
        self._queue.append((fut, fn, args, kwargs))
        return fut

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        futs = [self.submit(fn, *a) for a in zip(*iterables)]

        def results():
            for f in futs:
                yield f.result()

        return results()

    def _drain(self):
        while self._queue:
            k = type(self).choose(len(self._queue))
            fut, fn, args, kwargs = self._queue.pop(k)
            if fut.set_running_or_notify_cancel():
                try:
                    fut.set_result(fn(*args, **kwargs))
                except BaseException as e:  # pylint: disable=broad-except
                    fut.set_exception(e)


class _OrderedFuture(concurrent.futures.Future):

    def __init__(self, ex):
        super().__init__()
        self._ex = ex

    def result(self, timeout=None):
        self._ex._drain()
        return super().result(timeout)

    def exception(self, timeout=None):
        self._ex._drain()
        return super().exception(timeout)


@contextlib.contextmanager
def controlled_executor(choices):
    """Replaces thread/process pools by the controlled one.

    `choices` is the schedule (list of ints; 0 once exhausted) or "last" (always
    the last of the remaining tasks). Yields a list
    which receives, for every scheduling point, the number of alternatives.
    """
    points = []
    pos = [0]

    def choose(n):
        points.append(n)
        i = pos[0]
        pos[0] += 1
        if choices == "last":
            return n - 1
        # Batches may differ between runs where the order of independent nodes
        # depends on their addresses: any choice is a valid schedule.
        return choices[i] % n if i < len(choices) else 0

    class Ex(OrderedExecutor):
        pass

    Ex.choose = staticmethod(choose)
    saved = (concurrent.futures.ThreadPoolExecutor,
             concurrent.futures.ProcessPoolExecutor)
    concurrent.futures.ThreadPoolExecutor = Ex
    concurrent.futures.ProcessPoolExecutor = Ex
    try:
        yield points
    finally:
        (concurrent.futures.ThreadPoolExecutor,
         concurrent.futures.ProcessPoolExecutor) = saved


def all_schedules(run, limit=10**6):
    """Stateless exploration: calls run(choices) for every schedule.

    `run(choices)` returns the list of branching degrees met. Depth first,
    every alternative at every point.  Returns the number of executions.
    """
    n = 0
    stack = [[]]
    while stack:
        prefix = stack.pop()
        points = run(prefix)
        n += 1
        if n > limit:
            raise RuntimeError("schedule limit exceeded")
        for i in range(len(points) - 1, len(prefix) - 1, -1):
            for alt in range(points[i] - 1, 0, -1):
                stack.append(prefix + [0] * (i - len(prefix)) + [alt])
    return n


@contextlib.contextmanager
def scratch():
    """A scratch directory outside /repo and /verif, removed afterwards."""
    import shutil
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    d = tempfile.mkdtemp(prefix="vchk", dir=base)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
