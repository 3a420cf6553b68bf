"""Stateless model checker for Python threads at source-line granularity.

`explore(scenario, files, bound)` runs `scenario()` — which returns a list of
functions, one per thread, and a final check — under every schedule with at
most `bound` preemptions.  A scheduling point is every source line executed in
one of `files` and every operation on a `CoopLock`.  Exactly one thread runs
at a time, so a run is determined by the list of scheduling choices; the
schedules are enumerated by depth-first search over those lists (CHESS-style
iterative context bounding).
"""
import sys
import threading

_REAL_LOCK = threading.Lock


class Deadlock(Exception):
    pass


class Abort(BaseException):
    pass


class Sched:
    current = None

    def __init__(self, fns, files, choices, bound):
        self.files = tuple(files)
        self.choices = list(choices)
        self.bound = bound
        self.trace = []  # (chosen, number of options) per decision
        self.steps = 0
        self.n = len(fns)
        self.fns = fns
        self.go = [threading.Semaphore(0) for _ in fns]
        self.back = threading.Semaphore(0)
        self.done = [False] * self.n
        self.cond = [None] * self.n  # blocked until cond() is true
        self.result = [None] * self.n
        self.error = [None] * self.n
        self.ident = {}
        self.abort = False

    # Called by the threads.
    def point(self, cond=None):
        me = self.ident.get(threading.get_ident())
        if me is None:
            return
        self.cond[me] = cond
        self.back.release()
        self.go[me].acquire()
        if self.abort:
            raise Abort()

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith(self.files):
            return None
        if event == "line":
            self.point()
        return self._trace

    def _main(self, i):
        self.ident[threading.get_ident()] = i
        self.go[i].acquire()
        try:
            if not self.abort:
                sys.settrace(self._trace)
                self.result[i] = self.fns[i]()
        except Abort:
            pass
        except Exception as e:
            self.error[i] = e
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.back.release()

    def run(self):
        threads = [
            threading.Thread(target=self._main, args=(i,), daemon=True)
            for i in range(self.n)
        ]
        for t in threads:
            t.start()
        Sched.current = self
        last = None
        used = 0
        try:
            while not all(self.done):
                enabled = [
                    i for i in range(self.n) if not self.done[i] and
                    (self.cond[i] is None or self.cond[i]())
                ]
                if not enabled:
                    raise Deadlock()
                if last in enabled:
                    options = [last]
                    if used < self.bound:
                        options += [i for i in enabled if i != last]
                else:
                    options = enabled
                k = 0
                if len(options) > 1:
                    pos = len(self.trace)
                    k = self.choices[pos] if pos < len(self.choices) else 0
                    self.trace.append((k, len(options)))
                pick = options[k]
                if last in enabled and pick != last:
                    used += 1
                last = pick
                self.cond[pick] = None
                self.steps += 1
                self.go[pick].release()
                self.back.acquire()
        finally:
            self.abort = True
            for i in range(self.n):
                while not self.done[i]:
                    self.go[i].release()
                    self.back.acquire()
            Sched.current = None
            for t in threads:
                t.join()


class CoopLock:
    """Lock (re-entrant if asked) that blocks in the controlled scheduler."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.depth = 0
        self.reentrant = reentrant

    def _free(self):
        return self.owner is None

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.current
        me = threading.get_ident()
        if s is not None:
            s.point()
        if self.owner == me and self.reentrant:
            self.depth += 1
            return True
        if not self._free():
            if not blocking:
                return False
            if s is None:
                raise Deadlock()
            while not self._free():
                s.point(self._free)
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None
            self.depth = 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


class patched_locks:
    """Locks created in this context are CoopLocks."""

    def __enter__(self):
        self.old = (threading.Lock, threading.RLock)
        threading.Lock = CoopLock
        threading.RLock = lambda: CoopLock(True)

    def __exit__(self, *exc):
        threading.Lock, threading.RLock = self.old


def explore(scenario, files, bound, limit=200000):
    """Yields the finished `Sched` and check function of every schedule."""
    choices = []
    count = 0
    while True:
        fns, check = scenario()
        s = Sched(fns, files, choices, bound)
        dead = False
        try:
            s.run()
        except Deadlock:
            dead = True
        count += 1
        yield s, dead, check
        if count >= limit:
            raise RuntimeError("more than {} schedules".format(limit))
        tr = s.trace
        while tr and tr[-1][0] + 1 >= tr[-1][1]:
            tr.pop()
        if not tr:
            return
        choices = [k for k, _ in tr[:-1]] + [tr[-1][0] + 1]
