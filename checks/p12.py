"""P12: field solves, their caches, adjoint solves and gradients.

Histories: every sequence of simulate / adjoint / gradient requests over three
structures and two sources, interleaved with in-place modifications of the
arrays passed in and received, runs on the three real simulation classes; a
stand-in solver returns a value which identifies the request, so a remembered
answer for another request is recognised.  Interleavings: threads sharing a
simulation run under every schedule (at source-line granularity, up to the
preemption bound).  Solves and gradients: for every grid, material, boundary
and solver choice of the enumerated space the solution is put into the discrete
wave equation, and the gradient for every unit output gradient is compared
with the exact derivative of the solution.
"""
import itertools

import numpy as np
import scipy.sparse

import coop
import vlib
from vlib import fail, require

vlib.import_spins()
from spins import fdfd_tools
from spins import goos
from spins.fdfd_solvers import local_matrix_solvers as lms
from spins.fdfd_tools import operators, vec, unvec
from spins.fdfd_tools import grid as fgrid
with coop.patched_locks():
    # So that a lock made by a class body or bound by `from threading import
    # Lock` is controlled as well.
    from spins.invdes.problem import simulation as legacy
from spins.goos_sim import maxwell
from spins.invdes.problem import emobjective
from spins.invdes.problem_graph import creator_em
from spins.invdes import parametrization as invparam

chk = vlib.Check(
    "P12", "model_checking",
    assumptions=[
        "a complex gradient is the Wirtinger derivative of a real figure of "
        "merit",
        "PML and a Bloch phase along the same axis are not combined (the "
        "library rules it out)",
        "mode and dipole sources of goos are computed once, from the first "
        "structure, by design; the checks use a source that does not depend "
        "on the structure",
    ])

rel = 1e-8


def same(a, b, kind, msg="", rtol=rel, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, kind, lambda: "{}: shape {} vs {}".format(
        msg, a.shape, b.shape))
    s = max(np.max(np.abs(b), initial=0), 1e-12) if scale is None else scale
    require(bool(np.all(np.abs(a - b) <= rtol * s)), kind,
            lambda: "{}: {} instead of {}".format(msg, a, b))


# ---------------------------------------------------------------------------
# Histories on the caches.

SHAPE = [2, 1, 1]
N = 6
NEAR = False


def token(omega, eps, J, adjoint):
    """What the stand-in solver answers: a vector identifying the request."""
    e = np.asarray(eps, dtype=complex)
    j = np.asarray(J, dtype=complex)
    k = np.arange(1, N + 1)
    if NEAR:
        # The difference to the first structure and source counts a lot.
        e = e + 1e8 * (e - e.astype(complex).real.round())
        j = j + 1e8 * (j - (j * 16).round() / 16)
    return ((np.sum(e * k) * (1 + 0.25j) + np.sum(j * np.sqrt(k)) *
             (3 - 1j) + (17 if adjoint else 0)) * k + e - 2 * j) / (1 + k * 1j)


class StubSolver:

    def __init__(self):
        self.calls = 0

    def solve(self, omega, dxes, J, epsilon, adjoint=False, **kwargs):
        self.calls += 1
        require(abs(omega - OMEGA) < 1e-12, "omega", str(omega))
        return token(omega, epsilon, J, adjoint)


OMEGA = 2 * np.pi / 5.0
DXES = [[np.ones(n) for n in SHAPE] for _ in range(2)]
STRUCTS = [np.array([1.0, 2, 3, 4, 5, 6]), np.array([1.0, 2, 3, 4, 5, 7]),
           np.array([2.0, 1, 3, 4, 5, 6])]
SRCS = [np.array([1, 0, 0, 2j, 0, 0]), np.array([1, 0, 0, 2j, 0, 0.5])]

# Operations: request i (structure i for simulate, structure/source pair for
# adjoint and gradient), m = modify the last structure array in place, o =
# modify the last answer in place, s = modify the last source array in place.
FWD_OPS = ["f0", "f1", "f2", "m", "o"]
ADJ_OPS = ["a00", "a01", "a10", "m", "o", "s"]
BOTH_OPS = ["f0", "f1", "g00", "g01", "g10", "m", "o", "s"]


def histories(ops, depth):
    for d in range(1, depth + 1):
        for h in itertools.product(ops, repeat=d):
            if h[0] in "mos" or h[-1] in "mos":
                continue
            # Modifying the same array twice adds nothing.
            if any(a == b and a in "mos" for a, b in zip(h, h[1:])):
                continue
            yield list(h)


class Client:
    """Plays a history; the arrays of one structure are one array object."""

    def __init__(self, complex_eps=False):
        dt = complex if complex_eps else float
        self.eps = [np.array(s, dtype=dt) for s in STRUCTS]
        if complex_eps:
            for e in self.eps:
                e += 0.5j
        self.src = [np.array(s) for s in SRCS]
        self.last_eps = self.last_src = self.last_out = None

    def modify(self, op):
        if op == "m":
            if self.last_eps is None:
                return
            a = self.last_eps
            # Alternates, so that a modified structure can equal another one.
            a[:] = np.where(np.arange(a.size) == 5, 13 - a, a)
        elif op == "s":
            if self.last_src is not None:
                self.last_src[1] += 1
        else:
            for a in self.last_out or []:
                a[...] = a * 2 + 1


def snapshot(ctx, caches, client):
    ctx.state((caches, [e.tobytes() for e in client.eps],
               [e.tobytes() for e in client.src]))


def cache_key(cache):
    return [None if c is None else [np.asarray(x).tobytes() for x in c]
            for c in cache]


def split(tier, ops, depth, sizes, extra=()):
    out = []
    for size in sizes:
        for x in (extra or [None]):
            for i in range(len(ops)):
                for j in range(len(ops)):
                    out.append([size, x, depth, i, j])
    return out


def own_histories(ops, case):
    size, x, depth, i, j = case
    for h in histories(ops, depth):
        if ops.index(h[0]) != i:
            continue
        if (ops.index(h[1]) if len(h) > 1 else 0) != j:
            continue
        yield h


@chk.section("legacy-forward", lambda tier: split(
    tier, FWD_OPS, 5 if tier == "quick" else 7, (1, 2, 3)),
             "every history of simulate requests over 3 structures and "
             "in-place modifications, cache sizes 1 to 3")
def legacy_forward(ctx, case):
    for h in own_histories(FWD_OPS, case):
        solver = StubSolver()
        J = [np.reshape(SRCS[0][2 * i:2 * i + 2], SHAPE) for i in range(3)]
        sim = legacy.FdfdSimulation(solver, SHAPE, OMEGA, DXES, J,
                                    scipy.sparse.eye(N, format="csr"),
                                    [np.zeros(SHAPE) for _ in range(3)],
                                    cache_size=case[0])
        c = Client()
        prev = None
        for op in h:
            if op in "mos":
                c.modify(op)
                prev = None if op == "m" else prev
            else:
                z = c.eps[int(op[1])]
                want = token(OMEGA, z, vec(J), False)
                before = solver.calls
                got = sim.simulate(z)
                same(got, want, "stale-fields", str(h))
                require(solver.calls - before <= (1 if prev != op else 0),
                        "repeated-solve", str(h))
                prev = op
                c.last_eps, c.last_out = z, [got]
            ctx.step()
        ctx.run()
        ctx.state((case[0], [e.tobytes() for e in c.eps], tuple(h[-2:])))
        ctx.outcome(tuple(h))


@chk.section("legacy-adjoint", lambda tier: split(
    tier, ADJ_OPS, 4 if tier == "quick" else 6, (1, 2)),
             "every history of adjoint requests over structure/source pairs "
             "and in-place modifications, cache sizes 1 and 2")
def legacy_adjoint(ctx, case):
    for h in own_histories(ADJ_OPS, case):
        solver = StubSolver()
        J = [np.reshape(SRCS[0][2 * i:2 * i + 2], SHAPE) for i in range(3)]
        sim = legacy.FdfdSimulation(solver, SHAPE, OMEGA, DXES, J,
                                    scipy.sparse.eye(N, format="csr"),
                                    [np.zeros(SHAPE) for _ in range(3)],
                                    cache_size=case[0])
        adj = legacy.AdjointFdfdSimulation(sim)
        c = Client()
        for op in h:
            if op in "mos":
                c.modify(op)
            else:
                z, s = c.eps[int(op[1])], c.src[int(op[2])]
                # Real structure and uniform grid: the conjugate-transposed
                # problem is the forward problem.
                z0, s0 = z.copy(), s.copy()
                want = {False: token(OMEGA, z, s, False),
                        True: token(OMEGA, z, s, True)}
                got = adj.simulate(z, s)
                require(np.array_equal(z, z0) and np.array_equal(s, s0),
                        "input-modified", str(h))
                require(any(vlib.close(got, w, 1e-9, 1e-9)
                            for w in want.values()), "stale-adjoint",
                        lambda: str(h))
                c.last_eps, c.last_src, c.last_out = z, s, [got]
            ctx.step()
        ctx.run()
        ctx.state((case[0], [e.tobytes() for e in c.eps + c.src],
                   tuple(h[-2:])))
        ctx.outcome(tuple(h))


class Space:
    """Stand-in for a simulation space (grid only)."""
    dxes = DXES
    pml_layers = [0] * 6
    dims = SHAPE


@chk.section("invdes-cache", lambda tier: split(
    tier, BOTH_OPS, 4 if tier == "quick" else 5, (1, 2), ("real", "complex")),
             "every history of eval and grad requests on the problem-graph "
             "simulation and in-place modifications, cache sizes 1 and 2, "
             "real and complex structures")
def invdes_cache(ctx, case):
    for h in own_histories(BOTH_OPS, case):
        solver = StubSolver()
        J = [np.reshape(SRCS[0][2 * i:2 * i + 2], SHAPE) for i in range(3)]
        sim = creator_em.FdfdSimulation(None, solver, 5.0, J, Space(),
                                        cache_size=case[0])
        c = Client(case[1] == "complex")
        prev = None
        for op in h:
            if op in "mos":
                c.modify(op)
                prev = None if op in "ms" else prev
                ctx.step()
                continue
            z = c.eps[int(op[1])]
            fields = token(OMEGA, z, vec(J), False)
            z0 = z.copy()
            before = solver.calls
            if op[0] == "f":
                got = sim.eval([z])
                same(got, fields, "stale-fields", str(h))
                c.last_out = [got]
            else:
                g = c.src[int(op[2])]
                g0 = g.copy()
                d = token(OMEGA, z, np.conj(g) / (-1j * OMEGA), True)
                want = np.conj(d) * OMEGA**2 * fields
                if np.isrealobj(z):
                    want = np.real(want)
                got = sim.grad([z], g)
                require(len(got) == 1, "grad-count", str(h))
                same(got[0], want, "stale-gradient", str(h))
                require(np.array_equal(g, g0), "input-modified", str(h))
                c.last_src, c.last_out = g, [got[0]]
            require(np.array_equal(z, z0), "input-modified", str(h))
            if prev == op:
                require(solver.calls == before, "repeated-solve", str(h))
            prev = op
            c.last_eps = z
            ctx.step()
        ctx.run()
        ctx.state((case[0], case[1], [e.tobytes() for e in c.eps + c.src],
                   tuple(h[-2:])))
        ctx.outcome(tuple(h))


# --- goos


@goos.polymorphic_model()
class StubSolverModel(maxwell.Solver):
    type = goos.ModelNameType("solver.p12_stub")


@maxwell.register(StubSolverModel)
class StubSolverImpl:
    last = None

    def __init__(self, model, dims):
        self.calls = 0
        StubSolverImpl.last = self

    def solve(self, omega, dxes, J, epsilon, adjoint=False, **kwargs):
        self.calls += 1
        return token(omega, epsilon, J, adjoint)


@goos.polymorphic_model()
class FixedSource(maxwell.SimSource):
    type = goos.ModelNameType("source.p12_fixed")


@maxwell.register(FixedSource)
class FixedSourceImpl(maxwell.SimSourceImpl):
    array = None

    def __init__(self, params):
        pass

    def before_sim(self, sim):
        sim.source += self.array


@goos.polymorphic_model()
class LinearOutput(maxwell.SimOutput):
    type = goos.ModelNameType("output.p12_linear")
    which = goos.types.IntType(default=0)


@maxwell.register(LinearOutput, output_type=goos.Function)
class LinearOutputImpl(maxwell.SimOutputImpl):
    weights = None

    def __init__(self, params):
        self._w = self.weights[params.which]

    def eval(self, sim):
        return goos.NumericFlow(np.sum(self._w * sim.fields))

    def before_adjoint_sim(self, adjoint_sim, grad_val):
        if grad_val is not None:
            adjoint_sim.source += np.conj(grad_val.array_grad * self._w)


def goos_sim(shape, eps_node, outputs, solver, pml=(0,) * 6, wlen=5.0,
             symmetry=(0, 0, 0)):
    return maxwell.SimulateNode(
        eps=eps_node, sources=[FixedSource()], wavelength=wlen,
        simulation_space=maxwell.SimulationSpace(
            sim_region=goos.Box3d(center=[0, 0, 0],
                                  extents=[float(n) for n in shape]),
            mesh=maxwell.UniformMesh(dx=1.0),
            pml_thickness=list(pml), reflection_symmetry=list(symmetry)),
        outputs=outputs, solver_info=solver)


W = [np.reshape(SRCS[1], [3] + SHAPE), np.reshape(SRCS[0] * 1j + 1,
                                                 [3] + SHAPE)]


@chk.section("goos-cache", lambda tier: split(
    tier, BOTH_OPS, 4 if tier == "quick" else 5, (1,), ("real", "complex")),
             "every history of eval and grad requests on the goos simulation "
             "node and in-place modifications of structures, gradients and "
             "outputs")
def goos_cache(ctx, case):
    shape3 = [3] + SHAPE
    # goos works on (3, x, y, z) arrays, the solver on flattened fields
    # (component by component, Fortran order).
    J = np.reshape(np.array([1, 0, 0, 2j, 0, 0]), shape3)
    FixedSourceImpl.array = J
    LinearOutputImpl.weights = W
    for h in own_histories(BOTH_OPS, case):
        with goos.OptimizationPlan():
            eps_node = goos.Variable(np.zeros(shape3))
            sim = goos_sim(SHAPE, eps_node, [
                maxwell.Epsilon(name="e"), maxwell.ElectricField(name="f"),
                LinearOutput(name="a", which=0), LinearOutput(name="b",
                                                              which=1)],
                           StubSolverModel())
        solver = StubSolverImpl.last
        c = Client(case[1] == "complex")
        prev = None
        for op in h:
            if op in "mos":
                c.modify(op)
                prev = None if op in "ms" else prev
                ctx.step()
                continue
            z = c.eps[int(op[1])]
            zz = z.reshape(shape3)  # A view: modified with the structure.
            fields = np.stack(unvec(token(OMEGA, vec(list(zz)), vec(list(J)),
                                          False), SHAPE))
            before = solver.calls
            z0 = z.copy()
            if op[0] == "f":
                got = sim.eval([goos.NumericFlow(zz)])
                same(got[0].array, zz, "epsilon-output", str(h))
                same(got[1].array, fields, "stale-fields", str(h))
                for k in range(2):
                    same(got[2 + k].array, np.sum(W[k] * fields),
                         "stale-output", str(h))
                if prev == op:
                    require(solver.calls == before, "repeated-solve", str(h))
                c.last_out = [got[0].array, got[1].array]
            else:
                g = c.src[int(op[2])]
                g0 = g.copy()
                # One output is not part of the objective.
                grads = [None, None, goos.NumericFlow.Grad(g[3]),
                         goos.NumericFlow.Grad(g[5]) if op == "g01" else None]
                s = np.conj(g[3] * W[0])
                if op == "g01":
                    s = s + np.conj(g[5] * W[1])
                d = np.stack(unvec(token(OMEGA, vec(list(zz)), vec(list(s)),
                                         True), SHAPE))
                want = -1j * OMEGA * np.conj(d) * fields
                if np.isrealobj(z):
                    want = 2 * np.real(want)
                got = sim.grad([goos.NumericFlow(zz)],
                               goos.ArrayFlow.Grad(grads))
                same(got[0].array_grad, want, "stale-gradient", str(h))
                require(np.array_equal(g, g0), "input-modified", str(h))
                c.last_src = g
                c.last_out = [got[0].array_grad]
            require(np.array_equal(z, z0), "input-modified", str(h))
            prev = op
            c.last_eps = z
            ctx.step()
        ctx.run()
        ctx.state((case[1], [e.tobytes() for e in c.eps + c.src],
                   tuple(h[-2:])))
        ctx.outcome(tuple(h))


# --- shared by threads

THREADS = [
    [["f0"], ["f1"]], [["f0"], ["f0"]], [["f0", "f1"], ["f1"]],
    [["f0", "f1"], ["f1", "f0"]], [["f1", "f1"], ["f0", "f2"]],
    [["f0"], ["f1"], ["f2"]], [["f0"], ["f0"], ["f1"]],
]


NEAR_FUNS = dict(legacy_forward=(FWD_OPS, (1, 2)), legacy_adjoint=(ADJ_OPS, (1, 2)),
                 invdes_cache=(BOTH_OPS, (1, 2)), goos_cache=(BOTH_OPS, (1,)))


@chk.section("near-equal", lambda tier: [
    [name, rel] + c for name, (ops, sizes) in NEAR_FUNS.items()
    for rel in (1e-4, 1e-6, 1e-9, 1e-12)
    for c in split(tier, ops, 2 if tier == "quick" else 3, sizes,
                   () if name.startswith("legacy") else ("real",))],
             "the histories above over structures and sources that differ by "
             "1e-4 to 1e-12 in one entry")
def near_equal(ctx, case):
    global NEAR, STRUCTS, SRCS
    old = STRUCTS, SRCS
    name, rel = case[:2]
    STRUCTS = [old[0][0], old[0][0] + rel * np.array([0, 0, 0, 0, 0, 1.0]),
               old[0][0] - rel * np.array([1.0, 0, 0, 0, 0, 0])]
    SRCS = [old[1][0], old[1][0] + rel * np.array([0, 0, 0, 0, 0, 0.5])]
    NEAR = True
    try:
        globals()[name](ctx, case[2:])
    finally:
        NEAR = False
        STRUCTS, SRCS = old


@chk.section("threads", lambda tier: [
    [kind, size, warm, t, 1 if sum(map(len, t)) > 2 and tier == "quick" else 2]
    for kind in ("forward", "adjoint") for size in (1, 2)
    for warm in (None, "f0") for t in THREADS],
             "threads sharing a simulation under every schedule (source-line "
             "granularity) with at most 2 preemptions (quick tier: 1 if there "
             "are more than two requests)", timeout=800)
def threads(ctx, case):
    kind, size, warm, progs, bound = case
    J = [np.reshape(SRCS[0][2 * i:2 * i + 2], SHAPE) for i in range(3)]
    Jv = SRCS[1]
    ops = set(o for p in progs for o in p) | ({warm} if warm else set())

    def scenario():
        solver = StubSolver()
        inner = solver.solve

        def solve(**kw):
            if coop.Sched.current is not None:
                coop.Sched.current.point()
            return inner(**kw)

        solver.solve = solve
        with coop.patched_locks():
            sim = legacy.FdfdSimulation(solver, SHAPE, OMEGA, DXES, J,
                                        scipy.sparse.eye(N, format="csr"),
                                        [np.zeros(SHAPE) for _ in range(3)],
                                        cache_size=size)
            if kind == "adjoint":
                adj = legacy.AdjointFdfdSimulation(sim)

        def request(op):
            z = STRUCTS[int(op[1])]
            if kind == "adjoint":
                return adj.simulate(z, Jv)
            return sim.simulate(z)

        def prog(p):
            return lambda: [np.array(request(op)) for op in p]

        if warm:
            request(warm)
        start = solver.calls

        def check(s, dead):
            require(not dead, "deadlock", str(s.trace))
            for i, p in enumerate(progs):
                if s.error[i] is not None:
                    fail("thread-exception", repr(s.error[i]))
                for op, got in zip(p, s.result[i]):
                    z = STRUCTS[int(op[1])]
                    want = token(OMEGA, z, Jv if kind == "adjoint" else vec(J),
                                 False)
                    ok = vlib.close(got, want, 1e-9, 1e-9) or (
                        kind == "adjoint" and vlib.close(
                            got, token(OMEGA, z, Jv, True), 1e-9, 1e-9))
                    require(ok, "wrong-answer", str(op))
            if len(ops) <= size:
                # Everything fits in the cache: one solve per structure.
                new = len(ops) - (1 if warm else 0)
                require(solver.calls - start == new, "solved-twice",
                        str(solver.calls - start))
            ctx.outcome((size, warm, [solver.calls]))

        return [prog(p) for p in progs], check

    for s, dead, check in coop.explore(scenario, ["problem/simulation.py"],
                                       bound):
        check(s, dead)
        ctx.run()
        ctx.step(s.steps)
        ctx.state((kind, size, warm, progs, s.steps))


# ---------------------------------------------------------------------------
# Solutions.


def spacing(shape, kind):
    out = []
    for hh in range(2):
        row = []
        for a in range(3):
            n = shape[a]
            if kind == "uniform":
                d = np.full(n, [1.0, 0.5, 1.25][a])
            else:
                d = np.array([1 + 0.5 * i + 0.25 * a for i in range(n)])
                if hh:
                    d = (d + np.roll(d, 1)) / 2
            row.append(d)
        out.append(row)
    return out


def mat_vec(n, kind, lo=1.0):
    k = np.arange(n)
    if kind is None:
        return None
    base = lo + (k * 7 % 5) / 4
    if kind == "real":
        return base
    return base + 1j * (k * 3 % 4) / 8


def stretched(dxes, pml, omega):
    return fgrid.apply_scpml(dxes, pml, omega)


PMLS = [None, [1, 1, 0, 0, 0, 0], [0, 1, 1, 0, 0, 0]]


def solve_cases(tier):
    shapes = [[3, 2, 2], [4, 3, 1]] if tier == "quick" else [
        [3, 2, 2], [4, 3, 1], [2, 3, 2], [1, 4, 3], [5, 1, 1]]
    for shape in shapes:
        for sp in ("uniform", "nonuniform"):
            for pml in PMLS:
                if pml and any(shape[a] < 3 for a in range(3)
                               if pml[2 * a] or pml[2 * a + 1]):
                    continue
                for bloch in (None, [0, 0, 0.4], [0.3, 0.2, 0]):
                    if pml and bloch and any(
                            bloch[a] and (pml[2 * a] or pml[2 * a + 1])
                            for a in range(3)):
                        continue
                    for eps in ("real", "complex"):
                        for mu in (None, "real"):
                            for mask in (None, "pec", "pmc", "both"):
                                yield [shape, sp, pml, bloch, eps, mu, mask]


def setup(case):
    shape, sp, pml, bloch, eps, mu, mask = case
    n = 3 * int(np.prod(shape))
    dxes = spacing(shape, sp)
    pec = pmc = None
    if mask in ("pec", "both"):
        pec = np.zeros(n)
        pec[[1, n // 2]] = 1
    if mask in ("pmc", "both"):
        pmc = np.zeros(n)
        pmc[[0, n // 3]] = 1
    args = dict(omega=0.7, dxes=dxes, epsilon=mat_vec(n, eps),
                mu=mat_vec(n, mu), pec=pec, pmc=pmc, pml_layers=pml,
                bloch_vec=None if bloch is None else np.array(bloch))
    A = operators.e_full(0.7, stretched(dxes, pml, 0.7), args["epsilon"],
                         mu=args["mu"], pec=pec, pmc=pmc,
                         bloch_vec=np.zeros(3) if bloch is None else
                         np.array(bloch)).toarray()
    keep = np.ones(n, bool) if pec is None else pec == 0
    return n, args, A, keep


def rhs(n, k):
    if k == "ramp":
        return (np.arange(n) % 7 - 3) * (1 - 0.5j) + 0.25j
    J = np.zeros(n, complex)
    J[k % n] = 1 - 2j
    return J


@chk.section("direct-solve", lambda tier: list(solve_cases(tier)),
             "every combination of grid, PML, Bloch vector, material and mask: "
             "forward and adjoint direct solves satisfy the wave equation and "
             "its conjugate transpose for every unit source")
def direct_solve(ctx, case):
    n, args, A, keep = setup(case)
    solver = lms.DirectSolver()
    srcs = ["ramp"] + list(range(0, n, 1 if ctx.tier == "thorough" else 7))
    for k in srcs:
        for adjoint in (False, True):
            J = rhs(n, k)
            J0, e0 = J.copy(), args["epsilon"].copy()
            d0 = [[d.copy() for d in r] for r in args["dxes"]]
            x = np.asarray(solver.solve(J=J, adjoint=adjoint, **args))
            M = A.conj().T if adjoint else A
            b = np.where(keep, -1j * 0.7 * J, 0)
            require(x.shape == (n,), "shape", str(x.shape))
            res = (M @ x - b)[keep]
            scale = np.max(np.abs(M)) * np.max(np.abs(x)) + 1e-12
            require(np.all(np.abs(res) <= 1e-9 * scale + 1e-9), "residual",
                    lambda: "{} {}: {}".format(k, adjoint,
                                               np.max(np.abs(res))))
            require(np.all(np.abs(x[~keep]) <= 1e-12), "field-in-pec",
                    lambda: str(x[~keep]))
            require(np.array_equal(J, J0) and np.array_equal(
                args["epsilon"], e0) and all(
                    np.array_equal(p, q) for r, s in zip(args["dxes"], d0)
                    for p, q in zip(r, s)), "input-modified", str(k))
            ctx.step()
    ctx.run()
    ctx.outcome(case)


@chk.section("iterative-solve", lambda tier: [
    [c, s, sc, tol] for c in solve_cases("quick")
    if c[3] is None and c[6] is None and c[5] is None and c[0] == [3, 2, 2] and
    c[2] is None for s in ("qmr", "bicg")
    for sc in (1e-9, 1e-3, 1, 1e3, 1e9) for tol in (1e-4, 1e-8)] +
             [[c, "pool", 1, 0] for c in list(solve_cases("quick"))[:3]],
             "iterative solvers reach the requested tolerance relative to the "
             "source, for sources of every magnitude; the process-pool solver "
             "equals the solver it wraps")
def iterative_solve(ctx, case):
    cfg, name, scale, tol = case
    n, args, A, keep = setup(cfg)
    if name == "pool":
        inner = lms.DirectSolver()
        s = lms.MultiprocessingSolver(inner, num_processes=1)
        try:
            for adjoint in (False, True):
                for k in ("ramp", 3):
                    J = rhs(n, k)
                    same(s.solve(J=J, adjoint=adjoint, **args),
                         inner.solve(J=J, adjoint=adjoint, **args), "pool")
                    ctx.step()
        finally:
            s.pool.terminate()
            s.pool.join()
        ctx.run()
        return
    cls = lms.QmrSolver if name == "qmr" else lms.BiCgSolver
    solver = cls(relative_tol=tol)
    Pl, Pr = operators.e_full_preconditioners(args["dxes"])
    for adjoint in (False, True):
        J = rhs(n, "ramp") * scale
        x = solver.solve(J=J, adjoint=adjoint, **args)
        # The tolerance is relative in the symmetrised system.
        P = Pr if adjoint else Pl
        M = A.conj().T if adjoint else A
        b = -1j * 0.7 * J
        r = np.linalg.norm(P @ (M @ x - b)) / np.linalg.norm(P @ b)
        require(r <= 10 * tol, "tolerance-not-reached", str((adjoint, r)))
        ctx.step()
    ctx.run()
    ctx.outcome(case)


# ---------------------------------------------------------------------------
# Gradients.


def exact_jacobian(A, eps, E, omega):
    """dE_k/deps_i for A(eps) E = b."""
    return np.linalg.solve(A, np.diag(omega**2 * E))


def grad_cases(tier):
    for c in solve_cases(tier):
        if c[5] is None and c[6] is None:
            yield c


@chk.section("invdes-gradient", lambda tier: list(grad_cases(tier)),
             "problem-graph simulation with the direct solver: fields and the "
             "gradient for every unit output gradient")
def invdes_gradient(ctx, case):
    n, args, A, keep = setup(case)
    shape = case[0]
    J = rhs(n, "ramp")

    class S:
        dxes = args["dxes"]
        pml_layers = args["pml_layers"]
        dims = shape

    sim = creator_em.FdfdSimulation(None, lms.DirectSolver(),
                                    2 * np.pi / 0.7, unvec(J, shape), S(),
                                    bloch_vector=args["bloch_vec"])
    eps = args["epsilon"]
    E = sim.eval([eps])
    same(A @ E, -1j * 0.7 * J, "residual")
    jac = exact_jacobian(A, eps, E, 0.7)
    for k in range(n):
        for w in (1, 1j):
            g = np.zeros(n, complex)
            g[k] = w
            want = g @ jac
            if np.isrealobj(eps):
                want = np.real(want)
            same(sim.grad([eps], g)[0], want, "gradient", str((k, w)),
                 scale=np.max(np.abs(jac)))
            ctx.step()
    ctx.run()
    ctx.outcome(case)


@chk.section("goos-gradient", lambda tier: [
    [sh, pml, eps] for sh in ([[3, 2, 2], [4, 3, 1]] if tier == "quick" else
                              [[3, 2, 2], [4, 3, 1], [1, 3, 2], [5, 1, 1]])
    for pml in ([0] * 6, [1, 1, 0, 0, 0, 0], [1, 0, 0, 0, 0, 0])
    for eps in ("real", "complex") if sh[0] > 2 or not any(pml)],
             "goos simulation with the direct solver: outputs and the "
             "gradient for unit output gradients of every field component")
def goos_gradient(ctx, case):
    shape, pml, kind = case
    n = 3 * int(np.prod(shape))
    omega = 0.7
    eps = np.stack(unvec(mat_vec(n, kind), shape))
    dxes = [[np.ones(m) for m in shape] for _ in range(2)]
    J = rhs(n, "ramp")
    FixedSourceImpl.array = np.stack(unvec(J, shape))
    A = operators.e_full(omega, stretched(dxes, pml, omega),
                         vec(list(eps))).toarray()
    weights = []
    for k in range(n):
        w = np.zeros(n, complex)
        w[k] = 1 + 0.5j
        weights.append(np.stack(unvec(w, shape)))
    weights.append(np.stack(unvec(rhs(n, "ramp"), shape)))
    LinearOutputImpl.weights = weights
    with goos.OptimizationPlan():
        node = goos.Variable(np.zeros([3] + shape))
        sim = goos_sim(shape, node, [LinearOutput(which=k)
                                     for k in range(n + 1)],
                       maxwell.DirectSolver(multiprocessing=False), pml=pml,
                       wlen=2 * np.pi / omega)
    flow = goos.NumericFlow(eps)
    outs = sim.eval([flow])
    E = np.linalg.solve(A, -1j * omega * J)
    jac = exact_jacobian(A, vec(list(eps)), E, omega)
    for k in range(n + 1):
        w = vec(list(weights[k]))
        same(outs[k].array, np.sum(w * E), "output", str(k),
             scale=np.max(np.abs(E)) * np.sum(np.abs(w)))
        g = 0.25 - 1j
        grads = [None] * (n + 1)
        grads[k] = goos.NumericFlow.Grad(np.array(g))
        got = sim.grad([flow], goos.ArrayFlow.Grad(grads))[0].array_grad
        want = g * (w @ jac)
        if np.isrealobj(eps):
            want = 2 * np.real(want)
        same(vec(list(got)), want, "gradient", str(k),
             scale=np.max(np.abs(jac)) * np.sum(np.abs(w)))
        ctx.step()
    # Two outputs at once add up.
    grads = [None] * (n + 1)
    grads[1] = goos.NumericFlow.Grad(np.array(2.0))
    grads[n] = goos.NumericFlow.Grad(np.array(-1j))
    got = sim.grad([flow], goos.ArrayFlow.Grad(grads))[0].array_grad
    want = (2.0 * vec(list(weights[1])) - 1j * vec(list(weights[n]))) @ jac
    if np.isrealobj(eps):
        want = 2 * np.real(want)
    same(vec(list(got)), want, "gradient-sum", scale=np.max(np.abs(want)) * 10)
    ctx.run()
    ctx.outcome(case)


# --- legacy objectives


class QuadraticObjective(emobjective.EmObjective):

    def __init__(self, sim, w, partial=0.0):
        super().__init__(sim)
        self.w = w
        self.partial = partial

    def calculate_f(self, x, z):
        return np.sum(self.w * np.abs(x)**2) + self.partial * np.sum(z)

    def calculate_partial_df_dx(self, x, z):
        return self.w * np.conj(x)

    def calculate_partial_df_dz(self, x, z):
        return self.partial * np.ones_like(z)


OBJS = ["quad", "quad+z", "overlap", "overlapT", "basic2", "basic3", "basic1",
        "basic4x2", "phase", "phase2"]


def legacy_cases(tier):
    for c in solve_cases(tier):
        if c[6] in (None, "pec") and c[1] == "nonuniform":
            for o in OBJS:
                yield c + [o]


@chk.section("legacy-gradient", lambda tier: list(legacy_cases(tier)),
             "legacy simulation and objectives on complex-stretched grids: "
             "adjoint equation, objective value and exact gradient through a "
             "selection matrix and a parametrization")
def legacy_gradient(ctx, case):
    cfg, name = case[:-1], case[-1]
    n, args, A0, keep = setup(cfg)
    shape = cfg[0]
    omega = 0.7
    dxes = stretched(args["dxes"], args["pml_layers"], omega)
    J = rhs(n, "ramp")
    S = scipy.sparse.lil_matrix((n, 4))
    for i, (r, c, v) in enumerate([(0, 0, 1), (2, 0, .5), (3, 1, 2),
                                   (n - 1, 2, 1), (4, 3, -1), (5, 3, .25)]):
        S[r, c] = v
    S = S.tocsr()
    opt = {k: None if args[k] is None else unvec(args[k], shape)
           for k in ("mu", "pec", "pmc")}
    sim = legacy.FdfdSimulation(lms.DirectSolver(), shape, omega, dxes,
                                unvec(J, shape), S,
                                unvec(args["epsilon"], shape),
                                bloch_vec=args["bloch_vec"], **opt)
    z = np.array([0.25, 0.5, 0.75, 0.4])
    eps = args["epsilon"] + S @ z
    same(sim.get_epsilon(z), eps, "epsilon")
    A = operators.e_full(omega, dxes, eps, mu=args["mu"], pec=args["pec"],
                         bloch_vec=args["bloch_vec"]).toarray()
    A = A + np.diag(np.where(keep, 0, 1))
    b = np.where(keep, -1j * omega * J, 0)
    E = np.linalg.solve(A, b)
    same(sim.simulate(z), E, "fields")
    adj = legacy.AdjointFdfdSimulation(sim)
    d = adj.simulate(z, J)
    same(d, np.linalg.solve(A.conj().T, b), "adjoint")
    jac = np.linalg.solve(A, np.diag(np.where(keep, omega**2 * E, 0))) @ S
    T = [0.4 - 0.2j, 0.1j]
    c = [np.conj(rhs(n, "ramp")) / n, np.exp(1j * np.arange(n)) / n]
    out = [dict(type=emobjective.OverlapMode.ModeType.arbitrary,
                overlap=unvec(x, shape), transmission=t) for x, t in zip(c, T)]
    if name.startswith("quad"):
        w = 1 + (np.arange(n) % 3)
        p = 0.3 if name == "quad+z" else 0
        obj = QuadraticObjective(sim, w, p)
        f = np.sum(w * np.abs(E)**2) + p * np.sum(z)
        g = 2 * np.real((w * np.conj(E)) @ jac) + p
    elif name.startswith("overlap"):
        t = T[0] if name == "overlapT" else 0
        o = dict(out[0])
        if name == "overlap":
            del o["transmission"]
        obj = emobjective.Overlap(o, sim)
        v = c[0] @ E - t
        f = abs(v)
        g = np.real(np.conj(v) / abs(v) * (c[0] @ jac))
        same(obj.get_overlap_norm2(Fixed(z))[0], abs(c[0] @ E)**2, "norm2")
        same(obj.get_phase(Fixed(z)), np.angle(c[0] @ E), "phase", scale=1)
    elif name.startswith("basic"):
        p = int(name[5])
        m = 2 if name.endswith("x2") else 1
        vs = [c[i] @ E for i in range(m)]
        # One mode below its window, the other one above.
        win = [(abs(vs[0]) * 1.5, abs(vs[0]) * 2)]
        if m == 2:
            win.append((abs(vs[1]) * .25, abs(vs[1]) * .5))
        for o, wv in zip(out, win):
            o["power"] = [wv[0]**2, wv[1]**2]
        obj = emobjective.BasicOverlapObjective(out[:m], sim, power=p)
        f, g = 0, 0
        for i in range(m):
            viol = win[i][0] - abs(vs[i]) if i == 0 else abs(vs[i]) - win[i][1]
            sgn = -1 if i == 0 else 1
            f += viol**p
            g = g + p * viol**(p - 1) * sgn * np.real(
                np.conj(vs[i]) / abs(vs[i]) * (c[i] @ jac))
    else:
        m = 2 if name == "phase2" else 1
        obj = emobjective.PhaseOverlapObjective(out[:m], sim)
        f, g = 0, 0
        for i in range(m):
            # This objective overlaps with the conjugate mode.
            v = np.conj(c[i]) @ E
            v, cc = (v, np.conj(c[i]))
            if not np.isclose(np.sum(obj.objective_C.toarray()[:, i].conj() @
                                     E), v):
                v, cc = c[i] @ E, c[i]
            f += abs(v - T[i])**2
            g = g + 2 * np.real(np.conj(v - T[i]) * (cc @ jac))
    same(obj.calculate_objective_function(Fixed(z)), f, "objective", scale=max(
        1, abs(f)))
    M = Fixed.matrix
    got = obj.calculate_gradient(Fixed(z))
    same(got, g @ M, "gradient", scale=max(1e-6, np.max(np.abs(g)) * 4))
    ctx.step(4)
    ctx.run()
    ctx.outcome(case)


class Fixed(invparam.Parametrization):
    """Structure z with a fixed, rectangular Jacobian."""
    matrix = np.array([[1.0, 0.5], [0, 2], [-1, 0], [0.25, 0.125]])

    def __init__(self, z):
        self.z = z

    def get_structure(self):
        return self.z

    def calculate_gradient(self):
        return self.matrix

    def encode(self):
        raise NotImplementedError

    def decode(self, vector):
        raise NotImplementedError


if __name__ == "__main__":
    chk.main()
