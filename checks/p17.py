"""P17: parametrizations encode, project, serialize and differentiate.

Cubic and Hermite parametrizations are compared, on every combination of grid
size, symmetry, periodicity and number of periods in the bounds, with a
separable reference model (an index map per axis followed by Hermite
interpolation per axis); mirror symmetry and periodicity of the rendered
structure are also asserted directly.  All parametrizations, and all composites
of up to three of them, are driven through all operation sequences up to a
depth against a reference state machine, with the Jacobian compared to finite
differences in every state.
"""
import copy
import itertools

import numpy as np
import scipy.sparse

import vlib
from vlib import require

vlib.import_spins()
from spins.invdes import parametrization as pz
from spins.invdes.parametrization import cubic_utils
from spins.invdes.parametrization import composite_parametrization as cp
from spins.invdes.parametrization import grating_parametrization as gp

chk = vlib.Check("P17", "model_checking", [
    "coarse grids of 3 to 7 points per axis, at most 3 periods",
    "operation sequences of length up to 3 (quick) or 4 (thorough)",
    "vectors out of a small value set including infeasible ones",
])


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


# ------------------------------------------------------- reference: geometry


def axis_map(n, sym, per, periods, hermite):
    """For each of the n - per stored points: (free index, mirror sign)."""
    total = n - per
    unit = total // periods if periods else total
    with_boundary = bool(sym and (periods > 1 or (periods == 1 and
                                                  not hermite)))
    m = unit if with_boundary else unit - 1  # point i mirrors point m - i
    out = []
    for i in range(total):
        u = i % unit
        sign = 1
        if sym:
            sign = 0 if 2 * u == m else (1 if 2 * u < m else -1)
            if (per or with_boundary) and u in (0, m):
                sign = 0
            u = min(u, m - u)
        out.append((u, sign))
    return out, 1 + max(u for u, _ in out) if not with_boundary else (
        unit // 2 + 1)


def ref_geometry(shape, sym, per, periods, hermite):
    """Dense matrix from the free vector to the stored coarse points."""
    (mx, fx), (my, fy) = [
        axis_map(shape[a], sym[a], per[a], periods[a], hermite)
        for a in (0, 1)
    ]
    blocks = []
    for dx, dy in ([(0, 0), (1, 0), (0, 1), (1, 1)] if hermite else [(0, 0)]):
        g = np.zeros((len(mx) * len(my), fx * fy))
        for j, (v, sv) in enumerate(my):
            for i, (u, su) in enumerate(mx):
                g[i + len(mx) * j, u + fx * v] = (su if dx else 1) * (
                    sv if dy else 1)
        blocks.append(g)
    return scipy.sparse.block_diag(blocks).toarray()


def dup(shape, per):
    """Stored points to all coarse points (closing the period)."""
    sx, sy = shape[0] - per[0], shape[1] - per[1]
    d = np.zeros((shape[0] * shape[1], sx * sy))
    for j in range(shape[1]):
        for i in range(shape[0]):
            d[i + shape[0] * j, i % sx + sx * (j % sy)] = 1
    return d


# -------------------------------------------------- reference: interpolation


def deriv_1d(x, per):
    """Derivatives at the stored points by fitting parabolas."""
    n = len(x) - per
    d = np.zeros((n, n))
    for i in range(n):
        if per:
            idx, xs = [(i - 1) % n, i, (i + 1) % n], [
                x[i - 1] if i else x[0] - (x[-1] - x[-2]), x[i], x[i + 1]
            ]
        else:
            c = min(max(i, 1), n - 2)
            idx, xs = [c - 1, c, c + 1], [x[c - 1], x[c], x[c + 1]]
        xs = np.array(xs, float) - x[i]
        for k in range(3):
            coef = np.polyfit(xs, np.eye(3)[k], 2)
            d[i, idx[k]] += coef[1]
    return d


def interp_1d(fine, x, per):
    """(values weight, slopes weight) from stored points to fine points."""
    n = len(x) - per
    a, b = np.zeros((len(fine), n)), np.zeros((len(fine), n))
    for r, f in enumerate(fine):
        c = max(i for i in range(len(x) - 1) if x[i] <= f)
        h = x[c + 1] - x[c]
        t = (f - x[c]) / h
        for col, va, vb in ((c, 2 * t**3 - 3 * t**2 + 1,
                             (t**3 - 2 * t**2 + t) * h),
                            (c + 1, -2 * t**3 + 3 * t**2,
                             (t**3 - t**2) * h)):
            a[r, col % n] += va
            b[r, col % n] += vb
    return a, b


def kron(my, mx):
    return np.kron(my, mx)  # x runs fastest


def ref_cubic(fx, fy, cx, cy, per):
    (ax, bx), (ay, by) = interp_1d(fx, cx, per[0]), interp_1d(fy, cy, per[1])
    wx = ax + bx @ deriv_1d(cx, per[0])
    wy = ay + by @ deriv_1d(cy, per[1])
    return kron(wy, wx)


def ref_hermite(fx, fy, cx, cy, per, s):
    (ax, bx), (ay, by) = interp_1d(fx, cx, per[0]), interp_1d(fy, cy, per[1])
    return np.hstack([
        kron(ay, ax),
        kron(ay, bx) / s,
        kron(by, ax) / s,
        kron(by, bx) / s**2
    ])


# ------------------------------------------------------------------ geometry


def configs(sizes, max_periods=3):
    out = []
    for nx, ny in itertools.product(sizes, repeat=2):
        for sym in itertools.product((0, 1), repeat=2):
            for per in itertools.product((0, 1), repeat=2):
                for pds in itertools.product(range(max_periods + 1), repeat=2):
                    if any(p and (n - q) % p
                           for p, n, q in zip(pds, (nx, ny), per)):
                        continue
                    out.append([[nx, ny], list(sym), list(per), list(pds)])
    return out


def geometry_cases(tier):
    return configs((3, 4, 5, 6) if tier == "quick" else range(3, 9),
                   3 if tier == "quick" else 4)


@chk.section("geometry", geometry_cases,
             "grid sizes x symmetry x periodicity x number of periods")
def _(ctx, case):
    shape, sym, per, pds = case
    for hermite in (False, True):
        make = (cubic_utils.make_geometry_matrix_hermite
                if hermite else cubic_utils.make_geometry_matrix_cubic)
        g, rev = make(tuple(shape), sym, per, pds)
        g, rev = g.toarray(), rev.toarray()
        want = ref_geometry(shape, sym, per, pds, hermite)
        require(g.shape == want.shape and close(g, want), "geometry-matrix",
                lambda: "{} hermite {}: got\n{}\nwant\n{}".format(
                    case, hermite, g, want))
        d = dup(shape, per)
        if hermite:
            d = np.kron(np.eye(4), d)
        back = rev @ d @ g
        want_back = np.eye(len(back))
        if hermite:
            # Derivatives forced to vanish cannot be recovered.
            used = np.abs(want).sum(axis=0) > 0
            want_back = np.diag(used.astype(float))
        require(close(back, want_back), "reverse-geometry",
                lambda: "{} hermite {}: {}".format(case, hermite, back))
        if not hermite:
            full, _ = cubic_utils.make_geometry_matrix_cubic(
                tuple(shape), sym, per, pds, full_geometry_matrix=True)
            require(close(full.toarray(), d @ want), "full-geometry",
                    lambda: str(case))
        ctx.step(2)
    ctx.run()
    ctx.state(case)
    ctx.outcome((sym, per, pds, want.shape))


# ----------------------------------------------------------------- rendering

GRIDS = ("uniform", "stretched", "nodes")


def grids(n, kind):
    """(coarse, fine) for one axis; all are symmetric about zero."""
    c = np.arange(n) - (n - 1) / 2
    c = c * 2.0
    if kind == "stretched":
        c = c + 0.05 * c**3 / (n * n)
    f = (np.linspace(c[0], c[-1], 2 * n - 1) if kind != "nodes" else c)
    if kind == "stretched":
        f = f[1:-1] * 0.97
    return c, f


def render_cases(tier):
    cf = configs((3, 4, 5) if tier == "quick" else (3, 4, 5, 6, 7),
                 2 if tier == "quick" else 3)
    if tier == "quick":
        # y settings restricted to those which differ from the x settings.
        cf = [c for c in cf if c[0][0] + c[0][1] >= 7 and c[3][0] >= c[3][1]]
    return [c + [g] for c in cf for g in GRIDS]


def sigmoid(z, k):
    if not k:
        return z
    with np.errstate(over="ignore"):
        return 1 / (1 + np.exp(-k * (2 * z - 1)))


@chk.section("rendering", render_cases,
             "configurations x coarse/fine grids; all unit vectors")
def _(ctx, case):
    shape, sym, per, pds, gk = case
    (cx, fx), (cy, fy) = grids(shape[0], gk), grids(shape[1], gk)
    for hermite in (False, True):
        geo = ref_geometry(shape, sym, per, pds, hermite)
        if hermite:
            s = 1.75 * np.diff(fx).mean()
            mat = ref_hermite(fx, fy, cx, cy, per, s) @ geo
            cls = pz.HermiteParam
        else:
            mat = ref_cubic(fx, fy, cx, cy, per) @ geo
            cls = pz.CubicParam
        n = mat.shape[1]
        p = cls(np.zeros(n), cx, cy, fx, fy, np.array(sym), np.array(per),
                np.array(pds))
        # The map before the sigmoid is linear, so unit vectors decide it.
        for k in range(n):
            v = np.zeros(n)
            v[k] = 0.5
            p.decode(v)
            want = sigmoid(mat @ v, p.k)
            z = p.get_structure()
            require(close(z, want, 1e-7), "structure",
                    lambda: "{} hermite {} unit {}: {} want {}".format(
                        case, hermite, k, z, want))
            check_shape(case, hermite, z, fx, fy, cx, cy)
            ctx.step()
        v = 0.5 + 0.3 * np.sin(1 + np.arange(n) * 1.7)
        p.decode(v)
        z = p.get_structure()
        require(close(z, sigmoid(mat @ v, p.k), 1e-7), "structure",
                lambda: "{} hermite {}: {}".format(case, hermite, z))
        check_shape(case, hermite, z, fx, fy, cx, cy)
        jac = p.calculate_gradient()
        jac = jac.toarray() if scipy.sparse.issparse(jac) else np.array(jac)
        zz = sigmoid(mat @ v, p.k)
        want = (2 * p.k * zz * (1 - zz))[:, None] * mat
        require(close(jac, want, 1e-6), "jacobian",
                lambda: "{} hermite {}".format(case, hermite))
        # A full grid of values is reduced to the free vector.
        d = dup(shape, per)
        if hermite:
            d = np.kron(np.eye(4), d)
        full = d @ geo @ v
        want_v = v.copy()
        if hermite:
            want_v[np.abs(geo).sum(axis=0) == 0] = 0
        q = cls(full, cx, cy, fx, fy, np.array(sym), np.array(per),
                np.array(pds)) if not hermite or not any(per) else None
        if q is not None:
            require(close(q.encode(), want_v) or
                    (len(full) == n and close(q.encode(), full)),
                    "initial-value", lambda: "{} hermite {}: {} want {}".
                    format(case, hermite, q.encode(), want_v))
        ctx.step(3)
    ctx.run()
    ctx.state(case)
    ctx.outcome((sym, per, pds, gk, np.round(z, 6).tolist()[:3]))


def check_shape(case, hermite, z, fx, fy, cx, cy):
    """Mirror symmetry and periodicity, read off the fine grid itself."""
    shape, sym, per, pds, gk = case
    img = z.reshape((len(fx), len(fy)), order="F")
    for ax, (f, c) in enumerate(((fx, cx), (fy, cy))):
        a = img if ax == 0 else img.T
        full = sym[ax] and (not per[ax] and not pds[ax] or per[ax] and
                            (pds[ax] > 1 or pds[ax] == 1 and not hermite))
        if full:
            require(close(a, a[::-1], 1e-7), "not-symmetric",
                    lambda: "{} hermite {} axis {}: {}".format(
                        case, hermite, ax, a))
        if gk != "uniform":
            continue
        # Fine points: two per coarse interval.
        if per[ax]:
            require(close(a[0], a[-1], 1e-7), "not-periodic",
                    lambda: "{} hermite {} axis {}: {}".format(
                        case, hermite, ax, a))
        if pds[ax] > 1 and per[ax]:
            u = 2 * (shape[ax] - 1) // pds[ax]
            require(close(a[u:], a[:-u], 1e-7), "not-periodic",
                    lambda: "{} hermite {} axis {}: {}".format(
                        case, hermite, ax, a))
        if pds[ax] > 1 and sym[ax] and hermite:
            u = 2 * ((shape[ax] - per[ax]) // pds[ax])
            if u < len(a):
                cell = a[:u + 1]
                require(close(cell, cell[::-1], 1e-7), "not-symmetric",
                        lambda: "{} hermite {} axis {}: {}".format(
                            case, hermite, ax, a))


# ------------------------------------------------------------ state machines

C3 = np.array([-2.0, 0.0, 2.0])
F3 = np.array([-1.5, -0.5, 0.5, 1.5])
F2 = np.array([-1.0, 1.0])


class Kind:
    """A leaf parametrization and its reference."""

    def __init__(self, name, make, size, vectors, lower, upper, structure,
                 norm=lambda v: v, ks=(), k0=None, free_bounds=False):
        self.name, self.make, self.size = name, make, size
        self.vectors = [np.array(v, float) for v in vectors]
        self.lower, self.upper = lower, upper
        self.structure, self.norm = structure, norm
        self.ks, self.k0 = ks, k0
        self.free_bounds = free_bounds

    def project(self, v):
        lo = [-np.inf if b is None else b for b in self.lower]
        hi = [np.inf if b is None else b for b in self.upper]
        return np.minimum(np.maximum(v, lo), hi)


def cubic_kind(name, hermite, sym, per, pds, bounds):
    geo = ref_geometry([3, 3], sym, per, pds, hermite)
    if hermite:
        mat = ref_hermite(F3, F2, C3, C3, per, 1.75) @ geo
    else:
        mat = ref_cubic(F3, F2, C3, C3, per) @ geo
    n = mat.shape[1]
    base = np.arange(n)
    vecs = [0.4 + 0.3 * np.sin(2.1 * base), 0.5 + 1.4 * np.cos(1.3 * base)]
    cls = pz.HermiteParam if hermite else pz.CubicParam

    def make(v):
        return cls(v, C3, C3, F3, F2, sym, per, pds, bounds=bounds)

    lo, hi = bounds or ((None, None) if hermite else (0, 1))
    wide = lambda b: list(b) if isinstance(b, (list, tuple)) else [b] * n
    return Kind(name, make, n, vecs, wide(lo), wide(hi),
                lambda v, k: sigmoid(mat @ v, k), ks=(4, 1, 900) if hermite
                else (4, 0, 900), k0=4)


def grating_structure(inverted):

    def fn(v, k):
        z = np.array([
            sum(max(0.0, min(b, i + 1) - max(a, i))
                for a, b in zip(v[0::2], v[1::2])) for i in range(5)
        ])
        return 1 - z if inverted else z

    return fn


GV = [[0.3, 1.6, 2.2, 4.4], [3.4, 0.7, -0.6, 2.1], [1.2, 1.8, 4.5, 5.7]]
NONE4 = [None] * 4

KINDS = {
    "direct": Kind("direct", lambda v: pz.DirectParam(v), 2,
                   [[0.2, 0.9], [-0.5, 1.5]], [0, 0], [1, 1],
                   lambda v, k: v),
    "direct-mixed": Kind(
        "direct-mixed", lambda v: pz.DirectParam(
            v, bounds=([None, 0, -1], [1, None, 2])), 3,
        [[0.2, 0.9, 0.1], [-3.0, -0.5, 2.5], [4.0, 3.0, -7.0]], [None, 0, -1],
        [1, None, 2], lambda v, k: v),
    "direct-free": Kind("direct-free", lambda v: pz.DirectParam(
        v, bounds=None), 1, [[0.2], [-3.0]], [None], [None],
                        lambda v, k: v),
    "direct-half": Kind("direct-half", lambda v: pz.DirectParam(
        v, bounds=(None, 0)), 2, [[0.2, -1.0], [-3.0, -4.0]], [None] * 2,
                        [0, 0], lambda v, k: v),
    "cubic": cubic_kind("cubic", False, [0, 0], [0, 0], [0, 0], None),
    "cubic-sym": cubic_kind("cubic-sym", False, [1, 0], [0, 1], [0, 1],
                            [-0.5, 0.75]),
    "cubic-list": cubic_kind("cubic-list", False, [1, 1], [0, 0], [0, 0],
                             [[0, 0.1, 0.2, 0.3], [1, 0.9, 0.8, 0.7]]),
    "hermite": cubic_kind("hermite", True, [0, 0], [0, 0], [0, 0], None),
    "hermite-sym": cubic_kind("hermite-sym", True, [1, 1], [0, 0], [0, 0],
                              [-0.25, 1]),
    "grating": Kind("grating", lambda v: gp.GratingParam(v, 5), 4, GV, NONE4,
                    NONE4, grating_structure(False), norm=np.sort),
    "grating-inv": Kind("grating-inv",
                        lambda v: gp.GratingParam(v, 5, inverted=True), 4, GV,
                        NONE4, NONE4, grating_structure(True), norm=np.sort),
}


def same_bounds(got, lower, upper):
    """Bounds agree; None, infinities and no bounds at all are the same."""
    def canon(seq, inf):
        return [inf if b is None else float(b) for b in seq]

    n = len(lower)
    gl, gu = ([None] * n, [None] * n) if got is None else got
    return (len(gl) == n and len(gu) == n and
            canon(gl, -np.inf) == canon(lower, -np.inf) and
            canon(gu, np.inf) == canon(upper, np.inf))


class Model:
    """Reference state of a list of leaf parametrizations."""

    def __init__(self, kinds):
        self.kinds = kinds
        self.v = [k.norm(k.vectors[0]) for k in kinds]
        self.k = [k.k0 for k in kinds]

    def vec(self):
        return np.concatenate(self.v)

    def split(self, v):
        cuts = np.cumsum([k.size for k in self.kinds])[:-1]
        return np.split(np.asarray(v, float), cuts)

    def decode(self, v):
        self.v = [k.norm(p) for k, p in zip(self.kinds, self.split(v))]

    def project(self):
        self.v = [k.project(p) for k, p in zip(self.kinds, self.v)]

    def structure(self, v=None):
        parts = self.v if v is None else self.split(v)
        return np.concatenate([
            k.structure(p, s) for k, p, s in zip(self.kinds, parts, self.k)
        ])

    def bounds(self):
        return (sum([list(k.lower) for k in self.kinds], []),
                sum([list(k.upper) for k in self.kinds], []))

    def jacobian(self):
        v = self.vec()
        h = 1e-6
        cols = []
        for e in np.eye(len(v)):
            cols.append((self.structure(v + h * e) -
                         self.structure(v - h * e)) / (2 * h))
        return np.array(cols).T


PROTO = {}


def build(kinds, nest):
    """A fresh object (constructing the matrices each time is slow)."""
    key = (tuple(k.name for k in kinds), nest)
    if key not in PROTO:
        PROTO.clear()
        PROTO[key] = build_new(kinds, nest)
    return copy.deepcopy(PROTO[key])


def build_new(kinds, nest):
    parts = [k.make(k.vectors[0]) for k in kinds]
    if nest == "leaf":
        return parts[0], parts
    if nest == "left" and len(parts) > 1:
        inner = cp.CompositeParam(parts[:-1])
        return cp.CompositeParam([inner, parts[-1]]), parts
    return cp.CompositeParam(parts), parts


def dense(jac, n, m):
    """The Jacobian through products from both sides, as the users do."""
    right = np.array([np.asarray(jac @ e).reshape(-1) for e in np.eye(n)]).T
    left = np.array([np.asarray(e @ jac).reshape(-1) for e in np.eye(m)])
    return right.reshape((m, n)), left.reshape((m, n))


def observe(ctx, what, p, model, full=True):
    v = model.vec()
    require(close(p.encode(), v), "encode",
            lambda: "{}: {} want {}".format(what, p.encode(), v))
    require(close(p.to_vector(), v), "to-vector",
            lambda: "{}: {} want {}".format(what, p.to_vector(), v))
    z = model.structure()
    require(close(p.get_structure(), z, 1e-7), "structure",
            lambda: "{}: {} want {}".format(what, p.get_structure(), z))
    require(same_bounds(p.get_bounds(), *model.bounds()), "bounds",
            lambda: "{}: {} want {}".format(what, p.get_bounds(),
                                            model.bounds()))
    ctx.step(4)
    if not full:
        return
    want = model.jacobian()
    jac = p.calculate_gradient()
    require(tuple(jac.shape) == want.shape, "jacobian-shape",
            lambda: "{}: {} want {}".format(what, jac.shape, want.shape))
    right, left = dense(jac, len(v), len(z))
    tol = 1e-5 * max(1.0, *[float(k or 0)**3 / 100 for k in model.k])
    for got in (right, left):
        require(np.all(np.isfinite(got)) and
                np.allclose(got, want, rtol=1e-4, atol=tol), "jacobian",
                lambda: "{}: {} want {}".format(what, got, want))
    ctx.step(2)


def ops_of(kinds):
    """All the operations on a list of leaves."""
    n = max(len(k.vectors) for k in kinds)
    out = []
    for i in range(n):
        out += [("decode", i), ("from_vector", i)]
    out += [("project", 0), ("reload", 0), ("copy", 0)]
    for i, k in enumerate(kinds):
        out += [("set_k", (i, s)) for s in k.ks]
    return out


def machine_cases(tier):
    out = []
    depth = 3 if tier == "quick" else 4
    for name in KINDS:
        for op in range(len(ops_of([KINDS[name]]))):
            out.append([[name], "leaf", depth, op])
    few = ["direct-mixed", "cubic-sym", "hermite-sym", "grating",
           "grating-inv", "direct-free"]
    for n in (1, 2, 3):
        names = few if n < 3 or tier != "quick" else few[:4]
        for combo in itertools.product(names, repeat=n):
            for nest in ("flat", "left") if n > (
                    2 if tier == "quick" else 1) else ("flat",):
                out.append([list(combo), nest, 2 if n < 3 else 1, -1])
    return out


@chk.section("histories", machine_cases,
             "leaf kinds and composites x all operation sequences")
def _(ctx, case):
    names, nest, depth, first = case
    kinds = [KINDS[n] for n in names]
    ops = ops_of(kinds)
    heads = [ops[first]] if first >= 0 else ops
    for seq in itertools.chain.from_iterable(
            itertools.product(heads, *[ops] * (d - 1))
            for d in ((depth,) if first >= 0 and depth > 1 else range(
                1, depth + 1))):
        run_history(ctx, case, kinds, nest, seq)
    ctx.state(case)


def run_history(ctx, case, kinds, nest, seq):
    p, parts = build(kinds, nest)
    model = Model(kinds)
    held = []
    observe(ctx, (case, "start"), p, model, full=False)
    for step, (op, arg) in enumerate(seq):
        what = (case[:2], seq[:step + 1])
        held.append((p.encode(), np.array(p.encode())))
        held.append((p.get_structure(), np.array(p.get_structure())))
        if op in ("decode", "from_vector"):
            v = np.concatenate(
                [k.vectors[(arg + (j if len(kinds) > 3 else 0)) %
                           len(k.vectors)] for j, k in enumerate(kinds)])
            keep = v.copy()
            getattr(p, op)(v)
            require(np.array_equal(v, keep), "argument-modified", str(what))
            model.decode(v)
            if op == "from_vector":
                model.project()
        elif op == "project":
            p.project()
            model.project()
        elif op == "copy":
            p.decode(p.encode())
        elif op == "set_k":
            parts[arg[0]].set_k(arg[1])
            model.k[arg[0]] = arg[1]
        elif op == "reload":
            data = p.serialize()
            # The fresh object starts from something else.
            other = Model(kinds)
            p, parts = build(kinds, nest)
            for q, k in zip(parts, kinds):
                q.decode(k.vectors[-1])
                if k.ks:
                    q.set_k(2)
            p.deserialize(data)
            model.project()
            del other
        last = step == len(seq) - 1
        observe(ctx, what, p, model, full=last)
        for a, b in held:
            require(np.array_equal(a, b), "earlier-result-modified",
                    str(what))
    ctx.run()
    ctx.state((case[:2], np.round(model.vec(), 6).tolist(), model.k))
    ctx.outcome(np.round(model.structure(), 6).tolist()[:4])


@chk.section("many-parts", lambda tier: [
    [n, a, b] for n in ((5, 8, 10, 11, 12, 13, 21) if tier == "quick" else
                        range(4, 31))
    for a in range(2) for b in range(2)],
             "composites of up to 21 (thorough 30) different parts: every pair "
             "of operations")
def _(ctx, case):
    n, a, b = case
    names = ["direct-mixed", "direct-free", "grating"]
    names = names if a else names[:2] + ["direct-mixed"]
    kinds = [KINDS[names[(i * i + b) % 3]] for i in range(n)]
    nest = "left" if b else "flat"
    ops = [("decode", 0), ("decode", 1), ("from_vector", 2), ("project", 0),
           ("reload", 0)]
    for seq in itertools.product(ops, repeat=2):
        run_history(ctx, case, kinds, nest, seq)


# ------------------------------------------------- special initial conditions


@chk.section("values", [
    [kind, init, k] for kind in ("cubic", "hermite")
    for init in ("float", "int", "vector", "full", "bad")
    for k in (4, 20, 400, 5000)
], "kinds of initial value x sigmoid strengths")
def _(ctx, case):
    kind, init, k = case
    hermite = kind == "hermite"
    cls = pz.HermiteParam if hermite else pz.CubicParam
    sym, per, pds = [1, 0], [0, 0], [0, 0]
    geo = ref_geometry([5, 4], sym, per, pds, hermite)
    cx, cy = np.arange(5.0) - 2, np.arange(4.0) - 1.5
    n = geo.shape[1]
    vec = 0.5 + 0.4 * np.cos(np.arange(n))
    # Derivatives on the mirror plane vanish and do not matter.
    if hermite:
        vec = vec * (np.abs(geo).sum(axis=0) > 0)
    val = {"float": 0.25, "int": 1, "vector": vec, "full": geo @ vec,
           "bad": np.zeros(n + 1)}[init]
    want = {"float": 0.25 * np.ones(n), "int": np.ones(n)}.get(init, vec)
    try:
        p = cls(val, cx, cy, cx, cy, sym, per, pds)
    except ValueError:
        require(init == "bad", "rejected", str(case))
        return
    require(init != "bad", "accepted", str(case))
    require(close(p.encode(), want), "initial-value",
            lambda: "{}: {} want {}".format(case, p.encode(), want))
    p.set_k(k)
    zc = (geo @ want)[:20]
    z = sigmoid(zc, k)
    # On the coarse points the structure takes the values of the vector.
    require(close(p.get_structure(), z, 1e-7), "structure",
            lambda: "{}: {} want {}".format(case, p.get_structure(), z))
    jac = p.calculate_gradient().toarray()
    g = 2 * k * z * (1 - z)
    got = np.array([jac[i] @ want for i in range(20)])
    require(np.all(np.isfinite(jac)), "gradient-not-finite",
            lambda: "{}: {}".format(case, jac))
    require(np.allclose(got, g * zc, rtol=1e-5, atol=1e-6), "jacobian",
            lambda: "{}: {} want {}".format(case, got, g * zc))
    ctx.run()
    ctx.state(case)
    ctx.outcome((case, np.round(z, 5).tolist()[:4]))


# -------------------------------------------- gratings and changing numbers


@chk.section("grating", lambda tier: [
    [n, inv, list(edges)] for n in (1, 3) for inv in (0, 1)
    for m in (0, 2, 4)
    for edges in itertools.combinations(
        [-0.5, 0.0, 0.25, 1.0, 1.5, 2.75, 3.0, 3.5], m)
], "pixels x inverted x all sets of edges on a lattice")
def _(ctx, case):
    n, inv, edges = case
    p = gp.GratingParam(np.array(edges)[::-1], n, inverted=bool(inv))
    require(close(p.encode(), edges), "edges", str(case))

    def ref(e):
        e = sorted(e)
        z = np.array([
            sum(max(0.0, min(b, i + 1) - max(a, i))
                for a, b in zip(e[0::2], e[1::2])) for i in range(n)
        ])
        return 1 - z if inv else z

    require(close(p.get_structure(), ref(edges)), "structure",
            lambda: "{}: {} want {}".format(case, p.get_structure(),
                                            ref(edges)))
    jac = np.asarray(p.calculate_gradient())
    require(jac.shape == (n, len(edges)), "jacobian-shape", str(case))
    h = 1e-6
    for j in range(len(edges)):
        e = list(edges)
        e[j] += h
        want = (ref(e) - ref(edges)) / h
        require(close(jac[:, j], want, 1e-6), "jacobian",
                lambda: "{} edge {}: {} want {}".format(
                    case, j, jac[:, j], want))
        ctx.step()
    # A composite follows a part whose number of parameters changed.
    empty = gp.GratingParam([], n)
    direct = pz.DirectParam([0.5, 0.25])
    comp = cp.CompositeParam([empty, direct])
    src = cp.CompositeParam([p, pz.DirectParam([0.75, 1.0])])
    comp.deserialize(src.serialize())
    require(close(comp.encode(), list(edges) + [0.75, 1.0]) and
            close(comp.get_structure(), src.get_structure()),
            "composite-reload", str(case))
    new = [x + 0.125 for x in edges] + [0.5, 0.125]
    comp.decode(np.array(new))
    src.decode(np.array(new))
    for q in (comp, src):
        require(close(q.encode(), new), "composite-decode",
                lambda: "{}: {} want {}".format(case, q.encode(), new))
        require(close(q.get_structure(),
                      np.concatenate([ref(new[:-2]), new[-2:]])),
                "composite-structure", str(case))
        g = q.calculate_gradient()
        require(tuple(g.shape) == (n + 2, len(new)), "composite-jacobian",
                str(case))
        require(close(np.asarray(g @ np.ones(len(new)))[-2:], [1, 1]) and
                len(q.get_bounds()[0]) == len(new), "composite-jacobian",
                str(case))
    q.from_vector(np.array(new))
    comp.from_vector(np.array(new))
    require(close(comp.to_vector(), q.to_vector()), "composite-from-vector",
            str(case))
    ctx.step(6)
    ctx.run()
    ctx.state(case)
    ctx.outcome((n, inv, np.round(ref(edges), 5).tolist()))


@chk.section("odd-edges", [[m] for m in (1, 3, 5)],
             "numbers of edges which do not form a grating")
def _(ctx, case):
    try:
        gp.GratingParam(np.arange(case[0]) * 1.0, 5)
    except ValueError:
        ctx.run()
        ctx.outcome(case)
        return
    vlib.fail("accepted", str(case))


if __name__ == "__main__":
    chk.main()
