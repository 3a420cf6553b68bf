"""P11: discrete Maxwell operators.

All operators are linear, so on a given grid they are decided completely by
their action on every unit vector, i.e. by their dense matrix.  For every grid
shape, spacing (uniform, non-uniform, complex), Bloch vector, material choice
and boundary mask of the enumerated space, the matrices of the real code are
compared with a reference built cell by cell from the definition of the Yee
grid, and the identities between the operators are checked on them.
"""
import itertools

import numpy as np

import vlib
from vlib import fail, require

vlib.import_spins()
from spins import fdfd_tools
from spins.fdfd_tools import functional, operators, vec, unvec
from spins.fdfd_tools import grid as fgrid
from spins.fdfd_tools import solvers

chk = vlib.Check(
    "P11", "exploration",
    assumptions=[
        "grids of up to 4x3x2 cells; each operator is linear, so all unit "
        "vectors decide it on a grid; cell sizes, materials and Bloch vectors "
        "from the enumerated sets"
    ])

SHAPES = sorted(set(itertools.permutations((4, 3, 2))) |
                set(itertools.permutations((3, 2, 1))) | {(2, 2, 2), (1, 1, 3),
                                                          (1, 4, 1), (3, 3, 1)})
SMALL = [(3, 2, 2), (2, 3, 1), (1, 2, 4), (2, 1, 3)]
SPACING = ["uniform", "nonuniform", "complex"]
BLOCH = [None, (0, 0, 0), (0.3, 0, 0), (0, -0.7, 0.2), (0.25, 0.5, -1)]


def spacing(shape, kind):
    out = []
    for h in range(2):
        row = []
        for a in range(3):
            n = shape[a]
            if kind == "uniform":
                d = np.full(n, [2.0, 0.5, 1.25][a])
            elif kind == "nonuniform":
                # dxes[1] is the distance between the centres of dxes[0].
                d = np.array([1 + 0.5 * i + 0.25 * a + 0.1 * i * i
                              for i in range(n)])
                if h:
                    d = (d + np.roll(d, 1)) / 2
            else:
                d = np.array([1 + 0.3 * i + 0.1 * a + (0.2 + 0.1 * i) * 1j * (1 + h)
                              for i in range(n)])
            row.append(d)
        out.append(row)
    return out


def cells(shape):
    return list(itertools.product(*[range(n) for n in shape]))


def index(shape, c, i):
    """Position of component c of cell i in a column-major flattened field."""
    return (c * shape[0] * shape[1] * shape[2] + i[0] + shape[0] *
            (i[1] + shape[1] * i[2]))


def ref_curl(shape, dx, sign, bloch=None):
    """Dense curl: forward (sign=1) or backward (-1) differences."""
    n = 3 * int(np.prod(shape))
    m = np.zeros((n, n), dtype=complex)
    k = (0, 0, 0) if bloch is None else bloch
    for i in cells(shape):
        for c in range(3):
            row = index(shape, c, i)
            for der, comp, s in (((c + 1) % 3, (c + 2) % 3, 1),
                                 ((c + 2) % 3, (c + 1) % 3, -1)):
                j = list(i)
                j[der] += sign
                phase = 1
                length = sum(dx[der])
                if j[der] == shape[der]:
                    j[der] = 0
                    phase = np.exp(-1j * k[der] * length)
                elif j[der] < 0:
                    j[der] = shape[der] - 1
                    phase = np.exp(1j * k[der] * length)
                w = s * sign / dx[der][i[der]]
                m[row, index(shape, comp, j)] += w * phase
                m[row, index(shape, comp, i)] -= w
    return m


def field(shape, kind):
    n = 3 * int(np.prod(shape))
    r = np.arange(n)
    if kind == "iso":
        return np.full(n, 2.25)
    if kind == "aniso":
        return 1 + (r * 7 % 11) / 4.0
    if kind == "lossy":
        return 1 + (r * 5 % 7) / 3.0 - 0.25j * (r % 3)
    return None


def mask(shape, kind):
    n = 3 * int(np.prod(shape))
    r = np.arange(n)
    if kind == "some":
        return (r * 3 % 5 == 0).astype(float)
    if kind == "one":
        return (r == n // 2).astype(int)
    if kind == "all":
        return np.ones(n, dtype=bool)
    return None


def dense(m):
    return np.asarray(m.todense())


def same(a, b, kind, what="", tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, "shape",
            lambda: "{} {}: {} want {}".format(kind, what, a.shape, b.shape))
    scale = 1 + np.max(np.abs(b)) if b.size else 1
    require(np.all(np.abs(a - b) <= tol * scale), kind,
            lambda: "{}: max error {} at {}".format(
                what, np.abs(a - b).max(),
                np.unravel_index(np.nanargmax(np.abs(a - b)), a.shape)))


def functional_matrix(fn, shape):
    n = 3 * int(np.prod(shape))
    cols = []
    for i in range(n):
        u = np.zeros(n, dtype=complex)
        u[i] = 1
        cols.append(vec(fn(unvec(u, shape))))
    return np.array(cols).T


@chk.section("curls", lambda tier: [[list(s), k, b] for s in SHAPES
                                    for k in SPACING for b in range(len(BLOCH))],
             "all grid shapes x 3 spacings x 5 Bloch vectors: curl matrices "
             "against cell-by-cell reference, functional form, div curl = 0, "
             "adjointness")
def curls(ctx, case):
    shape, kind, b = case
    bloch = BLOCH[b]
    dxes = spacing(shape, kind)
    keep = [[d.copy() for d in r] for r in dxes]
    bv = None if bloch is None else np.array(bloch)
    ce = dense(operators.curl_e(dxes, bv))
    ch = dense(operators.curl_h(dxes, bv))
    same(ce, ref_curl(shape, dxes[0], 1, bloch), "curl-e")
    same(ch, ref_curl(shape, dxes[1], -1, bloch), "curl-h")
    for r, q in zip(dxes, keep):
        for d, e in zip(r, q):
            require(np.array_equal(d, e), "input-modified")
    if bloch is None or not any(bloch):
        same(functional_matrix(functional.curl_e(dxes), shape), ce,
             "functional-curl-e")
        same(functional_matrix(functional.curl_h(dxes), shape), ch,
             "functional-curl-h")
    # The divergence of a curl vanishes.
    n = int(np.prod(shape))
    for c, dx, ders in ((ce, dxes[0], operators.deriv_forward_shift),
                        (ch, dxes[1], operators.deriv_back_shift)):
        d = ders(dx, bv)
        div = np.hstack([dense(x) for x in d])
        same(div @ c, np.zeros((n, 3 * n)), "div-curl")
    # Deprecated derivatives are the same operators.
    for new, old, dx in ((operators.deriv_forward_shift, operators.deriv_forward,
                          dxes[0]),
                         (operators.deriv_back_shift, operators.deriv_back,
                          dxes[1])):
        for x, y in zip(new(dx, bv), old(dx, bv)):
            if kind != "complex" or bloch is None or not any(bloch):
                same(dense(y), dense(x), "deprecated-derivative")
    # Adjointness: with the cell sizes as weights, curl_h = curl_e^H.
    if kind == "uniform":
        same(ch, ce.conj().T, "adjoint")
    elif bloch is None:
        we = np.ones(3 * n, dtype=complex)
        wh = np.ones(3 * n, dtype=complex)
        for c in range(3):
            for i in cells(shape):
                # Volume around an E component: e-size along it, h otherwise.
                r = index(shape, c, i)
                for a in range(3):
                    we[r] *= dxes[0 if a == c else 1][a][i[a]]
                    wh[r] *= dxes[1 if a == c else 0][a][i[a]]
        same(np.diag(we) @ ch, (np.diag(wh) @ ce).T, "adjoint")
    ctx.step(8)
    ctx.run(2 * 3 * n)
    ctx.outcome([shape, kind, b])


def wave_cases(tier):
    out = []
    shapes = SMALL if tier == "quick" else SMALL + [(4, 3, 2), (3, 3, 1)]
    for s in shapes:
        for k in SPACING:
            for e in ("iso", "aniso", "lossy"):
                for m in (None, "iso", "aniso"):
                    for pec in (None, "some", "one", "all"):
                        for pmc in (None, "some", "one"):
                            b = (len(e) + len(str(m)) + len(str(pec))) % 4
                            out.append([list(s), k, e, m, pec, pmc, b])
    return out


@chk.section("wave-operators", wave_cases,
             "4 grid shapes x 3 spacings x 3 permittivities x 3 permeabilities "
             "x 4 PEC masks x 3 PMC masks (x Bloch vectors): E, H and EH wave "
             "operators against the reference and against each other")
def wave(ctx, case):
    shape, kind, ek, mk, pec, pmc, b = case
    bloch = BLOCH[b]
    bv = None if bloch is None else np.array(bloch)
    omega = 0.8
    dxes = spacing(shape, kind)
    eps = field(shape, ek)
    mu = field(shape, mk)
    pe, pm = mask(shape, pec), mask(shape, pmc)
    n = eps.size
    PE = np.eye(n) if pe is None else np.diag(np.where(pe, 0, 1))
    PM = np.eye(n) if pm is None else np.diag(np.where(pm, 0, 1))
    mm = np.ones(n) if mu is None else mu
    CE = ref_curl(shape, dxes[0], 1, bloch)
    CH = ref_curl(shape, dxes[1], -1, bloch)
    kw = dict(mu=mu, pec=pe, pmc=pm, bloch_vec=bv)
    a = dense(operators.e_full(omega, dxes, eps, **kw))
    same(a, PE @ (CH @ PM @ np.diag(1 / mm) @ CE -
                  omega**2 * np.diag(eps)) @ PE, "e-full")
    h = dense(operators.h_full(omega, dxes, eps, **kw))
    same(h, PM @ (CE @ PE @ np.diag(1 / eps) @ CH -
                  omega**2 * np.diag(mm)) @ PM, "h-full")
    eh = dense(operators.eh_full(omega, dxes, eps, **kw))
    same(eh, np.block([[-1j * omega * PE @ np.diag(eps) @ PE, PE @ CH @ PM],
                       [PM @ CE @ PE, 1j * omega * PM @ np.diag(mm) @ PM]]),
         "eh-full")
    # The first-order system, with one field eliminated, is the other two.
    e2h = dense(operators.e2h(omega, dxes, mu=mu, pmc=pm, bloch_vec=bv))
    h2e = dense(operators.h2e(omega, dxes, eps, bloch_vec=bv))
    same(-1j * omega * (eh[:n, :n] + eh[:n, n:] @ e2h @ PE), a, "e-from-eh")
    same(1j * omega * (eh[n:, n:] + eh[n:, :n] @ h2e @ PM), h, "h-from-eh")
    m2j = dense(operators.m2j(omega, dxes, np.zeros(3) if bv is None else bv,
                              mu=mu))
    same(m2j, CH @ np.diag(1 / mm) / (1j * omega), "m2j")
    pl, pr = [dense(x) for x in operators.e_full_preconditioners(dxes)]
    same(pl @ pr, np.eye(n), "preconditioners-inverse")
    if bloch is None or not any(bloch):
        s = pl @ a @ pr
        if kind != "complex" or True:
            sym_ok = np.abs(s - s.T).max() <= 1e-9 * (1 + np.abs(s).max())
            require(sym_ok, "symmetric", lambda: str(np.abs(s - s.T).max()))
        if pe is None and pm is None:
            f3 = unvec(eps, shape)
            m3 = None if mu is None else unvec(mu, shape)
            same(functional_matrix(functional.e_full(omega, dxes, f3, m3),
                                   shape), a, "functional-e-full")
            same(functional_matrix(functional.e2h(omega, dxes, m3), shape), e2h,
                 "functional-e2h")
            fn = functional.eh_full(omega, dxes, f3, m3)
            cols = []
            for i in range(2 * n):
                u = np.zeros(2 * n, dtype=complex)
                u[i] = 1
                r = fn(unvec(u[:n], shape), unvec(u[n:], shape))
                cols.append(np.hstack([vec(r[0]), vec(r[1])]))
            same(np.array(cols).T, eh, "functional-eh-full")
    ctx.step(6)
    ctx.run(4 * n)
    ctx.outcome([shape, kind, ek, mk, pec, pmc])


@chk.section("solutions", lambda tier: [[list(s), k, e, m, adj] for s in SMALL
                                        for k in SPACING
                                        for e in ("aniso", "lossy")
                                        for m in (None, "aniso")
                                        for adj in (False, True)],
             "every unit source on small grids: the generic solver's answer "
             "solves the wave equation or its conjugate transpose, and with "
             "the H field derived from it the first-order equations")
def solutions(ctx, case):
    shape, kind, ek, mk, adj = case
    omega = 0.9
    dxes = spacing(shape, kind)
    eps, mu = field(shape, ek), field(shape, mk)
    n = eps.size
    a = dense(operators.e_full(omega, dxes, eps, mu=mu))
    eh = dense(operators.eh_full(omega, dxes, eps, mu=mu))
    e2h = dense(operators.e2h(omega, dxes, mu=mu))
    for i in range(0, n, 5):
        j = np.zeros(n, dtype=complex)
        j[i] = 1 + 0.5j
        x = solvers.generic(omega, dxes, j, eps, mu=mu, adjoint=adj,
                            matrix_solver=lambda A, b: np.linalg.solve(
                                A.toarray(), b))
        m = a.conj().T if adj else a
        same(m @ x, -1j * omega * j, "wave-equation", tol=1e-7)
        if not adj:
            r = eh @ np.hstack([x, e2h @ x])
            same(r, np.hstack([j, 0 * j]), "first-order", tol=1e-7)
        ctx.step()
    ctx.run()
    ctx.outcome(case)


@chk.section("vectorization", lambda tier: [list(s) for s in
                                            itertools.product((1, 2, 3),
                                                              repeat=3)],
             "flattening and unflattening on all shapes up to 3x3x3 and their "
             "1-d and 2-d projections, every unit vector")
def vectorization(ctx, shape):
    require(vec(None) is None and unvec(None, shape) is None, "none")
    for sh in (shape, shape[:2], shape[:1]):
        n = int(np.prod(sh))
        v = np.arange(3 * n) * (1 + 2j)
        f = unvec(v, sh)
        require(len(f) == 3 and all(x.shape == tuple(sh) for x in f), "shape")
        require(np.array_equal(vec(f), v), "round-trip", str(sh))
        require(np.array_equal(vec(np.array(f)), v), "round-trip-array")
        for c in range(3):
            for i in itertools.product(*[range(k) for k in sh]):
                ii = list(i) + [0] * (3 - len(sh))
                ss = list(sh) + [1] * (3 - len(sh))
                require(f[c][i] == v[index(ss, c, ii)], "order", str((c, i)))
                ctx.step()
    ctx.run()
    ctx.outcome(shape)


@chk.section("shifts", lambda tier: [[list(s), a] for s in SHAPES
                                     for a in range(3)],
             "shift, average and mirror operators on all grid shapes; plane "
             "waves through Bloch boundaries with sheared lattice vectors")
def shifts(ctx, case):
    shape, axis = case
    n = int(np.prod(shape))
    f = (np.arange(n) * (1 - 0.5j) + 1).reshape(shape, order="F")
    v = f.flatten(order="F")

    def app(m):
        return np.asarray(m @ v).reshape(shape, order="F")

    for d in (1, -1):
        same(app(operators.rotation_bloch_shift(axis, shape, d)),
             np.roll(f, -d, axis), "rotation")
        for ph in (0, 0.7):
            want = np.roll(f, -d, axis).astype(complex)
            sl = [slice(None)] * 3
            sl[axis] = shape[axis] - 1 if d == 1 else 0
            want[tuple(sl)] *= np.exp(-1j * d * ph)
            p3 = np.zeros(3)
            p3[axis] = ph
            same(app(operators.rotation_bloch_shift(axis, shape, d, p3)), want,
                 "bloch-rotation")
            same(app(operators.rotation_bloch(axis, shape, ph, d)), want,
                 "bloch-rotation-old")
    same(app(operators.avgf(axis, shape)), (f + np.roll(f, -1, axis)) / 2,
         "average-forward")
    same(app(operators.avgb(axis, shape)), (f + np.roll(f, 1, axis)) / 2,
         "average-backward")
    for d in range(1, shape[axis]):
        for s in (d, -d):
            idx = []
            for i in range(shape[axis]):
                j = i + s
                if j >= shape[axis]:
                    j = 2 * shape[axis] - 1 - j
                if j < 0:
                    j = -1 - j
                idx.append(j)
            same(app(operators.shift_with_mirror(axis, shape, s)),
                 np.take(f, idx, axis), "mirror", str(s))
            ctx.step()
    # A plane wave keeps its shape across a boundary, also with a shear.
    dx = [np.full(m, h) for m, h in zip(shape, (2.0, 0.5, 1.25))]
    k = np.array([0.3, -0.8, 0.45])
    pos = np.meshgrid(*[np.arange(m) * d[0] for m, d in zip(shape, dx)],
                      indexing="ij")
    wave = np.exp(-1j * sum(kk * p for kk, p in zip(k, pos)))
    for other in range(3):
        for s in (-1, 0, 1, 2):
            if other == axis and s:
                continue
            if abs(s) > shape[other]:
                continue
            sh = np.zeros((3, 3))
            sh[axis, other] = s
            for ders, d in ((operators.deriv_forward_shift, 1),
                            (operators.deriv_back_shift, -1)):
                m = ders(dx, k, sh)[axis]
                got = np.asarray(m @ wave.flatten(order="F")).reshape(
                    shape, order="F")
                want = d * (np.exp(-1j * d * k[axis] * dx[axis][0]) -
                            1) / dx[axis][0] * wave
                same(got, want, "plane-wave", str((other, s, d)))
                ctx.step()
            dxes = [dx, dx]
            ce = dense(operators.curl_e(dxes, k, sh))
            ch = dense(operators.curl_h(dxes, k, sh))
            same(ch, ce.conj().T, "adjoint-shear", str((other, s)))
    bad = np.zeros((3, 3))
    bad[axis, axis] = 1
    try:
        operators.rotation_bloch_shift(axis, shape, 1, np.zeros(3), bad[axis])
        fail("shear-along-axis-accepted")
    except ValueError:
        pass
    ctx.step(8)
    ctx.run()
    ctx.outcome(case)


@chk.section("poynting", lambda tier: [[list(s), k] for s in
                                       ([(3, 2, 2), (2, 3, 1), (1, 2, 4)]
                                        if tier == "quick" else SHAPES)
                                       for k in SPACING[:2]],
             "Poynting operators on every pair of unit fields: definition, "
             "both forms agree, and (uniform grid) the lattice Poynting "
             "theorem")
def poynting(ctx, case):
    shape, kind = case
    dxes = spacing(shape, kind)
    n = int(np.prod(shape))
    da = np.meshgrid(*dxes[0], indexing="ij")
    db = np.meshgrid(*dxes[1], indexing="ij")
    ce, ch = functional.curl_e(dxes), functional.curl_h(dxes)
    vol = da[0] * da[1] * da[2]
    fields = [(np.arange(3 * n) * 7 % 13 - 5) * (1 + 0.3j),
              (np.arange(3 * n) * 5 % 11 - 4) * (0.5 - 1j)]
    pairs = [(fields[0], fields[1])]
    for i in range(3 * n):
        for j in range(3 * n):
            e = np.zeros(3 * n, dtype=complex)
            h = np.zeros(3 * n, dtype=complex)
            e[i] = 2 - 1j
            h[j] = 1 + 1j
            pairs.append((e, h))

    def f(x, a):
        return (x + np.roll(x, -1, a)) / 2

    def b(x, a):
        return (x + np.roll(x, 1, a)) / 2

    last = None
    for e, h in pairs:
        if last is None or not np.array_equal(last, e):
            last = e
            oe = operators.poynting_chew_e_cross(e, dxes)
            pe = operators.poynting_e_cross(e, dxes)
        E, H = unvec(e, shape), unvec(h, shape)
        s = unvec(oe @ np.conj(h), shape)
        Hc = [np.conj(x) for x in H]
        for a in range(3):
            p, q = (a + 1) % 3, (a + 2) % 3
            want = da[p] * da[q] * (np.roll(E[p], -1, a) * Hc[q] -
                                    np.roll(E[q], -1, a) * Hc[p])
            same(s[a], want, "chew", str(a))
        if kind == "uniform":
            div = sum((s[a] - np.roll(s[a], 1, a)) / (da[(a + 1) % 3] *
                                                      da[(a + 2) % 3] * da[a])
                      for a in range(3))
            want = sum(x * y for x, y in zip(Hc, ce(E))) - sum(
                x * y for x, y in zip(E, ch(Hc)))
            same(div, want, "poynting-theorem")
        s2 = unvec(pe @ h, shape)
        for a in range(3):
            p, q = (a + 1) % 3, (a + 2) % 3
            want = f(E[p] * da[p] * b(db[q] * H[q], p), a) - f(
                E[q] * da[q] * b(db[p] * H[p], q), a)
            same(s2[a], want, "e-cross", str(a))
        ctx.step(2)
    hs = [fields[1]] + [np.eye(3 * n)[j] * (1 - 2j) for j in range(3 * n)]
    for h in hs:
        oh = dense(operators.poynting_chew_h_cross(h, dxes))
        ph = dense(operators.poynting_h_cross(h, dxes))
        H = unvec(h, shape)
        for i in range(3 * n):
            e = np.zeros(3 * n)
            e[i] = 1
            oe = operators.poynting_chew_e_cross(e, dxes)
            same(-np.conj(oh) @ e, oe @ np.conj(h), "chew-forms")
            E = unvec(e, shape)
            s2 = unvec(ph @ e, shape)
            for a in range(3):
                p, q = (a + 1) % 3, (a + 2) % 3
                want = b(db[p] * H[p] * f(da[q] * E[q], a), q) - b(
                    db[q] * H[q] * f(da[p] * E[p], a), p)
                same(s2[a], want, "h-cross", str(a))
            ctx.step()
        c = dense(operators.vec_cross(h))
        e = fields[0]
        E = unvec(e, shape)
        got = unvec(c @ e, shape)
        for a in range(3):
            p, q = (a + 1) % 3, (a + 2) % 3
            same(got[a], H[p] * E[q] - H[q] * E[p], "vec-cross")
    ctx.run(len(pairs))
    ctx.outcome(case)


# --------------------------------------------------------------------------
# Grids and absorbing layers


@chk.section("pml", lambda tier: [[list(p), k] for p in itertools.product(
    (0, 1, 2), repeat=6) for k in ((0,) if tier == "quick" and sum(p) > 4 else
                                   (0, 1))] + [["int", t] for t in (0, 1, 2)] +
             [["none", 0]],
             "every combination of 0, 1 or 2 absorbing layers on the six "
             "sides of a grid: cells outside the layers keep their size, "
             "cells inside keep the real part and gain absorption that grows "
             "outwards; the input is not modified")
def pml(ctx, case):
    p, k = case
    shape = (5, 6, 7)
    dxes = [[np.full(shape[a], 2.0) if not (k == 1 and p not in ("int", "none"))
             else np.array([1.0 + 0.25 * i for i in range(shape[a])])
             for a in range(3)] for _ in range(2)]
    keep = [[d.copy() for d in r] for r in dxes]
    if p == "int":
        layers, arg = [k] * 6, k
    elif p == "none":
        layers, arg = [0] * 6, None
    else:
        layers, arg = p, p
    omega = 1.5
    out = fgrid.apply_scpml(dxes, arg, omega)
    for r, q in zip(dxes, keep):
        for d, e in zip(r, q):
            require(np.array_equal(d, e), "input-modified")
    for h in range(2):
        for a in range(3):
            lo, hi = layers[2 * a], layers[2 * a + 1]
            got = np.asarray(out[h][a])
            n = shape[a]
            inner = slice(lo, n - hi)
            require(vlib.close(got[inner], keep[h][a][inner]), "outside-layers",
                    lambda: "{} {}".format(layers, got))
            require(vlib.close(np.real(got), keep[h][a]), "real-part",
                    lambda: "{} {}".format(layers, got))
            loss = -np.imag(got) / keep[h][a]
            # The half-step cell on the inner boundary of a layer may be zero.
            for layer in (loss[:lo][::-1], loss[n - hi:]):
                prev = -1e-30
                for x in layer:
                    require(x > prev or (x == 0 and prev < 0), "absorption",
                            lambda: "{} {}".format(layers, got))
                    prev = x
            if lo or hi:
                if h == 0:
                    require(np.all(loss[:lo] > 0) and np.all(loss[n - hi:] > 0),
                            "absorption", lambda: str(got))
    ctx.step()
    ctx.run()
    ctx.outcome(layers)


@chk.section("pml-strength", lambda tier: [[a, pol, t] for a in range(3)
                                           for pol in (-1, 1)
                                           for t in (0, 1, 2, 3, 5)],
             "a single layer of every thickness on every side: strength as "
             "documented (polynomial profile, scaled by frequency and "
             "permittivity)")
def pml_strength(ctx, case):
    a, pol, t = case
    shape = (6, 7, 8)
    for omega, eps, ln_r, m in ((1.0, 1.0, -16, 4), (0.4, 2.25, -10, 3)):
        dxes = [[np.full(n, 2.0) for n in shape] for _ in range(2)]
        kw = {}
        if m != 4:
            kw["s_function"] = fgrid.prepare_s_function(ln_R=ln_r, m=m)
        out = fgrid.stretch_with_scpml(dxes, a, pol, omega, eps, t, **kw)
        n = shape[a]
        for h in range(2):
            for b in range(3):
                want = np.full(shape[b], 2.0, dtype=complex)
                if b == a:
                    for i in range(n):
                        x = i + 0.5 if h == 0 else i
                        d = (t - x) if pol > 0 else (x - (n - t))
                        ok = i < t if pol > 0 else i >= n - t
                        if ok and d > 0:
                            s = (m + 1) * ln_r / 2 * (d / t)**m
                            want[i] *= 1 + 1j * s / (2.0 * t) / (
                                np.sqrt(eps) * omega)
                require(vlib.close(out[h][b], want), "strength",
                        lambda: "axis {}: {} want {}".format(b, out[h][b], want))
        ctx.step()
    ctx.run()
    ctx.outcome(case)


@chk.section("uniform-pml", lambda tier: [list(t) for t in itertools.product(
    (0, 1, 2, 3), repeat=3)],
             "uniform grids with layers on both sides of each axis")
def uniform_pml(ctx, th):
    shape = (7, 8, 9)
    out = fgrid.uniform_grid_scpml(shape, th, 1.5)
    for h in range(2):
        for a in range(3):
            d = out[h][a]
            n, t = shape[a], th[a]
            require(len(d) == n and np.allclose(np.real(d), 1), "real-part")
            im = np.imag(d)
            require(np.all(im[t:n - t] == 0), "outside-layers", str(d))
            require(np.all(im[:t] < 0) and np.all(np.diff(im[:t]) > 0),
                    "absorption", str(d))
            require(np.all(im[n - t + 1 - h:] < 0), "absorption", str(d))
    ctx.step()
    ctx.run()
    ctx.outcome(th)


@chk.section("periodic-dx", lambda tier: [0, 1, 2],
             "cell widths of a periodic grid from its grid lines")
def periodic_dx(ctx, k):
    pos = [[0, 1, 2, 3, 4], [0, 0.5, 2, 3], [-1, 0.25, 1, 4]]
    pos = pos[k:] + pos[:k]
    a, b = fgrid.generate_periodic_dx(pos)
    for i in range(3):
        d = np.diff(pos[i])
        require(vlib.close(a[i], d), "cell-sizes")
        require(vlib.close(b[i], (d + np.append(d[1:], d[0])) / 2),
                "centre-distances", str(b[i]))
    ctx.step()
    ctx.run()
    ctx.outcome(k)


def mesh_cases(tier):
    borders = [(-20, 20), (0, 30), (5, 30), (-30, -2)]
    boxes = [[], [0], [1], [0, 1], [2], [1, 2]]
    out = []
    for b3 in itertools.product(range(len(borders)), repeat=3):
        for bx in range(len(boxes)):
            if tier == "quick" and (sum(b3) + bx) % 3:
                continue
            out.append([list(b3), boxes[bx]])
    return out


@chk.section("nonuniform-grid", mesh_cases,
             "borders of four kinds per axis x sets of refinement boxes: grid "
             "lines span the borders, increase, and nowhere exceed the mesh "
             "size allowed there")
def nonuniform_grid(ctx, case):
    b3, bx = case
    borders = [(-20, 20), (0, 30), (5, 30), (-30, -2)]
    all_boxes = [
        dict(pos=[0, 2, 8], size=[6, 8, 4], meshsize=[1.5, 2, 1.25]),
        dict(pos=[10, -4, -10], size=[4, 6, 6], meshsize=[2.5, 1.5, 2]),
        dict(pos=[25, 0, 20], size=[8, 60, 10], meshsize=[2, 2, 3]),
    ]
    default = [6, 4, 5]
    sim = [v for k in b3 for v in borders[k]]
    xs = fgrid.make_nonuniform_grid(sim, default, [all_boxes[i] for i in bx],
                                    step=0.5)
    for a in range(3):
        g = np.asarray(xs[a])
        lo, hi = borders[b3[a]]
        require(abs(g[0] - lo) < 1e-9 and abs(g[-1] - hi) < 1e-9, "borders",
                lambda: "axis {}: {} .. {} want {} .. {}".format(
                    a, g[0], g[-1], lo, hi))
        d = np.diff(g)
        require(np.all(d > 0), "increasing")
        require(np.all(d <= default[a] + 1e-9), "default-size",
                lambda: "axis {}: {} > {}".format(a, d.max(), default[a]))
        for i in bx:
            b = all_boxes[i]
            b0 = b["pos"][a] - b["size"][a] / 2
            b1 = b["pos"][a] + b["size"][a] / 2
            # Rescaling moves lines by less than a cell: leave that margin.
            m = default[a]
            inside = (g[:-1] >= b0 + m) & (g[1:] <= b1 - m)
            require(np.all(d[inside] <= b["meshsize"][a] + 1e-9), "box-size",
                    lambda: "axis {}: {}".format(a, d[inside]))
        ctx.outcome(len(g))
    ctx.step()
    ctx.run()


if __name__ == "__main__":
    chk.main()
