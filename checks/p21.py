"""P21: sources launch, and overlaps measure, exactly what they are set to.

The real mode solver, source and overlap builders and the real direct solver
run on every combination of a finite set of axes, directions, modes, angles,
cross-sections, cell sizes and powers.  The reference is physics computed here
with plain numpy: discrete Maxwell equations of a waveguide cross-section, the
complete list of its eigenvalues, and the Poynting flux of the simulated fields
on both sides of a source.
"""
import itertools
import os

import gdspy
import numpy as np
import scipy.io
import scipy.sparse.linalg
import vlib
from vlib import require

chk = vlib.Check("P21", "exploration", assumptions=[
    "real permittivities", "at most 40 cells along the propagation direction",
    "flux tolerances of 10 % of the power asked for account for the "
    "discretization"])

vlib.import_spins()
from spins import fdfd_tools, goos, gridlock
from spins.fdfd_solvers import dipole, local_matrix_solvers, waveguide_mode
from spins.fdfd_tools import free_space_sources, unvec, vec
from spins.goos_sim import maxwell
from spins.invdes.problem_graph import optplan, simspace
from spins.invdes.problem_graph import creator_em

SOLVER = local_matrix_solvers.DirectSolver()


# ------------------------------------------------------------ reference physics


def diff(f, d, axis, forward):
    """Periodic finite difference along an axis with spacing `d`."""
    sh = [1] * f.ndim
    sh[axis] = -1
    if forward:
        return (np.roll(f, -1, axis) - f) / np.reshape(d, sh)
    return (f - np.roll(f, 1, axis)) / np.reshape(d, sh)


def ref_h(E, dxes, omega, bloch=(0, 0, 0)):
    """H = curl E / (-i omega) with Bloch-periodic boundaries."""

    def D(c, a):
        f = E[c]
        n = f.shape[a]
        nxt = np.roll(f, -1, a)
        sl = [slice(None)] * 3
        sl[a] = n - 1
        nxt[tuple(sl)] *= np.exp(-1j * bloch[a] * np.sum(np.real(dxes[0][a])))
        sh = [1] * 3
        sh[a] = -1
        return (nxt - f) / np.reshape(dxes[0][a], sh)

    return [(D((i + 2) % 3, (i + 1) % 3) - D((i + 1) % 3, (i + 2) % 3)) /
            (-1j * omega) for i in range(3)]


def flux(E, H, dxes, axis, ind):
    """Time-averaged power through the plane `ind` of the grid."""
    b, c = (axis + 1) % 3, (axis + 2) % 3
    sl = [slice(None)] * 3
    sl[axis] = ind

    def at(f):
        return f[tuple(sl)]

    def mid(f):
        return at(0.5 * (f + np.roll(f, 1, axis)))

    rest = [a for a in range(3) if a != axis]

    def w(v, a):
        return np.reshape(v, [-1 if a == o else 1 for o in rest])

    S = (at(E[b]) * np.conj(mid(H[c])) * w(dxes[0][b], b) * w(dxes[1][c], c) -
         at(E[c]) * np.conj(mid(H[b])) * w(dxes[0][c], c) * w(dxes[1][b], b))
    return 0.5 * np.real(np.sum(S))


def make_dxes(shape, dx, kind, axis):
    """Cell sizes; `graded` varies them in the cross-section."""
    e, h = [], []
    for a in range(3):
        d = np.full(shape[a], float(dx))
        if kind == "graded" and a != axis:
            d = d * (1 + 0.1 * np.cos(np.arange(shape[a]) * 1.3 + a))
        e.append(d)
        h.append((d + np.roll(d, 1)) / 2)
    return [e, h]


def structure(shape, axis, kind):
    """Translation-invariant waveguides along `axis`."""
    b, c = (axis + 1) % 3, (axis + 2) % 3
    eps = np.full([3] + list(shape), 2.25)

    def box(lo, hi, v):
        sl = [slice(None)] * 4
        for a, l, u in zip((b, c), lo, hi):
            if shape[a] > 1:
                sl[a + 1] = slice(l, u)
        eps[tuple(sl)] = v

    n, m = shape[b], shape[c]
    if n == 1:
        n = m
    if kind == "slab":
        box([n // 2 - 2, m // 2 - 2], [n // 2 + 2, m // 2 + 2], 12.25)
    elif kind == "offset":
        box([2, 1], [n // 2, max(m - 2, 2)], 9.0)
        box([n // 2, 1], [n // 2 + 2, max(m - 3, 2)], 4.0)
    elif kind == "pair":
        box([3, 0], [7, m], 12.25)
        box([n - 7, 0], [n - 4, m], 12.25)
    return eps


def lay(axis, n, cross):
    shape = [0, 0, 0]
    shape[axis] = n
    shape[(axis + 1) % 3], shape[(axis + 2) % 3] = cross
    return shape


# ------------------------------------------------------------------------ modes

CROSS = [(26, 1), (1, 28), (6, 5)]


# Unitary combinations of two equal modes.
MIXES = [
    [[np.cos(a), -np.sin(a) * np.exp(-1j * p)],
     [np.sin(a) * np.exp(1j * p), np.cos(a)]]
    for a in (0, np.pi / 4, np.pi / 3) for p in (0, np.pi / 4, np.pi / 2)
    if a or not p
]


@chk.section("modes", lambda tier: [
    [axis, pol, list(cross), kind, dxk, scale, mode]
    for axis in range(3) for pol in (1, -1) for cross in
    (CROSS if tier == "quick" else CROSS + [(1, 40), (7, 6), (5, 9)])
    for kind in ("slab", "offset") for dxk in ("uniform", "graded")
    for scale in ((40.0,) if tier == "quick" else (40.0, 1e-3, 1.0))
    for mode in ((0, 1) if tier == "quick" else (0, 1, 2))
], "mode solver: discrete Maxwell equations of the cross-section, and the "
             "mode asked for among all of them")
def _(ctx, case):
    axis, pol, cross, kind, dxk, scale, mode = case
    shape = lay(axis, 3, cross)
    eps = structure(shape, axis, kind)
    dxes = make_dxes(shape, scale, dxk, axis)
    omega = 2 * np.pi / (1550 * scale / 40)
    slices = [slice(0, s) for s in shape]
    slices[axis] = slice(1, 2)
    res = waveguide_mode.solve_waveguide_mode(
        mode, omega, dxes, axis, pol, slices, list(eps),
        wavenumber_correction=False)
    beta = res["wavenumber"]
    E, H = np.array(res["E"]), np.array(res["H"])
    # Nothing outside of the slice.
    mask = np.ones(shape, bool)
    mask[tuple(slices)] = False
    require(not np.any(E[:, mask]) and not np.any(H[:, mask]), "outside",
            str(case))
    # Rotate so that the propagation axis comes last.
    order = [(axis + 1) % 3, (axis + 2) % 3, axis]
    e = [E[i][tuple(slices)].transpose(order)[:, :, 0] for i in order]
    h = [H[i][tuple(slices)].transpose(order)[:, :, 0] for i in order]
    ep = [eps[i][tuple(slices)].transpose(order)[:, :, 0] for i in order]
    de = [dxes[0][i] for i in order[:2]]
    dh = [dxes[1][i] for i in order[:2]]
    # H is half a cell ahead.
    shift = np.exp(1j * pol * 0.5 * beta * dxes[0][axis][1])
    h = [x * shift for x in h]
    k = -1j * pol * beta
    ce = [diff(e[2], de[1], 1, True) - k * e[1],
          k * e[0] - diff(e[2], de[0], 0, True),
          diff(e[1], de[0], 0, True) - diff(e[0], de[1], 1, True)]
    ch = [diff(h[2], dh[1], 1, False) - k * h[1],
          k * h[0] - diff(h[2], dh[0], 0, False),
          diff(h[1], dh[0], 0, False) - diff(h[0], dh[1], 1, False)]
    he = max(np.max(np.abs(x)) for x in h) * omega
    ee = max(np.max(np.abs(x)) for x in e) * omega
    for i in range(3):
        require(np.max(np.abs(ce[i] + 1j * omega * h[i])) < 1e-5 * he,
                "faraday", lambda: "{} {}".format(case, i))
        require(np.max(np.abs(ch[i] - 1j * omega * ep[i] * e[i])) <
                1e-5 * ee * 12, "ampere", lambda: "{} {}".format(case, i))
    # Of all the modes, the one asked for.
    n = e[0].size

    def op(v):
        hx, hy = v[:n].reshape(e[0].shape), v[n:].reshape(e[0].shape)
        cz = (diff(hy, dh[0], 0, False) - diff(hx, dh[1], 1, False)) / ep[2]
        dv = diff(hx, de[0], 0, True) + diff(hy, de[1], 1, True)
        ox = omega**2 * ep[1] * hx - ep[1] * diff(cz, de[1], 1, True) + diff(
            dv, dh[0], 0, False)
        oy = omega**2 * ep[0] * hy + ep[0] * diff(cz, de[0], 0, True) + diff(
            dv, dh[1], 1, False)
        return np.concatenate([ox.ravel(), oy.ravel()])

    A = np.array([op(v) for v in np.eye(2 * n)]).T
    w = np.sort(np.real(np.linalg.eigvals(A)))[::-1]
    require(abs(beta**2 - w[mode]) < 1e-6 * abs(w[0]), "mode-number",
            lambda: "{}: {} of {}".format(case, beta**2, w[:4]))
    require(np.real(beta) > 0, "wavenumber-sign", str(case))
    # The power of the mode.
    pw = 0.5 * np.real(np.sum(
        e[0] * np.conj(h[1]) * np.outer(de[0], dh[1]) -
        e[1] * np.conj(h[0]) * np.outer(dh[0], de[1])))
    require(abs(pw * pol - 1) < 0.15, "mode-power", lambda: "{}: {}".format(
        case, pw))
    ctx.run()
    ctx.step()
    ctx.state(case)
    ctx.outcome((case, round(float(np.real(beta)) * scale, 6)))


@chk.section("lossy-modes", lambda tier: [
    [axis, pol, list(cross), loss] for axis in range(3) for pol in (1, -1)
    for cross in CROSS for loss in (1e-3, 1e-2)
], "slightly absorbing waveguides have the modes of the lossless one")
def _(ctx, case):
    axis, pol, cross, loss = case
    shape = lay(axis, 3, cross)
    eps = structure(shape, axis, "offset")
    dxes = make_dxes(shape, 40.0, "uniform", axis)
    slices = [slice(0, s) for s in shape]
    slices[axis] = slice(1, 2)
    out = []
    for e in (eps, eps * (1 - 1j * loss)):
        r = waveguide_mode.solve_waveguide_mode(
            0, 2 * np.pi / 1550, dxes, axis, pol, slices, list(e))
        out.append((r["wavenumber"], np.array(r["E"]).ravel()))
    (k0, e0), (k1, e1) = out
    s = abs(np.vdot(e0, e1)) / np.linalg.norm(e0) / np.linalg.norm(e1)
    require(abs(k1 - k0) < 2 * loss * abs(k0) and s > 0.999, "lossy",
            lambda: "{}: {} {} {}".format(case, k0, k1, s))
    ctx.run()
    ctx.state(case)
    ctx.outcome((case, round(float(np.real(k1)), 9)))


# ------------------------------------------------------------- mode sources

PML = 8


def simulate(shape, dxes, omega, J, eps, axis, bloch=(0, 0, 0), pml=PML):
    P = [0] * 6
    P[2 * axis] = P[2 * axis + 1] = pml
    x = SOLVER.solve(omega=omega, dxes=dxes, J=vec(list(J)),
                     epsilon=vec(list(eps)), pml_layers=P,
                     bloch_vec=np.array(bloch, float))
    return unvec(x, shape)


def launch(case, shape, axis, pol, ind, E, dxes, omega, power, ctx,
           bloch=(0, 0, 0), tol=0.1, back=0.01, pml=PML):
    """Requires the flux on the two sides of a source at the plane `ind`."""
    H = ref_h(E, dxes, omega, bloch)
    n = shape[axis]
    for i in range(pml + 1, n - pml - 1):
        side = (i - ind) * pol
        p = pol * flux(E, H, dxes, axis, i)
        if side > 2:
            require(abs(p - power) <= tol * power, "forward-power",
                    lambda: "{}: plane {}: {} for {}".format(
                        case, i, p, power))
        elif side < -2:
            require(abs(p) <= back * power, "backward-power",
                    lambda: "{}: plane {}: {} for {}".format(
                        case, i, p, power))
        ctx.step()


@chk.section("uniform-media", lambda tier: [
    [axis, n, h, q, om] for axis in range(3) for n in (
        (25, 32, 40) if tier == "quick" else (25, 26, 32, 40, 50, 64))
    for h in (1.0, 2.0**-10, 1e-3, 25e-9, 40e-9, 40.0)
    for q in (1.0, 2.25, 4.0) for om in (0.25, 0.5)
], "the mode of a homogeneous cross-section is a plane wave, in every unit")
def _(ctx, case):
    axis, n, h, q, om = case
    cross = [n, 1] if (n + axis) % 2 else [1, n]
    shape = lay(axis, 5, cross)
    eps = [np.full(shape, q)] * 3
    dx = [np.full(s, h) for s in shape]
    slices = [slice(0, s) for s in shape]
    slices[axis] = slice(2, 3)
    r = waveguide_mode.solve_waveguide_mode(
        0, om / h, [dx, dx], axis, 1, slices, eps, wavenumber_correction=False)
    require(abs(r["wavenumber"] * h - om * np.sqrt(q)) < 1e-6, "plane-wave",
            lambda: "{}: {}".format(case, r["wavenumber"] * h))
    C = np.array(waveguide_mode.build_overlap(
        om / h, [dx, dx], eps, mu=None, mode_num=0, power=1.0, polarity=1,
        axis=axis, waveguide_slice=slices))
    used = np.flatnonzero(np.any(np.abs(C) > 0, axis=tuple(
        a for a in range(4) if a != axis + 1)))
    require(np.all(np.isfinite(C)) and used.size, "finite-overlap", str(case))
    # Neither component varies over the cross-section.
    for c in C:
        v = c.take(used, axis=axis)
        require(np.max(np.abs(v - np.mean(v, axis=tuple(
            a for a in range(3) if a != axis), keepdims=True))) <
                1e-4 * np.max(np.abs(C)), "plane-wave-shape", str(case))
    ctx.run()
    ctx.step()
    ctx.state(case)
    ctx.outcome(case)


@chk.section("degenerate-modes", lambda tier: [
    [axis, n, q, om, mode, mix] for axis in range(3) for n in (25, 32, 40)
    for q in (1.0, 2.25, 4.0) for om in (0.25, 0.5) for mode in (0, 1)
    for mix in range(len(MIXES))
], "equal modes: every basis the eigensolver may return gives the mode")
def _(ctx, case):
    axis, n, q, om, mode, mix = case
    h = 1.0
    cross = [n, 1] if (n + axis) % 2 else [1, n]
    shape = lay(axis, 3, cross)
    eps = [np.full(shape, q)] * 3
    dx = [np.full(s, h) for s in shape]
    slices = [slice(0, s) for s in shape]
    slices[axis] = slice(1, 2)
    real = scipy.sparse.linalg.eigs
    mixed = []

    def eigs(A, *args, **kwargs):
        # Any orthonormal basis of an eigenspace is a correct answer.
        w, v = real(A, *args, **dict(
            kwargs, v0=np.cos(np.arange(1, A.shape[0] + 1)**2 * 1.0)))
        v = np.array(v, complex)
        at = np.argsort(-np.real(w))[:2]
        if abs(w[at[0]] - w[at[1]]) < 1e-8 * abs(w[at[0]]):
            u, _ = np.linalg.qr(v[:, at])
            # Real basis of the eigenspace first, then the mix.
            b, sv, _ = np.linalg.svd(np.hstack([u.real, u.imag]),
                                     full_matrices=False)
            b = b[:, :2]
            if np.max(np.abs(A @ b - np.real(w[at[0]]) * b)) < 1e-8 * abs(
                    w[at[0]]):
                v[:, at] = b @ np.array(MIXES[mix])
                mixed.append(1)
        return w, v

    scipy.sparse.linalg.eigs = eigs
    try:
        r = waveguide_mode.solve_waveguide_mode(
            mode, om / h, [dx, dx], axis, 1, slices, eps,
            wavenumber_correction=False)
    finally:
        scipy.sparse.linalg.eigs = real
    require(abs(r["wavenumber"] * h - om * np.sqrt(q)) < 1e-6, "mode-number",
            lambda: "{}: {}".format(case, r["wavenumber"] * h))
    for f in list(r["E"]) + list(r["H"]):
        v = np.take(np.array(f), [1], axis=axis)
        require(np.max(np.abs(v - np.mean(v))) < 1e-5 * max(
            np.max(np.abs(x)) for x in list(r["E"]) + list(r["H"])),
                "plane-wave-shape", str(case))
    ctx.run()
    ctx.step(len(mixed))
    ctx.state(case)
    ctx.outcome((case, len(mixed)))


@chk.section("mode-sources", lambda tier: [
    [axis, pol, list(cross), kind, dxk, scale, mode, power, pos]
    for axis in range(3) for pol in (1, -1)
    for cross, kind in (((26, 1), "slab"), ((1, 28), "slab"), ((26, 1), "pair"),
                        ((6, 5), "offset"))
    for dxk in ("uniform", "graded")
    for scale, mode, power, pos in (
        [(40.0, 0, 1.0, 15), (40.0, 1, 4.0, 17), (1.0, 0, 0.25, 13)]
        if tier == "quick" else itertools.product(
            (40.0, 1.0, 0.01), (0, 1), (1.0, 1e-3), (12, 15, 19)))
    if cross != (6, 5) or (axis == 1 and scale == 40.0 and mode == 0)
], "mode sources simulated with the direct solver: power, direction, place and "
             "overlaps downstream", timeout=300)
def _(ctx, case):
    axis, pol, cross, kind, dxk, scale, mode, power, pos = case
    n = 32
    shape = lay(axis, n, cross)
    eps = structure(shape, axis, kind)
    dxes = make_dxes(shape, scale, dxk, axis)
    omega = 2 * np.pi / (1550 * scale / 40)
    slices = [slice(0, s) for s in shape]
    slices[axis] = slice(pos, pos + 1)
    # Two waveguides: only the first one is excited.
    b, c = (axis + 1) % 3, (axis + 2) % 3
    args = dict(omega=omega, dxes=dxes, eps=list(eps), mu=None, axis=axis,
                polarity=pol, mode_num=mode, power=power)
    J = np.array(waveguide_mode.build_waveguide_source(
        waveguide_slice=slices, **args))
    used = np.flatnonzero(np.any(np.abs(J) > 1e-9 * np.max(np.abs(J)),
                                 axis=tuple(a for a in range(4)
                                            if a != axis + 1)))
    require(used.size and np.all(np.abs(used - pos) <= 1), "source-place",
            lambda: "{}: {}".format(case, used))
    corners = ([s.start for s in slices], [s.stop - 1 for s in slices])
    J2 = np.array(waveguide_mode.build_waveguide_source(
        waveguide_slice=corners, **dict(args, axis=gridlock.Direction(axis),
                                        power=4 * power)))
    sign = np.sign(np.real(np.vdot(J, J2)))
    require(np.max(np.abs(J2 - 2 * sign * J)) < 1e-4 * np.max(np.abs(J)),
            "source-scaling", str(case))
    E = simulate(shape, dxes, omega, J, eps, axis)
    launch(case, shape, axis, pol, pos, E, dxes, omega, power, ctx)
    # Overlaps on both sides.
    for side, p2, m2 in itertools.product((1, -1), (1, -1), (0, 1)):
        sl = list(slices)
        at = pos + side * 4
        sl[axis] = slice(at, at + 1)
        C = np.array(waveguide_mode.build_overlap(
            waveguide_slice=sl, **dict(args, polarity=p2, mode_num=m2,
                                       power=2.25)))
        used = np.flatnonzero(np.any(np.abs(C) > 1e-9 * np.max(np.abs(C)),
                                     axis=tuple(a for a in range(4)
                                                if a != axis + 1)))
        require(used.size and np.all(np.abs(used - at) <= 2), "overlap-place",
                lambda: "{}: {}".format(case, used))
        got = abs(np.sum(C * np.array(E)))
        want = 0
        if side == pol == p2 and m2 == mode:
            want = np.sqrt(2.25 * power)
        # The two guides of a pair are coupled: exact modes all the same.
        tol = 0.08 if p2 == pol else 0.2
        require(abs(got - want) <= tol * np.sqrt(2.25 * power), "overlap",
                lambda: "{}: side {} direction {} mode {}: {} for {}".format(
                    case, side, p2, m2, got, want))
        ctx.step()
    ctx.run()
    ctx.state(case)
    ctx.outcome((case, float(np.round(np.max(np.abs(J)), 9))))


@chk.section("mode-symmetry", lambda tier: [
    [pol, list(cross), kind, dxk, mode, pos]
    for pol in (1, -1) for cross in ((26, 1), (1, 28), (6, 5))
    for kind in ("offset",) for dxk in ("uniform", "graded")
    for mode in (0, 1) for pos in (2, 5)
], "turning the axes turns modes, sources and overlaps with them; so does "
             "moving along the waveguide")
def _(ctx, case):
    pol, cross, kind, dxk, mode, pos = case
    ref = {}
    for axis in (2, 0, 1):
        shape = lay(axis, 9, cross)
        eps = structure(shape, axis, kind)
        dxes = make_dxes(shape, 40.0, "uniform", axis)
        if dxk == "graded":
            for i, a in enumerate(((axis + 1) % 3, (axis + 2) % 3)):
                d = 40 * (1 + 0.1 * np.cos(np.arange(shape[a]) * 1.3 + i))
                dxes[0][a] = d
                dxes[1][a] = (d + np.roll(d, 1)) / 2
        for at in (pos, pos + 1):
            slices = [slice(0, s) for s in shape]
            slices[axis] = slice(at, at + 1)
            args = dict(omega=2 * np.pi / 1550, dxes=dxes, eps=list(eps),
                        mu=None, axis=axis, polarity=pol, mode_num=mode,
                        power=1.0, waveguide_slice=slices)
            for name, fn in (("source", waveguide_mode.build_waveguide_source),
                             ("overlap", waveguide_mode.build_overlap)):
                F = np.array(fn(**args))
                order = [(axis + 1) % 3, (axis + 2) % 3, axis]
                G = np.array([F[i].transpose(order) for i in order])
                G = np.roll(G, pos - at, 3)
                if name not in ref:
                    ref[name] = G
                    continue
                s = np.vdot(ref[name], G)
                s /= abs(s)
                # Modes are defined up to sign.
                require(abs(abs(np.real(s)) - 1) < 1e-4 and
                        np.max(np.abs(ref[name] * s - G)) <
                        1e-4 * np.max(np.abs(G)), "not-turned",
                        lambda: "{}: {} axis {} at {}".format(
                            case, name, axis, at))
                ctx.step()
    ctx.run()
    ctx.state(case)
    ctx.outcome(case)


@chk.section("mode-region", lambda tier: [
    [axis, pol, which, mode] for axis in range(3) for pol in (1, -1)
    for which in (0, 1) for mode in ((0,) if tier == "quick" else (0, 1))
], "a source limited to one of two waveguides excites that waveguide only")
def _(ctx, case):
    axis, pol, which, mode = case
    shape = lay(axis, 26, (56, 1))
    b = (axis + 1) % 3
    eps = np.full([3] + shape, 2.25)
    sl = [slice(None)] * 4
    for lo, hi in ((12, 16), (40, 45)):
        sl[b + 1] = slice(lo, hi)
        eps[tuple(sl)] = 12.25
    dxes = make_dxes(shape, 40.0, "uniform", axis)
    omega = 2 * np.pi / 1550
    slices = [slice(0, s) for s in shape]
    slices[axis] = slice(13, 14)
    slices[b] = slice(0, 28) if which == 0 else slice(28, 56)
    J = np.array(waveguide_mode.build_waveguide_source(
        omega=omega, dxes=dxes, eps=list(eps), mu=None, axis=axis,
        waveguide_slice=slices, polarity=pol, mode_num=mode, power=1.0))
    E = simulate(shape, dxes, omega, J, eps, axis)
    launch(case, shape, axis, pol, 13, E, dxes, omega, 1.0, ctx)
    sl = [slice(None)] * 4
    sl[axis + 1] = slice(9, 17)
    near = np.sum(np.abs(np.array(E)[tuple(sl)])**2, axis=tuple(
        a for a in range(4) if a != b + 1))
    inside = np.sum(near[slices[b]])
    require(inside > 0.99 * np.sum(near), "other-waveguide", lambda: "{}: {}"
            .format(case, inside / np.sum(near)))
    ctx.run()
    ctx.state(case)
    ctx.outcome(case)


# --------------------------------------------------------- free-space sources


def rot(v, t):
    """Right-handed rotation about the unit vector `v`."""
    K = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]], float)
    return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K


def geometry(axis, pol, theta, psi, pa):
    """Directions of propagation and of the electric field."""
    order = [(axis + 1) % 3, (axis + 2) % 3, axis]
    k = np.array([0, 0, pol], float)
    e = np.array([1, 0, 0], float)
    R = rot(k, psi) @ rot(e, theta)
    k2 = R @ k
    e2 = rot(k2, pa) @ R @ e
    kk, ee = np.zeros(3), np.zeros(3)
    for i, o in enumerate(order):
        kk[o], ee[o] = k2[i], e2[i]
    return kk, ee


ANGLES = [(0, 0, 0), (0, 0, 0.7), (0.4, 0, 0), (-0.3, 0, 1.2), (0.4, 0.9, 0),
          (0.4, 0.9, 0.7), (0, 0.5, 0), (0.3, -2.0, -0.6)]


def make_grid(shape, dx, eps, centre=(0, 0, 0)):
    edges = [np.arange(s + 1) * float(dx) - s * dx / 2 + c
             for s, c in zip(shape, centre)]
    g = gridlock.Grid(edges, ext_dir=gridlock.Direction.z, initial=eps,
                      num_grids=3)
    g.render()
    return g


@chk.section("plane-waves", lambda tier: [
    [axis, pol, list(ang), list(cross), eps, power, scale, pos]
    for axis in range(3) for pol in (1, -1) for ang in ANGLES
    for cross in (((4, 3),) if tier == "quick" else ((4, 3), (1, 5), (6, 6)))
    for eps, power, scale, pos in (
        [(2.25, 1.0, 40.0, 18), (1.0, 4.0, 1.0, 15)] if tier == "quick" else
        itertools.product((1.0, 2.25), (1.0, 0.25), (40.0, 1.0), (15, 18, 20)))
], "plane-wave sources simulated with the direct solver: power, direction, "
             "polarization and phase fronts", timeout=300)
def _(ctx, case):
    axis, pol, (theta, psi, pa), cross, eps, power, scale, pos = case
    shape = lay(axis, 36, cross)
    g = make_grid(shape, scale, eps)
    dxes = [g.dxyz, g.autoshifted_dxyz()]
    omega = 2 * np.pi / (20 * scale * np.sqrt(eps))
    slices = [slice(0, s) for s in shape]
    slices[axis] = slice(pos, pos + 1)
    J, k = free_space_sources.build_plane_wave_source(
        g, omega, axis, slices=list(slices), theta=theta, psi=psi,
        polarization_angle=pa, polarity=pol, power=power)
    kk, ee = geometry(axis, pol, theta, psi, pa)
    require(np.allclose(k, kk * omega * np.sqrt(eps)), "wave-vector",
            lambda: "{}: {}".format(case, k))
    bloch = np.array(k)
    bloch[axis] = 0
    E = simulate(shape, dxes, omega, J, g.grids, axis, bloch, pml=10)
    launch(case, shape, axis, pol, pos, E, dxes, omega, power, ctx, bloch,
           pml=10)
    # Fields half-way between source and absorber.
    at = pos + 4 * pol
    sl = [slice(0, 1)] * 3
    sl[axis] = slice(at, at + 1)
    amp = []
    for i in range(3):
        xyz = g.shifted_xyz(which_shifts=i)
        r = np.array([xyz[a][at if a == axis else 0] for a in range(3)])
        amp.append(E[i][tuple(sl)].ravel()[0] * np.exp(1j * np.dot(k, r)))
    amp = np.array(amp)
    s = np.vdot(ee, amp)
    require(np.linalg.norm(amp - s * ee) < 0.06 * abs(s), "polarization",
            lambda: "{}: {} for {}".format(case, amp / s, ee))
    # The phase fronts, including the one through the origin.
    require(abs(np.angle(s)) < 0.35, "phase", lambda: "{}: {}".format(
        case, np.angle(s)))
    for a in range(3):
        if a == axis or shape[a] < 2:
            continue
        for i in range(3):
            if abs(ee[i]) < 0.1:
                continue
            s2 = list(sl)
            s2[a] = slice(1, 2)
            ratio = E[i][tuple(s2)].ravel()[0] / E[i][tuple(sl)].ravel()[0]
            require(abs(ratio - np.exp(-1j * k[a] * scale)) < 1e-3, "fronts",
                    lambda: "{}: {} {}".format(case, a, i))
    ctx.run()
    ctx.state(case)
    ctx.outcome(case)


@chk.section("plane-region", lambda tier: [
    [axis, pol, border, pos, list(lo)] for axis in range(3) for pol in (1, -1)
    for border in (0, 1, 2) for pos in (2, 5)
    for lo in itertools.product((0, 2), repeat=2)
], "plane waves limited to a region: the currents stay within it, fade at its "
             "border only, and turn with the axes")
def _(ctx, case):
    axis, pol, border, pos, lo = case

    def build(axis, power=1.0):
        shape = lay(axis, 8, (11, 10))
        g = make_grid(shape, 40.0, 2.25)
        b, c = (axis + 1) % 3, (axis + 2) % 3
        slices = [None] * 3
        slices[axis] = slice(pos, pos + 1)
        slices[b] = slice(lo[0], 11 - lo[0])
        slices[c] = slice(lo[1], 10)
        J, _ = free_space_sources.build_plane_wave_source(
            g, 2 * np.pi / 800, axis, slices=slices, polarity=pol,
            border=border, theta=0.0, psi=0.0, polarization_angle=0.3,
            power=power)
        order = [b, c, axis]
        return np.array([J[i].transpose(order) for i in order])

    J = build(axis)
    require(np.allclose(build(axis, 4.0), 2 * J, atol=1e-12 * np.max(
        np.abs(J))), "power-scaling", str(case))
    if axis == 2:
        for other in (0, 1):
            require(np.allclose(J, build(other), atol=1e-12 *
                                np.max(np.abs(J))), "not-turned", str(case))
    inside = np.zeros(J[0].shape, bool)
    inside[lo[0]:11 - lo[0], lo[1]:10, pos - 1:pos + 1] = True
    require(np.max(np.abs(J[:, ~inside])) == 0, "outside", str(case))
    m = np.max(np.abs(J), axis=(0, 3))
    core = m[lo[0] + border + 1:11 - lo[0] - border - 1,
             lo[1] + border + 1:10 - border - 1]
    require(core.size and np.min(core) > 0.9 * np.max(core) > 0, "core",
            str(case))
    ctx.run()
    ctx.state(case)
    ctx.outcome((case, float(np.round(np.max(core), 9))))


# ------------------------------------------------------------- gaussian beams


@chk.section("gaussian", lambda tier: [
    [axis, pol, list(ang), list(off), list(org), w0]
    for axis in range(3) for pol in (1, -1)
    for ang in ((0, 0, 0), (0.25, 0, 0), (0, 0.8, 0.5), (-0.2, 1.0, 0.3))
    for off in ((0, 0), (3, -2), (-1.5, 2.25))
    for org in ((0, 0, 0), (200, -120, 80)) for w0 in (3.0, 4.0)
], "gaussian beams: place, width and turning with the axes, wherever the "
             "origin of the coordinates is")
def _(ctx, case):
    axis, pol, (theta, psi, pa), off, org, w0 = case
    dx = 40.0

    def build(axis, org, power=1.0):
        shape = lay(axis, 8, (21, 19))
        b, c = (axis + 1) % 3, (axis + 2) % 3
        origin = [0, 0, 0]
        origin[b], origin[c], origin[axis] = org
        g = make_grid(shape, dx, 2.25, origin)
        slices = [slice(0, s) for s in shape]
        slices[axis] = slice(4, 5)
        cen = list(origin)
        cen[b] += off[0] * dx
        cen[c] += off[1] * dx
        J, k = free_space_sources.build_gaussian_source(
            g, 2 * np.pi / 400, w0 * dx, np.array(cen, float), axis,
            slices=slices, theta=theta, psi=psi, polarization_angle=pa,
            polarity=pol, power=power)
        order = [b, c, axis]
        return (np.array([J[i].transpose(order) for i in order]),
                np.array([k[i] for i in order]))

    J, k = build(axis, org)
    J0, k0 = build(2, (0, 0, 0))
    scale = np.max(np.abs(J0))
    require(np.max(np.abs(J - J0)) < 1e-9 * scale and np.allclose(k, k0),
            "not-turned", str(case))
    planes = np.flatnonzero(np.any(np.abs(J) > 1e-12 * scale, axis=(0, 1, 2)))
    require(np.all((planes == 3) | (planes == 4)), "planes", str(planes))
    J4, _ = build(axis, org, 4.0)
    require(np.allclose(J4, 2 * J, atol=1e-9 * scale), "power-scaling",
            str(case))
    # Intensity: centre and width.
    if theta == 0:
        I = np.sum(np.abs(J)**2, axis=(0, 3))
        x = (np.arange(21) - 10) * dx
        y = (np.arange(19) - 9) * dx
        cx = np.sum(I * x[:, None]) / np.sum(I)
        cy = np.sum(I * y[None, :]) / np.sum(I)
        require(abs(cx - off[0] * dx) < 0.75 * dx and
                abs(cy - off[1] * dx) < 0.75 * dx, "beam-centre",
                lambda: "{}: {} {}".format(case, cx / dx, cy / dx))
        wid = np.sqrt(np.sum(I * (x[:, None] - cx)**2) / np.sum(I)) * 2
        require(abs(wid - w0 * dx) < 0.2 * w0 * dx, "beam-width",
                lambda: "{}: {}".format(case, wid / dx))
        # At its centre the beam is a plane wave of the same intensity.
        g = make_grid([21, 19, 8], dx, 2.25)
        Jp, _ = free_space_sources.build_plane_wave_source(
            g, 2 * np.pi / 400, 2, slices=[slice(0, 21), slice(0, 19),
                                           slice(4, 5)], psi=psi,
            polarization_angle=pa, polarity=pol, power=21 * 19 * dx**2)
        peak = np.sqrt(np.max(I) / np.sum(np.abs(Jp[:, 8, 8])**2))
        require(abs(peak / np.sqrt(2 / (np.pi * (w0 * dx)**2)) - 1) < 0.1,
                "beam-power", lambda: "{}: {}".format(case, peak * np.sqrt(
                    np.pi * (w0 * dx)**2 / 2)))
    ctx.run()
    ctx.state(case)
    ctx.outcome(case)


@chk.section("gaussian-launch", lambda tier: [
    [axis, pol, ang, off] for axis in range(3) for pol in (1, -1)
    for ang in (0, 0.2, -0.3) for off in (-2.0, 0.0, 3.0)
], "gaussian beams simulated in two dimensions: direction, place and tilt")
def _(ctx, case):
    axis, pol, ang, off = case
    dx = 40.0
    # The field is along b; the tilt moves the beam along c.
    b, c = (axis + 1) % 3, (axis + 2) % 3
    shape = lay(axis, 44, (1, 49))
    g = make_grid(shape, dx, 1.0)
    dxes = [g.dxyz, g.autoshifted_dxyz()]
    omega = 2 * np.pi / (10 * dx)
    slices = [slice(0, s) for s in shape]
    pos = 14 if pol > 0 else 29
    slices[axis] = slice(pos, pos + 1)
    cen = [0.0] * 3
    cen[axis] = g.xyz[axis][pos]
    cen[c] = off * dx
    J, k = free_space_sources.build_gaussian_source(
        g, omega, 8 * dx, np.array(cen), axis, slices=slices, theta=ang,
        polarity=pol, power=1.0)
    P = [0] * 6
    P[2 * axis:2 * axis + 2] = [10, 10]
    P[2 * c:2 * c + 2] = [8, 8]
    E = unvec(SOLVER.solve(omega=omega, dxes=dxes, J=vec(J),
                           epsilon=vec(g.grids), pml_layers=P), shape)
    H = ref_h(E, dxes, omega)
    far = flux(E, H, dxes, axis, pos + 10 * pol) * pol
    back = flux(E, H, dxes, axis, pos - 3 * pol) * pol
    require(far > 0 and abs(back) < 0.02 * far, "direction",
            lambda: "{}: {} {}".format(case, far, back))
    kk, ee = geometry(axis, pol, ang, 0, 0)
    sl = [slice(None)] * 3
    sl[axis] = pos + 10 * pol
    I = np.sum([np.abs(e[tuple(sl)])**2 for e in E], axis=0).ravel()
    x = g.xyz[c]
    cx = np.sum(I * x) / np.sum(I)
    want = off * dx + 10 * dx * kk[c] / abs(kk[axis])
    require(abs(cx - want) < 1.2 * dx, "tilt", lambda: "{}: {} for {}".format(
        case, cx / dx, want / dx))
    ctx.run()
    ctx.step()
    ctx.state(case)
    ctx.outcome((case, round(far, 6)))


# --------------------------------------------------------------------- dipoles


@chk.section("dipoles", lambda tier: [
    [axis, list(p), phase, power, eps]
    for axis in range(3) for p in itertools.product((0, 2), (1, 3), (0, 4))
    for phase in (0.0, 0.5, -2.0) for power in (1.0, 4.0) for eps in (1.0, 2.25)
], "dipoles: one current element, its place, axis, phase and scaling")
def _(ctx, case):
    axis, p, phase, power, eps = case
    shape = [4, 5, 6]
    dxes = [[np.full(s, 40.0) for s in shape] for _ in range(2)]
    grid = np.full([3] + shape, eps)

    def build(power, phase, axis=axis):
        return np.array(dipole.build_dipole_source(
            2 * np.pi / 800, dxes, grid, p, axis, power, np.exp(1j * phase)))

    J = build(power, phase)
    idx = np.argwhere(J)
    require(idx.tolist() == [[axis] + p], "place", lambda: str(idx))
    v = J[tuple(idx[0])]
    require(abs(np.angle(v * np.exp(-1j * phase))) < 1e-12, "phase",
            str(case))
    require(np.isclose(abs(v), 2 * abs(build(power / 4, 0)[tuple(idx[0])])),
            "power", str(case))
    require(np.allclose(J, build(power, phase, gridlock.Direction(axis).value)),
            "direction", str(case))
    ctx.run()
    ctx.state(case)
    ctx.outcome((case, complex(np.round(v, 12))))


# --------------------------------------------------------- imported overlaps


@chk.section("imported-overlaps", lambda tier: [
    [list(n), list(cen), flat] for n in
    [t for t in itertools.product((1, 2, 5), repeat=3)]
    for cen in ((0, 0, 0), (50, -30, 20)) for flat in (0, 1)
], "overlaps read from files: interpolated at the place of each component")
def _(ctx, case):
    n, cen, flat = case
    xs = [np.linspace(-150, 150, m) if m > 1 else np.array([0.0]) for m in n]
    X = np.meshgrid(*xs, indexing="ij")
    # Linear functions are interpolated exactly.
    coef = [(1 + 2j, 0.01, 0.02j, 0.03), (-1, 0.005j, -0.01, 0.002),
            (2j, 0.1, 0.3, -0.2)]

    def value(c, P):
        f = coef[c]
        out = f[0]
        for a in range(3):
            if n[a] > 1 and not flat:
                out = out + f[a + 1] * P[a]
        return out + 0 * (P[0] + P[1] + P[2])

    with vlib.scratch() as d:
        scipy.io.savemat(os.path.join(d, "o.mat"), dict(
            x=xs[0], y=xs[1], z=xs[2],
            **{"E" + "xyz"[c]: value(c, X).astype(complex).reshape(n)
               for c in range(3)}))
        space = simspace.SimulationSpace(optplan.SimulationSpace(
            name="space", mesh=optplan.UniformMesh(dx=DX),
            eps_bg=block([200, 200, 200], d), eps_fg=block([100, 100, 100], d),
            sim_region=optplan.Box3d(center=[0, 0, 0], extents=[400, 320, 240]),
            pml_thickness=[0] * 6, selection_matrix_type="full_direct"), d)
        got = np.array(creator_em.ImportOverlap(optplan.ImportOverlap(
            file_name="o.mat", center=cen))(space, 1550))
        edges = [np.array(e) for e in space.edge_coords]
    mids = [(e[1:] + e[:-1]) / 2 for e in edges]
    any_ = False
    for c in range(3):
        pts = [m + (DX / 2 if a == c else 0) for a, m in enumerate(mids)]
        P = np.meshgrid(*[p - o for p, o in zip(pts, cen)], indexing="ij")
        want = value(c, P) + np.zeros(P[0].shape, complex)
        known = np.ones(P[0].shape, bool)
        edge = np.zeros(P[0].shape, bool)
        for a in range(3):
            half = 150 if n[a] > 1 else DX / 2
            known &= np.abs(P[a]) <= half
            edge |= np.abs(np.abs(P[a]) - half) < 1e-6
        want[~known] = 0
        ok = np.isclose(got[c], want, atol=1e-9) | edge
        require(np.all(ok), "overlap", lambda: "{}: {} at {}".format(
            case, c, np.argwhere(~ok)[:3].tolist()))
        any_ = any_ or np.any(known & ~edge)
    ctx.run()
    ctx.state(case)
    ctx.outcome((case, bool(any_)))


# ---------------------------------------------------- sources of simulations

DX = 40.0


def recover(E, dxes, eps, omega, pml):
    """The currents which the fields are the solution for."""
    d = fdfd_tools.grid.apply_scpml(dxes, pml, omega)
    A = fdfd_tools.operators.e_full(omega, d, epsilon=vec(list(eps)),
                                    bloch_vec=np.zeros(3))
    return np.array(unvec(A @ vec(list(E)) / (-1j * omega), E[0].shape))


def node_cases(tier):
    for axis in range(3):
        for pol in (1, -1):
            for off in (-3, 0, 2):
                yield ["mode", axis, pol, off]
                yield ["gauss", axis, pol, off]
        for off in (-3, 0, 2):
            yield ["dipole", axis, 1, off]
            # The beam may be centred anywhere, or not be placed at all.
            yield ["gauss0", axis, (1, -1)[off % 2], off]
            yield ["gaussN", axis, (1, -1)[off % 2], off]
    yield ["two", 0, 1, 2]
    yield ["two", 1, -1, 0]
    yield ["two", 2, 1, -3]


def beam_centre(kind, centre, b):
    """The focus of a beam whose source is at `centre`, and how it is given."""
    if kind == "gauss0":
        return [0.0] * 3, [0.0] * 3
    if kind == "gaussN":
        return list(centre), None
    bc = list(centre)
    bc[b] = 2 * DX
    return bc, bc


def guide_region(axis):
    """Extents (in cells) and the waveguide drawn in it."""
    b, c = (axis + 1) % 3, (axis + 2) % 3
    ext = [0.0] * 3
    ext[axis], ext[b], ext[c] = 32 * DX, 30 * DX, DX
    return b, c, ext


@chk.section("goos-sources", lambda tier: list(node_cases(tier)),
             "sources and overlaps of goos simulations are those of the "
             "builders at the place, direction and power given", timeout=300)
def _(ctx, case):
    kind, axis, pol, off = case
    b, c, ext = guide_region(axis)
    wlen = 1550.0
    normal = [0.0] * 3
    normal[axis] = float(pol)
    centre = [0.0] * 3
    centre[axis] = off * DX
    region = [4 * DX] * 3
    region[axis] = 0.0
    region[b] = 30 * DX
    region[c] = 100 * DX
    size = list(ext)
    size[axis] = 1e5
    size[b] = 4 * DX
    size[c] = 1e5

    def source(k, off):
        cen = list(centre)
        cen[axis] = off * DX
        if k == "mode":
            return maxwell.WaveguideModeSource(
                center=cen, extents=region, normal=normal, mode_num=0,
                power=2.0)
        if k.startswith("gauss"):
            bc = beam_centre(k, cen, b)[1]
            return maxwell.GaussianSource(
                w0=5 * DX, center=cen, beam_center=bc, extents=region,
                normal=normal, theta=0.1, psi=0.2, polarization_angle=0.3,
                power=2.0)
        pos = list(cen)
        pos[b] = 3.5 * DX
        return maxwell.DipoleSource(position=pos, axis=b, phase=0.7, power=2.0)

    kinds = [kind] if kind != "two" else ["mode", "dipole"]
    pml = [0.0] * 6
    pml[2 * axis] = pml[2 * axis + 1] = 8 * DX
    space = maxwell.SimulationSpace(
        mesh=maxwell.UniformMesh(dx=DX), sim_region=goos.Box3d(
            center=[0, 0, 0], extents=ext), pml_thickness=pml)
    at = off + 4 * pol
    ov = list(centre)
    ov[axis] = at * DX
    with goos.OptimizationPlan() as plan:
        wg = goos.Cuboid(pos=goos.Constant([0, 0, 0]),
                         extents=goos.Constant(size),
                         material=goos.material.Material(index=3.5))
        sim = maxwell.fdfd_simulation(
            wavelength=wlen, eps=goos.GroupShape([wg]),
            background=goos.material.Material(index=1.5),
            simulation_space=space,
            sources=[source(k, off + 3 * i) for i, k in enumerate(kinds)],
            outputs=[maxwell.Epsilon(wavelength=wlen),
                     maxwell.ElectricField(wavelength=wlen),
                     maxwell.WaveguideModeOverlap(
                         wavelength=wlen, center=ov, extents=region,
                         normal=normal, mode_num=0, power=1.0)],
            solver_info=maxwell.DirectSolver(multiprocessing=False))
        eps = np.array(sim[0].get().array)
        E = np.array(sim[1].get().array)
        val = complex(np.array(sim[2].get().array))
    shape = list(eps.shape[1:])
    want_shape = [int(round(x / DX)) for x in ext]
    require(shape == want_shape, "grid", str(shape))
    dxes = [[np.full(s, DX) for s in shape] for _ in range(2)]
    omega = 2 * np.pi / wlen
    layers = [int(round(t / DX)) for t in pml]
    J = recover(E, dxes, eps, omega, layers)
    want = np.zeros_like(J)
    plane = int(round((off * DX + ext[axis] / 2) / DX))
    slices = [slice(0, s) for s in shape]
    for i, k in enumerate(kinds):
        sl = list(slices)
        p = plane + 3 * i
        sl[axis] = slice(p, p + 1)
        if k == "mode":
            F = np.array(waveguide_mode.build_waveguide_source(
                omega=omega, dxes=dxes, eps=list(eps), mu=None, axis=axis,
                waveguide_slice=sl, polarity=pol, mode_num=0, power=2.0))
            # The builder fixes the sign by the largest field.
            diff_, sgn = min((np.max(np.abs(s * F + want - J)), s)
                             for s in (1, -1))
            F = sgn * F if kind != "two" else F
        elif k.startswith("gauss"):
            g = make_grid(shape, DX, 1.0)
            g.grids = eps
            cen = [0.0] * 3
            cen[axis] = (off + 3 * i) * DX
            cen = beam_centre(k, cen, b)[0]
            F = np.array(free_space_sources.build_gaussian_source(
                g, omega, 5 * DX, np.array(cen), axis, slices=sl, theta=0.1,
                psi=0.2, polarization_angle=0.3, polarity=pol, power=2.0)[0])
        else:
            ind = [0, 0, 0]
            ind[axis], ind[b] = p, 18
            F = np.array(dipole.build_dipole_source(
                omega, dxes, eps, ind, b, 2.0, np.exp(0.7j)))
        want = want + F
    scale = np.max(np.abs(want))
    require(np.max(np.abs(J - want)) < 1e-5 * scale, "source",
            lambda: "{}: {} of {} at {}".format(
                case, np.max(np.abs(J - want)), scale,
                np.argwhere(np.abs(J - want) > 1e-5 * scale)[:4].tolist()))
    sl = list(slices)
    p = plane + 4 * pol
    sl[axis] = slice(p, p + 1)
    C = np.array(waveguide_mode.build_overlap(
        omega=omega, dxes=dxes, eps=list(eps), mu=None, axis=axis,
        waveguide_slice=sl, polarity=pol, mode_num=0, power=1.0))
    ref = np.sum(C * E)
    require(min(abs(val - ref), abs(val + ref)) < 1e-5 * abs(ref) + 1e-6,
            "overlap", lambda: "{}: {} for {}".format(case, val, ref))
    if kind == "mode":
        launch(case, shape, axis, pol, plane, list(E), dxes, omega, 2.0, ctx)
        require(abs(abs(val) - np.sqrt(2.0)) < 0.1, "overlap-value",
                str(abs(val)))
    ctx.run()
    ctx.step(3)
    ctx.state(case)
    ctx.outcome((case, complex(np.round(val, 6))))


HIST_KINDS = ("mode", "gauss", "dipole")


def history_cases(tier):
    deep = 2 if tier == "quick" else 3
    for kinds in itertools.product(HIST_KINDS, repeat=2):
        for hist in itertools.product("ABab", repeat=deep):
            yield [list(kinds), "".join(hist)]
    for r in (1, 3):
        for kinds in itertools.product(HIST_KINDS, repeat=r):
            for hist in ("ABA", "AbA", "aBa", "aab"):
                yield [list(kinds), hist]


@chk.section("goos-history", lambda tier: list(history_cases(tier)),
             "any combination of sources launches the sum of what each of "
             "them launches, in every evaluation and after every gradient",
             timeout=300)
def _(ctx, case):
    kinds, hist = case
    dx, wlen = DX, 1550.0
    ext = [24 * dx, 16 * dx, dx]
    omega = 2 * np.pi / wlen
    dxes = [[np.full(int(round(x / dx)), dx) for x in ext] for _ in range(2)]
    layers = [5, 5, 0, 0, 0, 0]
    space = maxwell.SimulationSpace(
        mesh=maxwell.UniformMesh(dx=dx), sim_region=goos.Box3d(
            center=[0, 0, 0], extents=ext),
        pml_thickness=[n * dx for n in layers])

    def source(k, off):
        if k == "mode":
            return maxwell.WaveguideModeSource(
                center=[off * dx, 0, 0], extents=[0, 16 * dx, 100 * dx],
                normal=[1, 0, 0], mode_num=0, power=2.0)
        if k == "gauss":
            return maxwell.GaussianSource(
                w0=5 * dx, center=[off * dx, 0, 0],
                beam_center=[off * dx, 2 * dx, 0],
                extents=[0, 16 * dx, 100 * dx], normal=[1, 0, 0], theta=0.1,
                psi=0.2, polarization_angle=0.3, power=2.0)
        return maxwell.DipoleSource(position=[off * dx, 3.5 * dx, 0.5 * dx],
                                    axis=1, phase=0.7, power=2.0)

    def run(pairs, hist):
        """The currents of every evaluation of a history."""
        res = []
        with goos.OptimizationPlan() as plan:
            wg = goos.Cuboid(pos=goos.Constant([0, 0, 0]),
                             extents=goos.Constant([1e5, 4 * dx, 1e5]),
                             material=goos.material.Material(index=3.5))
            var = goos.Variable(np.array([-5.0 * dx, 4.0 * dx, 0.0]))
            mover = goos.Cuboid(
                pos=var, extents=goos.Constant([2 * dx, 2.3 * dx, 4 * dx]),
                material=goos.material.Material(index=2.5))
            sim = maxwell.fdfd_simulation(
                wavelength=wlen, eps=goos.GroupShape([wg, mover]),
                background=goos.material.Material(index=1.5),
                simulation_space=space,
                sources=[source(k, off) for k, off in pairs],
                outputs=[maxwell.Epsilon(wavelength=wlen),
                         maxwell.ElectricField(wavelength=wlen),
                         maxwell.WaveguideModeOverlap(
                             wavelength=wlen, center=[6 * dx, 0, 0],
                             extents=[0, 16 * dx, 100 * dx],
                             normal=[1, 0, 0], mode_num=0, power=1.0)],
                solver_info=maxwell.DirectSolver(multiprocessing=False))
            obj = goos.abs(sim[2])
            for op in hist:
                pos = -5.0 if op in "Aa" else -5.6
                var.set(np.array([pos * dx, 4.0 * dx, 0.0]))
                plan.run()
                if op in "ab":
                    plan.eval_grad(obj, [var])
                    continue
                outs = plan.eval_nodes([sim])[0]
                res.append(recover(np.array(outs[1].array), dxes,
                                   np.array(outs[0].array), omega, layers))
        return res

    pairs = [(k, 2 * i) for i, k in enumerate(kinds)]
    key = tuple(pairs)
    if key not in SINGLE:
        SINGLE[key] = [run([p], "A")[0] for p in pairs]
    want = sum(SINGLE[key])
    scale = np.max(np.abs(want))
    got = run(pairs, hist + "A")
    for i, J in enumerate(got):
        require(np.max(np.abs(J - want)) < 1e-5 * scale, "source",
                lambda: "{}: {}-th evaluation: {} of {}".format(
                    case, i, np.max(np.abs(J - want)), scale))
    ctx.run()
    ctx.step(len(hist) + 1)
    ctx.state((kinds, hist))
    ctx.outcome((kinds, complex(np.round(np.sum(want) / scale, 6))))


SINGLE = {}


@chk.section("goos-absorbers", lambda tier: [
    [dx, m, part, axis] for dx in (0.1, 0.04, 0.025, 40.0, 1.0, 0.3)
    for m in range(0, 13) for part in (0.0, 0.5) for axis in range(3)
], "absorbing layers of goos simulations: as many cells as their thickness "
             "calls for")
def _(ctx, case):
    dx, m, part, axis = case
    ext = [dx] * 3
    ext[axis] = 32 * dx
    thick = [0.0] * 6
    thick[2 * axis] = float("{:.6g}".format((m + part) * dx))
    thick[2 * axis + 1] = float("{:.6g}".format(3 * dx))
    pos = [0.0] * 3
    pos[axis] = 0.5 * dx
    wlen = 20 * dx
    with goos.OptimizationPlan() as plan:
        sim = maxwell.fdfd_simulation(
            wavelength=wlen, eps=goos.GroupShape([goos.Cuboid(
                pos=goos.Constant([0, 0, 0]),
                extents=goos.Constant([dx, dx, dx]),
                material=goos.material.Material(index=1.5))]),
            background=goos.material.Material(index=1.0),
            simulation_space=maxwell.SimulationSpace(
                mesh=maxwell.UniformMesh(dx=dx), sim_region=goos.Box3d(
                    center=[0, 0, 0], extents=ext), pml_thickness=thick),
            sources=[maxwell.DipoleSource(position=pos, axis=(axis + 1) % 3)],
            outputs=[maxwell.Epsilon(wavelength=wlen),
                     maxwell.ElectricField(wavelength=wlen)],
            solver_info=maxwell.DirectSolver(multiprocessing=False))
        eps = np.array(sim[0].get().array)
        E = np.array(sim[1].get().array)
    shape = list(eps.shape[1:])
    require(shape[axis] == 32, "grid", str(shape))
    dxes = [[np.full(s, dx) for s in shape] for _ in range(2)]
    layers = [0] * 6
    layers[2 * axis], layers[2 * axis + 1] = m, 3
    J = recover(E, dxes, eps, 2 * np.pi / wlen, layers)
    scale = np.max(np.abs(J))
    idx = np.argwhere(np.abs(J) > 1e-6 * scale)
    want = [(axis + 1) % 3, 0, 0, 0]
    want[axis + 1] = 16
    require(idx.tolist() == [want], "layers", lambda: "{}: {}".format(
        case, idx[:4].tolist()))
    ctx.run()
    ctx.state(case)
    ctx.outcome(case)


@chk.section("invdes-sources", lambda tier: list(node_cases(tier)) + [
    ["plane", axis, pol, off] for axis in range(3) for pol in (1, -1)
    for off in (-3, 0, 2)] + [
        ["normalized-" + k, axis, pol, off] for k in ("gauss", "dipole", "plane")
        for axis in range(3) for pol in (1, -1) for off in (0, 4)],
             "sources and overlaps of invdes plans are those of the builders "
             "at the place, direction and power given", timeout=300)
def _(ctx, case):
    kind, axis, pol, off = case
    if kind == "two":
        return
    norm = kind.startswith("normalized-")
    kind = kind.split("-")[-1]
    b, c, ext = guide_region(axis)
    wlen = 1550.0
    omega = 2 * np.pi / wlen
    normal = [0.0] * 3
    normal[axis] = float(pol)
    centre = [0.0] * 3
    centre[axis] = off * DX
    region = [0.0] * 3
    region[b] = 30 * DX
    region[c] = 100 * DX
    size = [1e5] * 3
    size[b] = 4 * DX
    pml = [0] * 6
    pml[2 * axis] = pml[2 * axis + 1] = 8
    if norm:
        size[b] = 1e5
        pml[2 * b] = pml[2 * b + 1] = 4
    with vlib.scratch() as d:
        space = simspace.SimulationSpace(optplan.SimulationSpace(
            name="space", mesh=optplan.UniformMesh(dx=DX),
            eps_bg=block(size, d), eps_fg=block(size, d),
            sim_region=optplan.Box3d(center=[0, 0, 0], extents=ext),
            pml_thickness=pml, selection_matrix_type="full_direct"), d)
        inst = space(wlen)
        eps = np.array(inst.eps_bg.grids)
        shape = list(eps.shape[1:])
        edges = [np.array(e) for e in space.edge_coords]
        common = dict(center=centre, extents=region, normal=normal, power=2.0)
        beam = list(centre)
        ang = dict(theta=0.1, psi=0.2, polarization_angle=0.3)
        if kind == "mode":
            F = creator_em.WaveguideModeSource(optplan.WaveguideModeSource(
                mode_num=0, **common))(space, wlen, solver=SOLVER)
        elif kind.startswith("gauss"):
            F = creator_em.GaussianSource(optplan.GaussianSource(
                w0=5 * DX, beam_center=beam_centre(kind, centre, b)[1],
                normalize_by_sim=norm, **ang,
                **common))(space, wlen, SOLVER)
        elif kind == "plane":
            F = creator_em.PlaneWaveSource(optplan.PlaneWaveSource(
                normalize_by_sim=norm, overwrite_bloch_vector=True, **ang,
                **common))(space, wlen, SOLVER)
            F, kvec = F
        else:
            beam[b] = 3.75 * DX
            F = creator_em.DipoleSource(optplan.DipoleSource(
                position=beam, axis=b, phase=0.7, power=2.0,
                normalize_by_sim=norm))(space, wlen, SOLVER)
        C = creator_em.WaveguideModeOverlap(optplan.WaveguideModeOverlap(
            mode_num=0, **dict(common, power=1.0)))(space, wlen) \
            if kind == "mode" else None
    F = np.array(F)
    dxes = [[np.full(s, DX) for s in shape] for _ in range(2)]
    plane = int(round((off * DX + ext[axis] / 2) / DX))
    sl = [slice(0, s) for s in shape]
    sl[axis] = slice(plane, plane + 1)
    args = dict(omega=omega, dxes=dxes, eps=list(eps), mu=None, axis=axis,
                waveguide_slice=sl, polarity=pol, mode_num=0)
    g = gridlock.Grid(edges, ext_dir=gridlock.Direction.z, initial=1.0,
                      num_grids=3)
    g.grids = eps
    cen = [0.0] * 3
    cen[axis] = off * DX
    cen = beam_centre(kind, cen, b)[0]
    if kind == "mode":
        want = np.array(waveguide_mode.build_waveguide_source(power=2.0,
                                                              **args))
    elif kind.startswith("gauss"):
        want = np.array(free_space_sources.build_gaussian_source(
            g, omega, 5 * DX, np.array(cen), axis, slices=list(sl),
            polarity=pol, power=2.0, **ang)[0])
    elif kind == "plane":
        want, k2 = free_space_sources.build_plane_wave_source(
            g, omega, axis, slices=list(sl), polarity=pol, power=2.0, **ang)
        want = np.array(want)
        for a in range(3):
            if pml[2 * a]:
                k2[a] = 0
        require(np.allclose(kvec, k2), "bloch-vector", lambda: "{}: {}".format(
            case, kvec))
    else:
        ind = [0, 0, 0]
        mid = (edges[b][1:] + edges[b][:-1]) / 2
        ind[axis], ind[b] = plane, int(np.argmin(np.abs(mid - 3.75 * DX)))
        want = np.array(dipole.build_dipole_source(
            omega, dxes, eps, ind, b, 2.0, np.exp(0.7j)))
    if norm:
        # The same currents, scaled to emit the power asked for.
        s = np.vdot(want, F) / np.vdot(want, want)
        require(abs(np.imag(s)) < 1e-9 * abs(s) and np.real(s) > 0, "phase",
                str(case))
        want = np.real(s) * want
        bl = kvec if kind == "plane" else np.zeros(3)
        x = SOLVER.solve(omega=omega, dxes=dxes, J=vec(list(F)),
                         epsilon=vec(list(eps)), pml_layers=pml, bloch_vec=bl)
        pw = -0.5 * np.real(np.vdot(vec(list(F)), x)) * DX**3
        require(abs(pw - 2.0) < 1e-6, "normalized-power", lambda: "{}: {}"
                .format(case, pw))
    diffs = [np.max(np.abs(F - s * want)) for s in
             ((1, -1) if kind == "mode" else (1,))]
    require(min(diffs) < 1e-5 * np.max(np.abs(want)), "source",
            lambda: "{}: {} of {}".format(case, min(diffs),
                                          np.max(np.abs(want))))
    if C is not None:
        ref = np.array(waveguide_mode.build_overlap(power=1.0, **args))
        require(min(np.max(np.abs(np.array(C) - s * ref)) for s in (1, -1)) <
                1e-5 * np.max(np.abs(ref)), "overlap", str(case))
    ctx.run()
    ctx.step(2)
    ctx.state(case)
    ctx.outcome((case, float(np.round(np.max(np.abs(F)), 9))))


def index(n):
    return optplan.Material(index=optplan.ComplexNumber(real=n, imag=0))


def block(size, d):
    """A waveguide of index 3.5 in a medium of index 1.5."""
    lib = gdspy.GdsLibrary()
    cell = gdspy.Cell("TOP", exclude_from_current=True)
    x, y = size[0] / 2e3, size[1] / 2e3
    cell.add(gdspy.Polygon([(-x, -y), (x, -y), (x, y), (-x, y)], layer=1,
                           datatype=0))
    lib.add(cell)
    lib.write_gds(os.path.join(d, "guide.gds"))
    return optplan.GdsMeshEps(
        gds="guide.gds", background=index(1.5), stack_normal=[0, 0, 1],
        mesh_list=[optplan.GdsMesh(extents=[-size[2] / 2, size[2] / 2],
                                   material=index(3.5), gds_layer=[1, 0])])


if __name__ == "__main__":
    chk.main()
