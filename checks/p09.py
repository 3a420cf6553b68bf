"""P09: rasterising polygons and intervals.

All simple polygons with 3 and 4 (thorough: 5) vertices on a lattice that
includes points inside cells, on cell edges, on cell corners and outside the
grid, in every vertex order and starting vertex, on several grids; and all
intervals with end points on a lattice.  The oracle clips the polygon with each
cell (Sutherland-Hodgman, exact rational arithmetic) and takes the area.
"""
import fractions
import itertools

import numpy as np

import vlib
from vlib import fail, require

vlib.import_spins()
from spins.gridlock import float_raster

chk = vlib.Check(
    "P09", "exploration",
    assumptions=[
        "vertices lie on the enumerated lattice (which contains every relative "
        "position to a cell: inside, on an edge, on a corner, outside)",
        "polygons are simple (no self-intersection)"
    ])

GRIDS = [
    [0, 1, 2, 3],
    [0, 0.5, 2, 3],
    [0, 3],
    [-0.25, 0.75, 1.25, 2],
    [0, 2],
]
LX = [-1, 0, 0.75, 2, 3.5]
LY = [-0.5, 0, 1.25, 2, 4]
LX4 = [-1, 0, 1.25, 2]
LY4 = [0, 0.75, 2, 3.5]


def clip_area(poly, x0, x1, y0, y1):
    """Area of the polygon inside the box (signed by orientation)."""

    def half(p, f, cut):
        out = []
        for i in range(len(p)):
            a, b = p[i - 1], p[i]
            fa, fb = f(a), f(b)
            if (fa >= 0) != (fb >= 0):
                out.append(cut(a, b))
            if fb >= 0:
                out.append(b)
        return out

    def cutx(c):
        return lambda a, b: (c, a[1] + (b[1] - a[1]) * (c - a[0]) /
                             (b[0] - a[0]))

    def cuty(c):
        return lambda a, b: (a[0] + (b[0] - a[0]) * (c - a[1]) /
                             (b[1] - a[1]), c)

    p = poly
    for f, cut in ((lambda v: v[0] - x0, cutx(x0)),
                   (lambda v: x1 - v[0], cutx(x1)),
                   (lambda v: v[1] - y0, cuty(y0)),
                   (lambda v: y1 - v[1], cuty(y1))):
        if not p:
            return 0
        p = half(p, f, cut)
    s = 0
    for i in range(len(p)):
        s += p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1]
    return s / 2


def coverage(poly, gx, gy):
    """Exact covered fractions (polygon given as list of number pairs)."""
    fr = fractions.Fraction
    p = [(fr(x), fr(y)) for x, y in poly]
    gx = [fr(x) for x in gx]
    gy = [fr(y) for y in gy]
    out = np.zeros((len(gx) - 1, len(gy) - 1))
    for i in range(len(gx) - 1):
        for j in range(len(gy) - 1):
            a = clip_area(p, gx[i], gx[i + 1], gy[j], gy[j + 1])
            out[i, j] = abs(a) / ((gx[i + 1] - gx[i]) * (gy[j + 1] - gy[j]))
    return out


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def on_segment(a, b, p):
    return (cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def intersects(a, b, c, d):
    d1, d2, d3, d4 = cross(a, b, c), cross(a, b, d), cross(c, d, a), cross(
        c, d, b)
    if ((d1 > 0) != (d2 > 0) and d1 and d2 and (d3 > 0) != (d4 > 0) and d3 and
            d4):
        return True
    return (on_segment(a, b, c) or on_segment(a, b, d) or on_segment(c, d, a)
            or on_segment(c, d, b))


def simple(p):
    n = len(p)
    if n == 3:
        return cross(*p) != 0
    if sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1]
           for i in range(n)) == 0:
        return False
    for i in range(n):
        a, b, c = p[i - 1], p[i], p[(i + 1) % n]
        if cross(a, b, c) == 0 and not (on_segment(a, c, b)):
            return False
        for j in range(i + 1, n):
            if (j - i) % n in (0, 1, n - 1):
                continue
            if intersects(p[i - 1], p[i], p[j - 1], p[j]):
                return False
    return True


def check_variants(ctx, poly, gx, gy, variants, tol=1e-9):
    want = coverage(poly, gx, gy)
    gxa, gya = np.array(gx, dtype=float), np.array(gy, dtype=float)
    for v in variants:
        arr = np.array(v, dtype=float).T
        keep = arr.copy()
        got = float_raster.raster_2D(arr, gxa, gya)
        ctx.step()
        require(got.shape == want.shape, "shape", str(got.shape))
        require(np.all(np.abs(got - want) < tol), "coverage",
                lambda: "polygon {} on {} x {}: {}, want {}".format(
                    v, gx, gy, got.tolist(), want.tolist()))
        require(np.array_equal(arr, keep), "input-modified")
    ctx.run(len(variants))
    ctx.outcome(want.round(6).tolist())


def all_variants(poly):
    n = len(poly)
    out = []
    for q in (poly, poly[::-1]):
        for k in range(n):
            out.append(q[k:] + q[:k])
    return out


def grid_pairs(tier):
    if tier == "quick":
        return [(0, 0), (1, 2), (3, 1), (4, 4)]
    return list(itertools.product(range(len(GRIDS)), repeat=2))


@chk.section("intervals", lambda tier: [[g, u] for g in range(len(GRIDS))
                                        for u in (4, 3, 10)],
             "all intervals with both end points on the lattice k/u, u in "
             "{4, 3, 10}, from two units before to two after the grid, both "
             "orders, on every grid")
def intervals(ctx, case):
    g, u = case
    grid = np.array(GRIDS[g], dtype=float)
    lo, hi = int(grid[0] - 2) * u, int(grid[-1] + 2) * u
    pts = [k / u for k in range(lo, hi + 1)]
    for a in pts:
        for b in pts:
            arr = np.array([a, b])
            got = float_raster.raster_1D(arr, grid)
            x0, x1 = min(a, b), max(a, b)
            want = np.maximum(
                0,
                np.minimum(grid[1:], x1) - np.maximum(grid[:-1], x0)) / np.diff(
                    grid)
            ctx.step()
            require(got.shape == want.shape and
                    np.all(np.abs(got - want) < 1e-9), "coverage",
                    lambda: "[{}, {}] on {}: {} want {}".format(
                        a, b, grid, got, want))
            require(arr[0] == a and arr[1] == b, "input-modified")
            ctx.outcome(want.round(6).tolist())
    ctx.run(len(pts)**2)


def tri_cases(tier):
    pts = list(itertools.product(LX, LY))
    out = []
    for gp in grid_pairs(tier):
        for t in itertools.combinations(pts, 3):
            if simple(t):
                out.append([gp, list(t)])
    return out


@chk.section("triangles", tri_cases,
             "all triangles on a 5x5 lattice x grids, all 6 vertex orders")
def triangles(ctx, case):
    (gx, gy), t = case
    t = [tuple(v) for v in t]
    check_variants(ctx, t, GRIDS[gx], GRIDS[gy], all_variants(t))


def quads(pts):
    """One representative per polygon: first vertex smallest, one direction."""
    for first, *rest in (itertools.combinations(pts, 4)):
        for p in itertools.permutations(rest):
            if p[0] < p[-1]:
                q = [first] + list(p)
                if simple(q):
                    yield q


def quad_cases(tier):
    pts = list(itertools.product(LX4, LY4))
    out = []
    pairs = [(0, 0), (3, 1)] if tier == "quick" else grid_pairs(tier)[::4]
    for gp in pairs:
        for q in quads(pts):
            out.append([gp, q])
    return out


@chk.section("quadrilaterals", quad_cases,
             "all simple quadrilaterals (concave and with collinear vertices "
             "included) on a 4x4 lattice x grids, all 8 vertex orders")
def quadrilaterals(ctx, case):
    (gx, gy), q = case
    q = [tuple(v) for v in q]
    check_variants(ctx, q, GRIDS[gx], GRIDS[gy], all_variants(q))


def pent_cases(tier):
    xs, ys = [0, 1.25, 2], [-0.5, 0.75, 2]
    pts = list(itertools.product(xs, ys))
    out = []
    n = 5 if tier == "quick" else 6
    for k in range(5, n + 1):
        for first, *rest in itertools.combinations(pts, k):
            for p in itertools.permutations(rest):
                if p[0] < p[-1]:
                    q = [first] + list(p)
                    if simple(q):
                        out.append([(0, 0) if tier == "quick" else (1, 0), q])
    return out


@chk.section("pentagons", pent_cases,
             "all simple pentagons (thorough: and hexagons) on a 3x3 lattice, "
             "every starting vertex and direction")
def pentagons(ctx, case):
    (gx, gy), q = case
    q = [tuple(v) for v in q]
    check_variants(ctx, q, GRIDS[gx], GRIDS[gy], all_variants(q))


def special_cases(tier):
    """Repeated vertices, rectangles at every alignment, far away shapes."""
    out = []
    c = [-3, -1, 0, 0.3, 0.5, 1, 1.7, 2, 3, 3.2, 7]
    for gp in ([(0, 0), (1, 3)] if tier == "quick" else grid_pairs(tier)):
        for x0, x1 in itertools.combinations(c, 2):
            for y0, y1 in itertools.combinations(c, 2):
                out.append([gp, [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]])
    return out


@chk.section("rectangles", special_cases,
             "all rectangles with edges on 11 coordinates per axis (inside, "
             "aligned, overlapping, enclosing, outside the grid); also with "
             "the first vertex repeated at the end and with edge midpoints")
def rectangles(ctx, case):
    (gx, gy), q = case
    q = [tuple(v) for v in q]
    mids = []
    for i in range(4):
        a, b = q[i], q[(i + 1) % 4]
        mids += [a, ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)]
    check_variants(ctx, q, GRIDS[gx], GRIDS[gy],
                   [q, q[::-1], q + [q[0]], [q[0]] + q, mids, q[2:] + q[:2]])


SCALES = [1e-6, 1e-3, 40.0, 1e4]
L3X, L3Y = [-0.5, 0.75, 2.25], [0, 1.25, 2]


def scale_cases(tier):
    pts = list(itertools.product(L3X, L3Y))
    return [[list(gp), list(t), s, o] for gp in ((0, 0), (1, 3))
            for t in itertools.combinations(pts, 3) if simple(t)
            for s in SCALES for o in (0, 7, -300)]


@chk.section("scales", scale_cases,
             "all triangles on a 3x3 lattice x 2 grids, in units from 1e-6 to "
             "1e4, near the origin and far from it")
def scales(ctx, case):
    (gx, gy), t, s, o = case
    p = [(s * (v[0] + o), s * (v[1] - o)) for v in t]
    check_variants(ctx, p, [s * (x + o) for x in GRIDS[gx]],
                   [s * (y - o) for y in GRIDS[gy]], [p, p[::-1], p[1:] + p[:1]],
                   1e-8)


TINY = [1e-2, 1e-3, 1e-5]


def flat_cases(tier):
    """Polygons without area: all vertices on one line."""
    c = [-3, 0, 0.3, 1, 2, 7] if tier == "quick" else [
        -3, -1, 0, 0.3, 0.5, 1, 1.7, 2, 3, 3.2, 7]
    pts = list(itertools.product(c, repeat=2))
    return [[gp, [a, b]] for gp in ((0, 0), (1, 3)) for a in pts for b in pts
            if a <= b]


@chk.section("flat", flat_cases,
             "all polygons whose vertices lie on one line, or in one point, "
             "inside, across and outside the grid: they cover nothing")
def flat(ctx, case):
    (gx, gy), (a, b) = case
    a, b = tuple(a), tuple(b)
    m = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
    check_variants(ctx, [a, b, m], GRIDS[gx], GRIDS[gy],
                   [[a, b, m], [a, a, b, b], [b, m, a], [a, m, b, m]])


def tiny_cases(tier):
    pts = list(itertools.product((-1, 0.5, 2), (-2, 0, 1.5)))
    shapes = [list(t) for t in itertools.combinations(pts, 3) if simple(t)]
    shapes += list(quads(pts))[::1 if tier == "thorough" else 5]
    return [[p, s, c] for p in shapes for s in TINY
            for c in ((1, 1), (1, 0.5), (0.5, 2), (0.3, 0.6), (0, 0), (3, 1))]


@chk.section("tiny", tiny_cases,
             "all triangles and quadrilaterals on a 3x3 lattice shrunk to "
             "1e-2..1e-5 of a cell and put on corners, edges, the inside and "
             "the border of the grid")
def tiny(ctx, case):
    p, s, c = case
    p = [(c[0] + s * v[0], c[1] + s * v[1]) for v in p]
    check_variants(ctx, p, GRIDS[0], GRIDS[0], all_variants(p), 1e-4 * s * s)


def many_cases(tier):
    return [[kind, n, k] for kind in ("star", "convex", "comb", "spiral")
            for n in (range(4, 41, 3) if tier == "quick" else range(4, 81))
            for k in (1, 3, 12)]


def many_gon(kind, n):
    """Simple polygons with about n vertices within [-1, 5]^2."""
    if kind in ("star", "convex"):
        out = []
        for i in range(n):
            r = 2.9 if kind == "convex" or i % 2 else 1.3
            a = 2 * np.pi * i / n + 0.1
            out.append((round(2 + r * np.cos(a), 6), round(2 + r * np.sin(a), 6)))
        return out
    if kind == "comb":
        out, m = [], max(1, n // 4)
        w = 6 / (2 * m + 1)
        for i in range(m + 1):
            out += [(-1 + 2 * i * w, 4.5), (-1 + (2 * i + 1) * w, 4.5)]
            if i < m:
                out += [(-1 + (2 * i + 1) * w, 0.3), (-1 + (2 * i + 2) * w, 0.3)]
        return out + [(5, -0.5), (-1, -0.5)]
    m = max(2, n // 2)
    turn = [i / m * 3 * np.pi for i in range(m)]
    far = [(2 + (0.6 + 0.2 * t) * np.cos(t), 2 + (0.6 + 0.2 * t) * np.sin(t))
           for t in turn]
    near = [(2 + (0.4 + 0.2 * t) * np.cos(t), 2 + (0.4 + 0.2 * t) * np.sin(t))
            for t in turn[::-1]]
    return far + near


@chk.section("many-vertices", many_cases,
             "stars, convex polygons, combs and spirals with up to 40 (thorough "
             "80) vertices on grids of 2, 6 and 24 cells per axis")
def many(ctx, case):
    kind, n, k = case
    p = [tuple(float(c) for c in v) for v in many_gon(kind, n)]
    if not simple(p):
        return
    g = [2 * i / k for i in range(2 * k + 1)]
    h = [0.25 + 1.75 * i / k for i in range(2 * k + 1)]
    check_variants(ctx, p, g, h, [p, p[::-1], p[n // 2:] + p[:n // 2]], 1e-8)


if __name__ == "__main__":
    chk.main()
