"""P10: the drawing grid: painter's order, coordinates, indices.

Histories of drawing operations (all sequences up to a depth over an alphabet
of every draw_*/fill_* method, interleaved with render, clear, copy and
save/load) are executed on the real Grid and compared after every render with
a reference that computes, by inclusion-exclusion over exactly clipped convex
polygons, which part of each cell the last shape drawn there covers.  Cells of
each component are derived from the documented shifts, independently of the
code.  Index/position conversions are enumerated on every cell and on a lattice
of sub-cell positions of every component grid.
"""
import itertools
import math
import os

import numpy as np

import vlib
from drawref import Shape, box_shape, reference
from vlib import fail, require

vlib.import_spins()
from spins import gridlock
from spins.gridlock import Direction, Grid, GridError, GridType
from spins.gridlock import direction

chk = vlib.Check(
    "P10", "model_checking",
    assumptions=[
        "coordinates lie on the enumerated lattices; intersections of slanted "
        "edges are compared within the 0.001 precision of the polygon library",
        "at most one non-convex shape per history, drawn first or alone",
        "a non-periodic first cell of a shifted component grid is taken to "
        "extend by the size of the last cell, as in the class documentation"
    ])

EDGES = {
    "u": [[0, 1, 2, 3], [0, 1, 2], [0, 1, 2]],
    "n": [[-1, 0, 2, 2.5], [0, 0.5, 2], [1, 2, 4]],
    "f": [[0, 1, 2, 3], [0, 1, 2], [0, 1]],  # One cell thick.
    # Cells smaller than one unit, at negative coordinates too.
    "s": [[-0.75, -0.25, 0.25, 0.75], [0.25, 0.75, 1.5], [0.5, 0.75, 1, 1.5]],
}


# --------------------------------------------------------------------------
# Drawing alphabet.  Each entry draws on the real grid and gives the shape.


def bounds(edges):
    return [(e[0], e[-1]) for e in edges]


def far(edges, a):
    lo, hi = edges[a][0], edges[a][-1]
    return lo - (hi - lo), hi + (hi - lo)


def op_cuboid(center, extent, eps):

    def draw(g, edges, ext, conv=lambda v: v):
        g.draw_cuboid(np.array(center), np.array(extent), conv(eps))
        lo = [c - e / 2 for c, e in zip(center, extent)]
        hi = [c + e / 2 for c, e in zip(center, extent)]
        return box_shape(ext, lo, hi, eps)

    return draw


def op_slab(axis, center, thickness, eps, as_int=False):

    def draw(g, edges, ext):
        g.draw_slab(axis if as_int else Direction(axis), center, thickness, eps)
        lo, hi = [0] * 3, [0] * 3
        for a in range(3):
            lo[a], hi[a] = far(edges, a)
        lo[axis], hi[axis] = center - thickness / 2, center + thickness / 2
        return box_shape(ext, lo, hi, eps)

    return draw


def op_fill_slab(axis, pol, surf, eps, as_int=False):

    def draw(g, edges, ext):
        g.fill_slab(axis if as_int else Direction(axis), pol, surf, eps)
        lo, hi = [0] * 3, [0] * 3
        for a in range(3):
            lo[a], hi[a] = far(edges, a)
        if pol > 0:
            lo[axis] = surf
            hi[axis] = max(hi[axis], surf)
        else:
            hi[axis] = surf
            lo[axis] = min(lo[axis], surf)
        return box_shape(ext, lo, hi, eps)

    return draw


def op_fill_cuboid(axis, pol, center, extent, eps, as_int=False):

    def draw(g, edges, ext):
        g.fill_cuboid(axis if as_int else Direction(axis), pol,
                      np.array(center, dtype=float), np.array(extent, dtype=float), eps)
        e3 = list(extent)
        e3.insert(axis, 0)
        lo = [c - e / 2 for c, e in zip(center, e3)]
        hi = [c + e / 2 for c, e in zip(center, e3)]
        if pol > 0:
            hi[axis] = far(edges, axis)[1]
        else:
            lo[axis] = far(edges, axis)[0]
        return box_shape(ext, lo, hi, eps)

    return draw


def op_polygon(center, poly, thickness, eps, convex=True):

    def draw(g, edges, ext):
        pl = [a for a in range(3) if a != ext]
        g.draw_polygon(np.array(center), np.array(poly), thickness, eps)
        p = [(x + center[pl[0]], y + center[pl[1]]) for x, y in poly]
        return Shape(p, (center[ext] - thickness / 2,
                         center[ext] + thickness / 2), eps, convex)

    return draw


def op_cylinder(center, radius, thickness, eps):

    def draw(g, edges, ext):
        pl = [a for a in range(3) if a != ext]
        g.draw_cylinder(np.array(center), radius, thickness, 61, eps)
        n = 60
        p = [(center[pl[0]] + radius * math.cos(2 * math.pi * i / n),
              center[pl[1]] + radius * math.sin(2 * math.pi * i / n))
             for i in range(n)]
        return Shape(p, (center[ext] - thickness / 2,
                         center[ext] + thickness / 2), eps)

    return draw


OPS = {
    "cube": op_cuboid([1, 1, 1], [1, 1, 1], 4.0),
    "wide": op_cuboid([1.25, 0.75, 1.5], [2.5, 0.5, 1.5], 7.0 + 1.0j),
    "thin": op_cuboid([1.5, 1.25, 1], [0.25, 2, 3], [2.0, 3.0, 5.0]),
    "out": op_cuboid([3, 2.25, 0], [2, 1.5, 1.5], 9.0),
    "big": op_cuboid([1, 1, 1], [30, 30, 30], 6.0),
    "away": op_cuboid([20, 1, 1], [1, 1, 1], 8.0),
    "slab": op_slab(1, 1, 0.75, 11.0),
    "slabi": op_slab(2, 1.25, 0.5, 3.5, as_int=True),
    "fillu": op_fill_slab(0, 1, 1.25, 5.0),
    "filld": op_fill_slab(2, -1, 1.25, 2.5, as_int=True),
    "fcub": op_fill_cuboid(1, 1, [1, 1.25, 1], [1.5, 1.5], 12.0),
    "fcubd": op_fill_cuboid(0, -1, [1.5, 1, 1.25], [1, 1.5], 13.0, as_int=True),
    "tri": op_polygon([0.75, 1, 1], [(0, 0), (1.5, 0), (0, 1)], 1.5, 10.0),
    "lsh": op_polygon([1, 1, 1], [(-1, -0.75), (1, -0.75), (1, 0), (0, 0),
                                  (0, 0.5), (-1, 0.5)], 1, 14.0, False),
    "cyl": op_cylinder([1.25, 1, 1], 0.75, 1.25, 15.0),
}
CONVEX = [o for o in OPS if o != "lsh"]


def tol(ops):
    # gdspy links a hole to the boundary of a polygon of many sides with an
    # error of up to 1e-4 of the area.
    return 2e-3 if "cyl" in ops else 1e-6


def initial_for(edges, kind):
    n = tuple(len(e) - 1 for e in edges)
    if kind == "scalar":
        return 1.5, [np.full(n, 1.5)] * 3
    if kind == "complex":
        return 2 + 1j, [np.full(n, 2 + 1j)] * 3
    if kind == "list":
        return [1.0, 2.0, 3.0], [np.full(n, v) for v in (1.0, 2.0, 3.0)]
    arrs = [np.arange(np.prod(n)).reshape(n) + 1 + 10 * k for k in range(3)]
    if kind == "arrays":
        return [a.astype(float) for a in arrs], arrs
    return arrs, arrs  # Integer arrays.


def check_grid(ctx, g, edges, ext, shapes, init, ops, periodic=(False,) * 3):
    want = reference(edges, ext, shapes, init, periodic)
    got = np.array([np.asarray(x) for x in g.grids])
    ctx.state([ops, want.round(3).tolist()])
    require(got.shape == want.shape, "shape", str(got.shape))
    require(np.all(np.abs(got - want) <= tol(ops)), "permittivity",
            lambda: "after {}: max error {} at {}: got {} want {}".format(
                ops, np.abs(got - want).max(),
                np.unravel_index(np.argmax(np.abs(got - want)), got.shape),
                got.ravel()[np.argmax(np.abs(got - want))],
                want.ravel()[np.argmax(np.abs(got - want))]))


# --------------------------------------------------------------------------


def single_cases(tier):
    out = []
    for key in EDGES:
        for ext in range(3):
            for kind in ("scalar", "complex", "list", "arrays", "ints"):
                for o in OPS:
                    for per in (False, True, [True, False, False],
                                [False, True, True]):
                        if per and kind != "scalar":
                            continue
                        out.append([key, ext, kind, o, per])
    return out


@chk.section("single", single_cases,
             "every drawing operation x 4 grids (uniform, non-uniform, small, one "
             "cell thick) x 3 extrusion directions x 5 kinds of initial value "
             "x 4 periodicity settings; rendered twice")
def single(ctx, case):
    key, ext, kind, o, per = case
    edges = EDGES[key]
    arg, init = initial_for(edges, kind)
    g = Grid([np.array(e, dtype=float) for e in edges],
             ext_dir=Direction(ext), initial=arg, num_grids=3, periodic=per)
    per3 = per if isinstance(per, list) else [per] * 3
    shape = OPS[o](g, edges, ext)
    g.render()
    check_grid(ctx, g, edges, ext, [shape], init, [o], per3)
    g.render()
    check_grid(ctx, g, edges, ext, [shape], init, [o], per3)
    g.clear()
    g.render()
    check_grid(ctx, g, edges, ext, [], init, [], per3)
    ctx.step(4)
    ctx.run()
    ctx.outcome(g.grids[0].ravel()[0])


def seq_cases(tier):
    out = []
    ops = list(OPS)
    for key in ("n", "s"):
        for ext in range(3):
            for a, b in itertools.product(ops, CONVEX):
                if a == "lsh" and b == "lsh":
                    continue
                out.append([key, ext, [a, b], 1])
    small = ["wide", "thin", "out", "slab", "tri"]
    if tier == "thorough":
        small = CONVEX
    for ext in range(3) if tier == "thorough" else (2,):
        for t in itertools.product(small, repeat=3):
            out.append(["n", ext, list(t), ext % 2])
    return out


@chk.section("painter", seq_cases,
             "all ordered pairs of drawing operations x 2 grids x 3 extrusion "
             "directions, all ordered triples of 5 (thorough: 14) operations; "
             "after the second operation the first ones are rendered too")
def painter(ctx, case):
    key, ext, ops, mid = case
    edges = EDGES[key]
    arg, init = initial_for(edges, "list")
    g = Grid([np.array(e, dtype=float) for e in edges],
             ext_dir=ext, initial=arg)
    shapes = []
    for i, o in enumerate(ops):
        shapes.append(OPS[o](g, edges, ext))
        ctx.step()
        if mid or i == len(ops) - 1:
            g.render()
            check_grid(ctx, g, edges, ext, shapes, init, ops[:i + 1])
    ctx.run()
    ctx.outcome(np.round(g.grids[0], 3).ravel().tolist())


class Units:
    """Draws on a grid given in other units of length."""

    def __init__(self, g, s):
        self.g, self.s = g, s

    def draw_cuboid(self, c, e, eps):
        self.g.draw_cuboid(c * self.s, e * self.s, eps)

    def draw_slab(self, a, c, t, eps):
        self.g.draw_slab(a, c * self.s, t * self.s, eps)

    def fill_slab(self, a, p, c, eps):
        self.g.fill_slab(a, p, c * self.s, eps)

    def fill_cuboid(self, a, p, c, e, eps):
        self.g.fill_cuboid(a, p, c * self.s, e * self.s, eps)

    def draw_polygon(self, c, p, t, eps):
        self.g.draw_polygon(c * self.s, p * self.s, t * self.s, eps)

    def draw_cylinder(self, c, r, t, n, eps):
        self.g.draw_cylinder(c * self.s, r * self.s, t * self.s, n, eps)


def unit_cases(tier):
    ops = ["wide", "thin", "fcub", "tri", "cyl"] if tier == "quick" else CONVEX
    return [[s, ext, [a, b]] for s in (1e-6, 1 / 30, 40.0, 1e5)
            for ext in range(3) for a, b in itertools.product(ops, repeat=2)]


@chk.section("units", unit_cases,
             "all ordered pairs of 5 (thorough: 14) drawing operations x "
             "extrusion directions in four units of length")
def units(ctx, case):
    s, ext, ops = case
    edges = EDGES["n"]
    arg, init = initial_for(edges, "list")
    g = Grid([np.array(e, dtype=float) * s for e in edges], ext_dir=ext,
             initial=arg)
    shapes = [OPS[o](Units(g, s), edges, ext) for o in ops]
    g.render()
    check_grid(ctx, g, edges, ext, shapes, init, ops)
    ctx.step(2)
    ctx.run()
    ctx.outcome(np.round(g.grids[0], 3).ravel().tolist())


HIST = ["wide", "thin", "slab", "R", "C", "K", "S"]


def hist_cases(tier):
    depth = 4 if tier == "quick" else 5
    out = []
    for d in range(1, depth + 1):
        for t in itertools.product(HIST, repeat=d):
            if t[0] in ("R", "K", "S", "C") and d > 3:
                continue
            out.append(list(t))
    return out


@chk.section("histories", hist_cases,
             "all histories up to length 4 (thorough 5) over three drawing "
             "operations, render, clear, copy (the original is drawn over "
             "afterwards) and save/load")
def histories(ctx, case):
    edges = EDGES["u"]
    ext = 2
    arg, init = initial_for(edges, "complex")
    g = Grid([np.array(e, dtype=float) for e in edges], initial=arg)
    shapes, rendered = [], None
    for t in case:
        if t == "R":
            g.render()
            rendered = list(shapes)
        elif t == "C":
            g.clear()
            shapes = []
        elif t == "K":
            old = g
            g = g.copy()
            old.draw_cuboid(np.array([1, 1, 1]), np.array([9, 9, 9]), 99)
            old.render()
        elif t == "S":
            with vlib.scratch() as d:
                f = os.path.join(d, "grid")
                g.save(f)
                g = Grid.load(f)
        else:
            shapes.append(OPS[t](g, edges, ext))
        ctx.step()
        if rendered is not None:
            # Drawing and clearing have no effect until the next render.
            check_grid(ctx, g, edges, ext, rendered, init, ["thin"])
    g.render()
    check_grid(ctx, g, edges, ext, shapes, init, ["thin"])
    ctx.run()
    ctx.outcome(np.round(g.grids[0], 3).ravel().tolist())


@chk.section("disjoint", lambda tier: [[ext, list(p)] for ext in range(3)
                                       for n in (1, 2, 3)
                                       for p in itertools.permutations(
                                           range(4), n)],
             "all ordered selections of disjoint cuboids, rendered with and "
             "without removal of intersections")
def disjoint(ctx, case):
    ext, sel = case
    edges = EDGES["u"]
    arg, init = initial_for(edges, "list")
    boxes = [([0.5, 0.5, 1], [0.5, 0.5, 1.5], 4.0),
             ([1.25, 0.5, 0.75], [0.5, 1.5, 0.5], 5.0),
             ([2, 1, 1], [0.75, 1, 2], [6.0, 7.0, 8.0]),
             ([2.75, 1.5, 1], [0.25, 3, 1], 9 + 2j)]
    for flag in (False, True):
        g = Grid([np.array(e, dtype=float) for e in edges], ext_dir=ext,
                 initial=arg)
        shapes = [op_cuboid(*boxes[i])(g, edges, ext,
                                       np.array if isinstance(boxes[i][2], list)
                                       else lambda v: v) for i in sel]
        g.render(disable_intersection=flag)
        check_grid(ctx, g, edges, ext, shapes, init, [])
        ctx.step(len(sel))
    ctx.run(2)
    ctx.outcome(sel)


# --------------------------------------------------------------------------
# Coordinates

COORD = {
    "u": EDGES["u"],
    "n": EDGES["n"],
    "g": [[0, 0.25, 1, 3, 3.5], [-2, -1, 4], [0, 3]],
}
PERS = [False, True, [True, False, True], [False, True, False]]


def want_edges(edges, a, shift, periodic, comp):
    """Documented grid lines: each line moves by shift x the cell after it."""
    d = [edges[i + 1] - edges[i] for i in range(len(edges) - 1)]
    ghost = d[0] if periodic else d[-1]
    dg = d + [ghost]
    out = [e + shift * w for e, w in zip(edges, dg)]
    if comp and shift:
        out = [edges[0] - ghost * shift] + out
    return out


@chk.section("coordinates", lambda tier: [[k, p, s, t] for k in COORD
                                          for p in PERS for s in
                                          (None, 0, 1, 2) for t in (0, 1)],
             "every grid x periodicity x component x primary/complementary: "
             "edges, centres, sizes, all sub-cell positions and indices")
def coordinates(ctx, case):
    key, per, s, t = case
    edges = COORD[key]
    per3 = per if isinstance(per, list) else [per] * 3
    g = Grid([np.array(e, dtype=float) for e in edges], periodic=per)
    kind = GridType(t)
    sh = np.zeros(3)
    if s is not None:
        sh = 0.5 * np.eye(3)[s]
        if t == 1:
            sh = 0.5 - sh
    ex = [want_edges(edges[a], a, sh[a], per3[a], t == 1 and s is not None)
          for a in range(3)]
    got = g.shifted_exyz(s, kind)
    dx = g.shifted_dxyz(s, kind)
    xc = g.shifted_xyz(s, kind)
    for a in range(3):
        require(vlib.close(got[a], ex[a]), "edges",
                lambda: "axis {}: {} want {}".format(a, got[a], ex[a]))
        if t == 0 or s is None:
            require(vlib.close(dx[a], np.diff(ex[a])), "sizes",
                    lambda: "axis {}: {} want {}".format(a, dx[a], np.diff(ex[a])))
            require(vlib.close(xc[a], (np.array(ex[a][1:]) + ex[a][:-1]) / 2),
                    "centres", lambda: "axis {}: {}".format(a, xc[a]))
    require(list(g.shape) == [len(e) - 1 for e in edges], "shape")
    for a in range(3):
        require(vlib.close(g.dxyz[a], np.diff(edges[a])), "dxyz")
        require(vlib.close(g.xyz[a],
                           (np.array(edges[a][1:]) + edges[a][:-1]) / 2), "xyz")
        # Spacing between neighbouring E points, for the magnetic grid.
        e = want_edges(edges[a], a, 0.5, per3[a], True)
        require(vlib.close(g.dxyz_limits[0][a], min(np.diff(edges[a]))) and
                vlib.close(g.dxyz_limits[1][a], max(np.diff(edges[a]))),
                "limits")
    ctx.run()
    if t == 1 and s is not None:
        ctx.outcome([key, per, s])
        return
    n = [len(e) - 1 for e in ex]

    # Every index converts to the cell centre and back.
    for idx in itertools.product(*[range(k) for k in n]):
        pos = g.ind2pos(list(idx), s, kind)
        require(vlib.close(pos, [xc[a][idx[a]] for a in range(3)]),
                "index-to-position", lambda: "{} -> {}".format(idx, pos))
        back = g.pos2ind(pos, s, kind)
        require(list(back) == list(idx), "position-to-index",
                lambda: "{} -> {} -> {}".format(idx, pos, back))
        fb = g.pos2ind(pos, s, kind, round_ind=False)
        require(vlib.close(fb, idx), "fractional-index-of-centre",
                lambda: "{} -> {}".format(idx, fb))
        ctx.step(3)

    # Fractional indices, along each axis, and positions in every cell.
    mid = [xc[a][0] for a in range(3)]
    for a in range(3):
        last = -1
        for i in range(n[a]):
            for f in (0, 0.25, 0.5, 0.75):
                x = ex[a][i] + f * (ex[a][i + 1] - ex[a][i])
                r = list(mid)
                r[a] = x
                ind = g.pos2ind(r, s, kind)
                require(ind[a] == i, "cell-of-position",
                        lambda: "{} -> {} want {}".format(r, ind, i))
                fi = g.pos2ind(np.array(r), s, kind, round_ind=False)[a]
                want = min(max(i + f - 0.5, 0), n[a] - 1)
                require(abs(fi - want) < 1e-9, "fractional-index",
                        lambda: "{} axis {} -> {} want {}".format(r, a, fi,
                                                                  want))
                require(fi >= last, "monotonic", lambda: str((fi, last)))
                last = fi
                vi = [0.] * 3
                vi[a] = i + f - 0.5
                p = g.ind2pos(vi, s, kind, round_ind=False)
                require(abs(p[a] - x) < 1e-9, "position-of-fractional-index",
                        lambda: "{} -> {} want {}".format(vi, p, x))
                require(g.coord2ind(x, Direction(a), s, kind,
                                    check_bounds=False) == i, "coord2ind")
                ctx.step(4)
        # Out of range: rejected, or clipped when asked to.
        for x, clipped in ((ex[a][0] - 0.125, 0), (ex[a][-1] + 0.125,
                                                   n[a] - 1)):
            r = list(mid)
            r[a] = x
            if n[a] > 1:
                try:
                    got = g.pos2ind(r, s, kind)
                    fail("out-of-range-accepted", "{} -> {}".format(r, got))
                except GridError:
                    pass
            for rnd in (True, False):
                got = g.pos2ind(r, s, kind, round_ind=rnd, check_bounds=False)
                require(got[a] == clipped, "clip",
                        lambda: "{} -> {} want {}".format(r, got, clipped))
        for i, clipped in ((-1, 0), (n[a], n[a] - 1), (n[a] + 1, n[a] - 1)):
            vi = [0] * 3
            vi[a] = i
            for rnd in (True, False):
                try:
                    got = g.ind2pos(vi, s, kind, round_ind=rnd)
                    fail("out-of-range-accepted", "{} -> {}".format(vi, got))
                except GridError:
                    pass
            got = g.ind2pos(vi, s, kind, check_bounds=False)
            require(abs(got[a] - xc[a][clipped]) < 1e-9, "clip",
                    lambda: "{} -> {}".format(vi, got))
    for bad in (3, 7):
        for f in (g.pos2ind, g.ind2pos):
            try:
                f([0, 0, 0], bad)
                fail("bad-component-accepted")
            except GridError:
                pass
    ctx.outcome([key, per, s])


@chk.section("slices", lambda tier: [[k, a, s, sp] for k in ("u", "n", "s")
                                     for a in range(3) for s in range(3)
                                     for sp in (1, 2)],
             "every slice normal x component x sampling at the grid planes and "
             "half way between them")
def slices(ctx, case):
    key, a, s, sp = case
    edges = EDGES[key]
    n = [len(e) - 1 for e in edges]
    g = Grid([np.array(e, dtype=float) for e in edges])
    vals = np.arange(3 * np.prod(n)).reshape([3] + n) * (1 + 2j) + 1
    g.grids = vals
    plane = g.shifted_xyz(s)[a]
    for i in range(n[a]):
        for f in (0, 0.25, 0.5):
            if i == n[a] - 1 and f:
                continue
            ind = [0.] * 3
            ind[a] = i + f
            x = g.ind2pos(ind, s, round_ind=False)[a]
            if not g.xyz[a][0] <= x <= g.xyz[a][-1]:
                try:
                    g.get_slice(a, x, s, sp)
                    fail("out-of-range-accepted")
                except GridError:
                    continue
            for d in (a, Direction(a)):
                got = g.get_slice(d, x, s, sp)
                v = np.moveaxis(vals[s], a, 0)
                want = v[i] * (1 - f)
                if f:
                    want = want + f * v[i + 1]
                want = np.squeeze(want[::sp, ::sp])
                require(vlib.close(got, want), "slice",
                        lambda: "at {}: {} want {}".format(x, got, want))
                ctx.step()
    ctx.run()
    ctx.outcome(case)


BAD = [
    ("polygon-2-points", lambda g: g.draw_polygon([0, 0, 0], [[0, 0], [1, 1]], 1, 2.0)),
    ("polygon-flat", lambda g: g.draw_polygon([0, 0, 0], [0, 0, 1, 1], 1, 2.0)),
    ("polygon-3d", lambda g: g.draw_polygon([0, 0, 0], np.zeros((4, 3)), 1, 2.0)),
    ("polygon-center", lambda g: g.draw_polygon([0, 0], [[0, 0], [1, 1], [0, 1]], 1, 2.0)),
    ("thickness-0", lambda g: g.draw_polygon([0, 0, 0], [[0, 0], [1, 1], [0, 1]], 0, 2.0)),
    ("thickness-negative", lambda g: g.draw_cuboid([0, 0, 0], [1, 1, -1], 2.0)),
    ("cuboid-center", lambda g: g.draw_cuboid([0, 0], [1, 1, 1], 2.0)),
    ("cuboid-extent", lambda g: g.draw_cuboid([0, 0, 0], [1, 1], 2.0)),
    ("cuboid-eps", lambda g: g.draw_cuboid([0, 0, 0], [1, 1, 1], np.array([1., 2.]))),
    ("cuboid-eps-list", lambda g: g.draw_cuboid([0, 0, 0], [1, 1, 1], [1., 2.])),
    ("polygon-eps", lambda g: g.draw_polygon([0, 0, 0], [[0, 0], [1, 1], [0, 1]], 1, np.array([1., 2.]))),
    ("polygon-eps-2d", lambda g: g.draw_polygon([0, 0, 0], [[0, 0], [1, 1], [0, 1]], 1, np.ones((3, 1)))),
    ("cylinder-eps", lambda g: g.draw_cylinder([0, 0, 0], 1, 1, 10, np.array([1., 2.]))),
    ("slab-axis", lambda g: g.draw_slab(3, 0, 1, 2.0)),
    ("fill-slab-axis", lambda g: g.fill_slab(3, 1, 1, 2.0)),
    ("fill-cuboid-axis", lambda g: g.fill_cuboid(3, 1, [1, 1, 1], [1, 1], 2.0)),
    ("fill-polarity", lambda g: g.fill_slab(Direction.x, 0, 1, 2.0)),
    ("fill-cuboid-polarity", lambda g: g.fill_cuboid(Direction.x, 2, [1, 1, 1], [1, 1], 2.0)),
    ("shifts", lambda g: Grid(g.exyz, shifts=np.zeros((3, 2)))),
    ("comp-shifts", lambda g: Grid(g.exyz, comp_shifts=np.zeros((3, 2)))),
    ("shift-count", lambda g: Grid(g.exyz, comp_shifts=np.zeros((2, 3)))),
    ("negative-shift", lambda g: Grid(g.exyz, shifts=-0.5 * np.eye(3))),
    ("too-many-grids", lambda g: Grid(g.exyz, num_grids=4)),
    ("few-initial", lambda g: Grid(g.exyz, initial=[1, 2])),
    ("initial-shape", lambda g: Grid(g.exyz, initial=[np.ones((2, 2, 2))] * 3)),
    ("ext-dir", lambda g: Grid(g.exyz, ext_dir=3)),
    ("slice-normal", lambda g: g.get_slice(3, 1.0)),
    ("slice-period", lambda g: g.get_slice(2, 1.0, sample_period=0)),
    ("slice-component", lambda g: g.get_slice(2, 1.0, which_shifts=-1)),
    ("slice-outside", lambda g: g.get_slice(0, 17.0)),
]


@chk.section("rejections", lambda tier: list(range(len(BAD))),
             "every malformed request is refused and leaves the drawing as it "
             "was")
def rejections(ctx, i):
    name, fn = BAD[i]
    edges = EDGES["u"]
    g = Grid([np.array(e, dtype=float) for e in edges], initial=1.5)
    shapes = [OPS["cube"](g, edges, 2)]
    g.render()
    try:
        fn(g)
    except GridError:
        pass
    else:
        fail("accepted", name)
    g.render()
    check_grid(ctx, g, edges, 2, shapes, initial_for(edges, "scalar")[1],
               ["cube"])
    ctx.step()
    ctx.run()
    ctx.outcome(name)


@chk.section("subset-of-grids", lambda tier: [1, 2, 3],
             "rendering with fewer component grids than shifts")
def subset(ctx, num):
    edges = EDGES["n"]
    n = [len(e) - 1 for e in edges]
    g = Grid([np.array(e, dtype=float) for e in edges], initial=1.5,
             num_grids=num)
    shapes = [OPS["wide"](g, edges, 2), OPS["thin"](g, edges, 2)]
    g.render()
    want = reference(edges, 2, shapes, initial_for(edges, "scalar")[1])[:num]
    require(vlib.close(np.array(g.grids), want, atol=1e-6), "permittivity")
    ctx.step(2)
    ctx.run()
    ctx.outcome(num)


@chk.section("axis-vectors", lambda tier: [[a, b, c] for a in (-2, -1e-8, 0, 1, 3)
                                           for b in (-1, 0, 1e-9, 2)
                                           for c in (-1, 0, 0.5)],
             "axis and polarity of every vector over a small component set")
def axis_vectors(ctx, v):
    big = [i for i in range(3) if abs(v[i]) > 1e-6 * np.linalg.norm(v)]
    for w in (v, np.array(v, dtype=float)):
        if len(big) == 1:
            require(direction.axisvec2axis(w) == big[0], "axis", str(v))
            require(direction.axisvec2polarity(w) == (1 if v[big[0]] > 0 else -1),
                    "polarity", str(v))
        else:
            for f in (direction.axisvec2axis, direction.axisvec2polarity):
                try:
                    f(w)
                    fail("accepted", str(v))
                except ValueError:
                    pass
        ctx.step()
    ctx.run()
    ctx.outcome(big)


if __name__ == "__main__":
    chk.main()
