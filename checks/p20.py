"""P20: layout files and the design region reproduce the intended geometry."""
import contextlib
import itertools
import os
import shutil
import tempfile

import numpy as np

import vlib
from vlib import require
import drawref

vlib.import_spins()
import gdspy
from matplotlib import pyplot as plt

from spins import fdfd_tools
from spins import gds
from spins import goos
from spins import gridlock
from spins import material
from spins.invdes import parametrization
from spins.invdes.problem import selection_matrix as old_selmat
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import simspace

chk = vlib.Check("P20", "model_checking", [
    "polygons of a layout are nested or do not overlap (they may touch), and "
    "no two are identical",
    "coordinates are whole nanometres, the resolution of the layout files",
    "design regions on a quarter-cell lattice that keep half a cell from the "
    "upper ends of the grid",
])


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="p20-")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def inside(poly, pt):
    """Even-odd rule."""
    x, y = pt
    c = False
    for i in range(len(poly)):
        (x1, y1), (x2, y2) = poly[i - 1], poly[i]
        if (y1 > y) != (y2 > y) and x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
            c = not c
    return c


def count(polys, pt):
    return sum(inside(p, pt) for p in polys)


def ring(r, turn, scale=100.0, shift=(0, 0)):
    """Vertices of a rectangle; turn: first vertex and direction."""
    x0, y0, x1, y1 = r
    p = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
    p = p[turn % 4:] + p[:turn % 4]
    if turn >= 4:
        p = p[:1] + p[:0:-1]
    return np.array([(shift[0] + scale * x, shift[1] + scale * y)
                     for x, y in p])


# -------------------------------------------------------------------- layouts


def relation(r, s):
    if r == s:
        return "same"
    if r[2] <= s[0] or s[2] <= r[0] or r[3] <= s[1] or s[3] <= r[1]:
        return "apart"
    if r[0] <= s[0] and r[1] <= s[1] and r[2] >= s[2] and r[3] >= s[3]:
        return "contains"
    if s[0] <= r[0] and s[1] <= r[1] and s[2] >= r[2] and s[3] >= r[3]:
        return "inside"
    return "cross"


def rects(n):
    iv = [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
    return [(a[0], b[0], a[1], b[1]) for a in iv for b in iv]


def fits(rs):
    return all(relation(a, b) not in ("cross", "same")
               for a, b in itertools.combinations(rs, 2))


NEST = [(0, 0, 9, 9), (1, 1, 8, 8), (2, 2, 7, 7), (3, 3, 6, 6), (4, 4, 5, 5)]
ISLES = [(0, 0, 1, 1), (1, 2, 2, 4), (2, 2, 3, 3), (3, 4, 4, 5), (6, 3, 7, 6),
         (8, 8, 9, 9), (10, 1, 12, 3), (3, 5, 4, 6)]


def layout_cases(tier):
    out = [[[list(r)], t] for r in rects(3) for t in range(8)]
    pairs = [p for p in itertools.permutations(rects(3), 2) if fits(p)]
    out += [[[list(r) for r in p], t] for i, p in enumerate(pairs)
            for t in ((0, 7) if tier == "thorough" else (i % 8,))]
    # Three on a lattice of four lines.
    three = [p for p in itertools.combinations(rects(3), 3) if fits(p)]
    keep = three if tier == "thorough" else [
        p for p in three
        if any(relation(a, b) != "apart"
               for a, b in itertools.combinations(p, 2))
    ][::3]
    for i, p in enumerate(keep):
        perms = list(itertools.permutations(p))
        out += [[[list(r) for r in q], i % 8] for q in (
            perms if tier == "thorough" else perms[i % 6:i % 6 + 1])]
    # Chains of nested squares with islands, in all orders.
    for n in range(1, 6):
        for chain in itertools.combinations(NEST, n):
            for m in (0, 1, 2) if tier == "thorough" else (0, 1):
                for isl in itertools.combinations(ISLES, m):
                    rs = [r for r in chain] + list(isl)
                    if len(rs) < 3 or not fits(rs):
                        continue
                    perms = list(itertools.permutations(rs))
                    step = 1 if len(rs) <= 3 else (
                        7 if tier == "thorough" else 29)
                    out += [[[list(r) for r in q], i % 8]
                            for i, q in enumerate(perms[::step])]
    return out


@chk.section("layouts", layout_cases,
             "all arrangements of nested, touching and separate rectangles, "
             "written and read back", timeout=40)
def _(ctx, case):
    rs, turn = case
    shift = (-350.0, 40.0)
    polys = [ring(r, (turn + 3 * i) % 8, shift=shift) for i, r in enumerate(rs)]
    with scratch() as d:
        f = os.path.join(d, "a.gds")
        gds.gen_gds([p.copy() for p in polys], f)
        got = []
        hi = max(max(r) for r in rs)
        filled = sum((-1)**count(polys, (shift[0] + 100 * x + 50,
                                         shift[1] + 100 * y + 50)) < 0
                     for x, y in itertools.product(range(hi), repeat=2))
        if filled:
            with open(f, "rb") as fp:
                lay = gds.GDSImport(fp)
            got = [np.array(p) * 1000 for p in lay.get_polygons((0, 0))]
            require(list(lay.layers) == [(0, 0)], "layer",
                    str(list(lay.layers)))
        # Without removing holes all the polygons are written as they are.
        gds.gen_gds([p.copy() for p in polys], f, deembed=False)
        with open(f, "rb") as fp:
            raw = gds.GDSImport(fp)
        raws = [np.array(p) * 1000 for p in raw.get_polygons((0, 0))]
    for x, y, (u, v) in itertools.product(range(-1, hi + 1), range(-1, hi + 1),
                                          ((47, 53), (2, 3), (97, 98))):
        pt = (shift[0] + 100 * x + u, shift[1] + 100 * y + v)
        n = count(polys, pt)
        require(count(got, pt) == n % 2, "covered",
                lambda: "{} at {}: {} want {}".format(case, (x, y), count(
                    got, pt), n % 2))
        require(count(raws, pt) == n, "covered-raw",
                lambda: "{} at {}: {} want {}".format(case, (x, y), count(
                    raws, pt), n))
    boxes = raw.get_bounding_boxes((0, 0))
    want = sorted((100.0 * r[0] + shift[0], 100.0 * r[2] + shift[0],
                   100.0 * r[1] + shift[1], 100.0 * r[3] + shift[1])
                  for r in rs)
    have = sorted(tuple(b.x_minmax) + tuple(b.y_minmax) for b in boxes)
    require(vlib.close(have, want), "boxes", "{}: {} want {}".format(
        case, have, want))
    for b in boxes:
        (x0, x1), (y0, y1) = b.x_minmax, b.y_minmax
        require(vlib.close(b.center, [(x0 + x1) / 2, (y0 + y1) / 2]) and
                vlib.close(b.extents, [x1 - x0, y1 - y0]), "box", str(b))
    ctx.run()
    ctx.step(4)
    ctx.state(case)
    ctx.outcome(sorted(map(tuple, rs)))


# ---------------------------------------------------------------------- cells

CELLS = {
    # name: polygons as (layer, datatype, rectangle), references.
    "E": ([], []),
    "one": ([(1, 0, (0, 0, 1, 1))], []),
    "uno": ([(2, 0, (3, 0, 4, 1))], []),
    "two": ([(1, 0, (0, 0, 2, 1)), (1, 1, (5, 5, 6, 7))], []),
    "$$$hid": ([(7, 0, (0, 0, 1, 1))] * 5, []),
    "ref": ([(2, 0, (0, 0, 1, 3))],
            [("sub", (10, 20), 0), ("sub", (0, 0), 90)]),
    "deep": ([], [("mid", (1, 2), 0)]),
}
HIDDEN = {
    "sub": ([(1, 0, (0, 0, 2, 1))], []),
    "mid": ([(3, 5, (0, 0, 1, 1))], [("sub", (4, 0), 180), ("sub", (0, 8), 0)]),
}


def flatten(name):
    """Polygons (layer, datatype, vertices in um) of a cell."""
    polys, refs = CELLS.get(name) or HIDDEN[name]
    out = [(l, t, ring(r, 0, 1.0)) for l, t, r in polys]
    for sub, origin, rot in refs:
        c, s = {0: (1, 0), 90: (0, 1), 180: (-1, 0)}[rot]
        for l, t, p in flatten(sub):
            out.append((l, t, np.stack([
                c * p[:, 0] - s * p[:, 1] + origin[0],
                s * p[:, 0] + c * p[:, 1] + origin[1]
            ], axis=1)))
    return out


def needs(name):
    out = set()
    for sub, _, _ in (CELLS.get(name) or HIDDEN[name])[1]:
        out |= {sub} | needs(sub)
    return out


def write_cells(path, names, unit, precision):
    lib = gdspy.GdsLibrary("lib", unit=unit, precision=precision)
    k = 1e-6 / unit
    objs = {}

    def build(name):
        if name in objs:
            return objs[name]
        polys, refs = CELLS.get(name) or HIDDEN[name]
        cell = gdspy.Cell(name, exclude_from_current=True)
        for l, t, r in polys:
            cell.add(gdspy.Polygon(ring(r, 0, k), layer=l, datatype=t))
        for sub, origin, rot in refs:
            cell.add(gdspy.CellReference(
                build(sub), (k * origin[0], k * origin[1]), rotation=rot))
        objs[name] = cell
        return cell

    for n in names:
        build(n)
    order = []
    for n in names:
        order += [objs[n]]
    for n, c in objs.items():
        if n not in names:
            order.append(c)
    for c in order:
        lib.add(c, include_dependencies=False)
    lib.write_gds(path)


UNITS = [(1e-6, 1e-9), (1e-9, 1e-9), (1e-6, 1e-10), (1e-3, 1e-9)]


def cell_cases(tier):
    out = []
    names = list(CELLS)
    depth = 3 if tier == "quick" else 4
    for n in range(1, depth + 1):
        sets = itertools.permutations(names, n) if n <= 3 else (
            itertools.combinations(names, n))
        for i, c in enumerate(sets):
            units = range(4) if n == 1 else [i % 4]
            out += [[list(c), u] for u in units]
    return out


@chk.section("cells", cell_cases,
             "all sets of cells in all orders x units of the file; the cell "
             "chosen, by name and by its number of polygons, and its layers")
def _(ctx, case):
    names, u = case
    with scratch() as d:
        f = os.path.join(d, "a.gds")
        write_cells(f, names, *UNITS[u])

        def load(name=None):
            with open(f, "rb") as fp:
                return gds.GDSImport(fp, name)

        def compare(lay, name):
            want = {}
            for l, t, p in flatten(name):
                want.setdefault((l, t), []).append(p)
            require(lay.top_level_cell.name == name and
                    sorted(lay.layers) == sorted(want), "layers",
                    "{} {}: {} {} want {}".format(
                        case, name, lay.top_level_cell.name,
                        sorted(lay.layers), sorted(want)))
            for key in itertools.product(range(8), (0, 1, 5)):
                got = lay.get_polygons(key)
                ref = want.get(key, [])

                def norm(ps):
                    return sorted(sorted(
                        (round(float(x), 6) + 0.0, round(float(y), 6) + 0.0)
                        for x, y in p) for p in ps)

                require(norm(got) == norm(ref), "polygons",
                        lambda: "{} {} {}: {} want {}".format(
                            case, name, key, norm(got), norm(ref)))
                boxes = lay.get_bounding_boxes(key)
                have = sorted(
                    tuple(np.round(list(b.x_minmax) + list(b.y_minmax), 3) +
                          0.0) for b in boxes)
                exp = sorted(
                    tuple(np.round([1000 * v for v in (
                        p[:, 0].min(), p[:, 0].max(), p[:, 1].min(),
                        p[:, 1].max())], 3) + 0.0) for p in ref)
                require(have == exp, "boxes", lambda: "{} {} {}: {} want {}"
                        .format(case, name, key, have, exp))
                ctx.step()

        sizes = {n: len(flatten(n)) for n in names if not n.startswith("$$$")}
        top = max(sizes.values(), default=0)
        best = [n for n in sizes if sizes[n] == top]
        try:
            lay = load()
        except ValueError:
            require(top == 0 or len(best) > 1, "rejected",
                    "{}: {}".format(case, sizes))
            ctx.outcome("rejected")
        else:
            require(top > 0 and len(best) == 1, "accepted",
                    "{}: {}".format(case, sizes))
            compare(lay, best[0])
        for n in names:
            compare(load(n), n)
            ctx.outcome((n, u))
        try:
            load("nothing")
        except ValueError:
            pass
        else:
            vlib.fail("unknown-name", str(case))
    ctx.run()
    ctx.state(case)


# --------------------------------------------- layouts of a parametrization


def param_cases(tier):
    # All designs on three by three points; on more points, the first row is
    # empty in the quick tier.
    out = []
    for nx, ny in ((3, 3), (3, 4), (4, 3)):
        free = 9 if tier == "quick" else nx * ny
        for v in itertools.product((0, 1), repeat=free):
            out.append([nx, ny, [0] * (nx * ny - free) + list(v)])
    return out


@chk.section("exported-design", param_cases,
             "all two-level designs on a coarse lattice: the polygons, and the "
             "layout file made of them")
def _(ctx, case):
    nx, ny, v = case
    k = 4
    fx, fy = np.arange(k * (nx - 1) + 1), np.arange(k * (ny - 1) + 1)
    p = parametrization.CubicParam(np.array(v, float), np.arange(nx) * k,
                                   np.arange(ny) * k, fx, fy)
    phi = np.asarray(p.get_structure()).reshape((len(fx), len(fy)), order="F")
    dx = 40
    polys = p.generate_polygons(dx)
    plt.close("all")
    with scratch() as d:
        f = os.path.join(d, "a.gds")
        gds.gen_gds(polys, f)
        if polys:
            with open(f, "rb") as fp:
                lay = gds.GDSImport(fp)
            back = [np.array(q) * 1000 for q in lay.get_polygons((0, 0))]
        else:
            back = []
    for i, x in enumerate(fx):
        for j, y in enumerate(fy):
            if abs(phi[i, j] - 0.5) < 0.1:
                continue  # On the outline.
            want = int(phi[i, j] > 0.5)
            # Not on one of the grid lines, where vertices lie.
            pt = (x * dx / 2 + 0.013, y * dx / 2 + 0.017)
            require(count(polys, pt) % 2 == want, "polygons",
                    lambda: "{} at {}: {}".format(case, (i, j), phi[i, j]))
            require(count(back, pt) == want, "layout",
                    lambda: "{} at {}: {} {}".format(
                        case, (i, j), phi[i, j], count(back, pt)))
            ctx.step()
    ctx.run()
    ctx.state(case)
    ctx.outcome((nx, ny, len(polys)))


# -------------------------------------------------------------- design region


def edges_of(shape, dx=1.0, x0=0.0):
    return [x0 + dx * np.arange(n + 1) for n in shape]


def draw(edges, boxes, initial):
    """Exact permittivity of boxes ((x0, y0, x1, y1), (z0, z1), eps)."""
    shapes = [
        drawref.box_shape(2, [r[0], r[1], z[0]], [r[2], r[3], z[1]], eps)
        for r, z, eps in boxes
    ]
    n = [len(e) - 1 for e in edges]
    return drawref.reference([list(e) for e in edges], 2, shapes,
                             np.full([3] + n, initial, complex))


def pixel_spans(kind, lo, hi):
    """The extent of each design pixel along an axis whose region is [lo, hi]."""
    if kind == "direct":
        a, b = int(np.floor(2 * lo + 1e-9)), int(np.ceil(2 * hi - 1e-9))
        return [(i / 2, (i + 1) / 2) for i in range(a, b)]
    # A pixel per cell; cell i is around grid line i, and also counts when the
    # cell between the lines i and i + 1 is reached.
    a = int(np.floor(lo + 1e-9))
    b = int(np.floor(hi + 0.5 - 1e-9))
    return [(i - 0.5, i + 0.5) for i in range(a, b + 1)]


def ref_selection(kind, shape, spans, diff):
    """Dense selection matrix: what part of a cell's design share is a pixel's."""
    n = int(np.prod(shape))
    npx = len(spans[0]) * len(spans[1])
    out = np.zeros((3 * n, npx), complex)
    for c in range(3):
        cs = drawref.cells([list(e) for e in edges_of(shape)], c)

        def share(a):
            w = np.zeros((shape[a], len(spans[a])))
            for i, (lo, hi) in enumerate(cs[a]):
                for p, (u, v) in enumerate(spans[a]):
                    # The grid is periodic.
                    w[i, p] = sum(
                        max(0.0, min(hi, v + t) - max(lo, u + t))
                        for t in (-shape[a], 0, shape[a]))
            s = w.sum(axis=1, keepdims=True)
            return np.divide(w, s, out=np.zeros_like(w), where=s > 1e-12)

        wx, wy = share(0), share(1)
        for i, j, k in itertools.product(*[range(s) for s in shape]):
            row = c * n + i + shape[0] * (j + shape[1] * k)
            # Pixels are numbered along x first.
            out[row] = diff[c, i, j, k] * np.outer(wy[j], wx[i]).ravel()
    return out


def region_cases(tier):
    out = []
    for shape in ((4, 4, 1), (3, 4, 2)):
        q = 2
        for xs in itertools.combinations(range(1, q * (shape[0] - 1) + 2), 2):
            for ys in itertools.combinations(range(1, q * (shape[1] - 1) + 2),
                                             2):
                out.append([list(shape), [[x / q for x in xs],
                                          [y / q for y in ys]], 0])
        q = 4
        grid = list(range(3, q * shape[0] - 3, 1 if tier == "thorough" else 2))
        for xs in itertools.combinations(grid, 2):
            gy = [g for g in grid if g < q * shape[1] - 3]
            for ys in itertools.combinations(gy, 2):
                out.append([list(shape), [[x / q for x in xs],
                                          [y / q for y in ys]], 1])
    return out


def check_region(ctx, shape, bg, fg, span, case):
    """span: [[x0, x1], [y0, y1]] the design region."""
    diff = fg - bg
    for kind in ("direct", "reduced"):
        S, dims = gridlock.create_selection_matrix(
            list(bg), list(fg), reduced=kind == "reduced",
            return_param_dims=True)
        S = np.asarray(S.todense())
        base = fdfd_tools.vec(list(bg))
        require(np.allclose(base + S @ np.ones(S.shape[1]),
                            fdfd_tools.vec(list(fg))), "all-ones",
                "{} {}".format(case, kind))
        spans = [pixel_spans(kind, *span[a]) for a in range(2)]
        require(list(dims) == [len(spans[0]), len(spans[1])] and
                S.shape[1] == int(np.prod(dims)), "design-size",
                "{} {}: {} want {}".format(case, kind, list(dims),
                                           [len(s) for s in spans]))
        want = ref_selection(kind, shape, spans, diff)
        # A pixel never affects what it does not cover.
        require(S.shape == want.shape and np.allclose(S, want), "pixels",
                lambda: "{} {}: {}".format(case, kind, [
                    (int(a), int(b), S[a, b], want[a, b])
                    for a, b in zip(*np.nonzero(~np.isclose(S, want)))][:5]))
        only = gridlock.create_selection_matrix(
            list(bg), list(fg), reduced=kind == "reduced")
        require(np.allclose(np.asarray(only.todense()), S), "without-size",
                str(case))
        ctx.step(3)


@chk.section("design-regions", region_cases,
             "all rectangular design regions on small grids: every pixel's "
             "share of every cell, with and without quarter-cell pixels")
def _(ctx, case):
    shape, span, mixed = case
    z = (0.0, float(shape[2]))
    edges = edges_of(shape)
    (x0, x1), (y0, y1) = span
    base = [((0, 0, 1.25, shape[1]), z, 3.0)] if mixed else []
    eps = 6.0 - 1.5j if mixed else 4.0
    bg = draw(edges, base, 1.0)
    fg = draw(edges, base + [((x0, y0, x1, y1), z, eps)], 1.0)
    check_region(ctx, shape, bg, fg, span, case)
    # A lower permittivity in the design region.
    if mixed:
        check_region(ctx, shape, fg, bg, span, case)
    ctx.run()
    ctx.state(case)
    ctx.outcome((shape, span))


@chk.section("two-piece-regions", lambda tier: [
    [list(a), list(b)] for a, b in itertools.permutations(
        [(0.5, 0.5, 1.0, 1.5), (1.0, 1.0, 2.0, 2.0), (2.0, 0.5, 3.0, 1.0),
         (0.5, 2.5, 3.5, 3.0), (2.5, 2.0, 3.0, 3.5), (1.5, 0.5, 2.5, 2.5)], 2)
], "design regions of two rectangles: the smallest rectangle around both")
def _(ctx, case):
    shape = (4, 4, 1)
    a, b = case
    bg = draw(edges_of(shape), [], 2.0)
    fg = draw(edges_of(shape), [(tuple(r), (0.0, 1.0), e)
                                for r, e in ((a, 4.0), (b, 5.5))], 2.0)
    span = [[min(a[i], b[i]), max(a[i + 2], b[i + 2])] for i in range(2)]
    check_region(ctx, shape, bg, fg, span, case)
    ctx.run()
    ctx.state(case)
    ctx.outcome(case)


@chk.section("no-region", [[n] for n in (1, 2)],
             "equal permittivities: there is no design region")
def _(ctx, case):
    for reduced in (False, True):
        eps = draw(edges_of((3, 3, case[0])), [], 2.0)
        try:
            gridlock.create_selection_matrix(list(eps), list(eps),
                                             reduced=reduced)
        except ValueError:
            continue
        vlib.fail("accepted", str(case))
    ctx.run()
    ctx.outcome(case)


@chk.section("averaging", [[list(s), list(b), old]
                           for s in ((4, 3, 1), (3, 4, 2))
                           for xs in itertools.combinations_with_replacement(
                               range(s[0]), 2)
                           for ys in itertools.combinations_with_replacement(
                               range(s[1]), 2)
                           for b in [(xs[0], ys[0], xs[1], ys[1])]
                           for old in (0, 1)],
             "all rectangles of cells of the averaging selection matrix")
def _(ctx, case):
    shape, (x0, y0, x1, y1), old = case
    mod = old_selmat if old else gridlock
    S = np.asarray(mod.average_2xFarEdge(
        np.array(shape), np.array([[x0, y0], [x1, y1]])).todense())
    nx, ny = x1 - x0 + 1, y1 - y0 + 1
    n = int(np.prod(shape))
    want = np.zeros((3 * n, nx * ny))
    for c, i, j, k in itertools.product(range(3), *[range(s) for s in shape]):
        if not (x0 <= i <= x1 and y0 <= j <= y1):
            continue
        row = c * n + i + shape[0] * (j + shape[1] * k)
        here = (i - x0) + nx * (j - y0)
        ii, jj = i - x0, j - y0
        if c == 0:
            ii = min(ii + 1, nx - 1)
        if c == 1:
            jj = min(jj + 1, ny - 1)
        want[row, here] += 0.5
        want[row, ii + nx * jj] += 0.5
    require(S.shape == want.shape and np.allclose(S, want), "matrix",
            lambda: "{}: {}".format(case, np.argwhere(~np.isclose(S, want))[
                :5].tolist()))
    ctx.run()
    ctx.step()
    ctx.state(case)
    ctx.outcome((shape, nx, ny))


# ----------------------------------------------------------- simulation spaces


def mat_index(mat, wlen):
    """The index a material has in a simulation space."""
    direct = getattr(simspace, "_get_mat_index", None)
    if direct is not None:
        return direct(mat, wlen)
    # Through the permittivity of a space filled with it.
    with scratch() as d:
        lib = gdspy.GdsLibrary("lib")
        cell = gdspy.Cell("TOP", exclude_from_current=True)
        cell.add(gdspy.Polygon([(0, 0), (1, 0), (1, 1)], layer=1, datatype=0))
        lib.add(cell)
        lib.write_gds(os.path.join(d, "lay.gds"))
        spec = lambda m: optplan.GdsMeshEps(
            gds="lay.gds", background=m, mesh_list=[
                optplan.SlabMesh(extents=[-40, 40], material=m)],
            stack_normal=[0, 0, 1])
        space = simspace.SimulationSpace(optplan.SimulationSpace(
            name="space", mesh=optplan.UniformMesh(dx=40.0),
            eps_bg=spec(mat), eps_fg=spec(index(2.0)),
            sim_region=optplan.Box3d(center=[0, 0, 0], extents=[80, 80, 80]),
            pml_thickness=[0] * 6, selection_matrix_type="full_direct"), d)
        return np.sqrt(complex(np.ravel(space(wlen).eps_bg.grids[0])[0]))


@chk.section("grid-lines", lambda tier: [
    [dx, c, ax] for dx in (40, 33.3, 12.7, 22.2, 0.1, 1 / 3, 25)
    for c in (0, 10, -3.3) for ax in range(3)],
             "the grid of a simulation space: spacings x centers x axis, all "
             "the extents of 1 to 40 cells and halves of cells", timeout=400)
def _(ctx, case):
    dx, c, ax = case
    with scratch() as d:
        lib = gdspy.GdsLibrary("lib")
        cell = gdspy.Cell("TOP", exclude_from_current=True)
        cell.add(gdspy.Polygon([(0, 0), (1, 0), (1, 1)], layer=1, datatype=0))
        lib.add(cell)
        lib.write_gds(os.path.join(d, "lay.gds"))
        spec = lambda n: optplan.GdsMeshEps(
            gds="lay.gds", background=index(n), mesh_list=[],
            stack_normal=[0, 0, 1])
        for k in range(2, 41 if ctx.tier == "quick" else 121):
            cells = k / 2
            ext = [dx] * 3
            ext[ax] = cells * dx
            space = simspace.SimulationSpace(optplan.SimulationSpace(
                name="space", mesh=optplan.UniformMesh(dx=dx),
                eps_bg=spec(1.0), eps_fg=spec(2.0),
                sim_region=optplan.Box3d(center=[c] * 3, extents=ext),
                pml_thickness=[0] * 6, selection_matrix_type="full_direct"), d)
            e = np.array(space.edge_coords[ax])
            # Cells are centered on the positions from the lower end on.
            want = int(np.ceil(cells))
            require(len(e) == want + 1 and np.allclose(np.diff(e), dx) and
                    np.isclose(e[0], c - cells * dx / 2 - dx / 2),
                    "grid", lambda: "{} cells of {} around {}: {}".format(
                        cells, dx, c, e.tolist()))
            ctx.step()
            ctx.run()
            ctx.state((case, k))
            ctx.outcome((case, k))


def index(n):
    return optplan.Material(index=optplan.ComplexNumber(real=np.real(n),
                                                        imag=np.imag(n)))


LAYOUT = {(1, 0): [(-60, -60, 20, 20)], (1, 1): [(-60, -60, -20, 60),
                                                 (20, -20, 60, 60)],
          (2, 0): [(-20, -60, 40, 40)], (5, 5): []}
STACKS = [
    # (layer, extents, foreground, background)
    [((1, 0), (-20, 20), 2.0, 1.5)],
    [((1, 1), (-40, 0), 3.0, 1.0), ((2, 0), (0, 40), 2.0 + 0.5j, 1.25)],
    [((2, 0), (-20, 40), 2.0, 1.0), ((1, 1), (-20, 0), 3.0, 2.5)],
    [((5, 5), (-20, 20), 3.0, 1.75)],
]
MESHES = [
    [("slab", (-20, 20), 1.5)],
    [("slab", (-40, 0), 1.5), ((1, 0), (-20, 20), 2.0)],
    [((1, 0), (-20, 20), 2.0), ("slab", (0, 40), 1.5), ((2, 0), (0, 20), 2.5)],
    [((1, 1), (-40, 40), 2.0 - 0.25j)],
]


def eps_spec(kind, k, background):
    if kind == "gds":
        return optplan.GdsEps(
            gds="lay.gds", stack_normal=[0, 0, 1],
            mat_stack=optplan.GdsMaterialStack(
                background=index(background), stack=[
                    optplan.GdsMaterialStackLayer(
                        gds_layer=list(l), extents=list(e), foreground=index(f),
                        background=index(b)) for l, e, f, b in STACKS[k]
                ]))
    out = []
    for what, ext, n in MESHES[k]:
        if what == "slab":
            out.append(optplan.SlabMesh(extents=list(ext), material=index(n)))
        else:
            out.append(optplan.GdsMesh(extents=list(ext), material=index(n),
                                       gds_layer=list(what)))
    return optplan.GdsMeshEps(gds="lay.gds", background=index(background),
                              mesh_list=out, stack_normal=[0, 0, 1])


FAR = (-1e4, -1e4, 1e4, 1e4)


def eps_boxes(kind, k):
    out = []
    if kind == "gds":
        for l, e, f, b in STACKS[k]:
            out.append((FAR, e, b**2))
            out += [(r, e, f**2) for r in LAYOUT[l]]
    else:
        for what, e, n in MESHES[k]:
            out += [(r, e, n**2) for r in (
                [FAR] if what == "slab" else LAYOUT[what])]
    return out


def space_cases(tier):
    specs = [(k, i) for k in ("gds", "mesh") for i in range(4)]
    out = []
    for a, b in itertools.permutations(specs, 2):
        for t in ("direct_lattice", "uniform", "full_direct"):
            out.append([list(a), list(b), t])
    return out


@chk.section("simulation-spaces", space_cases,
             "pairs of layered and meshed permittivities read from a layout x "
             "selection matrices", timeout=300)
def _(ctx, case):
    (bk, bi), (fk, fi), kind = case
    dx = 40.0
    with scratch() as d:
        lib = gdspy.GdsLibrary("lib")
        cell = gdspy.Cell("TOP", exclude_from_current=True)
        for (l, t), rs in LAYOUT.items():
            for r in rs:
                cell.add(gdspy.Polygon(ring(r, 0, 1e-3), layer=l, datatype=t))
        lib.add(cell)
        lib.write_gds(os.path.join(d, "lay.gds"))
        params = optplan.SimulationSpace(
            name="space", mesh=optplan.UniformMesh(dx=dx),
            eps_bg=eps_spec(bk, bi, 1.0), eps_fg=eps_spec(fk, fi, 1.0),
            sim_region=optplan.Box3d(center=[0, 0, 0],
                                     extents=[200, 200, 120]),
            pml_thickness=[0] * 6, selection_matrix_type=kind)
        space = simspace.SimulationSpace(params, d)
        probe = space.edge_coords
        for e, ext in zip(probe, (200, 200, 120)):
            require(np.allclose(np.diff(e), dx) and abs(len(e) - 1 - ext / dx) <=
                    1 and abs(e[0] + ext / 2) <= dx, "grid", str(e))
        edges = [np.array(e) for e in probe]
        bg = draw(edges, eps_boxes(bk, bi), 1.0)
        fg = draw(edges, eps_boxes(fk, fi), 1.0)
        inst = space(1550)
        got = np.array(inst.eps_bg.grids)
        require(got.shape == bg.shape and np.allclose(got, bg), "background",
                lambda: "{}: {}".format(case, np.argwhere(
                    ~np.isclose(got, bg))[:4].tolist()))
        S = inst.selection_matrix
        require(S.shape[0] == bg.size and
                S.shape[1] == int(np.prod(space.design_dims)), "design-size",
                "{}: {} {}".format(case, S.shape, space.design_dims))
        ones = fdfd_tools.vec(list(got)) + S @ np.ones(S.shape[1])
        want = fdfd_tools.vec(list(fg))
        # In-plane regions which reach beyond the last cells of a component
        # cannot be told apart, so compare what the pixels can reach.
        require(np.allclose(ones, want), "foreground",
                lambda: "{}: {}".format(case, np.argwhere(
                    ~np.isclose(ones, want))[:4].tolist()))
        f2, b2 = simspace.get_fg_and_bg(space, 1550)
        require(np.allclose(f2, fg) and np.allclose(b2, bg), "get-fg-and-bg",
                str(case))
        require(space(1550.0000001) is inst and
                [len(e) - 1 for e in space.edge_coords] == list(space.dims) and
                space.dx == dx, "instance", str(case))
    ctx.run()
    ctx.step(3)
    ctx.state(case)
    ctx.outcome((bk, bi, fk, fi, kind))


# ------------------------------------------------------------------- materials


@chk.section("tables", lambda tier: [
    [list(n), list(k), has]
    for m in ((2, 3) if tier == "quick" else (2, 3, 4))
    for n in itertools.product((1.0, 1.5, 3.0), repeat=m)
    for k in itertools.product((0.0, 0.5), repeat=m) for has in (0, 1)
    if has or not any(k)
], "all tables of refractive indices: by file and as material")
def _(ctx, case):
    n, k, has = case
    wl = [0.5 + 0.25 * i for i in range(len(n))]
    with scratch() as d:
        f = os.path.join(d, "m.csv")
        with open(f, "w") as fp:
            fp.write("wl,n,k\n" if has else "wl,n\n")
            for row in zip(wl, n, k):
                fp.write(",".join(repr(x) for x in row[:3 if has else 2]) +
                         "\n")
        mat = material.CustomMaterial([1000 * w for w in wl], n, k)
        gm = goos.material.get_material(goos.material.Material(mat_file=f))
        for i in range(len(wl)):
            for frac in (0, 0.25, 0.5):
                if frac and i == len(wl) - 1:
                    continue
                w = 1000 * (wl[i] + frac * 0.25)
                got = mat_index(optplan.Material(mat_file=f), w)
                nn = [n[i]] if not frac else n[i:i + 2]
                kk = [k[i]] if not frac else k[i:i + 2]
                require(min(nn) - 1e-9 <= np.real(got) <= max(nn) + 1e-9 and
                        -max(kk) - 1e-9 <= np.imag(got) <= -min(kk) + 1e-9,
                        "index", "{} at {}: {}".format(case, w, got))
                n2, k2 = mat.refractive_index(np.array(w))
                require(vlib.close(complex(n2, -k2), got) and
                        vlib.close(mat.eps(np.array(w)), got**2) and
                        vlib.close(mat.eps_real(np.array(w)),
                                   np.real(got**2)) and
                        vlib.close(gm.permittivity(w), got**2), "same",
                        "{} at {}".format(case, w))
                ctx.step(3)
    ctx.run()
    ctx.state(case)
    ctx.outcome((n, k))


NAMED = {"Air": ("air",), "SiO2": ("sio2", "sio"), "Si": ("si",),
         "Si3N4": ("sin", "si3n4", "SiN")}
KNOWN = {"Air": {1550: 1.0}, "SiO2": {1550: 1.444, 1300: 1.4469},
         "Si": {1550: 3.4766, 1300: 3.5103}, "Si3N4": {1239.84: 1.998,
                                                       826.56: 2.008}}


@chk.section("named", [[n, w] for n in NAMED for w in (
    500, 633, 826.56, 1239.84, 1300, 1310, 1550, 2000)],
             "named materials, their aliases, and arrays of wavelengths")
def _(ctx, case):
    name, w = case
    get = lambda n: mat_index(optplan.Material(mat_name=n), w)
    got = get(name)
    for alias in NAMED[name]:
        require(get(alias) == got, "alias", "{} {}".format(case, alias))
    obj = getattr(material, name)()
    many = np.array([w - 10.0, w, w + 10.0])
    n, k = obj.refractive_index(many)
    n1, k1 = obj.refractive_index(np.array(float(w)))
    require(vlib.close(n[1], n1) and vlib.close(k[1], k1) and
            vlib.close(np.real(got), n1), "array", str(case))
    require(vlib.close(obj.eps(many), (n - 1j * k)**2) and
            vlib.close(obj.eps_real(many), np.real(obj.eps(many))), "eps",
            str(case))
    if w in KNOWN[name]:
        require(abs(n1 - KNOWN[name][w]) < 2e-3, "value", "{}: {}".format(
            case, n1))
    gm = goos.material.get_material(goos.material.Material(mat_name=name))
    require(vlib.close(gm.permittivity(w), got**2), "goos", str(case))
    ctx.run()
    ctx.step(len(NAMED[name]) + 3)
    ctx.state(case)
    ctx.outcome((name, round(float(n1), 4)))


def sellmeier(terms):
    return lambda w: np.sqrt(1 + sum(
        b * (w / 1e3)**2 / ((w / 1e3)**2 - c**2) for b, c in terms))


# Published dispersion formulas (Malitson 1965, Salzberg and Villa 1957, Philipp
# 1973), the range compared and how far the tables are from them.
FORMULAS = {
    "SiO2": (sellmeier([(0.6961663, 0.0684043), (0.4079426, 0.1162414),
                        (0.8974794, 9.896161)]), 250, 2400, 1e-4),
    "Si": (sellmeier([(10.6684293, 0.301516485), (0.0030434748, 1.13475115),
                      (1.54133408, 1104.0)]), 1200, 2400, 8e-3),
    "Si3N4": (sellmeier([(2.8939, 0.13967)]), 250, 1240, 2e-2),
}


@chk.section("dispersion", [[n, w] for n in FORMULAS
                            for w in range(250, 2400, 50)],
             "every nanometre of the dispersion of the named materials "
             "against published formulas")
def _(ctx, case):
    name, w = case
    f, lo, hi, tol = FORMULAS[name]
    for x in range(max(lo, w), min(hi, w + 50)):
        n, k = getattr(material, name)().refractive_index(np.array(float(x)))
        require(abs(n - f(x)) < tol, "value", "{} at {}: {} for {}".format(
            name, x, n, f(x)))
        require(0 <= k < 0.05, "loss", "{} at {}: {}".format(name, x, k))
        got = mat_index(optplan.Material(mat_name=name), float(x))
        require(vlib.close(got, n), "plan", "{} at {}".format(name, x))
        ctx.step()
    ctx.run()
    ctx.outcome(case)


@chk.section("given-index", [[a, b] for a in (1.0, 1.5, 3.0)
                             for b in (0.0, 0.5, -2.0)],
             "indices given directly")
def _(ctx, case):
    n = complex(*case)
    require(mat_index(index(n), 1550) == n, "index", str(case))
    gm = goos.material.get_material(goos.material.Material(index=n))
    require(vlib.close(gm.permittivity(1550), n**2), "goos", str(case))
    ctx.run()
    ctx.step(2)
    ctx.state(case)
    ctx.outcome(case)


@chk.section("bad-materials", [[0], [1], [2]],
             "materials which cannot be found")
def _(ctx, case):
    mat = [optplan.Material(), optplan.Material(mat_name="unobtainium"),
           optplan.Material(mat_file="no-such-file.csv")][case[0]]
    try:
        mat_index(mat, 1550)
    except ValueError:
        ctx.run()
        ctx.outcome(case)
        return
    vlib.fail("accepted", str(case))


if __name__ == "__main__":
    chk.main()
