"""P18: grating discretization is feasible and optimal; edges render exactly.

Both dynamic programs are compared, for every continuous grating over a small
value set, with an exhaustive enumeration of all the admissible edge sets on
the same lattice; the discretizing action is run in a real plan and the grating
it leaves behind is rendered; rendering, its gradient and the spacing
constraints are compared with exact references for every edge vector on a
lattice.
"""
import functools
import itertools
import math

import numpy as np

import vlib
from vlib import require

vlib.import_spins()
from spins import goos
from spins.goos import grating as gg
from spins.invdes import parametrization as pz
from spins.invdes import problem
from spins.invdes.problem_graph import grating as ig

chk = vlib.Check("P18", "model_checking", [
    "continuous gratings of up to 4 pixels (quick) with values of a small set",
    "minimum features of at least one pixel, as both discretizers require",
    "the first and the last piece may be cut by the boundary of the design",
])

MATS = (goos.material.Material(index=1), goos.material.Material(index=2))


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


# ----------------------------------------------------- references: rendering


def overlap(a, b, n):
    """Length of [a, b] in each of n unit pixels."""
    return np.array([max(0.0, min(b, i + 1) - max(a, i)) for i in range(n)])


def profile(edges, heights, n, first=1.0):
    """Mean height in each pixel; heights[i] follows edges[i]."""
    pts = [0.0] + [min(max(e, 0), n) for e in edges] + [float(n)]
    z = np.zeros(n)
    for a, b, h in zip(pts[:-1], pts[1:], [first] + list(heights)):
        if b > a:
            z += h * overlap(a, b, n)
    return z


# ----------------------------------------- the two-level grating (invdes)


@functools.lru_cache(maxsize=None)
def two_level_sets(n, d, div=5):
    """All admissible hole lists on the lattice and their rendering."""
    top = n * div
    out = []

    def grow(holes, pos):
        """pos: where the current tooth starts."""
        if holes:
            out.append(tuple(holes))
        if pos >= top:
            return
        for j in range(pos + d, top + 1):
            for k in range(j + d, top + 1):
                grow(holes + [(j, k)], k)

    grow([], 0)
    for k in range(d, top):  # hole at the very beginning
        grow([(0, k)], k)
    ren = [
        1 - sum(overlap(j / div, k / div, n) for j, k in holes)
        for holes in out
    ]
    return out, np.array(ren)


def edge_fit_cases(tier):
    out = []
    vals = (0.0, 0.4, 0.75, 1.0)
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for mf in (1, 1.2, 1.3, 1.5, 2, 2.5, 3):
            if mf > n - 0.2:
                continue
            for head in itertools.product(vals, repeat=min(2, n)):
                out.append([n, mf, list(head)])
    return out


@chk.section("edge-fit", edge_fit_cases,
             "pixels x minimum feature x all continuous gratings")
def _(ctx, case):
    n, mf, head = case
    d = math.ceil(mf * 5 - 1e-9)
    sets, ren = two_level_sets(n, d)
    for tail in itertools.product((0.0, 0.4, 0.75, 1.0), repeat=n - len(head)):
        x = np.array(list(head) + list(tail))
        what = "{} min_feature {}".format(x, mf)
        src = pz.DirectParam(x)
        dst = pz.GratingParam([], n)
        # The grid spacing is not one here.
        ig.GratingEdgeDiscretization(src, mf * 40.0, 40.0)(dst, None)
        e = np.array(dst.to_vector(), float)
        require(len(e) % 2 == 0 and np.all(e >= 0) and np.all(e <= n),
                "edges-outside", lambda: "{}: {}".format(what, e))
        gaps = np.diff(e)
        require(np.all(gaps > 0), "edges-not-increasing",
                lambda: "{}: {}".format(what, e))
        for a, b in zip(e[:-1], e[1:]):
            if b == n and a > 0 and len(e) and a == e[-2]:
                continue  # cut by the boundary
            require(b - a >= mf - 1e-9, "feature-too-small",
                    lambda: "{}: {}".format(what, e))
        z = dst.get_structure()
        require(close(z, sum([overlap(a, b, n) for a, b in
                              zip(e[0::2], e[1::2])], np.zeros(n))),
                "structure", lambda: "{}: {} {}".format(what, e, z))
        cost = np.sum((z - x)**2)
        costs = np.sum((ren - x)**2, axis=1)
        k = int(np.argmin(costs))
        require(cost <= costs[k] + 1e-9, "not-optimal",
                lambda: "{}: {} costs {}, {} costs {}".format(
                    what, e, cost, sets[k], costs[k]))
        require(cost >= costs[k] - 1e-9, "not-admissible",
                lambda: "{}: {} costs {} less than {}".format(
                    what, e, cost, costs[k]))
        require(np.array_equal(src.to_vector(), x), "source-modified", what)
        ctx.step()
        ctx.run()
        ctx.state((n, mf, x.tolist()))
        ctx.outcome((n, mf, e.tolist()))


@chk.section("edge-fit-rejects", [[0.5], [0.9], [0.999]],
             "minimum features below one pixel")
def _(ctx, case):
    try:
        ig.GratingEdgeDiscretization(pz.DirectParam([0, 1.0]), case[0] * 20,
                                     20)
    except ValueError:
        ctx.run()
        ctx.outcome(case)
        return
    vlib.fail("accepted", str(case))


# ------------------------------------------- the multi-level grating (goos)


@functools.lru_cache(maxsize=4)
def multi_level_sets(n, depths, start, end, dmin, dmax, div):
    """All admissible (edges, levels) on the lattice and their rendering."""
    top = n * div
    out = []
    num = len(depths)

    def grow(edges, levels):
        cur = levels[-1]
        if cur == end and top - edges[-1] <= dmax[end]:
            out.append((tuple(edges), tuple(levels)))
        for k in range(edges[-1] + dmin[cur],
                       min(top, edges[-1] + dmax[cur]) + 1):
            for lev in range(num):
                if lev != cur:
                    grow(edges + [k], levels + [lev])

    for k in range(0, min(top, dmax[start]) + 1):
        for lev in range(num):
            if lev != start:
                grow([k], [lev])
    ren = [
        profile([e / div for e in edges], [depths[i] for i in levels], n,
                depths[start]) for edges, levels in out
    ]
    return out, np.array(ren)


DEPTHS = ((0.0, 1.0), (0.0, 0.5, 1.0), (0.25, 0.5), (0.0, 0.2, 0.8, 1.0))
MINMAX = {
    2: [(1, None), (1.5, None), ([2, 1], None), (1, 2), ([1, 2], [1.5, 3])],
    3: [(1, None), ([1, 1.5, 2], None), (1, [2, 1.5, 3])],
    4: [(1, None), ([1, 1.5, 1, 2], [3, 2, 2, 3])],
}


def dp_cases(tier):
    out = []
    for di, depths in enumerate(DEPTHS):
        num = len(depths)
        if num == 4 and tier == "quick":
            combos = [(3, 3), (0, 3), (2, 1)]
        else:
            combos = list(itertools.product(range(num), repeat=2))
        for start, end in combos:
            for mi in range(len(MINMAX[num])):
                for n, div in (((1, 5), (2, 5), (3, 2), (4, 1), (3, 4),
                                (4, 2)) if tier == "quick" else
                               ((1, 5), (2, 5), (3, 5), (4, 3), (5, 2),
                                (6, 1))):
                    if num == 4 and n * div > (8 if tier == "quick" else 12):
                        continue
                    out.append([di, start, end, mi, n, div])
    return out


@chk.section("multi-level", lambda tier: dp_cases(tier) if hasattr(
    gg, "_get_general_edge_loc_dp") else [],
             "depths x start x end x features x pixels x divisions; all "
             "continuous gratings over a value set")
def _(ctx, case):
    di, start, end, mi, n, div = case
    depths = DEPTHS[di]
    num = len(depths)
    mins, maxs = MINMAX[num][mi]
    wide = lambda v: [v] * num if np.isscalar(v) else list(v)
    dmin = tuple(math.ceil(v * div - 1e-9) for v in wide(mins))
    dmax = tuple(n * div + 1 if maxs is None else math.floor(v * div + 1e-9)
                 for v in wide(maxs if maxs is not None else 0))
    sets, ren = multi_level_sets(n, depths, start, end, dmin, dmax, div)
    if not sets:
        return
    known = {s: i for i, s in enumerate(sets)}
    vals = (0.0, 0.45, 1.0) if n < 4 else (0.0, 0.7)
    for x in itertools.product(vals, repeat=n):
        x = np.array(x)
        what = "{} x {}".format(case, x)
        edges, levels = gg._get_general_edge_loc_dp(
            x, depths, mins, maxs, start, end, div)
        grid = tuple(int(round(e * div)) for e in edges)
        require(close(np.array(grid) / div, edges), "off-lattice",
                lambda: "{}: {}".format(what, edges))
        key = (grid, tuple(int(i) for i in levels))
        require(key in known, "not-admissible",
                lambda: "{}: {} {} breaks start, end or feature limits".format(
                    what, edges, levels))
        costs = np.sum((ren - x)**2, axis=1)
        k = int(np.argmin(costs))
        got = costs[known[key]]
        require(got <= costs[k] + 1e-9, "not-optimal",
                lambda: "{}: {} costs {}, {} costs {}".format(
                    what, key, got, sets[k], costs[k]))
        ctx.step()
        ctx.run()
        ctx.outcome((di, key))
    ctx.state(case)


# ------------------------------------------------------ the action in a plan


def action_cases(tier):
    out = []
    for di in (0, 1, 2):
        num = len(DEPTHS[di])
        for start, end in itertools.product(range(num), repeat=2):
            for mi in range(len(MINMAX[num])):
                for use in (0, 1):
                    for px in (1, 40):
                        out.append([di, start, end, mi, use, px])
    return out


@chk.section("action", action_cases,
             "depths x start x end x features x edges or widths x pixel size")
def _(ctx, case):
    di, start, end, mi, use, px = case
    depths = DEPTHS[di]
    num = len(depths)
    mins, maxs = MINMAX[num][mi]
    scale = lambda v: None if v is None else (
        v * px if np.isscalar(v) else [u * px for u in v])
    wide = lambda v: [v] * num if np.isscalar(v) else list(v)
    n, div = 3, 2
    dmin = tuple(math.ceil(v * div - 1e-9) for v in wide(mins))
    dmax = tuple(n * div + 1 if maxs is None else math.floor(v * div + 1e-9)
                 for v in wide(maxs if maxs is not None else 0))
    sets, ren = multi_level_sets(n, depths, start, end, dmin, dmax, div)
    if not sets:
        return
    for x in itertools.product((0.0, 0.3, 0.9), repeat=n):
        x = np.array(x)
        what = "{} x {}".format(case, x)
        with goos.OptimizationPlan() as plan:
            cont = goos.Variable(x)
            par, index, shape = gg.discretize_to_pixelated_grating(
                cont, list(depths), px, start, end, scale(mins), scale(maxs),
                divisions=div, use_edge_locs=bool(use), pos=[0, 0, 0],
                extents=[n * px, 1, 1], material=MATS[0], material2=MATS[1],
                grating_dir=0, grating_dir_spacing=px)
            plan.run()
            arr = plan.get_var_value(par)
            idx = plan.get_var_value(index)
            lo, hi = plan.get_var_bounds(par)
            flow = plan.eval_node(shape)
        z = flow.array[:, 0, 0]
        costs = np.sum((ren - x)**2, axis=1)
        cost = np.sum((z - x)**2)
        require(abs(cost - np.min(costs)) <= 2e-4, "plan-not-optimal",
                lambda: "{}: {} {} renders {} with cost {}, best {}".format(
                    what, arr, idx, z, cost, sets[int(np.argmin(costs))]))
        edges = np.array(arr) if use else np.cumsum(arr)
        require(len(idx) == len(edges) and np.all(np.diff(edges) > 0) and
                edges[0] >= 0 and edges[-1] <= n * px + 1e-9, "edges",
                lambda: "{}: {} {}".format(what, edges, idx))
        lo, hi = np.array(lo, float), np.array(hi, float)
        require(lo.shape == hi.shape == edges.shape, "bounds-shape",
                lambda: "{}: {} {}".format(what, lo, hi))
        for i in range(1, len(edges)):
            lev = int(idx[i - 1])
            width = (edges[i] - edges[i - 1]) / px
            extra = i == 1 and edges[0] == 0 and lev == start
            if not extra:
                require(dmin[lev] <= width * div + 1e-9 and
                        width * div <= dmax[lev] + 1e-9, "feature-limits",
                        lambda: "{}: {} {}".format(what, edges, idx))
            if not use:
                want = (wide(mins)[lev] * px,
                        np.inf if maxs is None else wide(maxs)[lev] * px)
                require(close(lo[i], want[0]) and hi[i] == want[1] or
                        close([lo[i], hi[i]], want), "width-bounds",
                        lambda: "{}: width {} level {}: {} {} want {}".format(
                            what, i, lev, lo[i], hi[i], want))
        ctx.step()
        ctx.run()
        ctx.outcome((case, np.round(edges, 6).tolist()))
    ctx.state(case)


@chk.section("action-rejects", [[0.5], [[2, 0.9]]],
             "minimum features below one pixel")
def _(ctx, case):
    with goos.OptimizationPlan():
        try:
            gg.GratingL2D(goos.Variable([1.0]), goos.Variable(0),
                          goos.Variable(0), 1.0, [0, 1], 0, 1, case[0])
        except ValueError:
            ctx.run()
            ctx.outcome(case)
            return
    vlib.fail("accepted", str(case))


# -------------------------------------------------------- pixelated gratings

FRACS = ([0, 1], [0.4, 1], [0, 0.5, 1], [0, 0.3, 0.4, 1], [0.1, 0.7],
         [0.25, 0.5, 0.75])


def render_ref(edges, idx, fracs, nx, nz, spacing, pol):
    """Exact covered fraction of each pixel along x and z."""
    cuts = [0.0] + [min(max(e / spacing, 0), nx) for e in edges] + [float(nx)]
    z = np.zeros((nx, nz))
    for a, b, h in zip(cuts[:-1], cuts[1:],
                       [1.0] + [fracs[int(i)] for i in idx]):
        if b > a:
            z += np.outer(overlap(a, b, nx),
                          overlap((1 - h) * nz, float(nz), nz))
    return z[:, ::-1] if pol < 0 else z


def render_cases(tier):
    out = []
    for fi, fracs in enumerate(FRACS):
        for divs in (1, 2, 3, 4):
            for use in (0, 1):
                for pol in (1, -1):
                    out.append([fi, divs, use, pol])
    return out


@chk.section("pixelated", render_cases,
             "height fractions x divisions x parameter kind x polarity; all "
             "edge vectors on a lattice, all levels, all axes")
def _(ctx, case):
    fi, divs, use, pol = case
    fracs = FRACS[fi]
    spacing, nx = 0.5, 3
    lattice = (0.0, 0.2, 0.5, 0.85, 1.2, 1.5)
    axes = [(0, 2), (1, 2), (2, 0), (0, 1), (1, 0), (2, 1)]
    count = 0
    nums = (1, 2, 3) if ctx.tier == "quick" else (1, 2, 3, 4)
    for m in nums:
        levs = list(itertools.product(range(len(fracs)), repeat=m))
        if ctx.tier == "quick" and m == 3:
            levs = levs[::3] + levs[1:2]
        for edges in itertools.combinations(lattice, m):
            for idx in levs:
                count += 1
                gd, ed = axes[count % 6]
                ext = [4.0, 5.0, 6.0]
                ext[gd] = nx * spacing
                par = np.array(edges) if use else np.diff(
                    np.r_[0, np.array(edges)])
                with goos.OptimizationPlan():
                    v = goos.Variable(par)
                    shape = gg.PixelatedGrating(
                        v, goos.Variable(list(idx)), fracs, [1, 2, 3], ext,
                        MATS[0], MATS[1], grating_dir=gd,
                        grating_dir_spacing=spacing, etch_dir=ed,
                        etch_dir_divs=divs, etch_polarity=pol,
                        use_edge_locs=bool(use))
                    flows = [goos.NumericFlow(par),
                             goos.NumericFlow(np.array(idx))]
                    flow = shape.eval(flows)
                    arr = np.moveaxis(flow.array, [gd, ed, 3 - gd - ed],
                                      [0, 1, 2])
                    want = render_ref(edges, idx, fracs, nx, divs, spacing,
                                      pol)
                    require(arr.shape == (nx, divs, 1) and
                            np.allclose(arr[:, :, 0], want, atol=3e-5),
                            "rendering",
                            lambda: "{} edges {} levels {} axes {}: {} want {}"
                            .format(case, edges, idx, (gd, ed), arr, want))
                    ctx.step()
                    # Gradient where the covered fraction is smooth.
                    if all((e / spacing) % 1 > 1e-3 for e in edges):
                        w = np.cos(1 + np.arange(arr.size)).reshape(
                            flow.array.shape)
                        wl = np.moveaxis(w, [gd, ed, 3 - gd - ed],
                                         [0, 1, 2])[:, :, 0]
                        got = shape.grad(
                            flows,
                            goos.PixelatedContShapeFlow.Grad(
                                array_grad=w))[0].array_grad
                        num = []
                        for k in range(m):
                            vals = []
                            for h in (1e-4, -1e-4):
                                q = np.array(par, float)
                                q[k] += h
                                e = q if use else np.cumsum(q)
                                vals.append(np.sum(wl * render_ref(
                                    e, idx, fracs, nx, divs, spacing, pol)))
                            num.append((vals[0] - vals[1]) / 2e-4)
                        require(np.allclose(got, num, atol=1e-5, rtol=1e-5),
                                "gradient",
                                lambda: "{} edges {} levels {}: {} want {}"
                                .format(case, edges, idx, got, num))
                        ctx.step()
                ctx.run()
                ctx.outcome((fi, divs, pol, np.round(want, 3).tolist()))
    ctx.state(case)


@chk.section("barcode", lambda tier: [
    [gd, ed, one] for gd in range(3) for ed in range(3) if gd != ed
    for one in (0, 1)
], "axes x shared height; all edge vectors on a lattice")
def _(ctx, case):
    gd, ed, one = case
    pos, ext = np.array([1.0, 2, 3]), np.array([2.0, 10, 4])
    for m in (2, 3, 4):
        for edges in itertools.combinations((0, 0.2, 0.5, 0.9, 1), m):
            hs = [0.8] if one else [0.3, 0.6, 0.9][:m - 1]
            with goos.OptimizationPlan():
                g = gg.BarcodeGrating(goos.Constant(list(edges)),
                                      goos.Constant(hs), pos, ext, MATS[0],
                                      grating_dir=gd, etch_dir=ed)
                boxes = g.get()
            require(len(boxes) == m - 1, "boxes", str((case, edges)))
            for i in range(m - 1):
                b = boxes[i]
                a = pos[gd] - ext[gd] / 2
                lo, hi = [a + ext[gd] * edges[j] for j in (i, i + 1)]
                want_e = ext.copy()
                want_e[gd] = hi - lo
                want_e[ed] *= (hs * 3)[i] if one else hs[i]
                want_p = pos.copy()
                want_p[gd] = (lo + hi) / 2
                require(close(b.pos, want_p) and close(b.extents, want_e),
                        "box", lambda: "{} {}: {} {} want {} {}".format(
                            case, edges, b.pos, b.extents, want_p, want_e))
            ctx.step()
            ctx.run()
            ctx.outcome((case, edges))
    ctx.state(case)


# --------------------------------------------------------------- constraints


def constraint_cases(tier):
    return [[m, kind] for m in (1, 2, 3, 4) for kind in (
        "scalar", "list", "array", "float-index")]


@chk.section("edge-constraint", constraint_cases,
             "numbers of edges x kinds of feature limits; all edge vectors "
             "on a lattice (unsorted too), all levels")
def _(ctx, case):
    m, kind = case
    length = 2.0
    feats = [0.5, 0.75]
    lattice = (-0.25, 0.0, 0.5, 1.0, 1.75, 2.25)
    vecs = (itertools.product(lattice, repeat=m) if m < 4 else
            itertools.combinations(lattice, m))
    for vec in vecs:
        for idx in itertools.product((0, 1), repeat=m):
            arg = {"scalar": 0.5, "array": np.array(feats)}.get(kind, feats)
            iv = np.array(idx, float if kind == "float-index" else int)
            with goos.OptimizationPlan():
                fn = gg.EdgeLocConstraint(goos.Variable(list(vec)),
                                          goos.Variable(list(idx)), arg,
                                          length)
            flows = [goos.NumericFlow(np.array(vec)), goos.NumericFlow(iv)]

            def ref(v):
                lim = [0.5 if kind == "scalar" else feats[i] for i in idx]
                return np.array([lim[i] - (v[i + 1] - v[i])
                                 for i in range(m - 1)] +
                                [-v[0], v[-1] - length])

            got = fn.eval(flows).array
            require(close(got, ref(vec)), "constraint-value",
                    lambda: "{} {} {}: {} want {}".format(
                        case, vec, idx, got, ref(vec)))
            w = np.arange(1.0, m + 2)
            g = fn.grad(flows, goos.NumericFlow.Grad(w))[0].array_grad
            num = [(ref(np.array(vec) + e) - ref(np.array(vec) - e)) @ w / 2
                   for e in np.eye(m)]
            require(close(g, num), "constraint-gradient",
                    lambda: "{} {} {}: {} want {}".format(
                        case, vec, idx, g, num))
            ctx.step(2)
            ctx.run()
            ctx.outcome((m, (np.array(got) > 0).tolist()))
    ctx.state(case)


@chk.section("reused-constraint", [[list(s)] for s in itertools.product(
    (1, 2, 3), repeat=3)], "sequences of numbers of edges, one constraint")
def _(ctx, case):
    with goos.OptimizationPlan():
        fn = gg.EdgeLocConstraint(goos.Variable([0.0]), goos.Variable([0]),
                                  0.5, 4.0)
        for m in case[0]:
            flows = [goos.NumericFlow(np.arange(m) * 0.7),
                     goos.NumericFlow(np.zeros(m, int))]
            got = fn.eval(flows).array
            require(close(got, [-0.2] * (m - 1) + [0, 0.7 * (m - 1) - 4]),
                    "constraint-value", str((case, got)))
            w = np.arange(1.0, m + 2)
            g = fn.grad(flows, goos.NumericFlow.Grad(w))[0].array_grad
            want = np.zeros(m)
            for i in range(m - 1):
                want[i] += w[i]
                want[i + 1] -= w[i]
            want[0] -= w[m - 1]
            want[-1] += w[m]
            require(close(g, want), "constraint-gradient",
                    str((case, g, want)))
            ctx.step(2)
    ctx.run()
    ctx.state(case)
    ctx.outcome(case)


@chk.section("feature-constraint", lambda tier: [
    [mf, sc, parts] for mf in (0, 0.5, 1.25) for sc in (None, 0, 1, 3)
    for parts in ([2], [4], [2, 4], [4, 2, 2])
], "features x boundary scale x gratings; all edge vectors on a lattice")
def _(ctx, case):
    mf, sc, parts = case
    fn = (problem.GratingFeatureConstraint(mf) if sc is None else
          problem.GratingFeatureConstraint(mf, boundary_constraint_scale=sc))
    scale = 2 if sc is None else sc
    lattice = (0.0, 0.5, 1.25, 3.0, 5.5, 6.0)
    pixels = [6, 7, 9]
    pool = {m: list(itertools.combinations(lattice, m)) for m in (2, 4)}
    lists = [pool[m] if i == 0 else pool[m][i::4]
             for i, m in enumerate(parts)]
    for vecs in itertools.product(*lists):
        gr = [pz.GratingParam(np.array(v), p) for v, p in zip(vecs, pixels)]
        param = gr[0] if len(gr) == 1 else pz.CompositeParam(gr)

        def ref(full):
            out, at = [], 0
            for m, p in zip(parts, pixels):
                v = full[at:at + m]
                at += m
                out += [mf - (v[i + 1] - v[i]) for i in range(m - 1)]
                out += [scale * mf - v[0], v[-1] - (p - scale * mf)]
            return np.array(out)

        x = np.concatenate([np.array(v, float) for v in vecs])
        got = np.asarray(fn.calculate_objective_function(param))
        require(close(got, ref(x)), "constraint-value",
                lambda: "{} {}: {} want {}".format(case, vecs, got, ref(x)))
        jac = np.asarray(fn.calculate_gradient(param))
        num = np.array([(ref(x + e) - ref(x - e)) / 2
                        for e in np.eye(len(x))]).T
        require(close(jac, num), "constraint-gradient",
                lambda: "{} {}: {} want {}".format(case, vecs, jac, num))
        ctx.step(2)
        ctx.run()
        ctx.outcome((parts, (got > 0).tolist()))
    ctx.state(case)


if __name__ == "__main__":
    chk.main()
