"""P08: rendering goos shapes onto the simulation grid, and its gradient.

Every placement of cuboids, pixelated shapes, cylinders and groups of them on a
lattice of sub-cell offsets is rendered with the real RenderShape node and
compared, component by component and cell by cell, with exact volume averages.
The gradient of the rendering is linear in the incoming gradient, so it is
decided completely by feeding every unit vector; it is compared with the exact
derivative of the average (the overlap volume of pixel and cell).
"""
import itertools
import math

import numpy as np

import vlib
from drawref import Shape, box_shape, cells, overlap, reference
from vlib import fail, require

vlib.import_spins()
from spins import goos
from spins.goos_sim import maxwell
from spins.goos_sim.maxwell import render as render_mod
from spins.goos_sim.maxwell import simspace

chk = vlib.Check(
    "P08", "exploration",
    assumptions=[
        "uniform meshes (the only kind goos offers); positions on a lattice "
        "of 1/8 cells",
        "a complex incoming gradient is the Wirtinger derivative, so that the "
        "gradient with respect to a real pixel value is twice its real part",
        "a cylinder is a polygon of about 0.084 points per nm, compared "
        "within 1.5% of the contrast",
    ])

MATS = {"air": 1.0, "sin": 2.0, "si": 3.5, "loss": 2 + 1j, "zero": 0.5j}


def mat(name):
    return goos.material.Material(index=MATS[name])


def eps(name):
    return MATS[name]**2


def make_edges(center, extents, dx):
    out = []
    for c, e in zip(center, extents):
        n = max(1, int(round(e / dx)))
        out.append([c + dx * (i - n / 2) for i in range(n + 1)])
    return out


REGIONS = {
    "cube": ([0, 0, 0], [3, 2, 2], 1),
    "fine": ([0.5, -0.25, 1], [1.5, 1, 1], 0.5),
    "flat": ([40, 0, 0], [120, 80, 40], 40),
}


def do_render(shape, region, bg="air", sym=None, **kw):
    center, extents, dx = REGIONS[region]
    return maxwell.RenderShape(
        shape, region=goos.Box3d(center=center, extents=extents),
        mesh=maxwell.UniformMesh(dx=dx), wavelength=1550,
        background=None if bg is None else mat(bg), simulation_symmetry=sym,
        **kw)


def ref(region, shapes, bg="air"):
    center, extents, dx = REGIONS[region]
    edges = make_edges(center, extents, dx)
    n = [len(e) - 1 for e in edges]
    b = 0 if bg is None else eps(bg)
    return edges, reference(edges, 2, shapes, [np.full(n, b)] * 3)


def compare(got, want, tol=1e-6, what=""):
    require(np.shape(got) == np.shape(want), "shape",
            lambda: "{} want {}".format(np.shape(got), np.shape(want)))
    err = np.abs(got - want)
    require(np.all(err <= tol), "permittivity",
            lambda: "{}: max error {} at {}: got {} want {}".format(
                what, err.max(), np.unravel_index(np.argmax(err), err.shape),
                np.ravel(got)[np.argmax(err)], np.ravel(want)[np.argmax(err)]))


def span(region, axis, lo, hi):
    """Coordinates of a span given in cells from the start of the region."""
    center, extents, dx = REGIONS[region]
    e = make_edges(center, extents, dx)[axis]
    return e[0] + lo * dx, e[0] + hi * dx


# Spans in cells relative to the first grid line: aligned, quarter and eighth
# offsets, straddling either end, enclosing, inside one cell, outside.
SPANS = [(0, 1), (0.5, 1.5), (0.25, 1.75), (-0.75, 0.625), (1.5, 7), (-3, 9),
         (0.375, 0.5), (-2, -1), (1, 2), (2.25, 2.875), (5, 6)]


def box_from(region, spans):
    lo, hi = [0] * 3, [0] * 3
    for a in range(3):
        lo[a], hi[a] = span(region, a, *spans[a])
    return lo, hi


def center_extent(lo, hi):
    return ([(a + b) / 2 for a, b in zip(lo, hi)],
            [b - a for a, b in zip(lo, hi)])


def cuboid_node(region, spans, material):
    lo, hi = box_from(region, spans)
    c, e = center_extent(lo, hi)
    return goos.Cuboid(pos=goos.Constant(c), extents=goos.Constant(e),
                       material=mat(material))


def cuboid_ref(region, spans, material):
    lo, hi = box_from(region, spans)
    return box_shape(2, lo, hi, eps(material))


def cuboid_cases(tier):
    sx = SPANS
    sy = SPANS if tier == "thorough" else SPANS[:6]
    sz = SPANS if tier == "thorough" else SPANS[1:4] + [SPANS[7]]
    out = []
    for r in REGIONS:
        for m in ("si", "loss"):
            if m == "loss" and r != "cube":
                continue
            for t in itertools.product(sx, sy, sz):
                out.append([r, m, list(t)])
    return out


@chk.section("cuboids", cuboid_cases,
             "3 regions x all combinations of spans per axis (aligned, "
             "sub-cell offsets, straddling, enclosing, outside), real and "
             "complex permittivity")
def cuboids(ctx, case):
    r, m, spans = case
    bg = "sin" if m == "si" else "loss"
    with goos.OptimizationPlan():
        node = do_render(cuboid_node(r, spans, m), r, bg)
        got = node.get().array
    edges, want = ref(r, [cuboid_ref(r, spans, m)], bg)
    compare(got, want)
    ctx.step()
    ctx.run()
    ctx.outcome(np.round(want, 6).ravel().tolist())


ALPHA = {
    "a": ([(0.5, 1.75), (0.25, 1.5), (0, 2)], "si"),
    "b": ([(-1, 1.125), (0.5, 3), (0.5, 1.5)], "sin"),
    "c": ([(1, 3), (0, 1), (-1, 1.25)], "loss"),
    "d": ([(0.25, 2.5), (0.125, 1.875), (0.25, 1.75)], "air"),
    "e": ([(8, 9), (0, 1), (0, 1)], "si"),
}


def group_cases(tier):
    out = []
    n = 3 if tier == "quick" else 4
    for k in range(1, n + 1):
        for t in itertools.product(ALPHA, repeat=k):
            out.append([list(t), 0])
            if k == 3:
                out.append([list(t), 1])
                out.append([list(t), 2])
    return out


@chk.section("groups", group_cases,
             "all sequences of up to 3 (thorough 4) cuboids out of 5 "
             "overlapping ones, flat and in both nestings: later ones cover "
             "earlier ones")
def groups(ctx, case):
    names, nest = case
    with goos.OptimizationPlan():
        nodes = [cuboid_node("cube", *ALPHA[k]) for k in names]
        if nest == 1:
            g = goos.GroupShape([goos.GroupShape(nodes[:2]), nodes[2]])
        elif nest == 2:
            g = goos.GroupShape([nodes[0], goos.GroupShape(nodes[1:])])
        else:
            g = goos.GroupShape(nodes)
        got = do_render(g, "cube").get().array
    edges, want = ref("cube", [cuboid_ref("cube", *ALPHA[k]) for k in names])
    compare(got, want)
    ctx.step(len(names))
    ctx.run()
    ctx.outcome(np.round(want, 6).ravel().tolist())


def cyl_cases(tier):
    out = []
    for cx in (0, 40, 50, 75, 100, 200):
        for cy in (0, 15, -40):
            for rad in (40, 55) if tier == "quick" else (20, 40, 55, 70):
                for z, h in ((0, 40), (0, 100), (20, 40), (100, 40)):
                    out.append([cx, cy, rad, z, h])
    return out


@chk.section("cylinders", cyl_cases,
             "cylinders at 18 positions x radii x heights against polygons of "
             "many sides")
def cylinders(ctx, case):
    cx, cy, rad, z, h = case
    with goos.OptimizationPlan():
        s = goos.Cylinder(pos=goos.Constant([cx, cy, z]),
                          radius=goos.Constant(rad), height=goos.Constant(h),
                          material=mat("si"))
        got = do_render(s, "flat", num_points_per_arclen=1).get().array
    n = 400
    p = [(cx + rad * math.cos(2 * math.pi * i / n),
          cy + rad * math.sin(2 * math.pi * i / n)) for i in range(n)]
    edges, want = ref("flat", [Shape(p, (z - h / 2, z + h / 2), eps("si"))])
    compare(got, want, tol=0.015 * (eps("si") - 1))
    ctx.step()
    ctx.run()
    ctx.outcome(np.round(want, 3).ravel().tolist())


# --------------------------------------------------------------------------
# Pixelated shapes


def pixel_boxes(flow):
    """Pixels as boxes, in the order of the value array."""
    coords = flow.get_edge_coords()
    n = [len(c) - 1 for c in coords]
    shape = np.shape(flow.array)
    out = []
    for idx in itertools.product(*[range(k) for k in n]):
        lo = [coords[a][idx[a]] for a in range(3)]
        hi = [coords[a][idx[a] + 1] for a in range(3)]
        out.append((lo, hi))
    require(len(out) == int(np.prod(shape)), "pixel-count",
            lambda: "{} pixels, array {}".format(len(out), shape))
    return out


OFFS = [(0, 0, 0), (0.25, 0, 0.5), (0.125, 0.375, 0.25), (-1.5, 0.5, 0),
        (1.75, -1.25, 0.75), (9, 0, 0), (0, 0, -9), (0.5, 0.5, 0.5)]
PIX = [([1, 1, 1], (2, 2, 1)), ([0.5, 0.75, 2], (3, 2, 1)),
       ([1.5, 1.25, 1], (2, 1, 2)), ([0.25, 0.25, 0.5], (2, 3, 2)),
       ([5, 5, 5], (1, 1, 1))]
MATPAIR = [("air", "si"), ("si", "sin"), ("loss", "si"), ("zero", "loss")]


def pix_values(n, k):
    base = [0, 1, 0.5, 0.25, 0.75, 1, 0.125, 0.9]
    return np.array([base[(i * (k + 1) + k) % 8] for i in range(int(np.prod(n)))],
                    dtype=float).reshape(n)


def make_pixelated(region, off, pix, n, mats, values):
    center, _, dx = REGIONS[region]
    pos = [c + o * dx for c, o in zip(center, off)]
    size = [p * dx for p in pix]
    ext = [s * k for s, k in zip(size, n)]
    if n[2] == 1:
        values = values[:, :, 0]
    var = goos.Variable(values)
    shape = goos.PixelatedContShape(
        array=var, pixel_size=size, pos=goos.Constant(pos), extents=ext,
        material=mat(mats[0]), material2=mat(mats[1]))
    return var, shape


def pix_cases(tier):
    out = []
    for r in ("cube", "fine"):
        for off in OFFS:
            for p in range(len(PIX)):
                for m in range(len(MATPAIR)):
                    if r == "fine" and m > 1 and tier == "quick":
                        continue
                    out.append([r, off, p, m])
    return out


@chk.section("pixelated", pix_cases,
             "pixelated shapes: 2 regions x 8 offsets x 5 pixel layouts x 4 "
             "material pairs; rendering, then the whole Jacobian (every unit "
             "incoming gradient, real and complex)", timeout=600)
def pixelated(ctx, case):
    r, off, p, m = case
    pix, n = PIX[p]
    mats = MATPAIR[m]
    contrast = eps(mats[1]) - eps(mats[0])
    with goos.OptimizationPlan() as plan:
        var, shape = make_pixelated(r, off, pix, n, mats, pix_values(n, 0))
        node = do_render(shape, r, "sin")
        center, extents, dx = REGIONS[r]
        edges = make_edges(center, extents, dx)
        ng = [len(e) - 1 for e in edges]
        flow = None
        boxes = None
        for k in range(3):
            v = pix_values(n, k)
            v = v[:, :, 0] if n[2] == 1 else v
            if k == 2:
                v = np.round(v).astype(int)
            var.set(v)
            plan.run()
            got = node.get().array
            flow = shape.get()
            boxes = pixel_boxes(flow)
            vals = np.asarray(flow.array).ravel()
            shapes = [box_shape(2, lo, hi, eps(mats[0]) + contrast * x)
                      for (lo, hi), x in zip(boxes, vals)]
            want = reference_disjoint(edges, shapes, eps("sin"))
            compare(got, want, what="values {}".format(v.tolist()))
            ctx.step()
            ctx.run()
            ctx.outcome(np.round(want, 6).ravel().tolist())

        # Exact Jacobian: contrast x overlap(pixel, cell).
        jac = np.zeros([len(boxes), 3] + ng)
        for c in range(3):
            cs = cells(edges, c)
            for idx in itertools.product(*[range(k) for k in ng]):
                cell = [cs[a][idx[a]] for a in range(3)]
                for b, (lo, hi) in enumerate(boxes):
                    jac[(b, c) + idx] = overlap(
                        [box_shape(2, lo, hi, 1)], 2, cell)
        seeds = [("one", np.ones([3] + ng))]
        rng = np.arange(3 * np.prod(ng)).reshape([3] + ng) * 0.37
        seeds.append(("cplx", np.cos(rng) + 1j * np.sin(1.3 * rng)))
        full = case[1] in ([0.125, 0.375, 0.25], [0.25, 0, 0.5]) and r == "cube"
        if full:
            for k in range(3 * int(np.prod(ng))):
                u = np.zeros(3 * int(np.prod(ng)), dtype=complex)
                u[k] = 1 - 2j
                seeds.append(("unit", u.reshape([3] + ng)))
        for name, g in seeds:
            if not np.iscomplexobj(g) and np.iscomplexobj(contrast):
                continue
            keep = g.copy()
            out = node.grad([flow], goos.NumericFlow.Grad(array_grad=g))
            got = np.asarray(out[0].array_grad)
            lin = contrast * np.tensordot(jac, g, axes=(range(1, 5), range(4)))
            want = np.real(lin)
            if np.iscomplexobj(g):
                want = 2 * want
            require(got.shape == np.shape(flow.array), "gradient-shape",
                    str(got.shape))
            require(np.all(np.abs(got.ravel() - want) <= 1e-7), "gradient",
                    lambda: "{}: {} want {}".format(name, got.ravel().tolist(),
                                                    want.tolist()))
            require(np.array_equal(keep, g), "input-modified")
            ctx.step()


def reference_disjoint(edges, shapes, bg):
    """Like reference() for shapes known not to overlap each other."""
    n = [len(e) - 1 for e in edges]
    out = np.zeros([3] + n, dtype=complex)
    for c in range(3):
        cs = cells(edges, c)
        for idx in itertools.product(*[range(k) for k in n]):
            cell = [cs[a][idx[a]] for a in range(3)]
            v = bg
            for s in shapes:
                o = overlap([s], 2, cell)
                v += o * (s.eps[c] - bg)
            out[(c,) + idx] = v
    return out


def mix_cases(tier):
    out = []
    for off in OFFS:
        for p in range(len(PIX)):
            for k in "abcde":
                out.append([off, p, k, 0])
                if k in "ac":
                    out.append([off, p, k, 1])
    return out


@chk.section("mixed-groups", mix_cases,
             "a cuboid under a pixelated shape, and a pixelated shape next to "
             "a disjoint later cuboid, in a group: rendering and gradients "
             "of each member")
def mixed(ctx, case):
    off, p, k, after = case
    pix, n = PIX[p]
    mats = MATPAIR[(p + len(k)) % 4]
    contrast = eps(mats[1]) - eps(mats[0])
    r = "cube"
    center, extents, dx = REGIONS[r]
    edges = make_edges(center, extents, dx)
    ng = [len(e) - 1 for e in edges]
    with goos.OptimizationPlan():
        var, shape = make_pixelated(r, off, pix, n, mats, pix_values(n, 1))
        cub = cuboid_node(r, *ALPHA[k])
        far = goos.Cuboid(pos=goos.Constant([0, 0, 50]),
                          extents=goos.Constant([1, 1, 1]), material=mat("si"))
        nodes = [cub, shape, far] if not after else [far, cub, shape]
        node = do_render(goos.GroupShape(nodes), r)
        got = node.get().array
        flow = shape.get()
        boxes = pixel_boxes(flow)
        vals = np.asarray(flow.array).ravel()
        under = cuboid_ref(r, *ALPHA[k])
        want = np.zeros([3] + ng, dtype=complex)
        jac = np.zeros([len(boxes), 3] + ng)
        for c in range(3):
            cs = cells(edges, c)
            for idx in itertools.product(*[range(q) for q in ng]):
                cell = [cs[a][idx[a]] for a in range(3)]
                o = overlap([under], 2, cell)
                v = 1 + o * (under.eps[c] - 1)
                for b, ((lo, hi), x) in enumerate(zip(boxes, vals)):
                    s = box_shape(2, lo, hi, 1)
                    ov = overlap([s], 2, cell)
                    both = overlap([s, under], 2, cell)
                    jac[(b, c) + idx] = ov
                    v += ov * (eps(mats[0]) + contrast * x)
                    v -= both * under.eps[c] + (ov - both) * 1
                want[(c,) + idx] = v
        compare(got, want)
        obj = goos.dot(np.cos(np.arange(3 * np.prod(ng)).reshape([3] + ng)),
                       node)
        obj = goos.abs(obj)
        grad = obj.get_grad([var])[0].array_grad
    w = np.cos(np.arange(3 * np.prod(ng)).reshape([3] + ng))
    z = np.sum(w * want)
    dz = contrast * np.tensordot(jac, w, axes=(range(1, 5), range(4)))
    wantg = np.real(np.conj(z) * dz) / abs(z)
    require(np.all(np.abs(np.ravel(grad) - wantg) <= 1e-6), "gradient",
            lambda: "{} want {}".format(np.ravel(grad).tolist(),
                                        wantg.tolist()))
    ctx.step(2)
    ctx.run()
    ctx.outcome(np.round(want, 6).ravel().tolist())


@chk.section("two-pixelated", lambda tier: [[o1, o2, p] for o1 in (0, 1)
                                            for o2 in (2, 3) for p in (0, 1)],
             "two disjoint pixelated shapes in one group: rendering and the "
             "gradient of each")
def two_pixelated(ctx, case):
    o1, o2, p = case
    r = "cube"
    center, extents, dx = REGIONS[r]
    edges = make_edges(center, extents, dx)
    ng = [len(e) - 1 for e in edges]
    offs = [(-1, 0, 0), (-0.75, 0.25, 0), (0.5, 0, 0.25), (1.25, -0.5, 0)]
    lay = [([0.5, 0.5, 1], (2, 2, 1)), ([0.25, 1, 0.5], (4, 1, 2))][p]
    mats = [("air", "si"), ("sin", "loss")]
    for order in (0, 1):
        with goos.OptimizationPlan():
            vs = [make_pixelated(r, offs[o], lay[0], lay[1], m,
                                 pix_values(lay[1], i))
                  for i, (o, m) in enumerate(zip((o1, o2), mats))]
            sh = [v[1] for v in vs]
            node = do_render(goos.GroupShape(sh[::-1] if order else sh), r)
            got = node.get().array
            obj = goos.abs(goos.dot(
                np.cos(np.arange(3 * np.prod(ng)).reshape([3] + ng)), node))
            grads = [g.array_grad for g in obj.get_grad([v[0] for v in vs])]
            flows = [s.get() for s in sh]
        w = np.cos(np.arange(3 * np.prod(ng)).reshape([3] + ng))
        shapes, per = [], []
        for f, m in zip(flows, mats):
            b = pixel_boxes(f)
            per.append(b)
            shapes += [box_shape(2, lo, hi, eps(m[0]) +
                                 (eps(m[1]) - eps(m[0])) * x)
                       for (lo, hi), x in zip(b, np.ravel(f.array))]
        want = reference_disjoint(edges, shapes, 1)
        compare(got, want)
        z = np.sum(w * want)
        for b, m, g in zip(per, mats, grads):
            for k, (lo, hi) in enumerate(b):
                unit = reference_disjoint(
                    edges, [box_shape(2, lo, hi, 1)], 0)
                dz = (eps(m[1]) - eps(m[0])) * np.sum(w * unit)
                wg = np.real(np.conj(z) * dz) / abs(z)
                require(abs(np.ravel(g)[k] - wg) < 1e-6, "gradient",
                        lambda: "{} want {}".format(np.ravel(g)[k], wg))
        ctx.step(3)
        ctx.run()
        ctx.outcome([case, order])


COVER = [["pix", "cub"], ["pix", "pix"]]


@chk.section("covered-pixels", COVER,
             "a pixelated shape covered by a later cuboid or pixelated shape")
def covered(ctx, case):
    r = "cube"
    center, extents, dx = REGIONS[r]
    edges = make_edges(center, extents, dx)
    with goos.OptimizationPlan():
        v1, s1 = make_pixelated(r, (0, 0, 0), [1, 1, 1], (2, 2, 1),
                                ("air", "si"), np.ones((2, 2, 1)))
        if case[1] == "cub":
            s2 = goos.Cuboid(pos=goos.Constant([0, 0, 0]),
                             extents=goos.Constant([9, 9, 9]),
                             material=mat("sin"))
        else:
            v2, s2 = make_pixelated(r, (0, 0, 0), [9, 9, 9], (1, 1, 1),
                                    ("air", "sin"), np.ones((1, 1, 1)))
        got = do_render(goos.GroupShape([s1, s2]), r).get().array
    ctx.step()
    ctx.run()
    ctx.outcome(case)
    compare(got, np.full([3] + [len(e) - 1 for e in edges], eps("sin")))


# --------------------------------------------------------------------------


@chk.section("history", lambda tier: [list(t) for n in range(1, 5 if tier == "quick" else 6)
                                      for t in itertools.product(
                                          ["E0", "E1", "G0", "G1", "M"],
                                          repeat=n)],
             "all histories up to 4 (thorough 5) of evaluating two structures, "
             "asking for their gradients, and modifying the arrays handed out")
def history(ctx, case):
    r = "cube"
    _, _, dx = REGIONS[r]
    with goos.OptimizationPlan():
        var, shape = make_pixelated(r, (0.25, 0, 0.5), [1, 1, 1], (2, 2, 1),
                                    ("air", "si"), np.ones((2, 2, 1)))
        node = do_render(shape, r)
        base = shape.get()
        f = []
        for v in ([[0, 1], [0.5, 1]], [[1, 0.25], [0, 0.75]]):
            fl = goos.PixelatedContShapeFlow(
                pos=base.pos, rot=base.rot, array=np.array(v),
                material=base.material, material2=base.material2,
                pixel_size=base.pixel_size, extents=base.extents)
            f.append(fl)
        fresh = do_render(shape, r)
        wantv = [fresh.eval([x]).array.copy() for x in f]
        g = np.cos(np.arange(wantv[0].size).reshape(wantv[0].shape))
        wantg = []
        for x in f:
            fresh.eval([x])
            wantg.append(fresh.grad([x], goos.NumericFlow.Grad(
                array_grad=g.copy()))[0].array_grad.copy())
        given = []
        last = None
        for t in case:
            if t == "M":
                for a in given:
                    a *= 0
                    a += 7
                given = []
            else:
                k = int(t[1])
                if t[0] == "E":
                    out = node.eval([f[k]]).array
                    compare(out, wantv[k], what=t)
                    last = k
                else:
                    # The executor evaluates a node before its gradient.
                    if last != k:
                        node.eval([f[k]])
                        last = k
                    gi = g.copy()
                    out = node.grad([f[k]], goos.NumericFlow.Grad(
                        array_grad=gi))[0].array_grad
                    require(vlib.close(out, wantg[k]), "gradient", t)
                    given.append(gi)
                given.append(out)
            ctx.step()
            ctx.state([case[:case.index(t) + 1], last])
    ctx.run()
    ctx.outcome(last)


@chk.section("overlap-1d", lambda tier: [[g, n] for g in range(3)
                                         for n in (2, 3, 4 if tier == "thorough" else 3)],
             "all increasing edge lists of 2 or 3 (thorough 4) coordinates on "
             "an eighth-cell lattice against three grids: the 1-d rendering "
             "matrix is the overlap matrix")
def overlap_1d(ctx, case):
    gi, n = case
    grid = [[0, 1, 2, 3], [0, 0.5, 2, 2.25], [-1, 1]][gi]
    lat = sorted(set([-1.5, -0.25, 0, 0.125, 0.5, 0.75, 1, 1.5, 2, 2.125, 2.25,
                      3, 3.5]) | set(grid))
    for t in itertools.combinations(lat, n):
        m = render_mod.get_rendering_matrix_1d(
            np.array(t, dtype=float), np.array(grid, dtype=float)).toarray()
        want = np.zeros((len(grid) - 1, n - 1))
        for i in range(len(grid) - 1):
            for j in range(n - 1):
                want[i, j] = max(
                    0, min(grid[i + 1], t[j + 1]) - max(grid[i], t[j])) / (
                        grid[i + 1] - grid[i])
        require(vlib.close(m, want), "overlap",
                lambda: "{} on {}: {} want {}".format(t, grid, m.tolist(),
                                                      want.tolist()))
        ctx.step()
        ctx.outcome(want.round(6).tolist())
    ctx.run()


@chk.section("grid-lines", lambda tier: [[dx, sx] for dx in (1, 40, 0.5, 25)
                                         for sx in (0, 1, 2)],
             "grid lines for every extent on a quarter-cell lattice: uniform, "
             "centred, the nearest number of cells; even with symmetry")
def grid_lines(ctx, case):
    dx, s = case
    for c in (0, 3, -0.25):
        for q in range(0, 33):
            ext = q * dx / 4
            if s and ext < 2 * dx:
                continue
            e = simspace.create_edge_coords(
                goos.Box3d(center=[c, 0, 1], extents=[ext, 3 * dx, dx]), dx,
                [s, 0, 0] if s else None)
            for a, (cc, ee) in enumerate(((c, max(ext, dx)), (0, 3 * dx),
                                          (1, dx))):
                require(np.allclose(np.diff(e[a]), dx), "spacing", str(e[a]))
                require(abs((e[a][0] + e[a][-1]) / 2 - cc) < 1e-9, "centred",
                        str(e[a]))
                n = len(e[a]) - 1
                if a == 0 and s:
                    require(n % 2 == 0 and n == 2 * int(ee // (2 * dx)),
                            "even", "{} cells for {}".format(n, ee / dx))
                else:
                    require(n >= 1 and abs(n * dx - ee) <= dx / 2 + 1e-9,
                            "count", "{} cells for {}".format(n, ee / dx))
            ctx.step()
            ctx.outcome([q, s])
    ctx.run()


if __name__ == "__main__":
    chk.main()
