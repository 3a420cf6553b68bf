"""P22: the objects built from an invdes plan are what the plan describes.

Plans made of every combination of a finite set of spaces, sources, overlaps,
wavelengths, parametrizations, monitors and penalties are instantiated by the
real workspace and evaluated.  The reference is computed from the parts: the
permittivity from the background and the selection matrix, the fields from one
solve of exactly the simulation described, gradients by finite differences,
slices and regions from the cell edges.
"""
import itertools
import os

import gdspy
import numpy as np
import vlib
from vlib import require

chk = vlib.Check("P22", "exploration", assumptions=[
    "2D grids of at most 14 x 10 cells", "direct solver",
    "gradients of objectives to 1e-4 of the largest entry"])

vlib.import_spins()
from spins import fdfd_tools
from spins.fdfd_solvers import local_matrix_solvers
from spins.invdes import parametrization, problem
from spins.invdes.problem_graph import creator  # registers the creators
from spins.invdes.problem_graph import (creator_em, creator_monitor,
                                        creator_param, grid_utils, optplan,
                                        schema_utils, simspace, workspace)

del creator
SOLVER = local_matrix_solvers.DirectSolver()
creator_em.DIRECT_SOLVER = SOLVER
DX = 100.0
SELECTIONS = ["direct_lattice", "uniform", "full_direct"]


def index(n):
    if isinstance(n, str):
        return optplan.Material(mat_name=n)
    return optplan.Material(index=optplan.ComplexNumber(real=n))


def write_gds(path, rects):
    lib = gdspy.GdsLibrary()
    cell = gdspy.Cell("TOP", exclude_from_current=True)
    for layer, x0, x1, y0, y1 in rects:
        cell.add(gdspy.Polygon([(x0 / 1e3, y0 / 1e3), (x1 / 1e3, y0 / 1e3),
                                (x1 / 1e3, y1 / 1e3), (x0 / 1e3, y1 / 1e3)],
                               layer=layer, datatype=0))
    lib.add(cell)
    lib.write_gds(path)


def eps_spec(d, name, rects, mat):
    write_gds(os.path.join(d, name), rects)
    layers = sorted(set(r[0] for r in rects))
    return optplan.GdsMeshEps(
        gds=name, background=index(1.5), stack_normal=[0, 0, 1],
        mesh_list=[optplan.GdsMesh(extents=[-1e4, 1e4], material=index(mat),
                                   gds_layer=[l, 0]) for l in layers])


def space_node(d, sel, axis=0, mat=3.0, name="space"):
    """A waveguide along `axis` with a design region in its middle."""
    guide, design = (1, -9e3, 9e3, -150, 150), (2, -100, 100, -200, 200)
    ext, pml = [1400.0, 1000.0, DX], [3, 3, 2, 2, 0, 0]
    if axis:
        guide = guide[:1] + guide[3:] + guide[1:3]
        design = design[:1] + design[3:] + design[1:3]
        ext, pml = [1000.0, 1400.0, DX], [2, 2, 3, 3, 0, 0]
    return optplan.SimulationSpace(
        name=name, mesh=optplan.UniformMesh(dx=DX),
        eps_bg=eps_spec(d, name + "bg.gds", [guide], mat),
        eps_fg=eps_spec(d, name + "fg.gds", [guide, design], mat),
        sim_region=optplan.Box3d(center=[0, 0, 0], extents=ext),
        pml_thickness=pml, selection_matrix_type=sel)


def region(axis, pos, pol):
    center, ext, normal = [0.0] * 3, [600.0] * 3, [0.0] * 3
    center[axis] = pos
    ext[axis] = 0.0
    normal[axis] = float(pol)
    return dict(center=center, extents=ext, normal=normal)


def source_node(kind, axis, pol):
    r = region(axis, -pol * 350.0, pol)
    ang = dict(theta=0.2, psi=0.0, polarization_angle=0.3)
    if kind == "mode":
        return optplan.WaveguideModeSource(mode_num=0, power=2.0, **r)
    if kind == "gauss":
        return optplan.GaussianSource(
            w0=300.0, beam_center=r["center"], normalize_by_sim=False,
            power=2.0, **dict(r, **ang))
    if kind in ("plane", "bloch"):
        return optplan.PlaneWaveSource(
            overwrite_bloch_vector=kind == "bloch",
            power=2.0, **dict(r, **ang))
    return optplan.DipoleSource(position=r["center"], axis=2, phase=0.4,
                                power=2.0, normalize_by_sim=False)


def structure(n, kind):
    if kind == "zero":
        return np.zeros(n)
    if kind == "one":
        return np.ones(n)
    return 0.5 + 0.4 * np.cos(1.7 * np.arange(n) + 0.3)


def sim_cases(tier):
    out = []
    for sel in SELECTIONS:
        for kind in ("mode", "gauss", "plane", "bloch", "dipole"):
            for axis in (0, 1):
                for pol in (1, -1):
                    for st in ("zero", "one", "ramp")[
                            (2 if kind != "mode" and tier == "quick" else 0):]:
                        out.append([sel, kind, axis, pol, st, False])
    for axis, pol in itertools.product((0, 1), (1, -1)):
        out.append(["uniform", "mode", axis, pol, "ramp", True])
    return out


@chk.section("simulations", sim_cases,
             "selection matrices x sources x axes x directions x structures "
             "(x a dispersive material): two wavelengths in one plan, nodes "
             "created in different orders", timeout=300)
def simulations(ctx, case):
    sel, kind, axis, pol, st, disp = case
    wlens = (1450.0, 1600.0)
    results = []
    with vlib.scratch() as d:
        for order in (1, -1):
            np.random.seed(1)
            sp = space_node(d, sel, axis, "Si" if disp else 3.0)
            # The reference makes its own space and source.
            ref = simspace.SimulationSpace(sp, d)
            work = workspace.Workspace(d, "")
            nodes = []
            for wlen in wlens:
                eps = optplan.Epsilon(simulation_space=sp, wavelength=wlen)
                sim = optplan.FdfdSimulation(
                    solver="local_direct", wavelength=wlen,
                    simulation_space=sp, epsilon=eps,
                    source=source_node(kind, axis, pol))
                ov = optplan.WaveguideModeOverlap(
                    mode_num=0, power=1.0, **region(axis, pol * 250.0, pol))
                over = optplan.Overlap(simulation=sim, overlap=ov)
                nodes.append((wlen, eps, sim, ov, over))
            for row in nodes[::order]:
                for node in row[1:][::order]:
                    work.get_object(node)
            vals = []
            for wlen, eps, sim, ov, over in nodes:
                inst = ref(wlen)
                S = inst.selection_matrix
                x = structure(S.shape[1], st)
                par = parametrization.DirectParam(x.copy())
                e = work.get_object(eps).calculate_objective_function(par)
                want = fdfd_tools.vec(inst.eps_bg.grids) + S @ x
                require(vlib.close(e, want, 1e-12, 1e-12), "epsilon",
                        lambda: "epsilon at {}".format(wlen))
                bloch = np.zeros(3)
                cls = {"mode": creator_em.WaveguideModeSource,
                       "gauss": creator_em.GaussianSource,
                       "plane": creator_em.PlaneWaveSource,
                       "bloch": creator_em.PlaneWaveSource,
                       "dipole": creator_em.DipoleSource}[kind]
                J = cls(source_node(kind, axis, pol))(ref, wlen, solver=SOLVER)
                if isinstance(J, tuple):
                    J, bloch = J
                require(kind == "bloch" or not np.any(bloch), "bloch",
                        lambda: "{} gives {}".format(kind, bloch))
                E = SOLVER.solve(omega=2 * np.pi / wlen, dxes=ref.dxes,
                                 J=fdfd_tools.vec(J), epsilon=want,
                                 pml_layers=sp.pml_thickness,
                                 bloch_vec=bloch)
                got = work.get_object(sim).calculate_objective_function(par)
                require(vlib.close(got, E, 1e-9, 1e-9 * np.abs(E).max()),
                        "fields", lambda: "{} off by {} of {}".format(
                            wlen, np.abs(got - E).max(), np.abs(E).max()))
                C = creator_em.WaveguideModeOverlap(ov)(ref, wlen)
                o = work.get_object(over).calculate_objective_function(par)
                want = np.sum(fdfd_tools.vec(C) * E)
                size = np.abs(fdfd_tools.vec(C)) @ np.abs(E)
                require(vlib.close(o, want, 1e-9, 1e-7 * size), "overlap",
                        lambda: "{} instead of {}".format(o, want))
                vals.append(complex(o))
                ctx.step(4)
            results.append(vals)
            ctx.run()
    require(vlib.close(results[0], results[1], 1e-9, 1e-12), "order",
            lambda: str(results))
    ctx.outcome(np.round(results[0], 9).tolist())


WLENS = (1550.0, 1550.001, 1550.04, 1550.3, 1551.0, 1310.0, 980.5)


@chk.section("wavelengths", lambda tier: [
    [sel, list(h)] for sel in SELECTIONS
    for h in itertools.product(range(len(WLENS)),
                               repeat=2 if tier == "quick" else 3)],
             "dispersive spaces asked for wavelengths in every order, nearly "
             "equal ones included: each is answered for itself")
def wavelengths(ctx, case):
    sel, hist = case
    from spins.material import material as mats
    with vlib.scratch() as d:
        if sel not in SPACES:
            SPACES[sel] = {}
            for w in WLENS:
                inst = simspace.SimulationSpace(space_node(d, sel, 0, "Si"),
                                                d)(w)
                n = mats.Si().refractive_index(np.array(w))[0]
                bg = np.array(inst.eps_bg.grids)
                require(vlib.close(bg.max(), n**2, 1e-12, 0), "index",
                        lambda: "{} at {}".format(bg.max(), w))
                S = inst.selection_matrix
                fg = bg + np.reshape(fdfd_tools.unvec(
                    S @ np.ones(S.shape[1]), bg[0].shape), bg.shape)
                require(np.abs(fg - n**2).min() < 1e-9, "foreground")
                SPACES[sel][w] = bg, S @ structure(S.shape[1], "ramp")
            vals = [v[0].max() for v in SPACES[sel].values()]
            require(len(set(np.round(vals, 9))) == len(WLENS), "dispersion")
        space = simspace.SimulationSpace(space_node(d, sel, 0, "Si"), d)
        for i in hist:
            inst = space(WLENS[i])
            bg, z = SPACES[sel][WLENS[i]]
            got = np.array(inst.eps_bg.grids)
            require(vlib.close(got, bg, 0, 1e-10), "background",
                    lambda: "{} at {}".format(got.max() - bg.max(), WLENS[i]))
            S = inst.selection_matrix
            require(vlib.close(S @ structure(S.shape[1], "ramp"), z, 0, 1e-10),
                    "selection", lambda: str(WLENS[i]))
            ctx.step()
    ctx.run()
    ctx.state(case)
    ctx.outcome(case)


SPACES = {}


def objective_cases(tier):
    return [[sel, form, axis, many] for sel in SELECTIONS
            for form in ("power", "loss", "comp", "ratio", "diff", "penalty")
            for axis in (0, 1) for many in (1, 2)]


@chk.section("objectives", objective_cases,
             "objectives of whole plans (powers, losses, comparisons, "
             "products of wavelengths, differences of overlaps): value from "
             "the overlaps, gradient along every unit vector by finite "
             "differences", timeout=300)
def objectives(ctx, case):
    sel, form, axis, many = case
    wlens = (1450.0, 1600.0)[:many]
    with vlib.scratch() as d:
        sp = space_node(d, sel, axis)
        work = workspace.Workspace(d, "")
        overs = []
        for wlen in wlens:
            sim = optplan.FdfdSimulation(
                solver="local_direct", wavelength=wlen, simulation_space=sp,
                epsilon=optplan.Epsilon(simulation_space=sp, wavelength=wlen),
                source=source_node("mode", axis, 1))
            for m, pol in ((250.0, 1), (-250.0, -1)):
                overs.append(optplan.Overlap(
                    simulation=sim, overlap=optplan.WaveguideModeOverlap(
                        mode_num=0, power=1.0, **region(axis, m, pol))))
        fwd, back = overs[::2], overs[1::2]
        obj = None
        for i, (f, b) in enumerate(zip(fwd, back)):
            if form == "power":
                t = optplan.abs(f)**2
            elif form == "loss":
                t = (1.5 - optplan.abs(f))**2 + 0.5 * optplan.abs(b)**2
            elif form == "comp":
                t = optplan.PowerComp(function=optplan.abs(f)**2, value=0.4,
                                      range=0.2, exp=2.0)
            elif form == "ratio":
                t = optplan.abs(f)**2 * (1 + optplan.abs(b)**2)
            elif form == "diff":
                t = optplan.abs(f - 0.7 * b)**2
            else:
                t = optplan.abs(f)**2 + 0.01 * optplan.DiscretePenalty()
            obj = t if obj is None else (obj * t if form == "ratio" else obj + t)
        F = work.get_object(obj)
        ovs = [work.get_object(o) for o in overs]
        n = work.get_object(sp)(wlens[0]).selection_matrix.shape[1]

        def ref(x):
            par = parametrization.DirectParam(x)
            o = [complex(f.calculate_objective_function(par)) for f in ovs]
            tot = 1.0 if form == "ratio" else 0.0
            for f, b in zip(o[::2], o[1::2]):
                if form == "power":
                    t = abs(f)**2
                elif form == "loss":
                    t = (1.5 - abs(f))**2 + 0.5 * abs(b)**2
                elif form == "comp":
                    p = abs(f)**2
                    t = max(p - 0.5, 0)**2 + max(0.3 - p, 0)**2
                elif form == "ratio":
                    t = abs(f)**2 * (1 + abs(b)**2)
                elif form == "diff":
                    t = abs(f - 0.7 * b)**2
                else:
                    t = abs(f)**2 + 0.01 * np.sum(x * (1 - x))
                tot = tot * t if form == "ratio" else tot + t
            return tot

        x = structure(n, "ramp")
        par = parametrization.DirectParam(x.copy())
        val = F.calculate_objective_function(par)
        require(vlib.close(val, ref(x), 1e-9, 1e-12), "value",
                lambda: "{} instead of {}".format(val, ref(x)))
        g = np.real(np.squeeze(np.asarray(F.calculate_gradient(par))))
        require(g.shape == (n,), "gradient-shape", str(g.shape))
        require(np.array_equal(par.encode(), x), "modified")
        # The gradient is linear: every unit vector if there are few, else
        # the vectors that tell all of them apart block by block.
        dirs = np.eye(n) if n <= 24 else np.array([
            (np.arange(n) % m == k).astype(float)
            for m in (5, 7) for k in range(m)])
        fd = []
        for v in dirs:
            h = 1e-4
            fd.append((ref(x + h * v) - ref(x - h * v)) / (2 * h))
            ctx.step()
        want, got = np.array(fd), dirs @ g
        scale = max(np.abs(want).max(), 1e-9)
        require(np.all(np.abs(want - got) <= 1e-4 * scale + 1e-9), "gradient",
                lambda: "{} instead of {}".format(got, want))
        ctx.run()
        ctx.outcome(round(float(np.real(val)), 9))


def diff_cases(tier):
    return [[sel, kind, axis, wlen] for sel in SELECTIONS
            for kind in ("gds", "param") for axis in (0, 1)
            for wlen in (1450.0, 1600.0)]


@chk.section("differences", diff_cases,
             "distance of a design to a layout and to another design which "
             "then changes", timeout=300)
def differences(ctx, case):
    sel, kind, axis, wlen = case
    with vlib.scratch() as d:
        sp = space_node(d, sel, axis, "Si")
        other = space_node(d, sel, axis, 2.0, "other")
        work = workspace.Workspace(d, "")
        space = work.get_object(sp)(wlen)
        S = space.selection_matrix
        bg = fdfd_tools.vec(space.eps_bg.grids)
        n = S.shape[1]
        x = structure(n, "ramp")
        par = parametrization.DirectParam(x.copy())
        if kind == "gds":
            write_gds(os.path.join(d, "ref.gds"), [(3, -300, 200, -250, 350)])
            ref = optplan.GdsEps(
                gds="ref.gds", stack_normal=[0, 0, 1],
                mat_stack=optplan.GdsMaterialStack(
                    background=index(1.2),
                    stack=[optplan.GdsMaterialStackLayer(
                        foreground=index("Si"), background=index(1.3),
                        extents=[-1e4, 1e4], gds_layer=[3, 0])]))
            want = fdfd_tools.vec(simspace.SimulationSpace(
                optplan.SimulationSpace(
                    name="ref", mesh=sp.mesh, eps_bg=ref, eps_fg=ref,
                    sim_region=sp.sim_region, pml_thickness=sp.pml_thickness,
                    selection_matrix_type="full_direct"),
                d)(wlen).eps_bg.grids)
        else:
            np.random.seed(2)
            pix = optplan.PixelParametrization(
                simulation_space=other, init_method=optplan.UniformInitializer(
                    min_val=0.0, max_val=1.0))
            ref = optplan.ParamEps(parametrization=pix, simulation_space=other,
                                   wavelength=wlen + 100)
        fun = work.get_object(optplan.DiffEpsilon(
            epsilon=optplan.Epsilon(simulation_space=sp, wavelength=wlen),
            epsilon_ref=ref))
        for rnd in range(3):
            if kind == "param":
                p2 = work.get_object(pix)
                if rnd:
                    p2.decode(structure(len(p2.encode()), ("one", "ramp")[rnd - 1]))
                sp2 = work.get_object(other)(wlen + 100)
                want = fdfd_tools.vec(
                    sp2.eps_bg.grids) + sp2.selection_matrix @ p2.encode()
            val = fun.calculate_objective_function(par)
            diff = bg + S @ x - want
            w = np.sum(np.abs(diff)**2)
            require(vlib.close(val, w, 1e-10, 1e-10), "value",
                    lambda: "{} instead of {}".format(val, w))
            g = np.squeeze(np.asarray(fun.calculate_gradient(par)))
            wg = 2 * np.real(S.T @ np.conj(diff))
            require(vlib.close(g, wg, 1e-9, 1e-9 * np.abs(wg).max()),
                    "gradient", lambda: "{} instead of {}".format(g, wg))
            ctx.step(2)
        ctx.run()
        ctx.outcome(round(float(w), 6))


# -------------------------------------------------------------- parametrizations


class FakeSpaceNode(optplan.SimulationSpaceBase):
    """A simulation space of which only the design region matters."""
    type = schema_utils.polymorphic_model_type("verif_fake_space")


class FakeFieldNode(optplan.Function):
    """A function whose value is known."""
    type = schema_utils.polymorphic_model_type("verif_fake_field")
    simulation_space = optplan.ReferenceType(optplan.SimulationSpaceBase)


class FakeSpace:

    def __init__(self, dims, dx=40.0):
        self.design_dims = dims
        self.dx = dx
        self.dims = list(dims) + [1]


CURRENT = {}


@optplan.register_node(FakeSpaceNode)
def make_fake_space(params, work):
    return CURRENT["space"]


@optplan.register_node(FakeFieldNode)
def make_fake_field(params, work):
    return CURRENT["field"]


def fake_work(dims, dx=40.0):
    CURRENT["space"] = FakeSpace(dims, dx)
    return workspace.Workspace("", ""), FakeSpaceNode(name="fake")


def init_node(kind, a, b):
    if kind == "uniform":
        return optplan.UniformInitializer(min_val=a, max_val=b)
    return optplan.NormalInitializer(mean=a, std=b)


def pixel_cases(tier):
    return [[dims, kind] for dims in itertools.product(
        (1, 2, 3, 8) if tier == "quick" else (1, 2, 3, 5, 8, 13), repeat=2)
        for kind in ("uniform", "normal", "constant", "mean", "real")]


@chk.section("pixels", pixel_cases,
             "pixel parametrizations of every small design region, of real "
             "spaces and of every way to initialize")
def pixels(ctx, case):
    dims, kind = case
    a, b, name = dict(uniform=(0.2, 0.7, "uniform"), normal=(3.0, 0.01, "normal"),
                      constant=(0.4, 0.4, "uniform"), mean=(0.6, 0.0, "normal"),
                      real=(0.1, 0.3, "uniform"))[kind]
    vals = []
    for seed in (0, 0, 1):
        np.random.seed(seed)
        work, node = fake_work(list(dims))
        p = work.get_object(optplan.PixelParametrization(
            simulation_space=node, init_method=init_node(name, a, b)))
        v = p.encode()
        require(v.shape == (dims[0] * dims[1],), "size", str(v.shape))
        require(np.array_equal(p.get_structure(), v), "structure")
        if name == "uniform":
            require(np.all(v >= a) and np.all(v <= b), "range", lambda: str(v))
        else:
            require(np.all(np.abs(v - a) <= 6 * b + 1e-15), "range",
                    lambda: str(v))
        vals.append(v)
        ctx.step()
    require(np.array_equal(vals[0], vals[1]), "seed")
    if a != b and b:
        require(not np.any(vals[0] == vals[2]), "random", lambda: str(vals))
        require(len(np.unique(vals[0])) == vals[0].size, "element-wise")
    big = []
    if dims[0] * dims[1] >= 16 and kind in ("uniform", "normal"):
        # The draws spread over what was asked for.
        big = vals[0]
        lo, hi = (a, b) if name == "uniform" else (a - b, a + b)
        require(big.min() < lo + 0.5 * (hi - lo) < big.max(), "spread",
                lambda: str(big))
        require(np.ptp(big) > 0.3 * (hi - lo), "spread", lambda: str(big))
    ctx.run(3)


def cubic_cases(tier):
    # Two cells per coarse period at least.
    out = []
    for dims in ((12, 8), (8, 12), (11, 9), (24, 12), (7, 7), (30, 5)):
        for und in (1.0, 2.0, 3.0, 2.5):
            for per in (None, [0, 0], [1, 0], [0, 1], [2, 0], [0, 2], [1, 1],
                        [2, 2], [3, 0]):
                for sym in (None, [False, False], [True, False], [False, True],
                            [True, True]):
                    out.append([dims, und, per, sym])
    return out


@chk.section("cubic", cubic_cases,
             "cubic parametrizations: design regions x undersampling x "
             "periods x reflection symmetries")
def cubic(ctx, case):
    dims, und, per, sym = case
    dims = list(dims)

    def make(init, seed=0):
        np.random.seed(seed)
        work, node = fake_work(list(dims))
        return work.get_object(optplan.CubicParametrization(
            simulation_space=node, undersample=und, init_method=init,
            periods=per, reflection_symmetry=sym))

    try:
        p = make(init_node("uniform", 0.2, 0.8))
    except ValueError:
        # Only divisions into periods may fail to fit.
        require(per is not None and max(per) > 1, "refused", str(case))
        ctx.run()
        ctx.outcome("refused")
        return
    n = len(p.encode())
    # A control point per `undersample` cells, fewer with symmetries.
    full = 1.0
    for a in range(2):
        full *= (dims[a] / und + 4)
    require(n <= full, "size", "{} > {}".format(n, full))
    require(n >= 0.9 * np.prod([dims[a] / und / max(per[a] if per else 1, 1) /
                                (2 if sym and sym[a] else 1) - 1
                                for a in range(2)]), "size", str(n))
    for seed in range(3):
        np.random.seed(seed)
        p.decode(np.random.uniform(0.3, 0.7, n))
        z = np.array(p.get_structure())
        require(z.shape == (dims[0] * dims[1],), "size", str(z.shape))
        z = z.reshape(dims, order="F")
        for a in range(2):
            if sym and sym[a]:
                require(vlib.close(z, np.flip(z, a), 0, 1e-9), "symmetry",
                        lambda: "axis {} of {}".format(a, z.tolist()))
            if per and per[a] > 1 and dims[a] % per[a] == 0:
                require(vlib.close(z, np.roll(z, dims[a] // per[a], a), 0,
                                   1e-9), "period",
                        lambda: "axis {} of {}".format(a, z.tolist()))
            elif not (sym and sym[a]) and not (per and per[a]) and n > 12:
                require(not vlib.close(z, np.flip(z, a), 0, 1e-6),
                        "no-symmetry", lambda: "axis {}".format(a))
        ctx.step()
    q = make(init_node("uniform", 0.4, 0.4))
    z = q.get_structure()
    require(np.ptp(z) < 1e-9 and vlib.close(q.encode(), np.full(n, 0.4), 0,
                                            1e-9), "constant", lambda: str(z))
    q = make(init_node("normal", 0.3, 0.0))
    require(vlib.close(q.encode(), np.full(n, 0.3), 0, 1e-9), "constant")
    q = make(init_node("uniform", 0.2, 0.8), 5)
    v = q.encode()
    require(np.all(v >= 0.2) and np.all(v <= 0.8) and (np.ptp(v) > 0 or
                                                  n < 4), "range",
            lambda: str(v))
    require(np.array_equal(v, make(init_node("uniform", 0.2, 0.8), 5).encode()),
            "seed")
    ctx.run(5)
    ctx.outcome(n)


def grating_cases(tier):
    dims = [[n, 1] for n in range(1, 14)] + [[1, n] for n in range(1, 14)] + [
        [2, 2], [3, 4], [5, 2]]
    return [[d, inv] for d in dims for inv in (None, False, True)]


@chk.section("gratings", grating_cases,
             "grating parametrizations of every line of up to 13 pixels, with "
             "all edge pairs on a quarter-pixel lattice; areas refused")
def gratings(ctx, case):
    dims, inv = case
    work, node = fake_work(dims)
    kw = {} if inv is None else dict(inverted=inv)
    g = optplan.GratingParametrization(simulation_space=node, **kw)
    if min(dims) > 1:
        try:
            work.get_object(g)
        except ValueError:
            ctx.run()
            return
        vlib.fail("area", "2D design region accepted")
    p = work.get_object(g)
    n = max(dims)
    base = 1.0 if inv else 0.0
    require(np.array_equal(p.get_structure(), np.full(n, base)), "empty",
            lambda: str(p.get_structure()))
    for a, b in itertools.combinations(np.arange(0, min(n, 4) + 0.1, 0.25), 2):
        p.decode(np.array([a, b]))
        z = np.array([max(0, min(b, i + 1) - max(a, i)) for i in range(n)])
        want = 1 - z if inv else z
        require(vlib.close(p.get_structure(), want, 0, 1e-12), "structure",
                lambda: "{} {}: {}".format(a, b, p.get_structure()))
        ctx.step()
    ctx.run()
    ctx.outcome([n, inv])


class Levelset(parametrization.Parametrization):
    """Records which penalties are asked of it."""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        if not name.startswith("calculate_"):
            raise AttributeError(name)

        def f(d):
            self.calls.append((name, d))
            k = {"calculate_gap_penalty": 1.0, "calculate_curv_penalty": 10.0,
                 "calculate_gap_penalty_gradient": np.array([1.0, 2.0]),
                 "calculate_curv_penalty_gradient": np.array([30.0, 50.0])}
            return k[name] * d

        return f

    def calculate_gradient(self):
        raise NotImplementedError

    encode = decode = get_structure = calculate_gradient


def penalty_cases(tier):
    return [["fab", m, f, gap, curv, dx]
            for m in ("gap", "curv", "gap_and_curve") for f in (True, False)
            for gap in (80.0, 200.0) for curv in (100.0, 350.0)
            for dx in (20.0, 40.0)] + [
        ["grating", s, sc, None, dx, n] for s in (40.0, 100.0)
        for sc in (None, 2.0, 3.5) for dx in (20.0, 40.0) for n in (2, 4, 6)
    ] + [["discrete", n, k, 0, 0, 0] for n in (1, 2, 5) for k in range(4)]


@chk.section("penalties", penalty_cases,
             "fabrication, grating and discreteness penalties: minimum sizes "
             "in the plan's units, on every combination of settings")
def penalties(ctx, case):
    kind = case[0]
    if kind == "fab":
        _, method, factors, gap, curv, dx = case
        work, node = fake_work([8, 8], dx)
        f = work.get_object(optplan.FabricationConstraint(
            simulation_space=node, minimum_curvature_diameter=curv,
            minimum_gap=gap, method=method, apply_factors=factors))
        g = np.pi / (gap / (dx / 2) * (1.2 if factors else 1))
        c = np.pi / (curv / (dx / 2) * (1.1 if factors else 1))
        par = Levelset()
        want, wantg = 0.0, np.zeros(2)
        if method != "curv":
            want, wantg = want + g, wantg + np.array([1.0, 2.0]) * g
        if method != "gap":
            want, wantg = want + 10 * c, wantg + np.array([30.0, 50.0]) * c
        require(vlib.close(f.calculate_objective_function(par), want, 1e-12, 0),
                "penalty", lambda: "{} for {}".format(par.calls, case))
        require(vlib.close(f.calculate_gradient(par), wantg, 1e-12, 0),
                "gradient", lambda: "{} for {}".format(par.calls, case))
        ctx.step(2)
    elif kind == "grating":
        _, size, scale, _, dx, n = case
        work, node = fake_work([30, 1], dx)
        kw = {} if scale is None else dict(boundary_constraint_scale=scale)
        f = work.get_object(optplan.GratingFeatureConstraint(
            simulation_space=node, min_feature_size=size, **kw))
        par = parametrization.GratingParam(np.zeros(n), num_pixels=30)
        scale = 2.0 if scale is None else scale
        for k in range(3):
            edges = np.cumsum(1.5 + np.mod(np.arange(n) * 1.7 + k, 2.9))
            par.decode(edges)
            got = np.array(f.calculate_objective_function(par))
            px = size / dx
            # Satisfied exactly if all the features are large enough.
            feat = np.diff(edges)
            require(np.all(got <= 1e-9) == bool(
                np.all(feat >= px - 1e-9) and edges[0] >= scale * px - 1e-9 and
                30 - edges[-1] >= scale * px - 1e-9), "feasible",
                    lambda: "{} {}: {}".format(px, edges, got))
            ref = problem.GratingFeatureConstraint(
                px, boundary_constraint_scale=scale)
            require(vlib.close(got, ref.calculate_objective_function(par),
                               1e-12, 1e-12), "constraint",
                    lambda: "{} {}".format(px, edges))
            ctx.step()
    else:
        _, n, k, _, _, _ = case
        work, _ = fake_work([n, 1])
        f = work.get_object(optplan.DiscretePenalty())
        x = [np.zeros(n), np.ones(n), np.full(n, 0.5),
             np.linspace(-0.2, 1.3, n)][k]
        par = parametrization.DirectParam(x.copy())
        require(vlib.close(f.calculate_objective_function(par),
                           sum(v * (1 - v) for v in x), 1e-12, 1e-12),
                "penalty")
        require(vlib.close(f.calculate_gradient(par), 1 - 2 * x, 1e-12, 1e-12),
                "gradient")
        two = work.get_object(3.0 * optplan.DiscretePenalty() + 1.0)
        require(vlib.close(two.calculate_gradient(par), 3 - 6 * x, 1e-12,
                           1e-12), "gradient")
        ctx.step(3)
    ctx.run()


# --------------------------------------------------------------- slices of grids


GRIDS = [[0.0, 1.0, 2.0, 3.0, 4.0], [-2.0, -1.0, 0.0, 1.0], [0.0, 1.0],
         [-120.0, -80.0, -40.0, 0.0, 40.0, 80.0], [0.0, 1.0, 3.0, 3.5, 6.0]]


def region_cases(tier):
    return [[a, b] for a in range(len(GRIDS)) for b in range(len(GRIDS))]


@chk.section("regions", region_cases,
             "all regions with corners on an eighth-of-a-cell lattice of the "
             "grids' axes, planes, and regions beyond the grid")
def regions(ctx, case):
    ga, gb = GRIDS[case[0]], GRIDS[case[1]]
    h = ga[1] - ga[0]
    other = [(gb[0] + gb[-1]) / 2, 100 * (gb[-1] - gb[0])]
    lo, hi = ga[0] - h, ga[-1] + h
    pts = np.arange(lo, hi + h / 16, h / 8)
    for axis in range(3):
        edges = [np.array(gb)] * 3
        edges[axis] = np.array(ga)
        for i, j in itertools.combinations_with_replacement(range(len(pts)), 2):
            a, b = pts[i], pts[j]
            if b <= ga[0] or a >= ga[-1]:
                continue
            center, ext = [other[0]] * 3, [other[1]] * 3
            center[axis], ext[axis] = (a + b) / 2, b - a
            keep = list(center), list(ext)
            sl = grid_utils.create_region_slices(edges, center, ext)
            ctx.step()
            require((center, ext) == keep, "modified")
            for k in range(3):
                if k != axis:
                    require((sl[k].start, sl[k].stop) == (0, len(gb) - 1),
                            "whole", lambda: str((sl, case)))
            s, e = sl[axis].start, sl[axis].stop
            n = len(ga) - 1
            require(0 <= s < e <= n, "bounds", lambda: str((a, b, sl)))
            # Cells wholly inside are selected, and no cell outside is.
            inside = [k for k in range(n) if ga[k] >= a and ga[k + 1] <= b]
            touch = [k for k in range(n) if ga[k] <= b and ga[k + 1] >= a]
            got = list(range(s, e))
            require(set(inside) <= set(got) <= set(touch), "cells",
                    lambda: "[{}, {}] gives {}".format(a, b, got))
            if a == b:
                k = [k for k in range(n) if ga[k] <= a < ga[k + 1]]
                require(got == k, "plane", lambda: "{} gives {}".format(a, got))
            aligned = all(min(abs(v - x) for x in ga) < 1e-9 * h or
                          not ga[0] < v < ga[-1] for v in (a, b))
            if aligned and a < b:
                require(got == inside, "aligned",
                        lambda: "[{}, {}] gives {}".format(a, b, got))
    ctx.run()
    ctx.outcome(case)


def monitor_cases(tier):
    return [[dims, axis, sign] for dims in itertools.product((1, 2, 4), repeat=3)
            for axis in range(3) for sign in (1, -1)] + [
        [dims, None, None] for dims in itertools.product((1, 2, 4), repeat=3)]


class Field(problem.OptimizationFunction):

    def __init__(self, value):
        super().__init__([])
        self.value = value

    def eval(self, inputs):
        return self.value


@chk.section("monitors", monitor_cases,
             "field monitors on every slice of small grids (points at the "
             "centres and near the edges of cells), whole fields, scalars")
def monitors(ctx, case):
    dims, axis, sign = case
    work, node = fake_work([2, 2])
    space = CURRENT["space"]
    space.dims = list(dims)
    space.edge_coords = [np.arange(n + 1) * 40.0 - 20.0 * n for n in dims]
    size = int(np.prod(dims))
    val = np.arange(3 * size) + 1j * np.arange(3 * size)[::-1]
    comps = fdfd_tools.unvec(val, dims)
    eps = FakeFieldNode(name="eps", simulation_space=node)
    CURRENT["field"] = Field(val)
    par = parametrization.DirectParam(np.zeros(1))
    if axis is None:
        m = work.get_object(optplan.FieldMonitor(function=eps))
        got = m.get_data(par)
        require(len(got) == 3 and all(
            np.array_equal(g, c) for g, c in zip(got, comps)), "whole")
        m = work.get_object(optplan.SimpleMonitor(function=eps))
        require(np.array_equal(m.get_data(par), val), "simple")
        ctx.step(2)
    else:
        normal = [0.0] * 3
        normal[axis] = float(sign)
        for k in range(dims[axis]):
            for off in (-19.0, 0.0, 19.0):
                point = [1.0, -1.0, 0.5]
                point[axis] = space.edge_coords[axis][k] + 20.0 + off
                m = work.get_object(optplan.FieldMonitor(
                    name="m{}{}".format(k, off), function=eps, center=point,
                    normal=normal))
                got = m.get_data(par)
                want = [np.take(c, [k], axis) for c in comps]
                require(len(got) == 3 and all(
                    g.shape == w.shape and np.array_equal(g, w)
                    for g, w in zip(got, want)), "slice",
                        lambda: "{} at {}: {}".format(
                            dims, point, [np.shape(g) for g in got]))
                ctx.step()
    ctx.run()
    ctx.outcome(case)


if __name__ == "__main__":
    chk.main()
