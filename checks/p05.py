"""P05: a goos plan that is saved and loaded again is the same plan.

Every node kind with every argument variant, every small program of node
constructions with sharing, every short sequence of actions and every short
history of sessions (build, save, load in a fresh session, extend) is saved and
loaded with the real code; the oracle is the plan that was saved (values,
gradients, structure, behaviour of its actions).  Every single-field corruption
of a saved file has to be refused.
"""
import copy
import itertools
import json
import os

import numpy as np
import scipy.optimize

import vlib
from vlib import require, fail
import gooslib as gl
from gooslib import goos
from spins.goos import optimize
from spins.goos import array as goos_array
from spins.goos import grating
from spins.goos_sim import maxwell

chk = vlib.Check("P05", "exploration", [
    "arguments are those admitted by the annotations of the constructors",
    "a new session is modelled by resetting the counters of generated names",
])

Mat = goos.material.Material
NAMES = goos.optplan.PROBLEM_GRAPH_NAME_MAP


class Custom(goos.Function):
    """A user-defined node with all kinds of optional arguments."""
    node_type = "verif.p05.custom"

    def __init__(self, fun: goos.Function, a: int = 3, b: float = 0.5,
                 c: str = "x", d: bool = False, e: complex = 1j,
                 f: np.ndarray = None) -> None:
        super().__init__(fun)
        self.args = (a, b, c, d, e, f)

    def eval(self, inputs):
        a, b, c, d, e, f = self.args
        val = a + b * 10 + len(c) * 100 + bool(d) * 1000 + e
        if f is not None:
            val = val + np.sum(f)
        return goos.NumericFlow(inputs[0].array * val)

    def grad(self, inputs, grad_val):
        return [grad_val]


class Derived(Custom):
    """A subclass without a constructor of its own."""
    node_type = "verif.p05.derived"

    def eval(self, inputs):
        return goos.NumericFlow(super().eval(inputs).array + 7)


def new_session():
    NAMES.clear()


# --------------------------------------------------------------------------
# Observation of plans and flows.


def canon(v):
    """Plain data describing a flow, a gradient or a value."""
    if isinstance(v, goos.ArrayFlow):
        return ["array"] + [canon(f) for f in v]
    if isinstance(v, (goos.Flow, goos.Flow.Grad)):
        if hasattr(v, "flows_grad"):
            return ["arraygrad"] + [canon(f) for f in v.flows_grad]
        fields = getattr(type(v), "__dataclass_fields__", {})
        return [type(v).__name__] + [[k, canon(getattr(v, k))]
                                     for k in sorted(fields)]
    if hasattr(v, "permittivity"):
        return ["material", complex(v.permittivity(1550))]
    if isinstance(v, np.ndarray) or np.isscalar(v):
        if isinstance(v, str):
            return v
        a = np.asarray(v)
        return [list(a.shape), [complex(x) for x in a.ravel()]]
    if isinstance(v, (list, tuple)):
        if v and all(isinstance(x, (int, float)) for x in v):
            return canon(np.array(v))
        return [canon(x) for x in v]
    return repr(v)


def arg(v):
    """Describes a constructor argument as recorded."""
    from schematics import models
    if isinstance(v, goos.ProblemGraphNode):
        return ["ref", v._goos_name]
    if isinstance(v, goos.optplan.NodeSchema):
        return ["ref", v.name]
    if isinstance(v, models.Model):
        # Integers and the equal real numbers are the same argument.
        return ["model", json.loads(json.dumps(v.to_primitive()),
                                    parse_int=float)]
    if isinstance(v, (list, tuple)):
        if v and all(isinstance(x, (int, float)) for x in v):
            return canon(np.array(v))
        return ["list"] + [arg(x) for x in v]
    return canon(v)


def content(text):
    """What a file says: the order of the nodes does not matter."""
    doc = json.loads(text)
    doc["nodes"] = sorted(doc["nodes"], key=lambda n: n["name"])
    return doc


def describe(node):
    """Kind, arguments and inputs of a node; ignores anonymous helper nodes."""
    with_args = [[k, arg(v)] for k, v in sorted(node._goos_schema.items())
                 if v is not None]
    return [node.node_type, node._goos_name, with_args,
            [i.node_type for i in node._goos_inputs]]


def user_nodes(plan, text):
    """Nodes by name, those that are part of the saved file."""
    doc = json.loads(text)
    return [n["name"] for n in doc["nodes"]]


def save(plan, d):
    os.makedirs(d, exist_ok=True)
    plan.save(d)
    with open(os.path.join(d, "optplan.json")) as fp:
        return fp.read()


def load(d, how):
    """Loads a plan in one of the ways a user can."""
    if how == "with":
        with goos.OptimizationPlan(save_path=d) as plan:
            plan.load()
        return plan
    if how == "bare":
        plan = goos.OptimizationPlan()
        plan.load(d)
        return plan
    if how == "inside":
        with goos.OptimizationPlan() as other:
            plan = goos.OptimizationPlan()
            plan.load(d)
            require(not other._node_map, "other-plan",
                    "loading a plan added nodes to another plan")
        return plan
    raise AssertionError(how)


def compare(ctx, plan, text, d, how, evaluate=True):
    loaded = load(d, how)
    names = user_nodes(plan, text)
    objs = {}
    for name in names:
        a = plan.get_node(name)
        b = loaded.get_node(name)
        require(a is not b, "shared", name)
        require(describe(a) == describe(b), "node-differs",
                lambda: "{}: {} vs {}".format(how, describe(a), describe(b)))
        objs[name] = b
        for i in b._goos_inputs:
            if i._goos_name in names:
                require(i is loaded.get_node(i._goos_name), "sharing",
                        lambda: "{} has its own copy of {}".format(
                            name, i._goos_name))
        require([i._goos_name for i in a._goos_inputs if
                 i._goos_name in names] ==
                [i._goos_name for i in b._goos_inputs if
                 i._goos_name in names] , "inputs", name)
    require(len(set(id(o) for o in objs.values())) == len(names), "sharing",
            str(names))
    acts_a = [describe(x) for x in plan._actions]
    acts_b = [describe(x) for x in loaded._actions]
    require(acts_a == acts_b, "actions",
            lambda: "{} vs {}".format(acts_a, acts_b))
    for name in names:
        a = plan.get_node(name)
        b = objs[name]
        if evaluate:
            with plan:
                va = canon(plan.eval_node(a))
            with loaded:
                vb = canon(loaded.eval_node(b))
            require(va == vb, "value",
                    lambda: "{}: {} vs {}".format(name, va, vb))
            ctx.outcome((a.node_type, va))
    sa, sb = plan.get_state_dict(), loaded.get_state_dict()
    require(sorted(sa["variable_data"]) == sorted(sb["variable_data"]),
            "variables", "")
    for k, v in sa["variable_data"].items():
        w = sb["variable_data"][k]
        for f in v:
            require(canon(v[f]) == canon(w[f]), "variable-state",
                    lambda: "{}.{}: {} vs {}".format(k, f, v[f], w[f]))
    text2 = save(loaded, d + "-again")
    require(content(text2) == content(text), "second-save",
            lambda: "{}:\n{}\n{}".format(how, text, text2))
    ctx.run()
    ctx.step(len(names) + 3)
    return loaded


def gradients(plan, node, variables):
    with plan:
        return [canon(g) for g in plan.eval_grad(node, variables)]


# --------------------------------------------------------------------------
# Every node kind.


def C(*v):
    return goos.Constant(np.array(v, dtype=float))


def V(*v, **kw):
    return goos.Variable(np.array(v, dtype=float), **kw)


def cuboid(mat=None, **kw):
    return goos.Cuboid(extents=C(1, 2, 3), pos=V(0, 1, 0),
                       material=mat or Mat(index=2), **kw)


def cyl():
    return goos.Cylinder(C(1, 2, 3), C(2), C(5), material=Mat(index=1.5 + 2j))


def sphere():
    return goos.Sphere(C(1, 2, 3), C(2), material=Mat(index=2))


def pixelated(**kw):
    return goos.pixelated_cont_shape(
        initializer=lambda s: np.arange(np.prod(s)).reshape(s) / 10.0,
        pos=[0, 0, 0], extents=[2, 2, 1], pixel_size=[1, 1, 1],
        material=Mat(index=1), material2=Mat(index=3 - 1j), **kw)[1]


BOX = dict(center=[0, 0, 0], extents=[4, 4, 1])


def render(shape=None, **kw):
    return maxwell.RenderShape(shape or pixelated(), region=goos.Box3d(**BOX),
                               mesh=maxwell.UniformMesh(dx=1), wavelength=10,
                               background=Mat(index=1), **kw)


def sim(**kw):
    return maxwell.SimulateNode(
        eps=render(),
        sources=[
            maxwell.WaveguideModeSource(center=[-1, 0, 0], extents=[0, 3, 1],
                                        normal=[1, 0, 0], mode_num=0, power=1)
        ], wavelength=10,
        simulation_space=maxwell.SimulationSpace(
            sim_region=goos.Box3d(**BOX), mesh=maxwell.UniformMesh(dx=1),
            pml_thickness=[1, 1, 1, 1, 0, 0], **kw),
        outputs=[
            maxwell.Epsilon(name="eps"), maxwell.ElectricField(name="e"),
            maxwell.WaveguideModeOverlap(name="o", wavelength=10,
                                         center=[1, 0, 0], extents=[0, 3, 1],
                                         normal=[1, 0, 0], mode_num=0, power=1)
        ], solver_info=maxwell.DirectSolver())


KINDS = {
    "const-int": lambda: goos.Constant(3),
    "const-list": lambda: goos.Constant([1, 2]),
    "const-real": lambda: goos.Constant(np.array([1.1, 1e-300, -0.0, 1 / 3])),
    "const-2d": lambda: goos.Constant(np.arange(6).reshape(2, 3)),
    "const-complex": lambda: goos.Constant(np.array([1 + 2j, 3])),
    "const-complex0": lambda: goos.Constant(1 + 2j),
    "const-complex-below": lambda: goos.Constant(np.array([1 - 2j, 3 - 0.5j])),
    "const-complex-mixed": lambda: goos.Constant(np.array([1 - 2j, -3 + 1j])),
    "const-complex-real": lambda: goos.Constant(np.array([1 + 0j, 3 + 0j])),
    "const-complex-imag": lambda: goos.Constant(np.array([[0 - 1j], [0 + 0j]])),
    "const-inf": lambda: goos.Constant(np.array([np.inf, -np.inf])),
    "var": lambda: goos.Variable(3.0, lower_bounds=0, upper_bounds=5),
    "var-zero-bound": lambda: V(3, 2, lower_bounds=0.0, upper_bounds=0),
    "var-array-bounds": lambda: V(3, 2, lower_bounds=np.array([0.0, -np.inf]),
                                  upper_bounds=np.array([4, 5])),
    "var-inf-bounds": lambda: V(3, 2, lower_bounds=-np.inf,
                                upper_bounds=np.inf),
    "var-upper": lambda: V(3, 2, upper_bounds=9),
    "var-3d": lambda: goos.Variable(np.arange(8.0).reshape(2, 2, 2),
                                    lower_bounds=0, upper_bounds=1),
    "param": lambda: V(3, 2, parameter=True),
    "sum": lambda: V(3, 2) + 2,
    "sum-list": lambda: goos.Sum([V(3, 2), C(1, 5), C(1, 7)]),
    "product": lambda: V(3, 2) * C(2, 5) * V(1, 2),
    "power": lambda: V(3, 2)**2,
    "power-half": lambda: V(3, 2)**0.5,
    "power-neg": lambda: V(3, 2)**-1,
    "abs": lambda: goos.abs(V(-3, 2)),
    "dot": lambda: goos.dot(V(3, 2), C(1, 5)),
    "dot-swapped": lambda: goos.DotProduct(C(1, 5), V(3, 2)),
    "norm": lambda: goos.Norm(V(3, 4)),
    "norm1": lambda: goos.Norm(V(3, -4), 1),
    "norm4": lambda: goos.Norm(V(3, -4), order=4),
    "max": lambda: goos.Max([V(3, -4), C(2, 5)]),
    "sigmoid": lambda: goos.Sigmoid(V(3, -4)),
    "conj": lambda: goos.Conjugate(goos.Constant(np.array([1 + 2j, 3]))),
    "slice-int": lambda: goos.Slice(V(3, 2), [1]),
    "slice-zero": lambda: goos.Slice(V(3, 2), [0]),
    "slice-range": lambda: goos.Slice(V(3, 2, 5, 7), [[1, 3]]),
    "slice-2d": lambda: goos.Slice(
        goos.Constant(np.arange(12).reshape(3, 4)), [[0, 2], 1]),
    "slice-center": lambda: goos.Slice(
        goos.Constant(np.arange(15).reshape(3, 5)), ["c", "center"]),
    "cast": lambda: goos.cast(V(3, 2) + 1, goos.Function, name="cc"),
    "cast-auto": lambda: goos.cast(V(3, 2) + 1, goos.Function),
    "cast-shape": lambda: goos.cast(cuboid(), goos.Shape),
    "cast-use": lambda: goos.cast(goos_array.IndexOp(
        goos.GroupShape([cuboid(), pixelated()]), 1), goos.Function) * 2,
    "rename": lambda: goos.rename(V(3, 2) + 1, "rr"),
    "rename-var": lambda: goos.rename(V(3, 2), "rr"),
    "rename-twice": lambda: goos.rename(goos.rename(V(3, 2) + 1, "rr"), "qq"),
    "rename-use": lambda: goos.rename(V(3, 2), "rr") * 2 + 1,
    "cuboid": cuboid,
    "cuboid-priority": lambda: cuboid(priority=3),
    "cuboid-rot": lambda: cuboid(rot=C(0, 0, 0)),
    "cuboid-complex": lambda: cuboid(Mat(index=2 + 1j)),
    "cylinder": cyl,
    "sphere": sphere,
    "group": lambda: goos.GroupShape([cyl(), cuboid(), sphere()]),
    "group-nested": lambda: goos.GroupShape(
        [goos.GroupShape([cuboid(), pixelated()]), sphere()]),
    "group-empty": lambda: goos.GroupShape([]),
    "translate": lambda: goos.TranslateShape(cuboid(), np.array([1.5, 2, 3])),
    "pixelated": pixelated,
    "pixelated-named": lambda: pixelated(var_name="v", name="s"),
    "cubic": lambda: goos.cubic_param_shape(
        initializer=lambda s: np.full(s, 0.5), extents=[4, 4, 1],
        pixel_spacing=1, control_point_spacing=1.5, pos=[0, 0, 0],
        material=Mat(index=1), material2=Mat(index=2))[1],
    "index": lambda: goos_array.IndexOp(
        goos.GroupShape([cyl(), cuboid()]), 1),
    "index-zero": lambda: goos_array.IndexOp(
        goos.GroupShape([cyl(), cuboid()]), 0),
    "pixelated-grating": lambda: grating.PixelatedGrating(
        V(1, 2, 3, 1), C(0, 1, 0, 1), np.array([0, 1.0]), np.array([0, 0, 0]),
        np.array([10, 2, 2]), Mat(index=1), Mat(index=3), 0, 1.0),
    "pixelated-grating-edges": lambda: grating.PixelatedGrating(
        V(1, 2, 3, 5), C(0, 1, 0, 1), np.array([0, 1.0]), np.array([0, 0, 0]),
        np.array([10, 2, 2]), Mat(index=1), Mat(index=3), 0, 1.0, etch_dir=2,
        etch_dir_divs=2, etch_polarity=-1, use_edge_locs=True),
    "barcode": lambda: grating.BarcodeGrating(
        V(1, 2, 3, 5), C(2.0), np.array([0, 0, 0]), np.array([10, 2, 2]),
        Mat(index=2), 0),
    "edge-constraint": lambda: grating.EdgeLocConstraint(
        V(1, 2, 3, 5), goos.Constant(np.array([0, 1, 0, 1])),
        np.array([1.0, 1.0]), 10.0),
    "custom": lambda: Custom(V(3, 2)),
    "custom-all": lambda: Custom(V(3, 2), 5, 2.5, "yz", True, 2 - 3j,
                                 np.array([4.0, 5.0])),
    "custom-falsy": lambda: Custom(V(3, 2), a=0, b=0.0, c="", d=False, e=0,
                                   f=np.zeros(2)),
    "derived": lambda: Derived(V(3, 2), 4),
    "render": render,
    "render-group": lambda: render(goos.GroupShape(
        [cuboid(), pixelated()]), simulation_symmetry=[0, 0, 0]),
    "simulate": sim,
}
SLOW = {"simulate"}
HOWS = ["with", "bare", "inside"]


@chk.section("node-kinds",
             [[k, h, s] for k in KINDS for h in HOWS for s in (0, 1)],
             "every node kind with every argument variant, loaded inside the "
             "plan, outside any plan and inside another plan, in the same or "
             "a new session")
def node_kinds(ctx, case):
    kind, how, fresh = case
    with vlib.scratch() as base:
        d = os.path.join(base, "d")
        with goos.OptimizationPlan() as plan:
            KINDS[kind]()
        text = save(plan, d)
        require(save(plan, d) == text, "save-repeatable", kind)
        if fresh:
            new_session()
        compare(ctx, plan, text, d, how, kind not in SLOW)
        ctx.state(case)


# --------------------------------------------------------------------------
# Programs: construction sequences with sharing.

OPS = ["add", "mul", "pow", "dot", "norm", "rename", "addc", "slice"]


def programs(n):
    """Sequences of n operations on a pool of two variables and all the
    previous results; each operand is any member of the pool."""
    def rec(k, prog):
        if k == n:
            yield prog
            return
        pool = 2 + k
        for op in OPS:
            arity = 2 if op in ("add", "mul", "dot") else 1
            for args in itertools.product(range(pool), repeat=arity):
                # The last operation uses the last result.
                if k == n - 1 and n > 1 and (pool - 1) not in args:
                    continue
                yield from rec(k + 1, prog + [[op] + list(args)])
    return list(rec(0, []))


def build_program(prog):
    x = V(3, 2, name="x")
    y = V(0.5, -1)
    pool = [x, y]
    for i, (op, *a) in enumerate(prog):
        a = [pool[j] for j in a]
        if op == "add":
            n = goos.Sum(a)
        elif op == "mul":
            n = goos.Product(a)
        elif op == "pow":
            n = a[0]**2
        elif op == "dot":
            n = goos.dot(a[0], a[1])
        elif op == "norm":
            n = goos.Norm(a[0] + 1)
        elif op == "rename":
            n = goos.rename(a[0], "r{}".format(i))
        elif op == "addc":
            n = a[0] + np.array([1.0, 2.0])
        elif op == "slice":
            n = goos.Slice(a[0], [0])
        pool.append(n)
    return x, y, pool[-1]


def well_formed(prog):
    """Shapes: dot, norm and slice give scalars; others broadcast."""
    return True


def program_cases(tier):
    res = programs(1) + programs(2)
    if tier == "thorough":
        res += programs(3)
    else:
        keep = {"add", "mul", "dot", "rename"}
        res += [p for p in programs(3) if all(o[0] in keep for o in p) and
                sum(o[0] == "rename" for o in p) >= 1]
    # Group the small cases to amortise.
    return [res[i:i + 12] for i in range(0, len(res), 12)]


@chk.section("programs", program_cases,
             "all sequences of up to 3 operations, every operand any earlier "
             "node; added to the plan as created or only through an action "
             "(users before their inputs)")
def program(ctx, cases):
    for i, prog in enumerate(cases):
        with vlib.scratch() as base:
            d = os.path.join(base, "d")
            with goos.OptimizationPlan() as plan:
                x, y, out = build_program(prog)
            text = save(plan, d)
            if i % 2:
                new_session()
            loaded = compare(ctx, plan, text, d, HOWS[i % 3])
            xs = [x, y]
            ls = [loaded.get_node(v._goos_name) for v in xs]
            scalar = goos.Norm(goos.dot(out + 3, out))
            with loaded:
                lout = loaded.get_node(out._goos_name)
                lscalar = goos.Norm(goos.dot(lout + 3, lout))
            ga = gradients(plan, scalar, xs)
            gb = gradients(loaded, lscalar, ls)
            require(ga == gb, "gradient",
                    lambda: "{}: {} vs {}".format(prog, ga, gb))
            ctx.state(prog)
            # Now only reachable through an action, outside of any plan.
            x, y, out = build_program(prog)
            plan = goos.OptimizationPlan()
            plan.add_action(
                optimize.ScipyOptimizer(out, "L-BFGS-B", name="opt"))
            text = save(plan, d + "2")
            compare(ctx, plan, text, d + "2", HOWS[(i + 1) % 3])


def large_program(fam, n):
    g = gl.families(n)[fam]
    prog, at = [], []
    k = 2
    for i, deps in enumerate(g):
        ops = [at[j] for j in deps] or [i % 2]
        if len(ops) == 1:
            prog.append([["addc", "slice", "rename", "pow"][
                (i % 4) if i % 4 < 3 or i < 5 else 0], ops[0]])
        else:
            prog.append([["add", "mul", "add"][i % 3]] + ops)
        at.append(k)
        k += 1
    # Keep the numbers small.
    return [[o if o != "mul" or i < 6 else "add"] + a
            for i, (o, *a) in enumerate(prog)]


@chk.section("large-programs", lambda tier: [
    [f, n] for f in gl.FAMILIES
    for n in (range(6, 30, 3) if tier == "quick" else range(5, 70))],
             "eight families of graphs of up to 27 (thorough 69) operations "
             "saved, loaded, evaluated and differentiated")
def large_programs(ctx, case):
    program(ctx, [large_program(*case)])


# --------------------------------------------------------------------------
# Actions.

ACTS = ["setc", "setv", "setexpr", "freeze", "thaw", "opt", "optcon", "print",
        "printnode", "printlist"]
LOG = []


def add_act(a, x, y, it):
    if a == "setc":
        x.set(2.5)
    elif a == "setv":
        x.set(np.array([0.25, -3.0]))
    elif a == "setexpr":
        x.set(x * y + 1)
    elif a == "freeze":
        y.freeze()
    elif a == "thaw":
        y.thaw()
    elif a == "opt":
        optimize.scipy_minimize(goos.dot(x - 1, x - 1) + goos.Norm(y),
                                "L-BFGS-B", monitor_list=[x, y + 1],
                                max_iters=2, iteration=it, ftol=1e-3, maxls=7)
    elif a == "optcon":
        optimize.scipy_maximize(-goos.dot(x - 1, y), "SLSQP",
                                constraints_eq=[goos.Norm(x) - 1],
                                constraints_ineq=[goos.Norm(y) - 2,
                                                  goos.Slice(y, [1])])
    elif a == "print":
        goos.log_print("x")
    elif a == "printnode":
        goos.log_print(x)
    elif a == "printlist":
        goos.log_print([y, x + y])


def fake(fun, x0, method=None, jac=None, callback=None, bounds=None,
         constraints=None, options=None, **kw):
    x = np.array(x0, dtype=float)
    LOG.append(["minimize", method, canon(x), repr(bounds), repr(options),
                repr(sorted(kw.items()))])
    for c in constraints or []:
        LOG.append([c["type"], canon(c["fun"](x)), canon(c["jac"](x))])
    for _ in range(2):
        x = x - 0.25 * np.asarray(jac(x)).reshape(x.shape)
        callback(x)
    return scipy.optimize.OptimizeResult(x=x, fun=fun(x))


class Recorder:

    def info(self, fmt, *a):
        LOG.append(["info", fmt % a if a else fmt])

    def debug(self, *a):
        pass

    warning = error = debug


def behaviour(plan):
    """Everything observable about running the plan."""
    del LOG[:]
    plan._logger = Recorder()
    events = []
    orig = plan.write_event

    def write_event(event, monitor_list=None):
        events.append([
            repr(event),
            [[m._goos_name, canon(v)]
             for m, v in zip(monitor_list or [],
                             plan.eval_nodes(monitor_list or []))]
        ])
        return orig(event, monitor_list)

    plan.write_event = write_event
    err = None
    with plan, gl.replaced_minimize(fake):
        try:
            plan.run(auto_checkpoint=False)
        except ValueError as e:  # setting a frozen variable
            err = str(e)
    st = {k: [canon(v[f]) for f in ("value", "frozen", "bounds")]
          for k, v in plan.get_state_dict()["variable_data"].items()}
    # Where the records go is not part of the plan.
    log = [e for e in LOG if e[0] != "info" or os.sep not in e[1]]
    return [copy.deepcopy(log), events, st, err,
            plan.get_state_dict()["action_ptr"]]


def act_cases(tier):
    res = [list(p) for n in (0, 1, 2)
           for p in itertools.product(ACTS, repeat=n)]
    if tier == "thorough":
        res += [list(p) for p in itertools.product(ACTS, repeat=3)]
    return [[r, h] for r in res for h in HOWS]


@chk.section("actions", act_cases,
             "all sequences of up to 2 (thorough: 3) actions of every kind: "
             "the loaded plan does the same as the original")
def actions(ctx, case):
    acts, how = case
    with vlib.scratch() as base:
        d = os.path.join(base, "d")
        with goos.OptimizationPlan() as plan:
            x = V(3, 2, lower_bounds=-4, upper_bounds=[4, 5], name="x")
            y = V(0.5, -1)
            it = V(0, parameter=True)
            for a in acts:
                add_act(a, x, y, it)
        text = save(plan, d)
        new_session()
        loaded = compare(ctx, plan, text, d, how)
        a = behaviour(plan)
        b = behaviour(loaded)
        require(a == b, "behaviour", lambda: "{}:\n{}\n{}".format(acts, a, b))
        require(save(plan, d + "3") == text, "save-changes",
                "running the plan changes what is saved: {}".format(acts))
        ctx.step(len(acts))
        ctx.state(case)
        ctx.outcome(a)


# --------------------------------------------------------------------------
# Sessions.

SOPS = ["var", "vark", "const", "cuboid", "expr", "reload", "reload-new"]


@chk.section("sessions",
             lambda tier: [list(p) for n in ((3, 4) if tier == "quick" else
                                             (3, 4, 5))
                           for p in itertools.product(SOPS, repeat=n)
                           if p[-1].startswith("reload")],
             "all histories of creating unnamed and named nodes, and saving "
             "and loading in the same or in a new session")
def sessions(ctx, ops):
    with vlib.scratch() as base:
        new_session()
        plan = goos.OptimizationPlan()
        want = {}
        nodes = []
        count = 0
        for i, op in enumerate(ops):
            if op.startswith("reload"):
                d = os.path.join(base, "d{}".format(i))
                text = save(plan, d)
                if op == "reload-new":
                    new_session()
                plan = goos.OptimizationPlan()
                plan.load(d)
                nodes = [plan.get_node(n) for n in sorted(want)]
                require(content(save(plan, d + "x")) == content(text),
                        "second-save", str(ops))
            else:
                with plan:
                    count += 1
                    val = np.array([float(count), 2.0 * count, 0])
                    if op == "var":
                        n = goos.Variable(val)
                    elif op == "vark":
                        n = goos.Variable(val, name="k{}".format(count))
                    elif op == "const":
                        n = goos.Constant(val)
                    elif op == "cuboid":
                        n = goos.Cuboid(
                            extents=goos.Constant(val + 1),
                            pos=goos.Variable(val), material=Mat(index=count))
                    elif op == "expr":
                        fs = [m for m in nodes if isinstance(m, goos.Function)]
                        n = goos.Sum(fs + [goos.Variable(val)])
                require(n._goos_name not in want, "name-clash",
                        lambda: "{}: {} given to two nodes".format(
                            ops, n._goos_name))
                nodes.append(n)
                want[n._goos_name] = None
                if op == "cuboid":
                    want[n._goos_name] = [canon(val), canon(val + 1), count**2]
                elif op == "expr":
                    with plan:
                        v = val + sum(
                            (np.asarray(plan.eval_node(m).array) for m in fs),
                            np.zeros(3))
                    want[n._goos_name] = canon(v)
                else:
                    want[n._goos_name] = canon(val)
            # All nodes have their own value.
            with plan:
                for name, w in want.items():
                    f = plan.eval_node(plan.get_node(name))
                    if hasattr(f, "extents"):
                        got = [canon(f.pos), canon(f.extents),
                               f.material.permittivity(1).real]
                    else:
                        got = canon(f.array)
                    require(got == w, "value", lambda: "{}: {} is {}, not {}".
                            format(ops, name, got, w))
            ctx.step()
        ctx.state(ops)
        ctx.run()
        ctx.outcome(sorted(want))


# --------------------------------------------------------------------------
# Names.

NKINDS = {
    "variable": lambda n, v: goos.Variable([v], name=n),
    "constant": lambda n, v: goos.Constant([v], name=n),
    "sum": lambda n, v: goos.Sum([goos.Constant([v])], name=n),
    "shape": lambda n, v: goos.Cuboid(extents=C(v, v, v), pos=C(0, 0, 0),
                                      material=Mat(index=1), name=n),
    "cast": lambda n, v: goos.cast(goos.Constant([v]), goos.Function, name=n),
}


@chk.section("names",
             [[a, b, w] for a in NKINDS for b in NKINDS
              for w in ("plan", "eval", "load")],
             "all pairs of node kinds given the same name, in one plan, by "
             "evaluating a node from elsewhere, and by loading")
def names(ctx, case):
    ka, kb, where = case
    with vlib.scratch() as base:
        plan = goos.OptimizationPlan()
        with plan:
            a = NKINDS[ka]("same", 1.0)
            before = canon(plan.eval_node(a))
        if where == "eval":
            b = NKINDS[kb]("same", 2.0)
        elif where == "load":
            with goos.OptimizationPlan() as other:
                b = NKINDS[kb]("same", 2.0)
            save(other, base)
        try:
            with plan:
                if where == "plan":
                    NKINDS[kb]("same", 2.0)
                elif where == "eval":
                    plan.eval_node(b)
                else:
                    plan.load(base)
            fail("name-clash", "{}: accepted".format(case))
        except ValueError:
            pass
        with plan:
            require(canon(plan.eval_node(plan.get_node("same"))) == before,
                    "value", str(case))
            require(plan.get_node("same") is a, "value", str(case))
        ctx.step(3)
        ctx.run()
        ctx.state(case)
        ctx.outcome(before)


# --------------------------------------------------------------------------
# What the caller does with its arrays afterwards.

MUT = {
    "constant": lambda a: goos.Constant(a),
    "variable": lambda a: goos.Variable(a),
    "lower": lambda a: goos.Variable([9.0, 9.0, 9.0], lower_bounds=a),
    "upper": lambda a: goos.Variable([-9.0, -9.0, -9.0], upper_bounds=a),
    "pixel": lambda a: goos.PixelatedContShape(
        goos.Constant(np.ones((1, 1, 1))), a, C(0, 0, 0), np.array(a),
        material=Mat(index=1), material2=Mat(index=2)),
    "offset": lambda a: goos.TranslateShape(cuboid(), a),
    "sum": lambda a: V(1, 2, 3) + a,
    "custom": lambda a: Custom(V(1), f=a),
}


@chk.section("caller-arrays", list(MUT),
             "arrays passed to each kind of node are changed by the caller "
             "afterwards: saving gives the plan as it was built")
def caller_arrays(ctx, kind):
    with vlib.scratch() as base:
        arr = np.array([1.0, 2.0, 3.0])
        with goos.OptimizationPlan() as plan:
            MUT[kind](arr)
        text = save(plan, base)
        arr[:] = 5
        require(save(plan, base) == text, "save-follows-caller", kind)
        ctx.step(2)
        ctx.run()
        ctx.state(kind)
        ctx.outcome(text)


# --------------------------------------------------------------------------
# Corrupted files.


def corpus():
    new_session()
    with goos.OptimizationPlan() as plan:
        x = V(3, 2, name="x")
        y = V(0.5, -1, name="y")
        s = goos.Sum([x, y], name="s")
        p = goos.Product([s, s, x], name="p")
        n = goos.Norm(p, 1, name="n")
        r = goos.rename(n, "r")
        c = goos.Cuboid(extents=C(1, 2, 3), pos=C(0, 0, 0), rot=C(0, 0, 0),
                        material=Mat(index=2), name="c")
        c2 = goos.Cylinder(C(1, 2, 3), C(2), C(5), material=Mat(index=2),
                           name="c2")
        g = goos.GroupShape([c, c2], name="g")
        goos_array.IndexOp(g, 1, name="i")
        t = goos.TranslateShape(c, np.array([1.0, 2, 3]), name="t")
        render(t, name="e")
        optimize.scipy_minimize(r, "SLSQP", constraints_eq=[n],
                                constraints_ineq=[n, r], monitor_list=[g, x],
                                iteration=x, name="opt")
        x.set(y)
        x.freeze()
        goos.log_print([x, g])
    return plan


# Reference fields: accepted node class names.
FUN = "function"
ANY = "any"
SHAPE = "shape"
VAR = "variable"
REFS = {
    "goos.function.sum": {"functions": FUN},
    "goos.function.product": {"functions": FUN},
    "goos.function.norm": {"fun": FUN},
    "goos.cast": {"node": ANY},
    "goos.shape.cuboid": {"extents": FUN, "pos": FUN, "rot": FUN},
    "goos.shape.cylinder": {"pos": FUN, "radius": FUN, "height": FUN},
    "goos.shape.group": {"shapes": SHAPE},
    "goos.shape.translate": {"shape": SHAPE},
    "goos.index_op": {"node": ANY},
    "sim.maxwell.render": {"shape": SHAPE},
    "goos.action.optimizer.scipy": {
        "objective": FUN, "constraints_eq": FUN, "constraints_ineq": FUN,
        "monitor_list": ANY, "iteration": VAR},
    "goos.action.set_variable": {"var": VAR, "value": FUN},
    "goos.action.freeze_variable": {"var": VAR},
    "goos.log_print": {"nodes": ANY},
}
REQUIRED = {
    "goos.function.variable": ["init_val"],
    "goos.function.constant": ["value"],
    "goos.function.sum": ["functions"],
    "goos.function.norm": ["fun"],
    "goos.shape.cuboid": ["extents", "pos"],
    "goos.shape.group": ["shapes"],
    "goos.action.optimizer.scipy": ["objective", "method"],
    "goos.action.set_variable": ["var", "value"],
    "sim.maxwell.render": ["shape", "region", "mesh", "wavelength"],
}


def kind_of(typ):
    if typ == "goos.cast":
        return {FUN, SHAPE, VAR, ANY}
    if typ == "goos.function.variable":
        return {FUN, VAR, ANY}
    if typ.startswith("goos.function") or typ == "sim.maxwell.render":
        return {FUN, ANY}
    if typ == "goos.index_op":
        return {ANY}
    if typ.startswith("goos.shape"):
        return {SHAPE, ANY}
    return {"action"}


def mutations():
    plan = corpus()
    with vlib.scratch() as base:
        text = save(plan, base)
    doc = json.loads(text)
    res = []
    allnodes = [("nodes", i, n) for i, n in enumerate(doc["nodes"])
               ] + [("actions", i, n) for i, n in enumerate(doc["actions"])]
    for sec, i, n in allnodes:
        for field, want in REFS.get(n["type"], {}).items():
            if field not in n:
                continue
            lst = isinstance(n[field], list)
            for j in range(len(n[field]) if lst else 1):
                for tgt in [("missing", set())] + [
                        (m["name"], kind_of(m["type"]))
                        for _, _, m in allnodes]:
                    cur = n[field][j] if lst else n[field]
                    if tgt[0] == cur:
                        continue
                    ok = want in tgt[1]
                    res.append(["ref", sec, i, field, j if lst else -1,
                                tgt[0], ok])
        for field in REQUIRED.get(n["type"], []):
            res.append(["drop", sec, i, field])
        res.append(["drop", sec, i, "type"])
        res.append(["type", sec, i, "no.such.node"])
        if sec == "nodes":
            res.append(["remove", sec, i])
        for _, _, m in allnodes:
            if m["name"] != n["name"]:
                res.append(["rename", sec, i, m["name"]])
    for v, ok in (("0.2.9", 0), ("0.0.0", 0), ("0.1.7", 0), ("0.3.0", 1),
                  ("0.4.0", 1), ("1.0.0", 1), ("1.2.0", 1), ("0.3.5", 1)):
        res.append(["version", v, ok])
    return res


def acyclic(doc):
    deps = {}
    for n in doc["nodes"] + doc["actions"]:
        r = []
        for f in REFS.get(n["type"], {}):
            v = n.get(f)
            r += v if isinstance(v, list) else [v] if v else []
        deps[n["name"]] = r
    seen = {}

    def visit(k):
        if seen.get(k) == 2 or k not in deps:
            return True
        if seen.get(k) == 1:
            return False
        seen[k] = 1
        ok = all(visit(j) for j in deps[k])
        seen[k] = 2
        return ok

    return all(visit(k) for k in deps)


_MUT = []


def mutation_groups(tier):
    m = mutations()
    _MUT.extend(m)
    return [m[i:i + 15] for i in range(0, len(m), 15)]


@chk.section("corrupted-files", mutation_groups,
             "every single change of a reference to any other name or a "
             "missing one, every removed node or required field, every "
             "duplicated name, unknown types and versions")
def corrupted(ctx, group):
    plan = corpus()
    names_ = [n for n in plan._node_map]
    with vlib.scratch() as base:
        text = save(plan, base)
        for mut in group:
            doc = json.loads(text)
            # Generated names differ between runs: nodes are given by index.
            ok = False
            if mut[0] == "ref":
                _, sec, i, field, j, tgt, ok = mut
                if j >= 0:
                    doc[sec][i][field][j] = tgt
                else:
                    doc[sec][i][field] = tgt
                have = {n["name"] for n in doc["nodes"] + doc["actions"]}
                if ok and tgt not in have:
                    continue  # A generated name of another run.
                if not acyclic(doc):
                    continue
            elif mut[0] == "drop":
                doc[mut[1]][mut[2]].pop(mut[3])
            elif mut[0] == "type":
                doc[mut[1]][mut[2]]["type"] = mut[3]
            elif mut[0] == "remove":
                name = doc["nodes"].pop(mut[2])["name"]
                refd = json.dumps(doc).count(json.dumps(name))
                ok = refd == 0
            elif mut[0] == "rename":
                have = {n["name"] for n in doc["nodes"] + doc["actions"]}
                if mut[3] not in have:
                    continue
                doc[mut[1]][mut[2]]["name"] = mut[3]
            elif mut[0] == "version":
                doc["version"] = mut[1]
                ok = bool(mut[2])
            with open(os.path.join(base, "optplan.json"), "w") as fp:
                json.dump(doc, fp)
            try:
                loaded = goos.OptimizationPlan()
                loaded.load(base)
                accepted = True
            except vlib.CaseTimeout:
                raise
            except Exception as e:  # pylint: disable=broad-except
                accepted = False
                err = e
            if ok:
                require(accepted, "refused-valid",
                        lambda: "{}: {!r}".format(mut, err))
            else:
                require(not accepted, "accepted-invalid",
                        lambda: "{} was accepted".format(mut))
            ctx.step()
            ctx.run()
            ctx.state(mut)
            ctx.outcome((mut[0], accepted))


if __name__ == "__main__":
    chk.main()
