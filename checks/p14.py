"""P14: an invdes optimization plan survives serialization; bad plans are refused.

The oracle is a canonical form of the graph (object identity of the referenced
nodes included) computed from the plan before and after dumps/loads, and an
independent evaluator of the arithmetic on function nodes.
"""
import copy
import itertools
import json
import warnings

import numpy as np
from schematics import models, types

import gooslib as gl
import vlib
from vlib import require, fail

vlib.import_spins()
from spins.invdes import parametrization
from spins.invdes.problem_graph import creator  # registers the creators
from spins.invdes.problem_graph import optplan, schema_utils, workspace
from spins.invdes.problem_graph.optplan import io

del creator
chk = vlib.Check("P14", "model_checking", [
    "graphs of up to 4 (thorough 5) function nodes; each field of each node "
    "kind is varied one at a time and all together",
    "floating-point fields are finite",
])

# ------------------------------------------------------------- canonical form


def fields_of(model):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return [(k, t, model[k]) for k, t in model.fields.items()]


def canon_value(v, t, seen, order):
    if v is None:
        return None
    if isinstance(v, optplan.ProblemGraphNode):
        if id(v) not in seen:
            seen[id(v)] = len(seen)
            i = seen[id(v)]
            order.append(None)
            order[i] = [type(v).__name__] + canon_model(v, seen, order)
        return ["ref", seen[id(v)]]
    if isinstance(v, models.Model):
        return ["model", type(v).__name__] + canon_model(v, seen, order)
    if isinstance(v, (list, tuple)):
        return ["list"] + [canon_value(x, None, seen, order) for x in v]
    if isinstance(v, dict):
        return ["dict"] + [[k, canon_value(v[k], None, seen, order)]
                           for k in sorted(v)]
    if isinstance(v, bool) or isinstance(v, str):
        return v
    if isinstance(v, (int, float, np.number)):
        return float(v)
    fail("strange-value", "{!r} in a plan".format(v))


def canon_model(m, seen, order):
    return [[k, canon_value(v, t, seen, order)] for k, t, v in fields_of(m)]


def canon(plan, roots=True):
    """Canonical form of what the transformations and listed nodes refer to."""
    seen, order = {}, []
    head = ["list"] + [canon_value(t, None, seen, order)
                       for t in plan.transformations or []]
    nodes = [canon_value(n, None, seen, order) for n in plan.nodes or []]
    return dict(version=plan.version, transformations=head, graph=order,
                nodes=sorted(map(repr, nodes)) if roots else None)


def names_of(plan):
    seen, order = {}, []
    for t in plan.transformations or []:
        canon_value(t, None, seen, order)
    for n in plan.nodes or []:
        canon_value(n, None, seen, order)
    return [dict((k, v) for k, v in o[1:])["name"] for o in order]


def roundtrip(ctx, plan):
    """dumps and loads; checks everything the property says; returns it."""
    before = canon(plan)
    text = optplan.dumps(plan)
    ctx.run()
    ctx.step(2)
    require(canon(plan) == before, "original-altered",
            lambda: "{} -> {}".format(before, canon(plan)))
    require(optplan.dumps(plan) == text, "dumps-not-repeatable", text)
    loaded = optplan.loads(text)
    want, got = canon(plan, False), canon(loaded, False)
    n = len(want["graph"])
    require(got["version"] == want["version"], "version", str(got["version"]))
    require(got["transformations"] == want["transformations"],
            "transformations", lambda: "{}\n{}".format(got, want))
    if plan.transformations and not plan.nodes:
        require(got["graph"] == want["graph"], "graph",
                lambda: "{}\n{}".format(got["graph"], want["graph"]))
    else:
        # The listed nodes may come in another order.
        require(by_name(loaded) == by_name(plan), "graph",
                lambda: "{}\n{}".format(by_name(loaded), by_name(plan)))
    require(len(loaded.nodes) == n and
            len(set(m.name for m in loaded.nodes)) == n, "node-list",
            lambda: "{} nodes, expected {}".format(len(loaded.nodes), n))
    for m in loaded.nodes:
        require(isinstance(m, optplan.ProblemGraphNode), "node-list", str(m))
    text2 = optplan.dumps(loaded)
    again = optplan.loads(text2)
    require(by_name(again) == by_name(loaded) and
            canon(again, False)["transformations"] == got["transformations"],
            "second-roundtrip", text2)
    require(optplan.dumps(again) == text2, "second-roundtrip-text", text2)
    ctx.state(text)
    ctx.outcome((n, len(text)))
    return loaded


def by_name(plan):
    """name -> fields with references replaced by names (identity checked)."""
    objs = {}

    def val(v):
        if isinstance(v, optplan.ProblemGraphNode):
            node(v)
            return ["ref", v.name]
        if isinstance(v, models.Model):
            return [type(v).__name__] + [[k, val(x)]
                                         for k, _, x in fields_of(v)]
        if isinstance(v, (list, tuple)):
            return [val(x) for x in v]
        if isinstance(v, dict):
            return {k: val(x) for k, x in v.items()}
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return float(v)
        return v

    out = {}

    def node(n):
        if n.name in objs:
            require(objs[n.name] is n, "duplicated-node",
                    "two objects for the node " + n.name)
            return
        objs[n.name] = n
        out[n.name] = None
        out[n.name] = [type(n).__name__] + [[k, val(x)]
                                            for k, _, x in fields_of(n)]

    for t in plan.transformations or []:
        val(t)
    for n in plan.nodes or []:
        node(n)
    return out


# ----------------------------------------------------------- graphs of functions


def dags(n, max_in):
    opts = []
    for i in range(n):
        avail = range(i)
        sets = [[]]
        for r in range(1, max_in + 1):
            sets += [list(c) for c in itertools.product(avail, repeat=r)
                     if r < 3 or list(c) == sorted(c)]
        opts.append(sets)
    for g in itertools.product(*opts):
        used = set(j for s in g for j in s)
        if all(i in used for i in range(n - 1)):
            yield [list(s) for s in g]


def make_node(ins, nodes, k, name):
    kw = {} if name is None else {"name": name}
    fs = [nodes[j] for j in ins]
    if not fs:
        if k % 2:
            return optplan.Constant(
                value=optplan.ComplexNumber(real=k, imag=-0.5), **kw)
        return optplan.Parameter(initial_value=k + 0.25, **kw)
    if len(fs) == 1:
        return [optplan.Abs(function=fs[0], **kw),
                optplan.Power(function=fs[0], exp=2, **kw),
                optplan.PowerComp(function=fs[0], value=0.5, range=0.25, exp=2,
                                  **kw),
                optplan.Sum(functions=fs, **kw)][k % 4]
    return [optplan.Sum, optplan.Product][k % 2](functions=fs, **kw)


def embed(nodes, how):
    """A plan that holds the last nodes in one of the possible places."""
    top = nodes[-1]
    if how == "nodes":
        return optplan.OptimizationPlan(nodes=[top])
    if how == "all-nodes":
        return optplan.OptimizationPlan(nodes=list(nodes))
    if how == "reversed-nodes":
        return optplan.OptimizationPlan(nodes=list(reversed(nodes)))
    if how == "objective":
        tr = optplan.ScipyOptimizerTransformation(optimizer="SLSQP",
                                                  objective=top)
    elif how == "constraints":
        tr = optplan.ScipyOptimizerTransformation(
            optimizer="SLSQP", objective=nodes[0], constraints_eq=[top, nodes[0]],
            constraints_ineq=[top],
            optimization_options=optplan.ScipyOptimizerOptions(maxiter=3))
    elif how == "monitors":
        mon = optplan.SimpleMonitor(name="mon", function=top)
        tr = optplan.PenaltyTransformation(
            optimizer="SLSQP", objective=top,
            monitor_lists=optplan.ScipyOptimizerMonitorList(
                callback_monitors=[mon, mon], start_monitors=[],
                end_monitors=[optplan.SimpleMonitor(function=nodes[0])]))
    else:
        tr = optplan.CubicParamSigmoidStrength(value=3)
    par = optplan.PixelParametrization(name="param")
    plist = None
    if how == "parameters":
        plist = [optplan.SetParam(parameter=nodes[0], function=top,
                                  parametrization=par, inverse=i)
                 for i in (None, True, False)]
    return optplan.OptimizationPlan(transformations=[
        optplan.Transformation(name="t1", parametrization=par,
                               transformation=tr, parameter_list=plist),
        optplan.Transformation(
            name="t2", parametrization=par, parameter_list=[],
            transformation=optplan.CubicParamSigmoidStrength(value=4)),
    ])


HOWS = ["nodes", "all-nodes", "reversed-nodes", "objective", "constraints",
        "monitors", "parameters"]


def graph_cases(tier):
    res = []
    for n in (1, 2, 3):
        for g in dags(n, 2):
            res += [[g, how] for how in HOWS]
    for g in dags(4, 2):
        if tier == "thorough":
            res += [[g, how] for how in HOWS]
        elif all(len(set(s)) == len(s) and s == sorted(s) for s in g):
            res.append([g, HOWS[len(res) % len(HOWS)]])
    return res


@chk.section("graphs", graph_cases,
             "every graph of up to 4 function nodes with shared and repeated "
             "references, placed in every field that can hold functions, with "
             "automatic, explicit and mixed names")
def graphs(ctx, case):
    g, how = case
    for naming in ("auto", "explicit", "mixed", "cleared"):
        optplan.reset_graph()
        nodes = []
        for k, s in enumerate(g):
            name = None
            if naming == "explicit" or (naming == "mixed" and k % 2):
                name = "n{}".format(k)
            nodes.append(make_node(s, nodes, k, name))
        if naming == "cleared":
            # Names can be unset; they are generated when serializing.
            for nd in nodes[::2]:
                nd.name = None
            plan = embed(nodes, how)
            loaded = optplan.loads(optplan.dumps(plan))
            got = [m.name for m in loaded.nodes]
            require(len(set(got)) == len(got) and all(got), "autoname",
                    lambda: str(got))
            continue
        plan = embed(nodes, how)
        names = names_of(plan)
        loaded = roundtrip(ctx, plan)
        require(sorted(m.name for m in loaded.nodes) == sorted(names), "names",
                lambda: "{} {}".format([m.name for m in loaded.nodes], names))


@chk.section("large-graphs", lambda tier: [
    [f, n, HOWS[(i + n) % len(HOWS)]] for i, f in enumerate(gl.FAMILIES)
    for n in (range(6, 50, 4) if tier == "quick" else range(5, 120))],
             "eight families of graphs of up to 46 (thorough 119) functions")
def large_graphs(ctx, case):
    fam, n, how = case
    graphs(ctx, [gl.families(n)[fam], how])


# ------------------------------------------------- every field of every node kind


def registered(meta):
    return optplan.GLOBAL_CONTEXT_STACK.get_node_model_dict(meta)


NODE_KINDS = sorted(registered(optplan.NodeMetaType.OPTPLAN_NODE))
TRANS_KINDS = sorted(registered(optplan.NodeMetaType.TRANSFORMATION))


def sample_ref(cls, k):
    cands = [c for _, c in sorted(
        registered(optplan.NodeMetaType.OPTPLAN_NODE).items())
             if issubclass(c, cls)]
    return cands[k % len(cands)]() if cands else None


def samples(t, depth=0):
    """Values for a field of type `t` (the first few are simple)."""
    if isinstance(t, optplan.ReferenceType):
        return [sample_ref(t.reference_type, k) for k in (0, 1, 2)]
    if isinstance(t, types.ListType):
        lo = t.min_size or 0
        hi = t.max_size if t.max_size is not None else 3
        out = []
        for size in sorted({lo, min(lo + 1, hi), hi}):
            inner = samples(t.field, depth + 1)
            out.append([inner[(i + size) % len(inner)] for i in range(size)])
        return out
    if isinstance(t, types.PolyModelType):
        specs = t.model_classes
        out = []
        todo = [c for c in specs]
        while todo:
            c = todo.pop(0)
            subs = c.__subclasses__()
            if subs:
                todo = subs + todo
            if not subs or "type" in c._schema.fields:
                out.append(c)
        return [filled(c, depth + 1) for c in out if c is not None]
    if isinstance(t, optplan.OptplanPolyModelType):
        return []
    if isinstance(t, types.ModelType):
        cls = t.model_class
        return [filled(cls, depth + 1), cls()]
    if isinstance(t, types.BooleanType):
        return [True, False]
    if isinstance(t, types.IntType):
        return [0, 3, -2]
    if isinstance(t, types.FloatType):
        return [0.0, 1.5, -1e-9, 1.0 / 3, 1e300]
    if isinstance(t, types.StringType):
        if t.choices:
            return list(t.choices)
        return ["text", "", "\"quoted\" \\ \u00e9"]
    if isinstance(t, types.DictType):
        return [{}, {"a": samples(t.field, depth + 1)[0]}]
    return []


def filled(cls, depth=0):
    """An instance with all its fields set."""
    m = cls()
    for k, t in cls._schema.fields.items():
        if k in ("name", "type"):
            continue
        if depth > 3:
            break
        vals = samples(t, depth)
        if vals:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m[k] = vals[len(vals) // 2]
    return m


def node_plan(kind, m):
    if kind in NODE_KINDS:
        return optplan.OptimizationPlan(nodes=[m])
    return optplan.OptimizationPlan(transformations=[
        optplan.Transformation(name="t", transformation=m,
                               parametrization=optplan.PixelParametrization())])


def field_cases(tier):
    res = []
    for kind in NODE_KINDS + TRANS_KINDS:
        cls = model_class(kind)
        res.append([kind, None, 0])
        for k, t in cls._schema.fields.items():
            if k in ("type",):
                continue
            for i in range(len(samples(t))):
                res.append([kind, k, i])
    return res


def model_class(kind):
    return (registered(optplan.NodeMetaType.OPTPLAN_NODE).get(kind) or
            registered(optplan.NodeMetaType.TRANSFORMATION)[kind])


@chk.section("fields", field_cases,
             "every registered node and transformation kind: every field set "
             "to each of its sample values (also unset and all set)")
def fields(ctx, case):
    kind, field, i = case
    cls = model_class(kind)
    for base in ("empty", "filled"):
        optplan.reset_graph()
        m = cls() if base == "empty" else filled(cls)
        if field is not None:
            v = samples(cls._schema.fields[field])[i]
            if field == "name" and not v:
                continue
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m[field] = v
        roundtrip(ctx, node_plan(kind, m))
        if field is not None:
            # The same with the field unset.
            # (None stands for the default where there is one.)
            if field != "name" and cls().get(field) is None:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    m[field] = None
                roundtrip(ctx, node_plan(kind, m))
        # Copies are independent and equal.
        for cp in (copy.copy(m), copy.deepcopy(m)):
            require(type(cp) is type(m) and
                    canon_model(cp, {}, []) == canon_model(m, {}, []), "copy",
                    lambda: "{} {}".format(cp.items(), m.items()))
        cp = copy.deepcopy(m)
        mark = canon_model(m, {}, [])
        scramble(cp, set())
        require(canon_model(m, {}, []) == mark, "copy-shares",
                lambda: "modifying a deep copy of {} changed it".format(kind))
        fresh = canon_model(cls(), {}, [])
        scramble(cls(), set())
        now = canon_model(cls(), {}, [])
        require([f for f in fresh if f[0] != "name"] ==
                [f for f in now if f[0] != "name"], "shared-default",
                lambda: "modifying one {} changed the defaults".format(kind))


def scramble(v, seen):
    """Modifies everything reachable from v in place."""
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, models.Model):
        for k, t, x in fields_of(v):
            if isinstance(x, (models.Model, list, dict)):
                scramble(x, seen)
            elif k != "type" and isinstance(x, (int, float)):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    v[k] = x + 1
            elif k != "type" and isinstance(x, str):
                v[k] = "scrambled"
    elif isinstance(v, list):
        for x in v:
            scramble(x, seen)
        v.append(12345)
    elif isinstance(v, dict):
        for x in v.values():
            scramble(x, seen)
        v["scrambled"] = 1


# ------------------------------------------------------------------ corruptions


def base_plan():
    optplan.reset_graph()
    space = optplan.SimulationSpace(
        name="space", mesh=optplan.UniformMesh(dx=40),
        eps_fg=optplan.GdsEps(gds="a.gds"),
        eps_bg=optplan.ParamEps(wavelength=1550),
        boundary_conditions=[optplan.BlochBoundary()] * 6,
        pml_thickness=[1, 2, 3, 4, 5, 6])
    src = optplan.WaveguideModeSource(name="src", center=[0, 0, 0], mode_num=0)
    ovl = optplan.WaveguideModeOverlap(name="ovl", center=[0, 0, 1])
    par = optplan.PixelParametrization(
        name="par", simulation_space=space,
        init_method=optplan.UniformInitializer(name="init", min_val=0))
    eps = optplan.Epsilon(name="eps", simulation_space=space, wavelength=1550)
    sim = optplan.FdfdSimulation(name="sim", simulation_space=space,
                                 epsilon=eps, source=src, wavelength=1550)
    over = optplan.Overlap(name="over", simulation=sim, overlap=ovl)
    obj = 1 - optplan.abs(over)**2
    prm = optplan.Parameter(name="prm", initial_value=1)
    mon = optplan.SimpleMonitor(name="mon", function=obj)
    return optplan.OptimizationPlan(transformations=[
        optplan.Transformation(
            name="t1", parametrization=par,
            parameter_list=[optplan.SetParam(parameter=prm, function=obj,
                                             parametrization=par)],
            transformation=optplan.ScipyOptimizerTransformation(
                optimizer="SLSQP", objective=obj * prm, constraints_eq=[obj],
                constraints_ineq=[over],
                monitor_lists=optplan.ScipyOptimizerMonitorList(
                    callback_monitors=[mon]))),
        optplan.Transformation(
            name="t2", parametrization=par,
            transformation=optplan.GratingEdgeFitTransformation(
                parametrization=par, min_feature=2))])


def ref_paths(data):
    """(path, referenced class) of every reference in the serialized plan."""
    out = []

    def model(cls, d, path):
        for k, t in cls._schema.fields.items():
            if k in d and d[k] is not None:
                value(t, d[k], path + [k])

    def value(t, v, path):
        if isinstance(t, optplan.ReferenceType):
            out.append((path, t.reference_type))
        elif isinstance(t, types.ListType):
            for i, x in enumerate(v):
                value(t.field, x, path + [i])
        elif isinstance(t, optplan.OptplanPolyModelType):
            model(model_class(v["type"]), v, path)
        elif isinstance(t, types.PolyModelType):
            cls = [c for c in all_sub(t.model_classes)
                   if "type" in c._schema.fields and
                   c._schema.fields["type"].choices == (v["type"],)]
            if cls:
                model(cls[0], v, path)
        elif isinstance(t, types.ModelType):
            model(t.model_class, v, path)

    model(optplan.OptimizationPlan, data, [])
    return out


def all_sub(classes):
    out = []
    for c in classes:
        out.append(c)
        out += all_sub(c.__subclasses__())
    return out


def put(data, path, v):
    d = data
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = v


def get(data, path):
    for k in path:
        data = data[k]
    return data


def corruption_cases(tier):
    data = json.loads(optplan.dumps(base_plan()))
    res = []
    nodes = data["nodes"]
    for path, cls in ref_paths(data):
        res.append(["ref", path, "no-such-node"])
        for n in nodes:
            if not issubclass(model_class(n["type"]), cls):
                res.append(["ref", path, n["name"]])
            else:
                res.append(["ok", path, n["name"]])
    for i in range(len(nodes)):
        for j in range(len(nodes)):
            if i != j:
                res.append(["rename", i, nodes[j]["name"]])
        res.append(["drop", i, None])
        res.append(["again", i, None])
        res.append(["field", i, "bogus_field"])
        res.append(["type", i, "no.such.type"])
        res.append(["notype", i, None])
        if "." not in nodes[i]["name"]:
            res.append(["noname", i, None])
        res.append(["underscores", i, None])
    for v in ("0.2.2", "0.1.9", "0.0.0", "0.2", "0.1", "0.2.1"):
        res.append(["version-bad", v, None])
    for v in ("0.2.3", "0.2.4", "0.3.0", "0.10.0", "1.0.0", "1.1.1", "10.0.0",
              "0.2.10", "0.2.3.1"):
        res.append(["version-good", v, None])
    for path, bad in (
        (["boundary_conditions"], [{"type": "pec"}] * 5),
        (["boundary_conditions"], [{"type": "nothing"}] * 6),
        (["pml_thickness"], [1, 2, 3]), (["pml_thickness"], [1] * 7),
        (["pml_thickness"], "abc"), (["mesh"], {"type": "bad"}),
        (["eps_fg"], {"type": "bad"}), (["selection_matrix_type"], "bad"),
    ):
        res.append(["space", path, bad])
    return res


@chk.section("corruptions", corruption_cases,
             "every reference of a serialized plan redirected to every other "
             "node and to nothing, every pair of names made equal, every node "
             "dropped, doubled, of unknown kind, with unknown fields; versions "
             "around the supported one")
def corruptions(ctx, case):
    kind, a, b = case
    data = json.loads(optplan.dumps(base_plan()))
    nodes = data["nodes"]
    ok = False
    if kind in ("ref", "ok"):
        require(get(data, a) is not None, "harness", "no such path")
        put(data, a, b)
        ok = kind == "ok"
    elif kind == "rename":
        nodes[a]["name"] = b
    elif kind == "drop":
        name = nodes[a]["name"]
        del nodes[a]
        # A node nobody refers to may be left out.
        ok = json.dumps(data).count(json.dumps(name)) == 0
    elif kind == "again":
        nodes.append(dict(nodes[a]))
    elif kind == "field":
        nodes[a][b] = 1
    elif kind == "type":
        nodes[a]["type"] = b
    elif kind == "notype":
        del nodes[a]["type"]
    elif kind == "noname":
        # Without a name the references to it cannot be resolved.
        del nodes[a]["name"]
    elif kind == "underscores":
        name = nodes[a]["name"]
        text = json.dumps(data).replace(json.dumps(name), json.dumps("__" + name))
        data = json.loads(text)
    elif kind == "version-bad":
        data["version"] = a
    elif kind == "version-good":
        data["version"] = a
        ok = True
    elif kind == "space":
        sp = [n for n in nodes if n["type"] == "simulation_space"][0]
        put(sp, a, b)
    ctx.run()
    ctx.state(case)
    if kind == "ok" and cyclic(data):
        return
    optplan.reset_graph()
    try:
        plan = optplan.loads(json.dumps(data))
    except Exception as e:  # Refused, in whatever way.
        ctx.outcome((kind, type(e).__name__))
        require(not ok, "good-plan-refused", lambda: "{}: {!r}".format(case, e))
        return
    ctx.outcome((kind, "accepted"))
    require(ok, "bad-plan-accepted", lambda: str(case))
    if kind == "ok":
        obj = plan
        for k in a:
            obj = obj[k]
        require(isinstance(obj, optplan.ProblemGraphNode) and obj.name == b,
                "reference", lambda: "{} is {}".format(a, obj))
        require([n for n in plan.nodes if n.name == b][0] is obj, "reference",
                "not the listed node")
    roundtrip(ctx, plan)


def cyclic(data):
    """Whether the references among the nodes form a cycle."""
    names = {n["name"]: n for n in data["nodes"]}
    succ = {k: set() for k in names}
    for path, _ in ref_paths(data):
        if path[0] == "nodes":
            succ[data["nodes"][path[1]]["name"]].add(get(data, path))
    state = {}

    def visit(n):
        if state.get(n) == 1:
            return True
        if state.get(n) == 2:
            return False
        state[n] = 1
        r = any(visit(m) for m in succ[n])
        state[n] = 2
        return r

    return any(visit(n) for n in names)


# Wrong references in a plan that is being built are refused by dumps.


@chk.section("bad-references", lambda tier: [
    [i, b] for i in range(8) for b in ("wrong", "str", "number", "model")],
             "every kind of place for a reference in a plan holding a wrongly "
             "typed object: dumps refuses it")
def bad_references(ctx, case):
    i, b = case
    plan = base_plan()
    bad = {"wrong": optplan.DipoleSource(name="bad"), "number": 3,
           "model": optplan.UniformMesh(dx=3), "str": "unknown"}[b]
    t = plan.transformations[0]
    tr = t.transformation
    places = [
        lambda: put_attr(tr, "objective", bad),
        lambda: tr.constraints_eq.append(bad),
        lambda: tr.monitor_lists.callback_monitors.append(bad),
        lambda: put_attr(t.parameter_list[0], "function", bad),
        lambda: put_attr(t, "parametrization", bad),
        lambda: put_attr(tr.objective.functions[0], "name", bad)
        if b == "none" else tr.objective.functions.append(bad),
        lambda: put_attr(t.parametrization, "simulation_space", bad),
        lambda: put_attr(plan.transformations[1].transformation,
                         "parametrization", bad),
    ]
    ctx.run()
    ctx.state(case)
    try:
        places[i]()
        text = optplan.dumps(plan)
        if b != "str":
            fail("bad-plan-accepted", "{}: {}".format(case, text[:200]))
        optplan.loads(text)
    except vlib.Violation:
        raise
    except Exception as e:
        ctx.outcome((i, b, type(e).__name__))
        return
    fail("bad-plan-accepted", str(case))


def put_attr(m, k, v):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m[k] = v


# --------------------------------------------------------------------- arithmetic

ATOMS = ["f", "g", "h", "c", "2", "-3", "0.5", "1j"]
VALS = {"f": 1.5, "g": -0.75, "h": 0.25, "c": 2 - 1j, "2": 2, "-3": -3,
        "0.5": 0.5, "1j": 1j}
NUMS = ("2", "-3", "0.5", "1j")


def atom(name, env):
    if name in NUMS:
        return VALS[name]
    if name not in env:
        if name == "c":
            env[name] = optplan.make_constant(VALS[name])
        elif name == "h":
            env[name] = optplan.Sum(functions=[
                optplan.Parameter(initial_value=1.0),
                optplan.Parameter(initial_value=-0.75)])
        else:
            env[name] = optplan.Parameter(name=name, initial_value=VALS[name])
    return env[name]


def build(e, env):
    if isinstance(e, str):
        return atom(e, env)
    op = e[0]
    if op == "neg":
        return -build(e[1], env)
    if op == "abs":
        return optplan.abs(build(e[1], env))
    if op == "pow":
        return build(e[1], env)**e[2]
    a, b = build(e[1], env), build(e[2], env)
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    return a / b


def ref(e):
    if isinstance(e, str):
        return complex(VALS[e])
    op = e[0]
    if op == "neg":
        return -ref(e[1])
    if op == "abs":
        return complex(abs(ref(e[1])))
    if op == "pow":
        return ref(e[1])**e[2]
    a, b = ref(e[1]), ref(e[2])
    return {"+": a + b, "-": a - b, "*": a * b}[op] if op != "/" else a / b


def meaning(n):
    """Value denoted by a function node."""
    if isinstance(n, optplan.Parameter):
        return complex(n.initial_value)
    if isinstance(n, optplan.Constant):
        return complex(n.value.real, n.value.imag)
    if isinstance(n, optplan.Sum):
        return sum((meaning(f) for f in n.functions), 0j)
    if isinstance(n, optplan.Product):
        r = 1 + 0j
        for f in n.functions:
            r *= meaning(f)
        return r
    if isinstance(n, optplan.Power):
        return meaning(n.function)**n.exp
    if isinstance(n, optplan.Abs):
        return complex(abs(meaning(n.function)))
    fail("unknown-node", str(type(n)))


def exprs1(atoms):
    for a in atoms:
        for b in atoms:
            if a in NUMS and b in NUMS:
                continue
            for op in "+-*/":
                yield [op, a, b]
    for a in atoms:
        if a not in NUMS:
            yield ["neg", a]
            yield ["abs", a]
            yield ["pow", a, 2]
            yield ["pow", a, -1]
            yield ["pow", a, 3.0]


def arithmetic_cases(tier):
    one = list(exprs1(ATOMS))
    res = list(one)
    few = ATOMS if tier == "thorough" else ["f", "h", "c", "2", "1j"]
    for e in one:
        for a in few:
            for op in "+-*/":
                res.append([op, e, a])
                res.append([op, a, e])
        res += [["neg", e], ["abs", e], ["pow", e, 2]]
    small = list(exprs1(["f", "h", "2"] if tier == "quick" else
                        ["f", "h", "c", "2"]))
    for a in small:
        for b in small:
            for op in "+-*/":
                res.append([op, a, b])
    return [res[i:i + 150] for i in range(0, len(res), 150)]


@chk.section("arithmetic", arithmetic_cases,
             "every expression with up to 3 operators over parameters, sums, "
             "constants and plain numbers on either side: the node denotes it, "
             "its operands are unchanged, and the objective created from it "
             "has that value, also after a round trip")
def arithmetic(ctx, es):
    for e in es:
        try:
            want = ref(e)
        except ZeroDivisionError:
            continue
        optplan.reset_graph()
        env = {}
        for a in ("f", "h", "c"):
            atom(a, env)
        marks = {k: canon_value(v, None, {}, []) + [len(v.functions)
                 if isinstance(v, optplan.Sum) else 0] for k, v in env.items()}
        node = build(e, env)
        ctx.step()
        require(isinstance(node, optplan.Function), "not-a-function",
                lambda: "{} gives {}".format(e, node))
        got = meaning(node)
        require(abs(got - want) <= 1e-9 * max(1, abs(want)), "meaning",
                lambda: "{} denotes {}, expected {}".format(e, got, want))
        for k in marks:
            v = env[k]
            m = canon_value(v, None, {}, []) + [
                len(v.functions) if isinstance(v, optplan.Sum) else 0]
            require(m == marks[k], "operand-changed",
                    lambda: "{} changed {}".format(e, k))
        with np.errstate(all="ignore"):
            work = workspace.Workspace(savepath="")
            obj = work.get_object(node)
            val = complex(obj.calculate_objective_function(
                parametrization.DirectParam(np.zeros(1))))
        require(abs(val - want) <= 1e-9 * max(1, abs(want)), "objective",
                lambda: "{} evaluates to {}, expected {}".format(e, val, want))
        ctx.state(e)
        ctx.outcome((round(got.real, 9), round(got.imag, 9)))
        plan = optplan.OptimizationPlan(nodes=[node])
        loaded = optplan.loads(optplan.dumps(plan))
        back = [n for n in loaded.nodes if n.name == node.name][0]
        got = meaning(back)
        require(abs(got - want) <= 1e-9 * max(1, abs(want)), "meaning-loaded",
                lambda: "{} denotes {} after loading, expected {}".format(
                    e, got, want))
    ctx.run(len(es))


# ---------------------------------------------------------------- context stacks


class ModelA(schema_utils.Model):
    type = optplan.define_schema_type("verif.a")


class ModelA2(schema_utils.Model):
    type = optplan.define_schema_type("verif.a")


class ModelB(schema_utils.Model):
    type = optplan.define_schema_type("verif.b")


MODELS = [ModelA, ModelA2, ModelB]
CTX_OPS = ["push", "pop", "type0", "type1", "type2", "fun0", "fun1", "fun2",
           "meta0"]


@chk.section("context-stack", lambda tier: [
    list(h) for h in itertools.product(range(len(CTX_OPS)),
                                       repeat=4 if tier == "quick" else 5)],
             "every history of pushing and popping contexts and registering "
             "node kinds and creators: queries find the innermost registration")
def context_stack(ctx, h):
    st = optplan.OptplanContextStack()
    ref_stack = []
    log = []
    for i in h:
        op = CTX_OPS[i]
        ctx.step()
        log.append(op)
        if op == "push":
            c = optplan.OptplanContext()
            st.push(c)
            ref_stack.append({})
        elif op == "pop":
            top = st.peek()
            got = st.pop()
            require(got is top, "pop", str(log))
            if ref_stack:
                ref_stack.pop()
            else:
                require(got is None, "pop-empty", str(log))
        else:
            if not ref_stack:
                require(st.peek() is None, "peek-empty", str(log))
                continue
            m = MODELS[int(op[-1])]
            meta = "m2" if op.startswith("meta") else "m1"
            key = (meta, m._schema.fields["type"].choices[0])
            fun = None
            try:
                if op.startswith("type"):
                    optplan.register_node_type(meta, context_stack=st)(m)
                else:

                    def fun(params, work):
                        return None

                    optplan.register_node(m, meta, context_stack=st)(fun)
                done = True
            except ValueError:
                done = False
            require(done == (key not in ref_stack[-1]), "register-twice",
                    lambda: "{}: {}".format(log, done))
            if done:
                ref_stack[-1][key] = (m, fun)
        for meta in ("m1", "m2"):
            merged = {}
            for c in ref_stack:
                for (mt, k), v in c.items():
                    if mt == meta:
                        merged[k] = v
            require(st.get_node_model_dict(meta) == {
                k: v[0] for k, v in merged.items()}, "model-dict",
                    lambda: "{}: {}".format(log, st.get_node_model_dict(meta)))
            for k in ("verif.a", "verif.b"):
                want = merged.get(k, (None, None))
                require(st.get_node_model(meta, k) is want[0], "model",
                        str(log))
                cr = st.get_node_creator(meta, k)
                if want[0] is None:
                    require(cr is None, "creator", str(log))
                elif want[1] is not None:
                    require(cr is want[1], "creator", str(log))
                else:
                    try:
                        cr(None, None)
                        fail("creator", str(log))
                    except NotImplementedError:
                        pass
        ctx.state([sorted((k, v[0].__name__, v[1] is None)
                          for k, v in c.items()) for c in ref_stack])
    ctx.run()
    ctx.outcome(log)


# ----------------------------------------------------------------------- workspace


def workspace_cases(tier):
    res = []
    for n in (1, 2, 3):
        for g in dags(n, 2):
            for order in itertools.permutations(range(n)):
                res.append([g, list(order)])
    return res


@chk.section("workspace", workspace_cases,
             "every graph of up to 3 functions requested in every order, by "
             "node and by name: one object per node, shared by all the users, "
             "with the right value; another node of the same name is refused")
def workspace_objects(ctx, case):
    g, order = case
    optplan.reset_graph()
    nodes = []
    for k, s in enumerate(g):
        nodes.append(make_node(s, nodes, k, "n{}".format(k)))
    work = workspace.Workspace(savepath="", nodes=nodes)
    objs = {}
    for i in order:
        objs[i] = work.get_object(nodes[i])
        ctx.step()
    for i in range(len(nodes)):
        require(work.get_object(nodes[i]) is objs[i] and
                work.get_object("n{}".format(i)) is objs[i], "object-identity",
                lambda: "node {} of {}".format(i, g))
        o, nd = work.get_object(nodes[i], return_graph_node=True)
        require(o is objs[i] and nd is nodes[i], "graph-node", str(i))
        ins = [objs[j] for j in g[i]]
        got = getattr(objs[i], "_inputs")
        require(len(ins) == len(got) and
                all(a is b for a, b in zip(ins, got)), "inputs",
                lambda: "node {} of {}".format(i, g))
    param = parametrization.DirectParam(np.zeros(1))

    def mean(n):
        if isinstance(n, optplan.PowerComp):
            v = mean(n.function)
            lo, hi = n.value - n.range / 2, n.value + n.range / 2
            d = max(0, v.real - hi) if v.real > hi else max(0, lo - v.real)
            return complex(d**n.exp)
        if isinstance(n, (optplan.Sum, optplan.Product)):
            vs = [mean(f) for f in n.functions]
            return complex(np.sum(vs) if isinstance(n, optplan.Sum) else
                           np.prod(vs))
        if isinstance(n, optplan.Power):
            return mean(n.function)**n.exp
        if isinstance(n, optplan.Abs):
            return complex(abs(mean(n.function)))
        return meaning(n)

    def has_complex(n):
        if isinstance(n, optplan.PowerComp):
            return abs(mean(n.function).imag) > 0 or has_complex(n.function)
        if isinstance(n, (optplan.Sum, optplan.Product)):
            return any(has_complex(f) for f in n.functions)
        if isinstance(n, (optplan.Power, optplan.Abs)):
            return has_complex(n.function)
        return False

    for i, n in enumerate(nodes):
        if has_complex(n):
            continue
        v = complex(objs[i].calculate_objective_function(param))
        require(abs(v - mean(n)) <= 1e-9 * max(1, abs(v)), "value",
                lambda: "node {} of {}: {} != {}".format(i, g, v, mean(n)))
        ctx.outcome((round(v.real, 6), round(v.imag, 6)))
    by_type = work.get_objects_by_type(optplan.Parameter)
    require({k: id(v) for k, v in by_type.items()} ==
            {n.name: id(objs[i]) for i, n in enumerate(nodes)
             if isinstance(n, optplan.Parameter)}, "by-type", str(g))
    # A different node of the same name.
    for i in range(len(nodes)):
        clash = optplan.Abs(name="top", function=optplan.Parameter(
            name="n{}".format(i), initial_value=77))
        w2 = workspace.Workspace(savepath="", nodes=nodes)
        try:
            w2.get_object(clash)
            fail("name-clash-accepted", "n{}".format(i))
        except ValueError:
            pass
    ctx.run()
    ctx.state(case)


if __name__ == "__main__":
    chk.main()
