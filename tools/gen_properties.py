"""Regenerates /verif/properties.jsonl (the property texts live here)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": s} for s in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("P01", "Evaluating a flow graph gives the right value for every graph and schedule",
     "For every acyclic graph of goos functions, evaluating any list of its nodes returns, for each of them, exactly what a plain recursive evaluation would give, and computes every shared node once. The answer does not depend on which nodes are marked as heavy, on the order in which the parallel workers run, or on which nodes are already supplied with a value; constant and frozen flags reach each node as the conjunction over its inputs.",
     ["programs", "schedules"],
     "All acyclic graphs up to 5 nodes over a set of function kinds (repeated inputs and shared nodes included), all heavy markings, all override sets of at most two nodes, all start and completion orders of every parallel block.",
     "A test samples two or three hand-written graphs and one thread schedule; a wrong topological order, a lost shared value or a racy heavy block only shows for particular graph shapes, markings and completion orders.",
     ["spins/goos/graph_executor.py", "spins/goos/generic.py", "spins/goos/flows.py"],
     [("eval_fun", "spins/goos/graph_executor.py"), ("_eval_fun_vals", "spins/goos/graph_executor.py"),
      ("_create_computational_graph", "spins/goos/graph_executor.py"), ("_top_sort_affinity", "spins/goos/graph_executor.py")],
     observe=["return value of eval_fun", "the inputs, flags and call counts each function sees"])

prop("P02", "Gradients of a flow graph equal the true derivative for every expression",
     "For every scalar goos expression built from variables, constants and the arithmetic and mathematical operations on numeric values, the gradient returned for each variable equals the derivative of the expression, summed over all the paths and repeated uses through which the variable enters. This holds for scalars and vectors mixed, for heavy nodes anywhere in the graph, and a variable that does not influence the expression gets a zero gradient of its own shape.",
     ["programs", "inputs"],
     "All expressions up to a depth bound over two variables (scalar or vector valued, integer or real data), the whole operator alphabet, all shared-subexpression patterns and heavy markings, against dual-number differentiation of a reference interpreter.",
     "The existing tests check each operator once on one vector; accumulation over shared nodes, broadcasting between scalars and vectors, and integer data only go wrong in combination.",
     ["spins/goos/graph_executor.py", "spins/goos/math.py", "spins/goos/flows.py", "spins/goos/array.py"],
     [("eval_grad", "spins/goos/graph_executor.py"), ("Sum, Product, Power, Norm, Slice, Dot, Sigmoid", "spins/goos/math.py"),
      ("Flow.Grad accumulation", "spins/goos/flows.py")],
     observe=["OptimizationPlan.eval_grad / graph_executor.eval_grad return value"])

prop("P03", "Plan variables only change through actions, in order and as asked",
     "In every history of building and running an optimization plan, a variable reads as its initial value until an action sets it, then as the last value an action gave it; freezing, thawing and bounds behave the same way, and a parameter cannot be optimised. Values cannot be changed while no action is running, also after an action failed; every queued action runs exactly once and in order.",
     ["histories"],
     "All sequences up to a depth bound of declaring, setting from constants or functions, freezing, thawing, running, failing actions and direct modification attempts over two variables, against a dictionary reference model compared after each step.",
     "The failure needs a particular history (an action that raises, a second run after more actions, a freeze between sets); unit tests exercise each operation from the initial state.",
     ["spins/goos/optplan/optplan.py", "spins/goos/generic.py", "spins/goos/optplan/context.py"],
     [("OptimizationPlan.run", "spins/goos/optplan/optplan.py"), ("get_var_value/set_var_value/freeze_var", "spins/goos/optplan/optplan.py"),
      ("Variable, Action, SetVariable", "spins/goos/generic.py")],
     state=["variable values, bounds and frozen flags", "action list and action pointer"],
     observe=["get_var_value, get_var_bounds, is_var_frozen, eval_nodes"])

prop("P04", "A goos run that stops anywhere resumes to the same result",
     "Whenever a checkpointed run stops (between actions, inside an action, or while a file is being written), what is on disk is a set of complete step logs and complete checkpoints, and resuming from the newest one finishes with the same variable values, executing every action not on record as completed, continuing an interrupted one from its last event where it can be continued, and repeating none that is on record as completed. Step logs written after the resume continue the numbering and never overwrite earlier ones.",
     ["crash_points", "histories"],
     "Every plan up to four actions over two variables, every crash point (before, during and after each action and at each file-system operation with every torn prefix class), followed by resume and possibly a second crash.",
     "Tests only resume from cleanly written checkpoints of one plan; whether an arbitrary stop is recoverable depends on the order and atomicity of the writes.",
     ["spins/goos/optplan/optplan.py", "spins/goos/util.py", "spins/goos/optimize.py"],
     [("write_checkpoint/load_checkpoint/resume", "spins/goos/optplan/optplan.py"), ("write_event", "spins/goos/optplan/optplan.py"),
      ("get_latest_log_file", "spins/goos/util.py")],
     state=["checkpoint files", "step log files", "action pointer"],
     observe=["files in the save directory after a crash", "variable values after resume"])

prop("P05", "A goos plan that is saved and loaded again is the same plan",
     "For every plan, saving it and loading it gives a plan whose nodes have the same names, kinds and arguments, share sub-nodes exactly as before, and evaluate and differentiate to the same values, and whose actions do the same; saving the loaded plan again produces the same content. Two different nodes never end up with the same name, and a file that refers to a missing or mistyped node is rejected.",
     ["programs", "inputs"],
     "All plans up to a node bound over the registered node kinds that need no simulation, with defaults, positional and keyword arguments, nested lists, sharing and user-given names; plus all single mutations of the saved form.",
     "Round-trip failures depend on the combination of argument kinds, sharing and naming; the tests save one fixed plan.",
     ["spins/goos/optplan/optplan.py", "spins/goos/optplan/schema.py", "spins/goos/optplan/schema_optplan.py", "spins/goos/optplan/schema_utils.py"],
     [("save/load, dumps/loads", "spins/goos/optplan/"), ("schema construction from signatures", "spins/goos/optplan/schema.py")],
     observe=["plan loaded from a saved file"])

prop("P06", "The goos optimizer respects bounds, every constraint, frozen values and limits",
     "Whatever the problem, with a method that supports bounds and a start within them, every point at which the optimizer evaluates the objective lies within the bounds of each variable, frozen variables keep their value, each equality and inequality constraint is passed on individually with its right sign and gradient, and at the end the variables hold the result found. One event is logged per iteration with the values of that iteration, and a resumed optimization runs only the iterations that were left.",
     ["configurations", "programs"],
     "All problems up to three variables, with every combination of bounds, frozen flags, up to two equality and two inequality constraints and every supported method, with the numeric minimiser replaced by an exhaustive driver that queries the callbacks at every point of a grid, and also with the real one.",
     "Tests optimise with at most one constraint of a kind; wrong capture of a constraint, of a bound or of the flattening order needs two or more.",
     ["spins/goos/optimize.py"],
     [("ScipyOptimizer.run/resume", "spins/goos/optimize.py")],
     observe=["arguments given to the numeric minimiser", "variable values after the action", "logged events"])

prop("P07", "Shapes in a group keep their order, materials and gradients",
     "A group of shapes, however nested, stands for the flat list of its shapes in drawing order, and the gradient with respect to each shape is the gradient of that shape's own entry, also when shapes are shared or the group is evaluated several times with different values. A shape variable's value, position, extents and materials always describe the same geometry, and index or cast operations select the entry they name.",
     ["programs", "inputs"],
     "All nestings of groups up to four leaves (cuboids, cylinders, pixelated shapes, shared leaves, priorities where supported), all constant or variable positions, extents and pixel values from a small set, and all interleavings of evaluation and gradient requests up to four.",
     "Tests use one flat group; gradients routed to the wrong member only show with nesting, sharing or interleaved evaluations.",
     ["spins/goos/shapes.py", "spins/goos/array.py", "spins/goos/flows.py", "spins/goos/grating.py"],
     [("GroupShape.eval/grad", "spins/goos/shapes.py"), ("IndexOp, ArrayFlow", "spins/goos/array.py"), ("pixelated_cont_shape", "spins/goos/shapes.py")],
     observe=["flows returned by eval_nodes / eval_grad"])

prop("P08", "Rendering a shape conserves its volume and its gradient is exact",
     "Rendering shapes onto a simulation grid gives each cell, for each field component, the average of the permittivities weighted by the exact fraction of the cell each shape covers, later shapes covering earlier ones, and the background elsewhere. The gradient with respect to the pixel values of a pixelated shape is the derivative of that rendered permittivity, for every component and every position of the shape relative to the grid, including partly or wholly outside it.",
     ["inputs", "configurations"],
     "All cuboid and pixelated shapes with edges on a lattice of half- and quarter-cell offsets (inside, straddling, outside), pairs of overlapping shapes, all three components, fine and coarse grids, real and complex materials.",
     "Tests compare a couple of aligned shapes; errors in sub-cell averaging, component shifts and gradient scaling appear at particular offsets and components.",
     ["spins/goos_sim/maxwell/render.py", "spins/gridlock/grid.py", "spins/gridlock/float_raster.py", "spins/goos_sim/maxwell/simspace.py"],
     [("RenderShape.eval/grad", "spins/goos_sim/maxwell/render.py"), ("Grid.draw_*, render", "spins/gridlock/grid.py")],
     observe=["permittivity returned by rendering", "gradient returned by rendering"])

prop("P09", "Rasterised polygons and intervals have exact area coverage",
     "The coverage computed for a polygon on a grid of cells, or for an interval on a line of cells, is for every cell the exact fraction of the cell lying inside, whatever the vertex order, starting vertex, shape (concave included), alignment to the grid, cell sizes, or position relative to the grid, so that the total equals the area inside the grid.",
     ["inputs"],
     "All simple polygons with up to five vertices on a half-cell lattice over a grid, in both orientations and all starting vertices, with non-uniform cell sizes and wholly or partly outside placement, against exact rational polygon clipping.",
     "The raster code special-cases vertices on grid lines, edges through corners and polygons leaving the grid; tests sample a handful of polygons.",
     ["spins/gridlock/float_raster.py"],
     [("raster_1D, raster_2D, create_vertices", "spins/gridlock/float_raster.py")],
     observe=["array returned by raster_1D / raster_2D"])

prop("P10", "Grid drawing is painter's order and grid coordinates are consistent",
     "On a drawing grid the last shape drawn over a region decides it, regardless of how often or when the grid is rendered, and regions never drawn keep the initial value; drawing methods for the same region agree with one another. Converting positions to indices and back is an inverse pair on every component grid, index positions increase with position, and out-of-range requests are rejected.",
     ["histories", "inputs"],
     "All sequences up to three drawing operations (cuboid, slab, polygon, cylinder, fill, for all extrusion directions and periodic settings) with renders interleaved anywhere, and all half-cell positions of all three shifted grids of small uniform and non-uniform grids.",
     "Order-dependent overwrites, stale rendering after further drawing, and shifted-grid off-by-one errors need operation sequences and exhaustive positions.",
     ["spins/gridlock/grid.py", "spins/gridlock/direction.py"],
     [("draw_cuboid/draw_slab/draw_polygon/draw_cylinder/fill_*/render", "spins/gridlock/grid.py"), ("pos2ind, ind2pos", "spins/gridlock/grid.py")],
     observe=["grids after render", "pos2ind / ind2pos results"])

prop("P11", "FDFD operators satisfy Maxwell's discrete identities and agree with each other",
     "On every grid, the sparse-matrix and the functional form of each discrete Maxwell operator give the same result, the divergence of every curl vanishes, the electric and magnetic curls are adjoint to one another, and the first-order, electric-only and magnetic-only forms have consistent solutions. Flattening and unflattening fields are inverse to each other, Bloch boundaries multiply by exactly the phase across the boundary, and absorbing layers change the grid spacing only inside the layers asked for. A generated non-uniform grid spans exactly the borders given, with no cell larger than the mesh size allowed on that axis.",
     ["inputs", "configurations"],
     "All grid shapes up to 4x3x2 and their permutations, uniform, non-uniform and complex-stretched spacings, every unit-vector field, Bloch vectors from a small set, all material choices (none, isotropic, anisotropic) and boundary masks.",
     "Operators are linear, so checking all unit vectors decides them completely for a grid; tests only try random fields on one grid and one material choice.",
     ["spins/fdfd_tools/operators.py", "spins/fdfd_tools/functional.py", "spins/fdfd_tools/vectorization.py", "spins/fdfd_tools/grid.py"],
     [("curl_e, curl_h, e_full, h_full, eh_full, poynting_*", "spins/fdfd_tools/operators.py"), ("functional counterparts", "spins/fdfd_tools/functional.py"),
      ("vec, unvec", "spins/fdfd_tools/vectorization.py"), ("stretch_with_scpml, make_nonuniform_grid", "spins/fdfd_tools/grid.py")],
     observe=["operator applied to unit vectors"])

prop("P12", "A field solve answers for the structure it was asked about",
     "Whatever sequence of simulations, adjoint simulations and gradient requests is made, and whatever the caller does afterwards with the arrays it passed in or received, each answer is the solution for the structure and source of that request, never a remembered answer for another one. Each solution satisfies the discrete wave equation (its conjugate transpose for the adjoint), and the gradient of a field-based figure of merit with respect to the structure is the true derivative.",
     ["histories", "inputs", "schedules"],
     "All request sequences up to length five over three structures and two sources with cache sizes one to three, with in-place modification of inputs and outputs between requests, for the invdes and the goos simulation nodes; all unit structures for the gradient on small grids; concurrent requests under every schedule of the cache lock.",
     "Stale cache hits need a specific request history or an aliasing mutation, and tests issue one or two requests.",
     ["spins/invdes/problem/simulation.py", "spins/invdes/problem_graph/creator_em.py", "spins/goos_sim/maxwell/simulate.py", "spins/fdfd_solvers/local_matrix_solvers.py"],
     [("FdfdSimulation.simulate / AdjointFdfdSimulation.simulate", "spins/invdes/problem/simulation.py"), ("FdfdSimulation._simulate", "spins/invdes/problem_graph/creator_em.py"),
      ("SimulateNode.eval/grad", "spins/goos_sim/maxwell/simulate.py"), ("MatrixSolver.solve", "spins/fdfd_solvers/local_matrix_solvers.py")],
     state=["simulation caches"], observe=["fields and gradients returned"])

prop("P13", "Invdes objectives evaluate and differentiate correctly for every expression",
     "For every objective composed with the arithmetic operators and the provided objective functions over a parametrization, the value equals the mathematical expression and the gradient equals its derivative with respect to the parametrization, however the objectives are nested, shared, combined with plain numbers or arrays, mixed with legacy objectives, or marked as heavy. Evaluating several objectives together or in parallel gives the same as one at a time, for every schedule.",
     ["programs", "schedules"],
     "All expressions up to a depth bound over the objective alphabet (including legacy-style ones) and a two-element structure, all heavy markings on a set of graphs and all worker orders, against a dual-number reference interpreter.",
     "Operator overloads simplify nested sums, products and constants in many case-specific ways; each combination is only reached by particular nestings.",
     ["spins/invdes/problem/objective.py", "spins/invdes/problem/graph_executor.py", "spins/invdes/problem/structure_objectives.py"],
     [("operator overloads, Sum, Product, Power, PowerComparison, LogSumExp, ...", "spins/invdes/problem/objective.py"),
      ("eval_fun, eval_grad", "spins/invdes/problem/graph_executor.py")],
     observe=["calculate_objective_function, calculate_gradient"])

prop("P14", "An invdes plan survives serialization unchanged and bad plans are refused",
     "Serializing any optimization plan and reading it back gives the same graph: the same node kinds, fields and names, with each reference pointing to the one node it pointed to before and sharing preserved; serializing does not alter the original and repeating it gives the same text. Plans whose nodes clash in name, refer to missing or wrongly typed nodes, or have an unsupported version are refused; arithmetic on function nodes denotes the expression written.",
     ["programs", "inputs"],
     "All function graphs up to a node bound with sharing, explicit and automatic names, nested models, lists and transformations, plus every single corruption of the serialized form.",
     "The collapse and re-expansion of references depends on the shape of sharing and on name collisions; tests cover one or two plans.",
     ["spins/invdes/problem_graph/optplan/io.py", "spins/invdes/problem_graph/optplan/optplan.py", "spins/invdes/problem_graph/schema_utils.py", "spins/invdes/problem_graph/optplan/schema_function.py"],
     [("dumps, loads, validate, autoname", "spins/invdes/problem_graph/optplan/io.py"), ("Function operators", "spins/invdes/problem_graph/optplan/optplan.py")],
     observe=["loads(dumps(plan))"])

prop("P15", "An interrupted invdes plan resumes exactly where its records say",
     "Whenever the execution of an invdes plan is cut short, at any moment including in the middle of writing a file, running it again with resume continues from the last complete record: finished transformations are not repeated, the parametrizations and parameters are those on record, the remaining steps run in order, and log numbering continues without overwriting. The records written during a run are complete, in order and numbered consecutively from one.",
     ["crash_points", "histories"],
     "All plans up to three transformations with parameter updates over two parametrizations, every crash point (each log, each checkpoint, each file-system operation with torn prefixes), followed by resume and a possible second crash, against a reference transition system.",
     "Tests resume only from complete files at one place; recovery from an arbitrary stop depends on write order, atomicity and on restoring every piece of state.",
     ["spins/invdes/problem_graph/solver.py", "spins/invdes/problem_graph/workspace.py", "spins/invdes/problem_graph/creator_opt.py"],
     [("run_plan, restore_workspace", "spins/invdes/problem_graph/solver.py"), ("Logger.write, write_checkpoint", "spins/invdes/problem_graph/workspace.py"),
      ("ScipyOptimizer transformation states", "spins/invdes/problem_graph/creator_opt.py")],
     state=["step logs", "checkpoint files", "parameters and parametrizations"],
     observe=["files in the save folder", "parametrization values and executed steps"])

prop("P16", "Invdes optimizers honour limits, bounds and every constraint",
     "Every invdes optimizer leaves the parametrization within its bounds, passes each equality and inequality constraint and its gradient individually to the minimiser, never runs more iterations than allowed in total or in a call, calls the callback once per iteration with the current parametrization, and performs the update rule it is named after. Turning inequalities into equalities with slack variables keeps the original problem: same objective and constraints on the original variables, non-negative slacks, and the original bounds.",
     ["histories", "configurations"],
     "All sequences of optimize calls up to length three with limits from a small set for each gradient optimizer; all problems with up to two equality and two inequality constraints for the wrappers, with an exhaustive stand-in minimiser; all slack counts up to three over every parametrization kind.",
     "Constraint capture, limits across repeated calls and slack bookkeeping go wrong only with several constraints, several calls or particular parametrizations.",
     ["spins/invdes/optimization/scipy_optimizer.py", "spins/invdes/optimization/gradient_descent.py", "spins/invdes/problem/slack_optimization_problem.py", "spins/invdes/optimization/constrained_optimizer.py"],
     [("ScipyOptimizer.__call__", "spins/invdes/optimization/scipy_optimizer.py"), ("GradientOptimizer.optimize", "spins/invdes/optimization/gradient_descent.py"),
      ("SlackParam, SlackRemover, SlackVariable", "spins/invdes/problem/slack_optimization_problem.py")],
     observe=["arguments given to the numeric minimiser", "iteration counts and parametrization vectors"])

prop("P17", "Parametrizations encode, project, serialize and differentiate faithfully",
     "For every parametrization and vector: decoding and encoding are inverse, projecting is idempotent and lands within the bounds, serializing and deserializing into a fresh object restores the same structure, and the reported Jacobian is the derivative of the structure. A composite behaves as the concatenation of its parts in every one of these respects, interpolating parametrizations pass smoothly (bicubically) through their coarse grid values, and symmetric or periodic parametrizations always produce mirror symmetric (within each repeated cell, boundary included) or periodic structures.",
     ["inputs", "configurations", "histories"],
     "All vectors over a small value set for direct, grating, cubic and Hermite parametrizations on small grids, all symmetry and periodicity settings, all composites of up to three parts, and all operation sequences up to length four.",
     "Concatenation offsets, symmetry matrices and clipping interact with the configuration; tests fix one configuration each.",
     ["spins/invdes/parametrization/parametrization.py", "spins/invdes/parametrization/composite_parametrization.py", "spins/invdes/parametrization/grating_parametrization.py", "spins/invdes/parametrization/cubic_utils.py"],
     [("DirectParam, CubicParam, HermiteParam", "spins/invdes/parametrization/parametrization.py"), ("CompositeParam", "spins/invdes/parametrization/composite_parametrization.py"),
      ("GratingParam", "spins/invdes/parametrization/grating_parametrization.py")],
     observe=["get_structure, calculate_gradient, to_vector, serialize"])

prop("P18", "Grating discretization is feasible and optimal; grating edges render exactly",
     "Turning a continuous grating into edges always gives edges in increasing order inside the grating, spaced at least the minimum feature size apart (only pieces cut by the ends of the grating may be shorter), and no other admissible set of edges on the search lattice reproduces the continuous grating better. Rendering edges gives each pixel the exact covered fraction, its gradient is the derivative with respect to each edge, and the spacing constraints report positive values exactly when they are violated, with correct gradients.",
     ["inputs"],
     "All continuous gratings up to four pixels with values from a small set and all minimum feature sizes from one to three pixels, against brute-force search over all admissible edge sets; all edge vectors on a quarter-pixel lattice.",
     "The dynamic program has many boundary cases and tests try a few smooth profiles.",
     ["spins/goos/grating.py", "spins/invdes/problem_graph/grating.py", "spins/invdes/problem/grating.py", "spins/invdes/parametrization/grating_parametrization.py"],
     [("_get_edge_loc_dp", "spins/goos/grating.py and spins/invdes/problem_graph/grating.py"), ("GratingFeatureConstraint", "spins/invdes/problem/grating.py"),
      ("EdgeLocConstraint, PixelatedGrating", "spins/goos/grating.py")],
     observe=["edge vectors and rendered pixels"])

prop("P19", "Log tools return exactly the data that was logged, in log order",
     "For every non-empty set of log files, in whatever order the directory lists them, loading gives one record per log entry in the order written, and asking for a monitor returns exactly the values and iterations logged for that monitor and event, grouped by transformation in order of occurrence; a single-value query returns the entry asked for, or the last one. Monitor specifications survive saving and loading, and the newest log is the one with the largest number.",
     ["histories", "schedules"],
     "All log histories up to five entries over two transformations, three events, two monitors (scalar, complex, array, missing), in all directory-listing orders, against a list-based reference; all monitor specifications up to three entries.",
     "Sorting, missing values and event filtering fail only for particular interleavings of transformations and events.",
     ["spins/invdes/problem_graph/log_tools/loader.py", "spins/invdes/problem_graph/log_tools/monitor_spec.py", "spins/invdes/problem_graph/workspace.py", "spins/goos/util.py"],
     [("load_all_logs, create_log_data_frame, get_monitor_data", "spins/invdes/problem_graph/log_tools/loader.py"), ("save_to_yml/load_from_yml", "spins/invdes/problem_graph/log_tools/monitor_spec.py")],
     observe=["values returned by the loader"])

prop("P20", "Layout files and the design region reproduce the intended geometry",
     "Polygons (nested, touching or separate) written to a layout file and read back cover exactly the same region, nested polygons alternating between filled and hole, in the same units and on the layer asked for, with the right bounding boxes; the cell read is the one named, or else the one with the most polygons. The polygons of an exported design surround exactly where its permittivity parameter exceeds one half. The design region derived from a foreground and a background permittivity reproduces both: an all-zero design gives the background everywhere and an all-one design the foreground, and each design pixel only affects cells it covers. Materials given by name, by file or by index have the index that was tabulated, also in goos. The simulation grid has the number of cells its extents and spacing call for.",
     ["inputs", "configurations"],
     "All arrangements of up to three nested, disjoint or island rectangles and all cell/layer assignments up to two cells and two layers; all rectangular design regions on small grids for every selection-matrix type.",
     "Hole nesting, unit conversion and half-cell shifts of the design region have many cases; tests use one file and one region.",
     ["spins/gds/gen_gds.py", "spins/gds/parse_gds.py", "spins/gridlock/selection_matrix.py", "spins/invdes/problem_graph/simspace.py", "spins/invdes/parametrization/parametrization.py", "spins/material/material.py", "spins/goos/material.py"],
     [("gen_gds", "spins/gds/gen_gds.py"), ("GDSImport", "spins/gds/parse_gds.py"), ("create_selection_matrix", "spins/gridlock/selection_matrix.py")],
     observe=["region covered by polygons read back", "background plus selection matrix times design"])

prop("P21", "Sources launch, and overlaps measure, exactly what they are set to",
     "The mode solver returns the mode asked for among all the modes that satisfy the discrete Maxwell equations of the cross-section, in order of propagation constant. Mode, plane wave, gaussian beam and dipole sources launch the power asked for, in the direction, at the place and with the angle and polarization asked for, and next to nothing backwards; overlaps measure the amplitude of their mode in their direction only, and imported overlaps are the fields of the file at the place asked for. Turning all axes turns everything with them. Sources and overlaps of goos simulations and of invdes plans are those same sources, at the place, direction and power given, and absorbing layers are as thick as asked for.",
     ["inputs", "configurations"],
     "All axes, both directions, the first three modes, several cross-sections, cell sizes, angles, polarizations, powers and positions on small 2D and 3D grids.",
     "The builders juggle axis orders, half-cell offsets and signs per direction; tests run one direction and mostly compare shapes.",
     ["spins/fdfd_solvers/waveguide_mode.py", "spins/fdfd_tools/waveguide.py", "spins/fdfd_tools/free_space_sources.py", "spins/fdfd_solvers/dipole.py", "spins/goos_sim/maxwell/simulate.py", "spins/invdes/problem_graph/creator_em.py"],
     [("build_waveguide_source", "spins/fdfd_solvers/waveguide_mode.py"), ("build_overlap", "spins/fdfd_solvers/waveguide_mode.py"), ("build_plane_wave_source", "spins/fdfd_tools/free_space_sources.py")],
     observe=["simulated fields and their power flux", "overlap values"])

prop("P22", "The objects built from an invdes plan are what the plan describes",
     "Simulations, permittivities, overlaps and objectives built from a plan have exactly the value their description calls for: the permittivity of the design at each wavelength, the fields of the simulation described, the overlap with them, and the expression of those, with the gradient being the true derivative, whatever the order nodes are created in. Parametrizations have the size of the design region, the symmetries and periods asked for and initial values of the distribution asked for; minimum sizes of constraints are in the plan's units; a region or a monitor's slice selects exactly the cells at the place given; the distance to a reference follows the reference.",
     ["inputs", "configurations"],
     "All combinations of selection matrices, sources, axes, directions, structures and wavelengths on a 14 x 10 grid; all regions with corners on a lattice of eighths of cells; design regions up to 30 x 12 with all symmetries and periods.",
     "Creators translate plans into objects with unit conversions, axis orders and defaults that tests exercise for one plan each.",
     ["spins/invdes/problem_graph/creator_em.py", "spins/invdes/problem_graph/creator_param.py", "spins/invdes/problem_graph/creator_monitor.py", "spins/invdes/problem_graph/creator_function.py", "spins/invdes/problem_graph/grid_utils.py", "spins/invdes/problem_graph/workspace.py"],
     [("create_fdfd_simulation", "spins/invdes/problem_graph/creator_em.py"), ("create_cubic_or_hermite_levelset", "spins/invdes/problem_graph/creator_param.py"), ("create_region_slices", "spins/invdes/problem_graph/grid_utils.py")],
     observe=["values and gradients of objectives", "structures", "selected cells"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
