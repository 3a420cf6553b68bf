"""Regenerates DESIGN.md from the hand-written text here, properties.jsonl, the
checks' docstrings, the evidence of the last quick runs, KNOWN_FINDINGS.json,
seeded/*/meta.json and tools/caught.json."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda *p: os.path.join(V, *p)
out = []
w = out.append
w("""# Deciding the properties of spins-b by model checking

## Approach

spins-b is pure Python without a protocol of its own, so the explorations run
**the real code of /repo's working tree** (imported, nothing is copied or
translated), on *every* case of a finite, stated space, and compare what they
observe with an independent reference. There is no sampling: the spaces are
enumerated completely, in a fixed order which does not depend on the seed; a
run that does not get through its whole space does not count as a pass. The
kinds of exploration used:

* **state machines**: all operation sequences up to a depth over an alphabet of
  public operations, on the real objects, against a small reference state
  machine compared after every step (P03, P06, P10, P12, P14, P16, P17, P19);
* **schedules**: all start/completion orders of parallel blocks under a
  controlled executor, and all source-line interleavings of threads up to a
  preemption bound under a cooperative scheduler (`checks/coop.py`) (P01, P02,
  P12, P13);
* **crash points**: every file operation of a run (create, write, replace,
  delete), torn writes at every prefix class, and every step of a minimiser is
  a crash point (`checks/crashfs.py`); the run is resumed from what is on disk,
  and cut again (P04, P06, P15);
* **programs and inputs**: all graphs, expressions, plans, polygons, drawings,
  grids, layouts up to a size, compared with exact arithmetic (rational
  numbers, exact clipping, dual numbers, dense matrices of linear operators,
  of which all unit vectors are enumerated) (all the others).

`checks/vlib.py` is the core: sections, sharding over the cores, per-case time
limits, counters (cases, executions, transitions, distinct states and outcomes,
reported in the evidence), replay files, known findings. A disagreement is
written to `evidence/replay-<id>-<n>.json`; `python checks/pXX.py --replay F`
runs exactly that case again. A case that raises an exception which the
reference does not, or that does not come back within its time limit, is a
violation too.

**Model and code.** Where the oracle is a model (P03, P12, P15, P16, P17, P19),
it is bound to the code by construction: each transition of the model is
executed on the implementation and every observable compared, so there is no
model trace that was not replayed. Environment models (a minimiser, a matrix
solver, an executor, the file system) stand in for what the properties assume;
the assumptions are listed in the evidence files and, for SciPy's minimiser and
the solvers, checked in separate sections that use the real ones.

**Tiers.** `quick` finishes in about 15 to 60 s per property on the 8 cores;
`thorough` runs the same sections with larger bounds (minutes). Both are
deterministic. No hooks were needed in /repo.

**What the checks do not look at.** They call public functions and observe
values, files and exceptions. Private names are used where the repository
offers no other access (for instance `_pack`-like helpers of the file formats),
as little as possible, so that refactorings stay quiet. Numeric comparisons use
tolerances well above rounding, since reordering floating-point operations is
no change of behaviour.

""")
props = [json.loads(l) for l in open(J("properties.jsonl"))]
w("## Properties\n")
for p in props:
    pid = p["id"]
    f = J("checks", pid.lower() + ".py")
    doc = ast.get_docstring(ast.parse(open(f).read())) or ""
    doc = doc.split(":", 1)[1].strip() if doc.startswith(pid + ":") else doc
    w("### %s. %s\n" % (pid, p["title"]))
    w(p["statement"] + "\n")
    w("*How it is decided.* " + doc[0].upper() + doc[1:] + "\n")
    ev = J("evidence", pid + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))
        w("*Space of the quick tier* (complete; `cases`, in brackets, each one "
          "or more executions):\n")
        for n, s in e["coverage"]["sections"].items():
            w("- `%s` (%d): %s" % (n, s["cases"], s.get("space", "")))
        w("")
        a = e.get("assumptions")
        if a:
            w("*Assumptions:* " + "; ".join(a) + ".\n")
    w("*Bounds:* " + p["quantifier"]["text"] + "\n")
    w("*Why tests cannot settle it:* " + p["why_tests_cant"] + "\n")
k = json.load(open(J("KNOWN_FINDINGS.json")))
w("""## Known findings (genuine, recorded and not repaired)

Each is listed with the failing cases in `KNOWN_FINDINGS.json`; its check prints
a KNOWN-FINDING line for it and still reports any other violation.
""")
for x in k["known"]:
    w("- **%s** (%s): %s" % (x["id"], x["property"], x["what"]))
w("""
## Defects found by the checks and repaired ("fix:" commits in /repo)
""")
by = {}
for x in k["fixed"]:
    m = re.match(r"fixed: property=(P\d\d) (\w+) (.*)", x)
    by.setdefault((m.group(2), m.group(3)), []).append(m.group(1))
w("%d defects:\n" % len(by))
for (c, t), ids in by.items():
    w("- %s (%s): %s" % (c[:7], ", ".join(ids), t))
w("""
## Planted bugs and what catches them

Each was written from the text of a property and the code, passes the existing
tests and has a demonstration (`seeded/<id>`).

| planted bug | needs | caught by |
|---|---|---|""")
caught = json.load(open(J("tools", "caught.json"))) if os.path.exists(
    J("tools", "caught.json")) else {}
for d in sorted(glob.glob(J("seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    w("| %s | %s | %s |" % (i, m["needs"], caught.get(i, m["property"])))
w(open(J("tools", "design_tail.md")).read())
open(J("DESIGN.md"), "w").write("\n".join(out))
