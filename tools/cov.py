"""Line coverage of the code under test by one check (development tool).

cov.py PXX OUTDIR [args of the check]: runs the check with line monitoring in
every worker and leaves OUTDIR/PXX.json: {file: [executed lines]}.
tools/covreport.py merges them.
"""
import glob, json, os, runpy, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
pid, out = sys.argv[1], sys.argv[2]
os.makedirs(out, exist_ok=True)
import vlib
ROOT = os.path.join(vlib.REPO, "spins") + "/"
hits = {}
mon = sys.monitoring
TOOL = mon.COVERAGE_ID

def line(code, n):
    if code.co_filename.startswith(ROOT):
        hits.setdefault(code.co_filename, set()).add(n)
    return mon.DISABLE

mon.use_tool_id(TOOL, "vcov")
mon.register_callback(TOOL, mon.events.LINE, line)
mon.set_events(TOOL, mon.events.LINE)

def dump(name):
    json.dump({k: sorted(v) for k, v in hits.items()}, open(os.path.join(out, name), "w"))

orig = vlib._worker
def worker(span):
    r = orig(span)
    dump("{}.w{}.part".format(pid, os.getpid()))
    return r
worker.__module__, worker.__qualname__, worker.__name__ = "vlib", "_worker", "_worker"
vlib._worker = worker
path = os.path.join(os.path.dirname(vlib.__file__), pid.lower() + ".py")
sys.argv = [path] + sys.argv[3:]
try:
    runpy.run_path(path, run_name="__main__")
except SystemExit as e:
    print("exit", e.code)
dump(pid + ".main.part")
tot = {}
for f in glob.glob(os.path.join(out, pid + ".*.part")):
    for k, v in json.load(open(f)).items():
        tot.setdefault(k[len(ROOT):], set()).update(v)
    os.remove(f)
json.dump({k: sorted(v) for k, v in tot.items()}, open(os.path.join(out, pid + ".json"), "w"))
