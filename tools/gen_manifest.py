"""Regenerates /verif/MANIFEST.json from properties.jsonl and checks/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    f = os.path.join(V, "checks", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    src = open(f).read()
    level = re.search(r'vlib\.Check\(\s*"P\d\d",\s*"(\w+)"', src).group(1)
    note = re.search(r'"""(.*?)"""', src, re.S).group(1)
    note = " ".join(note.split())
    tech = dict(
        fault_enumeration="model checking: exhaustive crash-point enumeration "
        "of the real code over all bounded histories",
        model_checking="model checking: explicit-state exploration of a "
        "reference model with every trace replayed on the implementation",
        exploration="model checking: exhaustive bounded exploration of the "
        "real code against a reference model")[level]
    checks.append(
        dict(property=pid, quick_cmd="bash checks/run.sh %s quick" % pid,
             thorough_cmd="bash checks/run.sh %s thorough" % pid,
             evidence_file="evidence/%s.json" % pid, technique=tech,
             level=level, level_note=note))
m = dict(version=1,
         setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy'",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks drive the public interfaces and "
         "replace thread pools, file operations and the numeric minimiser "
         "from outside. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
