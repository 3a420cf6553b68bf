"""mkbug.py ID PROPERTY FILE <<< python: {'old':..., 'new':..., 'needs':..., 'what':..., 'demo': ...}

Creates seeded/ID from an exact text replacement (several: list of triples)."""
import json, os, subprocess, sys
spec = eval(sys.stdin.read())
for b in (spec if isinstance(spec, list) else [spec]):
    d = "/verif/seeded/" + b["id"]
    os.makedirs(d, exist_ok=True)
    assert subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout == ""
    try:
        for f, old, new in b["edits"]:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# Run with cwd /repo.\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), open(d + "/meta.json", "w"), indent=1)
    print("made", b["id"])
