"""bugs.py FILE [IDS...]: makes and tries planted bugs in scratch copies.

FILE holds a list of dicts(id, property, edits=[(file, old, new)], needs, what,
demo). Nothing in /repo is touched. Prints one line per bug; those that pass
(demo 0/1, stable tests pass) are written to seeded/<id>.
"""
import concurrent.futures, json, os, shutil, subprocess, sys

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")

def one(b):
    w = "/tmp/bw-" + b["id"]
    sh("rm -rf " + w)
    os.makedirs(w)
    try:
        r = w + "/repo"
        sh("git clone -q /repo " + r)
        for f, old, new in b["edits"]:
            p = r + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], "EDIT %s occurs %d" % (f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C %s diff" % r).stdout
        d = w + "/seed"
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# Run with cwd /repo.\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), open(d + "/meta.json", "w"), indent=1)
        a = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        try:
            c = sh("bash %s/demo.sh" % d, cwd=r, timeout=300)
            crc = c.returncode
        except subprocess.TimeoutExpired:
            crc = "timeout"
        if a.returncode:
            return b["id"], "DEMO FAILS CLEAN: " + (a.stdout + a.stderr)[-600:]
        if not crc:
            return b["id"], "DEMO PASSES PATCHED"
        t = sh("/opt/venv/bin/python -m pytest -q -n 4 --dist loadfile -p no:cacheprovider --timeout=300 --continue-on-collection-errors --disable-warnings --basetemp=%s/tmp -o 'python_files=spins/*.py tests/*.py test_*.py' -o junit_family=xunit2 --junitxml=%s/junit.xml spins examples; /usr/bin/python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml" % (w, w, w, w), cwd=r, env=ENV)
        st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        miss = sorted(st - set(json.load(open(w + "/out.json"))["passed"]))
        if miss:
            return b["id"], "TESTS FAIL: %s" % miss[:3]
        e = dict(ENV, VERIF_REPO=r, VERIF_EVIDENCE=w + "/ev")
        k = sh("timeout 900 bash /verif/checks/run.sh %s quick" % b["property"], env=e)
        out = k.stdout + k.stderr
        caught = k.returncode == 1 and "VIOLATION property=" + b["property"] in out
        first = [l for l in out.splitlines() if l.startswith("[%s] section" % b["property"])][:1]
        dst = "/verif/seeded/" + b["id"]
        sh("rm -rf " + dst)
        shutil.copytree(d, dst)
        return b["id"], ("caught  " if caught else "MISSED rc=%s " % k.returncode) + (first[0][:160] if first else out[-300:] if not caught else "")
    finally:
        sh("rm -rf " + w)

bugs = eval(open(sys.argv[1]).read())
if sys.argv[2:]:
    bugs = [b for b in bugs if any(b["id"].startswith(i) for i in sys.argv[2:])]
with concurrent.futures.ThreadPoolExecutor(2) as ex:
    for i, r in ex.map(one, bugs):
        print("%-36s %s" % (i, r), flush=True)
