"""Merges tools/cov.py's output: per file, executable lines never executed."""
import ast, glob, json, os, sys
out, root = sys.argv[1], "/repo/spins/"
tot = {}
for f in glob.glob(out + "/P*.json"):
    for k, v in json.load(open(f)).items():
        tot.setdefault(k, set()).update(v)

def lines(code):
    s = {l for _, _, l in code.co_lines() if l}
    if code.co_name != "<module>":
        s.discard(code.co_firstlineno)
    for c in code.co_consts:
        if hasattr(c, "co_lines"):
            s |= lines(c)
    return s

rows = []
for d, _, fs in os.walk(root):
    for f in fs:
        if not f.endswith(".py") or f.startswith("test_") or f.endswith("_test.py") or f == "__init__.py":
            continue
        p = os.path.join(d, f)
        src = open(p).read()
        code = compile(src, p, "exec")
        fun = set()
        for c in code.co_consts:
            if hasattr(c, "co_lines"):
                fun |= lines(c)
        miss = sorted(fun - tot.get(p[len(root):], set()))
        rows.append((len(miss), len(fun), p[len(root):], miss))

def ranges(m):
    r = []
    for x in m:
        if r and x - r[-1][1] <= 2:
            r[-1][1] = x
        else:
            r.append([x, x])
    return " ".join("{}-{}".format(a, b) if a != b else str(a) for a, b in r)

rows.sort(reverse=True)
T = sum(r[1] for r in rows); M = sum(r[0] for r in rows)
print("lines in functions:", T, "never executed:", M)
for m, n, p, miss in rows:
    if m:
        print("{:4d}/{:4d} {}: {}".format(m, n, p, ranges(miss)[:400]))
