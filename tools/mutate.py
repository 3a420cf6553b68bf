"""Mutation campaign: which realistic edits of the code do the checks miss?

mutate.py OUT SEED N FILE[:PROPS] ...   (development tool, not a check)

Makes N single-point mutants per FILE, chosen at random among all of them, runs
the checks of PROPS on each one (in a scratch clone), then the stable tests on
those which no check caught, and writes the ones that pass everything to OUT.
"""
import ast, concurrent.futures, json, os, random, subprocess, sys

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", VERIF_FAILFAST="1", VERIF_TIER="quick")

def offsets(src):
    o = [0]
    for l in src.splitlines(keepends=True):
        o.append(o[-1] + len(l.encode()))
    return o

def mutants(src):
    """(line, replacement source, description)."""
    tree = ast.parse(src)
    off = offsets(src)
    b = src.encode()
    seg = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: b[slice(*seg(n))].decode()
    out = []

    def put(n, new, what):
        a, z = seg(n)
        out.append((n.lineno, (b[:a] + new.encode() + b[z:]).decode(), what + ": " + text(n)[:60].replace("\n", " ") + " -> " + new[:60].replace("\n", " ")))

    skip = set()
    for n in ast.walk(tree):
        # Not in annotations, docstrings, raises or asserts.
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    skip.update(map(id, ast.walk(a.annotation)))
            if n.returns:
                skip.update(map(id, ast.walk(n.returns)))
        if isinstance(n, ast.AnnAssign):
            skip.update(map(id, ast.walk(n.annotation)))
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and getattr(n.func.value, "id", "") in ("logger", "logging", "warnings", "print"):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "print":
            skip.update(map(id, ast.walk(n)))
    depth = {}
    def mark(n, fn):
        for c in ast.iter_child_nodes(n):
            f = fn or isinstance(n, (ast.FunctionDef, ast.Lambda))
            depth[id(c)] = f
            mark(c, f)
    mark(tree, False)
    CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
    BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["//"], ast.MatMult: [], ast.Pow: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}
    for n in ast.walk(tree):
        if id(n) in skip or not depth.get(id(n)) or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                put(n, text(n.left) + " " + op + " " + text(n.comparators[0]), "cmp")
        elif isinstance(n, ast.BinOp):
            for op in BIN.get(type(n.op), []):
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                put(n, "(" + text(n.left) + ") " + op + " (" + text(n.right) + ")", "bin")
            if isinstance(n.op, (ast.Add, ast.Mult, ast.Sub, ast.Div)):
                put(n, text(n.left), "drop-right")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            put(n, text(n.operand), "drop-unary")
        elif isinstance(n, ast.BoolOp):
            op = "or" if isinstance(n.op, ast.And) else "and"
            put(n, (" " + op + " ").join("(" + text(v) + ")" for v in n.values), "bool")
            put(n, text(n.values[0]), "bool-drop")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), "const")
            elif isinstance(n.value, (float, complex)):
                put(n, "(2 * " + text(n) + ")" if n.value else "1.0", "const")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            put(n.test, "(not (" + text(n.test) + "))", "negate")
            if isinstance(n, ast.If):
                put(n.test, "False", "never")
                put(n.test, "True", "always")
        elif isinstance(n, ast.Call):
            pos = [a for a in n.args if not isinstance(a, ast.Starred)]
            if len(n.args) == 1 and not n.keywords and len(pos) == 1:
                name = text(n.func)
                if name.split(".")[-1] in ("conj", "deepcopy", "copy", "abs", "sorted", "real", "sqrt", "squeeze", "transpose", "reversed", "conjugate", "flatten", "ravel", "tuple", "round", "array", "set", "sum", "imag", "rint", "exp", "list"):
                    put(n, "(" + text(n.args[0]) + ")", "unwrap " + name)
            if not n.args and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "conj", "conjugate", "flatten", "squeeze", "transpose", "sort"):
                put(n, text(n.func.value), "unwrap")
            if len(pos) >= 2 and len(pos) == len(n.args):
                a0, a1 = n.args[0], n.args[1]
                s0, e0 = seg(a0); s1, e1 = seg(a1)
                new = b[:s0] + b[s1:e1] + b[e0:s1] + b[s0:e0] + b[e1:]
                if b[s0:e0] != b[s1:e1]:
                    out.append((n.lineno, new.decode(), "swap-args: " + text(n)[:80].replace("\n", " ")))
            for k in n.keywords:
                if k.arg and len(n.keywords) >= 1:
                    # Drop a keyword argument.
                    ks, ke = off[k.lineno - 1] + k.col_offset, off[k.end_lineno - 1] + k.end_col_offset
                    rest = b[ke:]
                    t = rest.lstrip()
                    if t.startswith(b","):
                        ke += len(rest) - len(t) + 1
                        new = b[:ks] + b[ke:]
                    else:
                        h = b[:ks].rstrip()
                        new = (h[:-1] if h.endswith(b",") else h) + b[ke:]
                    try:
                        ast.parse(new)
                        out.append((k.lineno, new.decode(), "drop-kw: " + b[ks:ke].decode()[:60]))
                    except SyntaxError:
                        pass
        elif isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            put(n, "pass", "delete")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            put(n, "pass", "delete")
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                put(n, ":" + text(n.upper), "slice")
                put(n, text(n.lower) + ":", "slice")
            elif n.lower is not None or n.upper is not None:
                put(n, ":", "slice")
        elif isinstance(n, ast.Continue):
            put(n, "break", "loop")
        elif isinstance(n, ast.Break):
            put(n, "continue", "loop")
    good = []
    for m in out:
        try:
            ast.parse(m[1])
            good.append(m)
        except SyntaxError:
            pass
    return good

def sh(cmd, t=None, **k):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=t, start_new_session=True, **k)
    except subprocess.TimeoutExpired:
        return None

SLOTS = []

def one(job):
    n, f, props, (line, src, what) = job
    slot = SLOTS.pop()
    r = "/tmp/mut/%d" % slot
    try:
        old = open(r + "/" + f).read()
        open(r + "/" + f, "w").write(src)
        try:
            for p in props:
                k = sh("timeout -k 5 400 /opt/venv/bin/python %s/checks/%s.py --jobs 2" % (os.environ.get("VDIR", "/verif"), p.lower()), env=dict(ENV, VERIF_REPO=r, VERIF_EVIDENCE="/tmp/mut/ev%d" % slot))
                if k.returncode == 1 and "VIOLATION property=" in k.stdout:
                    return "%s:%d %s" % (f, line, what), "killed " + p
                if k.returncode != 0:
                    # The code cannot even be imported, or the check crashed.
                    t = sh("/opt/venv/bin/python -c 'import spins.goos, spins.invdes.problem_graph, spins.goos_sim.maxwell'", cwd=r, env=ENV)
                    if t.returncode:
                        return "%s:%d %s" % (f, line, what), "invalid"
                    return "%s:%d %s" % (f, line, what), "NO ANSWER %s rc=%s %s" % (p, k.returncode, (k.stdout + k.stderr)[-200:])
            t = sh("timeout -k 5 600 /opt/venv/bin/python -m pytest -q -n 2 --dist loadfile -x -p no:cacheprovider --timeout=200 --continue-on-collection-errors --disable-warnings --basetemp=/tmp/mut/tmp%d -o 'python_files=spins/*.py tests/*.py test_*.py' -o junit_family=xunit2 --junitxml=/tmp/mut/j%d.xml spins examples; /usr/bin/python3 /opt/vp/results.py /tmp/mut/out%d.json junit:/tmp/mut/j%d.xml" % (slot, slot, slot, slot), cwd=r, env=ENV)
            try:
                st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                miss = sorted(st - set(json.load(open("/tmp/mut/out%d.json" % slot))["passed"]))
            except Exception as e:
                return "%s:%d %s" % (f, line, what), "test error %s" % e
            if miss:
                return "%s:%d %s" % (f, line, what), "tests"
            return "%s:%d %s" % (f, line, what), "SURVIVED"
        finally:
            open(r + "/" + f, "w").write(old)
    finally:
        SLOTS.append(slot)

def main():
    out, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rng = random.Random(seed)
    jobs = []
    for a in sys.argv[4:]:
        f, props = a.split(":")
        ms = mutants(open("/repo/" + f).read())
        rng.shuffle(ms)
        for m in ms[:n]:
            jobs.append((len(jobs), f, props.split(","), m))
    rng.shuffle(jobs)
    par = int(os.environ.get("PAR", "4"))
    subprocess.run("rm -rf /tmp/mut; mkdir -p /tmp/mut", shell=True)
    for i in range(par):
        subprocess.run("git clone -q /repo /tmp/mut/%d" % i, shell=True)
        SLOTS.append(i)
    res = {}
    with open(out, "a") as fp, concurrent.futures.ThreadPoolExecutor(par) as ex:
        for f in concurrent.futures.as_completed([ex.submit(one, j) for j in jobs]):
            d, r = f.result()
            res.setdefault(r.split()[0], []).append(d)
            fp.write(r + " | " + d + "\n")
            fp.flush()
    print({k: len(v) for k, v in res.items()})
    subprocess.run("rm -rf /tmp/mut", shell=True)

if __name__ == "__main__":
    main()
