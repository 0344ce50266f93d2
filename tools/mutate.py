"""mutate.py OUT.jsonl COVDIR N SEED [file-substring ...]: sample mutants of /repo/src/pyuvdata on lines which some check
executes, run the checks that execute the line until one reports a violation, and record the survivors.

A development aid: survivors show where a monitor is blind (or are equivalent / outside every property)."""
import ast, glob, json, os, random, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, covdir, N, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
subs = sys.argv[5:]
SRC = os.environ.get("MUT_SRC", "/repo/src")
cov = {}
for f in glob.glob(covdir + "/C*.json"):
    c = os.path.basename(f).split(".")[0]
    for rel, lines in json.load(open(f)).items():
        for l in lines:
            cov.setdefault(rel, {}).setdefault(l, set()).add(c)
PREF = json.load(open(os.path.join(V, "tools/mutpref.json")))
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
SWAPCALL = {"max": "min", "min": "max", "any": "all", "all": "any", "argmin": "argmax", "union1d": "intersect1d", "intersect1d": "union1d",
            "logical_and": "logical_or", "logical_or": "logical_and", "zeros": "ones", "ones": "zeros", "floor": "ceil", "ceil": "floor",
            "nonzero": None, "isclose": None}
DROPCALL = {"sort", "sorted", "conj", "conjugate", "copy", "deepcopy", "abs", "unique", "argsort", "flip", "round", "squeeze", "real"}


def mutants(src):
    tree = ast.parse(src)
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c.parent = n
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.JoinedStr)) or (isinstance(n, ast.Call) and "warn" in ast.unparse(n.func)):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for m in ast.walk(n.args):
                skip.add(id(m))
            for d in n.decorator_list:
                for m in ast.walk(d):
                    skip.add(id(m))
    import copy
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        new = []
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            m = copy.copy(n); m.ops = [CMP[type(n.ops[0])]()]; new.append(m)
        elif isinstance(n, ast.BoolOp):
            m = copy.copy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); new.append(m)
            for v in n.values[:3]:
                new.append(v)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            new.append(n.operand)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not (isinstance(n.op, ast.Add) and any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right))):
                m = copy.copy(n); m.op = BIN[type(n.op)](); new.append(m)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
            m = copy.copy(n); m.op = ast.BitOr() if isinstance(n.op, ast.BitAnd) else ast.BitAnd(); new.append(m)
        elif isinstance(n, ast.Constant) and not isinstance(getattr(n, "parent", None), (ast.Expr,)):
            if isinstance(n.value, bool):
                new.append(ast.Constant(not n.value))
            elif isinstance(n.value, int):
                new.append(ast.Constant(n.value + 1))
                if n.value:
                    new.append(ast.Constant(n.value - 1))
        elif isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if SWAPCALL.get(nm) and isinstance(n.func, ast.Attribute):
                m = copy.copy(n); m.func = copy.copy(n.func); m.func.attr = SWAPCALL[nm]; new.append(m)
            elif nm in DROPCALL:
                if n.args:
                    new.append(n.args[0])
                elif isinstance(n.func, ast.Attribute):
                    new.append(n.func.value)
        elif isinstance(n, (ast.If, ast.IfExp)):
            yield n.test, "(True)", "if True"
            yield n.test, "(False)", "if False"
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                continue
            yield n, "pass", "del"
            continue
        elif isinstance(n, ast.Slice) and n.step is not None:
            pass
        for m in new:
            yield n, "(" + ast.unparse(m) + ")", type(n).__name__


def apply(src, n, text):
    L = src.splitlines(keepends=True)
    b = [l.encode() for l in L]
    pre = b"".join(b[: n.lineno - 1]) + b[n.lineno - 1][: n.col_offset]
    post = b[n.end_lineno - 1][n.end_col_offset:] + b"".join(b[n.end_lineno:])
    return (pre + text.encode() + post).decode()


rnd = random.Random(seed)
cands = []
for rel, lines in cov.items():
    if subs and not any(s in rel for s in subs):
        continue
    src = open(os.path.join(SRC, "pyuvdata", rel)).read()
    for n, text, kind in mutants(src):
        if any(l in lines for l in range(n.lineno, n.end_lineno + 1)):
            cands.append((rel, n, text, kind))
rnd.shuffle(cands)
print(len(cands), "candidate mutants", flush=True)
done = 0
tmp = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
try:
    shutil.copytree(SRC, tmp + "/src")
    for rel, n, text, kind in cands:
        if done >= N:
            break
        p = os.path.join(tmp, "src/pyuvdata", rel)
        src = open(os.path.join(SRC, "pyuvdata", rel)).read()
        new = apply(src, n, text)
        try:
            compile(new, p, "exec")
        except SyntaxError:
            continue
        old = ast.get_source_segment(src, n)
        done += 1
        checks = set()
        for l in range(n.lineno, n.end_lineno + 1):
            checks |= cov[rel].get(l, set())
        checks.discard("C38")
        order = [c for c in PREF.get(rel, []) if c in checks] + sorted(c for c in checks if c not in PREF.get(rel, []))
        open(p, "w").write(new)
        killed, t0 = None, time.time()
        try:
            for c in order[: int(os.environ.get("MUT_MAXCHECKS", "5"))]:
                try:
                    r = subprocess.run(["bash", "-c", f". /opt/vp/env.sh; cd {V} && VMON_EVID={tmp}/ev VMON_FAILFAST=1 VMON_LIMIT=100 VMON_SRC={tmp}/src VMON_NOBUILD=1 ./check.sh {c}"],
                                       capture_output=True, text=True, timeout=300)
                except subprocess.TimeoutExpired:
                    killed = c + ":timeout"
                    break
                if r.returncode == 1:
                    killed = c
                    break
                if r.returncode not in (0,):
                    killed = f"{c}:exit{r.returncode}"
                    break
        finally:
            open(p, "w").write(src)
        rec = {"file": rel, "line": n.lineno, "kind": kind, "old": old[:300], "new": text[:300], "killed": killed, "ran": order[:5], "s": round(time.time() - t0, 1)}
        open(out, "a").write(json.dumps(rec) + "\n")
        print(json.dumps(rec)[:300], flush=True)
finally:
    shutil.rmtree(tmp)
