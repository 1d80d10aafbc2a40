"""mutsweep.py OUT [--files a.py,b.py] [--n 30] [--seed 1] [--jobs 4]: random small changes to /repo's functions; which pass
the module's own tests and are missed by the checks of the properties anchored there?  Scratch copies under /tmp only."""
import ast, sys, os, json, random, shutil, subprocess, tempfile, copy, argparse, glob
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--files"); ap.add_argument("--n", type=int, default=30); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--jobs", type=int, default=4); ap.add_argument("--noprove", action="store_true"); ap.add_argument("--redo", help="earlier OUT: only what was missed there")
A = ap.parse_args()
PROPS = {}
for l in open("/verif/properties.jsonl"):
    d = json.loads(l)
    if d["id"][0] == "P":
        for f in d.get("anchors", d.get("anchor"))["files"]: PROPS.setdefault(f, []).append(d["id"])
files = ["unpythonic/" + f for f in A.files.split(",")] if A.files else sorted(PROPS)
SWAP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}


def doc(n): return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)


def sites(tree):
    """[(description, apply(tree copy))]"""
    out = []
    nodes = list(ast.walk(tree))
    inraise = set()
    for n in nodes:
        if isinstance(n, (ast.Raise, ast.Assert)) or (isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "lispyrepr", "__str__")):
            for x in ast.walk(n): inraise.add(id(x))
    for i, n in enumerate(nodes):
        if id(n) in inraise and not isinstance(n, ast.Raise): continue
        L = getattr(n, "lineno", 0)
        def add(d, f): out.append((f"L{L} {d}", i, f))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for t in SWAP.get(type(n.ops[0]), []):
                add(f"cmp {type(n.ops[0]).__name__}->{t.__name__}", lambda m, t=t: m.ops.__setitem__(0, t()))
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            add(f"const {n.value}+1", lambda m: setattr(m, "value", m.value + 1))
            if n.value: add(f"const {n.value}-1", lambda m: setattr(m, "value", m.value - 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool): add("bool flip", lambda m: setattr(m, "value", not m.value))
        if isinstance(n, ast.BoolOp): add("and<->or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())); add("drop operand", lambda m: m.values.pop()); add("drop first operand", lambda m: m.values.pop(0))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): add("drop not", lambda m: setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub): add("drop minus", lambda m: setattr(m, "op", ast.UAdd()))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)): add("+<->-", lambda m: setattr(m, "op", ast.Sub() if isinstance(m.op, ast.Add) else ast.Add())); add("swap operands", lambda m: (lambda a, b: (setattr(m, "left", b), setattr(m, "right", a)))(m.left, m.right))
        if isinstance(n, (ast.If, ast.While)): add("negate test", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
        if isinstance(n, ast.If): add("if True", lambda m: setattr(m, "test", ast.Constant(True))); add("if False", lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, ast.IfExp): add("ifexp swap", lambda m: (lambda a, b: (setattr(m, "body", b), setattr(m, "orelse", a)))(m.body, m.orelse))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args): add("swap args", lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1]))
        if isinstance(n, ast.Call) and n.keywords: add("drop keyword", lambda m: m.keywords.pop())
        if isinstance(n, ast.Slice):
            if n.lower: add("drop lower", lambda m: setattr(m, "lower", None))
            if n.upper: add("drop upper", lambda m: setattr(m, "upper", None))
            if n.step: add("drop step", lambda m: setattr(m, "step", None))
        if isinstance(n, ast.ExceptHandler) and n.type is not None: add("except widen", lambda m: setattr(m, "type", ast.Name("BaseException", ast.Load()))); add("except narrow", lambda m: setattr(m, "type", ast.Name("ZeroDivisionError", ast.Load())))
        if isinstance(n, ast.With): add("with dropped", lambda m: setattr(m, "items", [ast.withitem(ast.Call(ast.Attribute(ast.Call(ast.Name("__import__", ast.Load()), [ast.Constant("contextlib")], []), "nullcontext", ast.Load()), [], []), None)]) if m.items[0].optional_vars is None else 1 / 0)
        if isinstance(n, (ast.Break, )): add("break->continue", "cont")
        if isinstance(n, ast.Return) and n.value is not None: add("return None", lambda m: setattr(m, "value", ast.Constant(None)))
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With, ast.Try, ast.ExceptHandler)):
                for j, s in enumerate(b):
                    if doc(s) or isinstance(s, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.ClassDef, ast.Pass)) or (id(s) in inraise and not isinstance(s, ast.Raise)): continue
                    L = s.lineno
                    add(f"drop {type(s).__name__}", lambda m, fld=fld, j=j: getattr(m, fld).__setitem__(j, ast.Pass()))
                    if j + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(b[j + 1], (ast.Expr, ast.Assign, ast.AugAssign)):
                        add("swap statements", lambda m, fld=fld, j=j: getattr(m, fld).__setitem__(slice(j, j + 2), getattr(m, fld)[j:j + 2][::-1]))
    return out


def mutate(src, i, f):
    t = ast.parse(src)
    n = list(ast.walk(t))[i]
    if f == "cont": n.__class__ = ast.Continue
    else: f(n)
    return ast.unparse(ast.fix_missing_locations(t))


def sh(cmd, cwd, env=None, timeout=300):
    try: r = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, start_new_session=True); return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 99, "timeout"


def tests_ok(d, f):
    mod = os.path.basename(f)[:-3]
    pk = os.path.dirname(f).replace("/", ".")
    names = [f"{pk}.tests.test_{mod}"]
    w = open("/opt/vp/unpy/worker.py").read().replace('"/repo"', f'"{d}"').replace('"/repo/"', f'"{d}/"')
    open(d + "/worker.py", "w").write(w)
    allt = [os.path.dirname(p)[len(d) + 1:].replace("/", ".") + "." + os.path.basename(p)[:-3] for p in sorted(glob.glob(d + "/unpythonic/tests/test_*.py"))]
    for t in [n for n in names if n in allt] + ([t for t in allt if t not in names] if not A.noprove else []):
        if os.path.exists(d + "/t.log"): os.remove(d + "/t.log")
        rc, _ = sh(["/opt/venv/bin/python", d + "/worker.py", t, d + "/t.log"], d, {"PYTHONPYCACHEPREFIX": d + "/pyc"}, 120)
        txt = open(d + "/t.log").read() if os.path.exists(d + "/t.log") else ""
        bad = [l for l in txt.splitlines() if l.startswith("FAIL") and l[5:] in BASE]
        done = {l[5:] for l in txt.splitlines() if l.startswith("PASS")}
        if bad or any(b not in done for b in BASE if b.startswith(t + "::")): return False
    return True


b = json.load(open("/opt/vp/BASELINE.json"))
BASE = set(b["stable"])


def one(job):
    f, desc, i, fn = job
    d = tempfile.mkdtemp(prefix="ms-", dir="/tmp")
    try:
        src = open("/repo/" + f).read()
        try: new = mutate(src, i, fn)
        except Exception: return None
        if new == ast.unparse(ast.parse(src)): return None
        shutil.copytree("/repo/unpythonic", d + "/unpythonic", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{d}/{f}", "w").write(new)
        if sh(["/opt/venv/bin/python", "-c", "import unpythonic"], d, timeout=30)[0]: return None
        for p in PROPS[f]:
            if A.redo and not A.noprove: break
            rc, o = sh(["/opt/venv/bin/python", f"/verif/drivers/{p.lower()}.py", "--seed", "1", "--tier", "quick", "--out", d + "/o.json", "--status", d + "/st"], "/verif", {"VERIF_REPO": d}, 200)
            try: fails = json.load(open(d + "/o.json"))["fails"]
            except Exception: fails = ["none"]
            if fails: return (f, desc, "driver " + p)
        if not (A.redo and not A.noprove) and not tests_ok(d, f): return (f, desc, "tests")
        if not A.noprove:
            for p in PROPS[f]:
                if os.path.exists(f"/verif/contracts/{p.lower()}.py"):
                    rc, o = sh(["python3-vt", "/verif/pyvc/prove.py", p, "-v"], "/verif", {"VERIF_REPO": d}, 400)
                    if any(l.startswith("refuted") for l in o.splitlines()): return (f, desc, "prover " + p)
        return (f, desc, "MISSED")
    finally: shutil.rmtree(d, ignore_errors=True)


random.seed(A.seed)
jobs = []
for f in files:
    s = sites(ast.parse(open("/repo/" + f).read()))
    random.shuffle(s)
    if A.redo:
        miss = {tuple(l.rstrip("\n").split("\t")[:2]) for l in open(A.redo) if l.rstrip().endswith("MISSED")}
        jobs += [(f, *x) for x in s if (f, x[0]) in miss]
    else: jobs += [(f, *x) for x in s[:A.n]]
random.shuffle(jobs)
with ThreadPoolExecutor(A.jobs) as ex, open(A.out, "w") as out:
    from concurrent.futures import as_completed
    for r in (f.result() for f in as_completed([ex.submit(one, j) for j in jobs])):
        if r: out.write("\t".join(r) + "\n"); out.flush()
