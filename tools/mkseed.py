"""Makes and confirms planted bugs.  python3 tools/mkseed.py SPECFILE [id...]
SPECFILE defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)...], demo=python source)].
Each is applied to a scratch copy bind-mounted over /repo in a private mount namespace; kept in
/verif/seeded/<id>/ only if it builds, the baseline tests pass, and the demo separates."""
import sys, os, json, subprocess, shutil, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
H = "/verif"
spec = runpy.run_path(sys.argv[1])["SEEDS"]
want = set(sys.argv[2:])
base = json.load(open("/opt/vp/BASELINE.json"))
base = set(base["stable"])

def ns(copy, cmd, **kw):
    return subprocess.run(["unshare", "-Urmn", "bash", "-c", f"ip link set lo up; mount --bind {copy} /repo && cd /repo && {cmd}"], capture_output=True, text=True, **kw)

def one(s):
    d = tempfile.mkdtemp(prefix="seed-"); copy = f"{d}/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", copy])
        for f, a, b in s["edits"]:
            p = f"{copy}/unpythonic/{f}"; t = open(p).read()
            if t.count(a) != 1: return s["id"], f"edit matches {t.count(a)} times in {f}: {a[:60]!r}"
            open(p, "w").write(t.replace(a, b))
        out = f"{H}/seeded/{s['id']}"; st = f"{d}/out"; os.makedirs(st)
        diff = subprocess.check_output(["git", "-C", copy, "diff"], text=True)
        open(f"{st}/patch.diff", "w").write(diff)
        open(f"{st}/demo.py", "w").write("import sys, os\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n" + s["demo"].strip() + "\n")
        open(f"{st}/demo.sh", "w").write('#!/bin/bash\nexec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{st}/meta.json", "w"), indent=1)
        r = subprocess.run(["bash", f"{st}/demo.sh"], cwd="/repo", capture_output=True, text=True)
        if r.returncode: return s["id"], "demo fails on the clean tree: " + (r.stdout + r.stderr)[-1500:]
        r = ns(copy, f"bash {st}/demo.sh")
        if r.returncode == 0: return s["id"], "demo passes with the patch"
        why = (r.stdout + r.stderr).strip().splitlines()[-1:]
        r = ns(copy, "bash /opt/vp/build.sh")
        if r.returncode: return s["id"], "does not build"
        ns(copy, f"bash /opt/vp/test.sh {d}/t.json")
        got = json.load(open(f"{d}/t.json")); miss = base - set(got["passed"])
        if miss: return s["id"], f"tests fail: {sorted(miss)[:4]}"
        r = ns(copy, f"cd {H} && VERIF_SEED=1 python3 check.py {s['property']}")
        if os.path.exists(out): shutil.rmtree(out)
        shutil.copytree(st, out)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("failed obl")]
        return s["id"], f"KEPT; check exit {r.returncode} {v}; demo: {why}"
    finally:
        shutil.rmtree(d, ignore_errors=True)

todo = [s for s in spec if not want or s["id"] in want]
with ThreadPoolExecutor(4) as ex:
    for i, msg in ex.map(one, todo):
        print(i, "::", msg, flush=True)
