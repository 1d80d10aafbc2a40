"""mut.py PID FILE OLD NEW [--only X] [--driver]: run the prover (and driver) on a copy of /repo with one textual change."""
import sys, subprocess, shutil, tempfile, os
pid, f, old, new = sys.argv[1:5]
rest = sys.argv[5:]
d = tempfile.mkdtemp(prefix="mut-")
try:
    shutil.copytree("/repo/unpythonic", d + "/unpythonic", ignore=shutil.ignore_patterns("__pycache__", "tests"))
    p = f"{d}/unpythonic/{f}"
    s = open(p).read()
    old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
    if s.count(old) < 1: sys.exit(f"pattern not found in {f}")
    i = s.find(old)
    while s[s.rfind("\n", 0, i) + 1:i].lstrip().startswith("#"): i = s.find(old, i + 1)
    open(p, "w").write(s[:i] + new + s[i + len(old):])
    env = dict(os.environ, VERIF_REPO=d)
    subprocess.run(["python3-vt", "/verif/pyvc/prove.py", pid, "-v"] + [r for r in rest if r != "--driver"], env=env)
finally:
    shutil.rmtree(d)
