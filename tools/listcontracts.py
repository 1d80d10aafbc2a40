"""Prints {property: [contract names]} (run with python3-vt)."""
import sys, os, json, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{H}/pyvc"); sys.path.insert(0, f"{H}/contracts")
import spec, prove
out = {}
for f in sorted(glob.glob(f"{H}/contracts/p[0-9]*.py")):
    pid = os.path.basename(f)[:3].upper()
    spec.CONTRACTS.clear()
    prove.load(pid)
    out[pid] = [c.name for c in spec.CONTRACTS]
print(json.dumps(out))
