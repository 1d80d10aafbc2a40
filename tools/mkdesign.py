"""Regenerates DESIGN.md from tools/design.in, the contract files' registrations and seeded/*/meta.json."""
import json, os, re, subprocess, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOUNDED = json.load(open(f"{H}/tools/bounded.json"))
names = json.loads(subprocess.run(["python3-vt", f"{H}/tools/listcontracts.py"], capture_output=True, text=True, check=True).stdout)
out = []
for line in open(f"{H}/properties.jsonl"):
    p = json.loads(line); i = p["id"]
    if i.startswith("N"): continue
    out.append(f"**{i} {p['title']}.**  ")
    ns = names.get(i, [])
    if ns:
        out.append(f"Contracts ({len(ns)}): " + "; ".join("`" + n.replace("unpythonic.", "") + "`" for n in ns) + ".  ")
    else:
        out.append("Contracts: none.  ")
    out.append("Bounded: " + BOUNDED.get(i, "the same operations once more, as executable contracts on the real code with random inputs (replay and cross-check)."))
    out.append("")
seeds = []
for m in sorted(glob.glob(f"{H}/seeded/*/meta.json")):
    d = json.load(open(m)); s = os.path.basename(os.path.dirname(m))
    seeds.append(f"| {s} | {d['property']} | {d['what_it_breaks']} | {d.get('caught_by', '')} |")
t = open(f"{H}/tools/design.in").read()
t = t.replace("@@TABLE@@", "\n".join(out)).replace("@@SEEDS@@", "| id | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(seeds))
open(f"{H}/DESIGN.md", "w").write(t)
