"""Writes known-findings.txt: all genuine defects found so far were repaired by fix: commits in /repo."""
import subprocess, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KEY = [("let: ","P12"),("namelambda","P33"),("forall","P28"),("s: ","P26"),("isoftype","P24"),("partial","P21"),("curry","P21"),("jump","P16"),("dyn","P13"),("cons","P17"),("Shim","P19"),("generic: ","P23"),("ulp","P27"),("fixtco","P29"),("gtco","P31"),("compose","P22"),("signal","P14"),("gmemoize","P09"),("env","P11"),("in_slice","P03"),("interleave","P06"),("required_kwargs","P20"),("arities","P20"),("tuplify","P10"),("roview","P04"),("islice","P05"),("tryf","P30"),("raisef","P30"),("streamsource","P01"),("decodemsg","P01")]
out = ["# fixed: repaired by a fix: commit in /repo, suppresses nothing.  open: known finding, not repaired (none at present)."]
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        pid = next(p for k, p in KEY if s.startswith(k))
        out.append(f"fixed: property={pid} {h} {s}")
open(f"{H}/known-findings.txt", "w").write("\n".join(out) + "\n")
