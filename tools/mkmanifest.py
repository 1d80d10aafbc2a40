"""Regenerates MANIFEST.json from properties.jsonl and contracts/."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "N01": "The subject is what arbitrary user code means after macro expansion (AST-to-AST compilers in unpythonic.syntax, run by mcpyrate): a contract would need a semantics of the whole Python language on both sides of the expander, which no deductive verifier installed here has; testing expanded programs would be a different technique.",
 "N02": "Same as N01: the continuations macro is a CPS compiler from Python to Python; its correctness is a compiler-correctness statement, not a postcondition of a function that a verifier here can express.",
 "N03": "The REPL server is threads, sockets, ptys and tab completion driven by the operating system; the behaviour is a history over processes and sockets for which no contract within reach can be stated or discharged.",
 "N04": "async_raise calls PyThreadState_SetAsyncExc through ctypes; what it promises happens inside the CPython interpreter loop, outside any contract on this repository's code.",
}
NOTES = json.load(open(f"{H}/tools/levels.json")) if os.path.exists(f"{H}/tools/levels.json") else {}
checks, na = [], []
for line in open(f"{H}/properties.jsonl"):
    p = json.loads(line); i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]}); continue
    proof = os.path.exists(f"{H}/contracts/{i.lower()}.py")
    n = NOTES.get(i, {})
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": "contract-based deductive verification: pyvc generates obligations from /repo's source, z3/cvc5 discharge them; executable contracts on the real code stand in (bounded) for the rest and replay failures" if proof
                     else "executable contracts evaluated on the real code: bounded stand-in for functions outside the deductive verifier's reach (nothing counted as proved)",
        "level": "proof" if proof else "exploration",
        "level_note": n.get("note", "functions under contract and what remains bounded: see DESIGN.md and evidence" if proof else "bounded stand-in only; see DESIGN.md for why no obligation is discharged here")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(f"{H}/MANIFEST.json", "w"), indent=1)
