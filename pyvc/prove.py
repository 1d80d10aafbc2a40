"""prove.py PID [--tier T] [--out F] [--only NAME]: discharge the contracts of one property."""
import sys, os, argparse, json, time, importlib.util, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
import core
from core import *


def load(pid):
    import spec
    path = os.path.join(HERE, "..", "contracts", pid.lower() + ".py")
    sp = importlib.util.spec_from_file_location("contracts_" + pid, path)
    m = importlib.util.module_from_spec(sp)
    sys.path.insert(0, os.path.dirname(path))
    sp.loader.exec_module(m)
    return m, spec.CONTRACTS


def run_one(pid, idx, variant, tier, limit, gdl=float('inf')):
    import spec
    m, cs = load(pid)
    ct = cs[idx]
    label = ct.name.replace("unpythonic.", "").replace(":", ".py:", 1) + (f"[{variant}]" if variant is not None else "")
    core.OPTIONS["second"] = tier == "thorough"
    t0 = time.time()
    out = {"name": label, "status": "proved", "reason": "", "obligations": [], "paths": 0, "inlined": []}
    inl = set()
    def harness(c):
        v = spec.V(c, label)
        try:
            ct.f(v, variant) if variant is not None else ct.f(v)
        finally:
            inl.update(v.p.inlined)
    end = min(t0 + limit, gdl)
    x = Explorer(label, harness, deadline=end)
    try:
        for peel in (0, 1, 2):
            y = Explorer(label, harness, deadline=end)
            y.peel = peel
            try:
                y.explore()
            except PathEnd:
                pass
            except Unsupported:
                if peel == 0: raise
                break
            if peel == 0 or not [r for r in y.results if r["status"] != "discharged"] and "end" in y.covered: x = y
            if x.results and not [r for r in x.results if r["status"] != "discharged"] or not x.loops: break
        out["peel"] = x.peel
        agg = {}
        for r in x.results:
            a = agg.setdefault(r["name"], {"name": r["name"], "status": "discharged", "n": 0, "t": 0.0, "backend": r["backend"], "detail": ""})
            a["n"] += 1; a["t"] += r["t"]
            rank = {"discharged": 0, "unknown": 1, "disagree": 1, "refuted": 2}
            if rank[r["status"]] > rank[{"refuted": "refuted", "unknown": "unknown"}.get(a["status"], "discharged")]:
                a["status"] = "unknown" if r["status"] == "disagree" else r["status"]; a["detail"] = r.get("detail", "")
        out["obligations"] = list(agg.values())
        st = {a["status"] for a in agg.values()}
        if "refuted" in st:
            out["status"] = "refuted"; out["reason"] = "failed obligation"
            if x.loops: confirm(out, label, harness, 5 if tier == "thorough" else 4, gdl + 60)
        elif "unknown" in st: out["status"] = "undecided"; out["reason"] = "solver gave no answer"
        elif not agg: out["status"] = "undecided"; out["reason"] = "no obligation generated"
        elif "end" not in x.covered: out["status"] = "undecided"; out["reason"] = "vacuous: no path of the harness is satisfiable"
    except Unsupported as e:
        out["status"] = "undecided"; out["reason"] = f"outside the verifier's subset: {e}"
    except PyRaise as e:
        out["status"] = "undecided"; out["reason"] = f"harness: uncaught exception {spec.exc_name(e.exc)} {e.exc.cells.get('args') if hasattr(e.exc,'cells') else ''}"
    except Impure:
        out["status"] = "undecided"; out["reason"] = "impure"
    except BaseException as e:
        out["status"] = "undecided"; out["reason"] = "engine error: " + "".join(traceback.format_exception(e))[-700:]
    out.pop("results", None)
    out["cuts"] = len(x.loops)
    out["paths"] = getattr(x, "paths", 0)
    out["inlined"] = sorted(inl)
    out["n"] = sum(a["n"] for a in out["obligations"])
    out["solver_s"] = round(core.STATS["z3_s"] + core.STATS["cvc5_s"], 3)
    out["stats"] = dict(core.STATS)
    out["wall"] = round(time.time() - t0, 2)
    return out


def confirm(out, label, harness, k, gdl):
    """The failed obligation may be an artefact of loop invariants that are too weak.  Execute the same
    harness symbolically with the loops unrolled (at most k iterations, no invariants): a refutation there is
    a real counterexample.  Without one the contract counts as undecided, not as refuted."""
    for k in (k, 12):
        y = Explorer(label, harness, max_paths=4000, deadline=min(time.time() + 100, gdl))
        y.unroll = k
        err = None
        try: y.explore_plain()
        except PathEnd: pass
        except (Unsupported, PyRaise, Impure) as e: err = repr(e)
        if any(r["status"] == "refuted" for r in y.results) or time.time() > gdl: break
    bad = {r["name"]: r for r in y.results if r["status"] == "refuted"}
    if bad:
        out["reason"] = "failed obligation, confirmed by a counterexample without loop abstraction"
        for o in out["obligations"]:
            if o["name"] in bad: o["detail"] = bad[o["name"]].get("detail", "")
        have = {o["name"] for o in out["obligations"]}
        for n, r in bad.items():
            if n not in have: out["obligations"].append({"name": n, "status": "refuted", "n": 1, "t": r["t"], "backend": r["backend"], "detail": r.get("detail", "")})
    else:
        out["status"] = "undecided"
        out["reason"] = f"obligation not provable with the inferred loop invariants, and no counterexample within {k} iterations" + (f" ({err})" if err else "")
        for o in out["obligations"]:
            if o["status"] == "refuted": o["status"] = "unknown"


def worker(job):
    for k in core.STATS: core.STATS[k] = 0
    res = []
    def go(): res.append(run_one(*job))
    t = threading.Thread(target=go); t.start(); t.join()
    return res[0] if res else {"name": str(job), "status": "undecided", "reason": "engine crashed", "obligations": [], "n": 0, "solver_s": 0, "paths": 0, "inlined": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default="quick"); ap.add_argument("--out"); ap.add_argument("--only"); ap.add_argument("-v", action="store_true")
    ap.add_argument("--limit", type=float, default=None)
    a = ap.parse_args()
    m, cs = load(a.pid)
    limit = a.limit or (getattr(m, "LIMIT", 150) if a.tier == "quick" else 900)
    gdl = time.time() + (400 if a.tier == 'quick' else 3000)
    jobs = [(a.pid, i, v, a.tier, limit, gdl) for i, c in enumerate(cs) for v in c.variants if a.tier == "thorough" or c.tier == "quick"]
    if a.only:
        jobs = [j for j in jobs if a.only in cs[j[1]].name + f"[{j[2]}]"]
    t0 = time.time()
    n = min(8, len(jobs)) or 1
    if a.v and n == 1 or len(jobs) == 1: outs = [worker(j) for j in jobs]
    else:
        with mp.get_context("fork").Pool(n, maxtasksperchild=1) as pool:
            outs = pool.map(worker, jobs, chunksize=1)
    trusted = list(getattr(m, "TRUSTED", [])) + BASE_TRUSTED
    obs = [o for f in outs for o in f["obligations"]]
    res = {"functions": outs, "total": len(obs), "discharged": sum(o["status"] == "discharged" for o in obs), "queries": sum(f["n"] for f in outs),
           "trusted": trusted, "assumptions": list(getattr(m, "ASSUMPTIONS", [])), "backends": {"z3": sum(f.get("stats", {}).get("z3", 0) for f in outs), "cvc5": sum(f.get("stats", {}).get("cvc5", 0) for f in outs)},
           "solver_s": round(sum(f["solver_s"] for f in outs), 2), "wall_s": round(time.time() - t0, 2),
           "vacuity": "every contract whose status is proved has at least one harness path whose final path condition is satisfiable (checked by z3)"}
    if a.out:
        with open(a.out, "w") as f: json.dump(res, f, indent=1)
    if a.v or not a.out:
        for f in outs:
            if f["status"] == "proved" and len(outs) > 12 and f.get("wall", 0) < 15: continue
            print(f"{f['status']:10} {f['name']:45} paths={f['paths']} oblig={len(f['obligations'])} ({f['n']}) {f.get('wall')}s {f['reason']}")
            for o in f["obligations"]:
                if o["status"] != "discharged": print("    ", o["status"], o["name"], o["detail"].replace("\n", " ")[:400 if not a.only else 3000])
        print(f"{res['discharged']}/{res['total']} {res['wall_s']}s")


BASE_TRUSTED = [
    "the pyvc interpreter's semantics of the Python subset (statements, calls, closures, generators, exceptions, classes); not itself verified: the concrete drivers run the same properties on CPython beside it",
    "operational models of the built-ins and itertools/collections/functools/threading used (pyvc/models.py, pyvc/prelude.py)",
    "opaque values (arbitrary user objects) are not instances of unpythonic's own classes, except where a contract supplies such an instance",
    "z3 and cvc5",
    "Python integers as mathematical integers (exact: they are unbounded)",
]

if __name__ == "__main__":
    main()
