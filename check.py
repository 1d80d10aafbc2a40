#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current working tree.

1. pyvc (python3-vt) parses the functions under contract out of /repo, generates their proof
   obligations and discharges them with z3 / cvc5.
2. In parallel, the executable form of the same contracts (drivers/pNN.py) runs on the real code:
   it stands in, bounded, for what the verifier does not reach, and it is where a refuted
   obligation gets its failing input.

Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed (no verdict).
"""
import argparse, json, os, subprocess, sys, time, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = "python3-vt"


def spawn(cmd, log):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=REPO)
    return subprocess.Popen(cmd, cwd=HERE, stdout=open(log, "w"), stderr=subprocess.STDOUT, env=env, start_new_session=True)


def wait(p, timeout):
    try:
        return p.wait(max(1, timeout))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        return None


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except Exception:
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    pid, tier = a.pid, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = 700 if tier == "quick" else 3000
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    os.makedirs(f"{HERE}/replay", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return decide(pid, tier, seed, t0, budget, tmp)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def run_driver(pid, tier, seed, tmp, tag):
    drv = f"{HERE}/drivers/{pid.lower()}.py"
    out, st = f"{tmp}/{tag}.json", f"{tmp}/{tag}.status"
    cmd = [PY, drv, "--seed", str(seed), "--tier", tier, "--out", out, "--status", st]
    return spawn(cmd, f"{tmp}/{tag}.log"), out, st


def decide(pid, tier, seed, t0, budget, tmp):
    left = lambda: budget - (time.time() - t0)
    dp, dout, dst = run_driver(pid, tier, seed, tmp, "driver")
    pp = pout = None
    if os.path.exists(f"{HERE}/contracts/{pid.lower()}.py"):
        pout = f"{tmp}/prove.json"
        pp = spawn([VT, f"{HERE}/pyvc/prove.py", pid, "--tier", tier, "--out", pout], f"{tmp}/prove.log")
    drc = wait(dp, left() * .8)
    d = load(dout)
    prc, pr = None, None
    if pp is not None:
        prc = wait(pp, left() * .7 if d and not d.get("fails") else 60)
        pr = load(pout)
    errors, fails = [], []
    if d is None:
        st = open(dst).read().strip() if os.path.exists(dst) else ""
        log = open(f"{tmp}/driver.log").read()[-3000:]
        if drc is None and st:
            fails.append({"case": st, "error": "the call did not terminate within the time limit", "seed": seed, "tier": tier, "traceback": log})
        else:
            errors.append(f"driver gave no result (rc={drc}): {log}")
    else:
        fails = d["fails"]
    if pp is not None and pr is None:
        errors.append("prover gave no result (rc=%s): %s" % (prc, open(f"{tmp}/prove.log").read()[-3000:]))
    refuted = [f for f in (pr or {}).get("functions", []) if f["status"] == "refuted"]
    if refuted and not fails and d is not None:
        # an obligation failed: look harder for a concrete failing input on the real code
        for k in range(1, 6):
            if left() < 60: break
            p, o, s = run_driver(pid, tier, seed + 1000 * k, tmp, f"search{k}")
            wait(p, min(120, left() * .5))
            d2 = load(o)
            if d2:
                d["evaluations"] += d2["evaluations"]
                if d2["fails"]:
                    fails = d2["fails"]; break
    nviol = len(fails) + (len(refuted) if not fails else 0)
    write_evidence(pid, tier, seed, t0, d, pr, fails, nviol)
    known = known_findings(pid)
    new = []
    for f in fails:
        k = next((k for k in known if k in json.dumps(f)), None)
        if k is None: new.append(f)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k}")
    replay = f"{HERE}/replay/{pid}.txt"
    if new or (refuted and not fails):
        write_replay(replay, pid, new, refuted, pr)
        for f in refuted:
            for o in f["obligations"]:
                if o["status"] == "refuted":
                    print(f"failed obligation: {o['name']}")
        if new:
            print("failing input:", new[0]["error"][:1500])
            print(f"VIOLATION property={pid} replay={replay}")
        else:
            print(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
        return 1
    if d is None or d["evaluations"] == 0:
        print("\n".join(errors)); print("no verdict"); return 2
    for e in errors: print("note:", e)
    if pr:
        print(f"{pid}: {pr['discharged']}/{pr['total']} obligations discharged over {sum(f['status'] == 'proved' for f in pr['functions'])}/{len(pr['functions'])} functions under contract;"
              f" {d['evaluations']} bounded evaluations; {time.time() - t0:.1f}s")
        for f in pr["functions"]:
            if f["status"] != "proved": print(f"  not proved ({f['status']}): {f['name']}: {f.get('reason', '')}")
    else:
        print(f"{pid}: bounded only: {d['evaluations']} evaluations; {time.time() - t0:.1f}s")
    return 0


def known_findings(pid):
    out = []
    for line in open(f"{HERE}/known-findings.txt"):
        if line.startswith("open: property=" + pid + " "):
            out.append(line.split(" ", 2)[2].strip())
    return out


def write_replay(path, pid, fails, refuted, pr):
    with open(path, "w") as f:
        f.write(f"property {pid}\n")
        for x in fails[:10]:
            f.write(f"\nfailing input (case {x['case']}, index {x.get('index')}, seed {x.get('seed')}):\n{x['error']}\n{x.get('traceback', '')}\n")
            f.write(f"re-run: {PY} {HERE}/drivers/{pid.lower()}.py --seed {x.get('seed')} --tier {x.get('tier', 'quick')} --only {x['case']} --index {x.get('index')}\n")
        for fn in refuted:
            f.write(f"\nfunction under contract: {fn['name']} ({fn.get('file')}:{fn.get('line')})\n")
            for o in fn["obligations"]:
                if o["status"] == "refuted":
                    f.write(f"  FAILED OBLIGATION {o['name']}\n  back end: {o.get('backend')}\n  {o.get('detail', '')}\n")


def write_evidence(pid, tier, seed, t0, d, pr, fails, nviol):
    ev = {"property": pid, "tier": tier, "seed": seed, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    bounded = {"evaluations": d["evaluations"] if d else 0, "distinct_nontrivial": d.get("distinct", 0) if d else 0,
               "rule": "executable contracts on the real code; inputs generated per case from the seed, or enumerated; distinct and non-trivial = distinct (case, generated input) pairs as counted by the driver's input hash",
               "samples": d.get("samples", []) if d else [], "cases": d.get("counts", {}) if d else {}}
    if pr and pr["total"]:
        ev["level"] = "proof"
        ev["coverage"] = {"obligations": pr["total"], "discharged": pr["discharged"],
                          "checker_cmd": f"python3-vt pyvc/prove.py {pid} --tier {tier}",
                          "trusted_base": pr.get("trusted", []),
                          "functions_under_contract": [{k: f[k] for k in ("name", "file", "line", "status", "n", "solver_s", "backends", "paths") if k in f} for f in pr["functions"]],
                          "not_proved": [{"name": f["name"], "status": f["status"], "reason": f.get("reason", "")} for f in pr["functions"] if f["status"] != "proved"],
                          "backends": pr.get("backends", {}), "solver_s": pr.get("solver_s", 0), "vacuity_checks": pr.get("vacuity", 0),
                          "bounded_stand_in": bounded}
        ev["assumptions"] = pr.get("assumptions", []) + ["the bounded stand-in is never counted as proved"]
    else:
        ev["level"] = "exploration"
        ev["coverage"] = bounded
        ev["assumptions"] = ["bounded: no obligation was discharged for this property in this run"]
    with open(f"{HERE}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
