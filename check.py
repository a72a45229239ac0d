"""Decide one property: python3-vt check.py <property> [quick|thorough]

1. The verifier (pyvc) generates the proof obligations of every specification of the property from
   the current source under /repo and discharges them (z3, cvc5 as second back end).
2. The executable contracts (replay/) are evaluated on the real code: they replay failures, cross-check
   the verifier's assumed library contracts and stand in (labelled bounded) for what is out of reach.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.
"""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
SPEC_MODULES = ["merging", "equality", "sizes", "models", "basics", "constraints", "logical", "physical", "solvers", "streams", "npp"]
EV = os.path.join(HERE, "evidence")


def load_specs():
    from specs.common import SPECS

    for m in SPEC_MODULES:
        if os.path.exists(os.path.join(HERE, "specs", m + ".py")):
            importlib.import_module("specs." + m)
    return SPECS


def run_spec(job):
    """Worker: all paths of one specification."""
    pid, idx, deadline, tmul = job
    t0 = time.time()
    try:
        from pyvc.engine import Ctx, explore
        from pyvc.repo import Repo

        sp = load_specs()[pid][idx]
        ctx = Ctx(Repo(REPO))
        ctx.ext_override = {}
        ctx.timeout = int((sp.timeout or 6000) * tmul)
        res = explore(ctx, sp.fn, sp.max_paths, time.time() + deadline)
        return {
            "spec": sp.name, "functions": sp.functions, "paths": res.paths, "normal": res.normal, "infeasible": res.infeasible,
            "unsupported": res.unsupported, "where": getattr(res, "where", None), "obligs": res.obligs, "by": dict(ctx.stats.by), "queries": ctx.stats.queries,
            "solver_s": round(ctx.stats.time, 2), "assumptions": sorted(ctx.assumptions), "inlined": sorted(ctx.inlined), "wall": round(time.time() - t0, 2),
        }
    except Exception:
        sp = load_specs()[pid][idx]
        return {"spec": sp.name, "functions": sp.functions, "paths": 0, "normal": 0, "infeasible": 0, "unsupported": "engine error", "where": traceback.format_exc(), "obligs": [], "by": {}, "queries": 0, "solver_s": 0, "assumptions": [], "inlined": [], "wall": round(time.time() - t0, 2)}


def blank(name, functions, why, where=""):
    return {"spec": name, "functions": functions, "paths": 0, "normal": 0, "infeasible": 0, "unsupported": why, "where": where, "obligs": [], "by": {}, "queries": 0, "solver_s": 0, "assumptions": [], "inlined": [], "wall": 0}


def _worker(job, path):
    r = run_spec(job)
    with open(path + ".part", "w") as f:
        json.dump(r, f, default=str)
    os.replace(path + ".part", path)


def run_jobs(jobs, specs, end, slots=8):
    """Every specification in a process of its own; a crashed solver is retried once, a late one is stopped."""
    import tempfile

    out = [None] * len(jobs)
    with tempfile.TemporaryDirectory(prefix="pyvc_") as d:
        todo = [(k, 0) for k in range(len(jobs))][::-1]
        live = []
        ctx = mp.get_context("fork")
        while todo or live:
            while todo and len(live) < slots and time.time() < end - 5:
                k, n = todo.pop()
                job = list(jobs[k])
                job[2] = min(job[2], end - time.time())
                path = os.path.join(d, f"{k}.{n}")
                p = ctx.Process(target=_worker, args=(tuple(job), path))
                p.start()
                live.append((k, n, p, path))
            if todo and time.time() >= end - 5:
                for k, n in todo:
                    out[k] = blank(specs[jobs[k][1]].name, specs[jobs[k][1]].functions, "time limit")
                todo = []
            time.sleep(0.05)
            keep = []
            for k, n, p, path in live:
                sp = specs[jobs[k][1]]
                if p.is_alive():
                    if time.time() > end + 20:
                        p.kill()
                        p.join()
                        out[k] = blank(sp.name, sp.functions, "time limit")
                    else:
                        keep.append((k, n, p, path))
                    continue
                p.join()
                if os.path.exists(path):
                    with open(path) as f:
                        out[k] = json.load(f)
                elif n == 0:
                    todo.append((k, 1))
                else:
                    out[k] = blank(sp.name, sp.functions, f"engine error: the solver process ended with {p.exitcode}")
            live = keep
    return out


def start_search(pid, seed, budget, tier, out):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", NO_GCE_CHECK="true", PYTHONPATH=HERE, VERIF_REPO=REPO, PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return subprocess.Popen([PY, "-m", "replay", pid, str(seed), str(budget), tier, out], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def read_search(p, out, limit):
    try:
        txt, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        return None, "the executable contracts did not finish"
    if p.returncode != 0:
        return None, (txt or "")[-3000:]
    with open(out) as f:
        return json.load(f), None


def findings():
    path = os.path.join(HERE, "known_findings.json")
    return json.load(open(path)) if os.path.exists(path) else {"findings": []}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    replay_path = os.path.join(EV, f"replay_{pid}.json")
    tmp = os.path.join(EV, f".search_{pid}.{os.getpid()}.json")
    for f in (replay_path, os.path.join(EV, pid + ".json")):
        if os.path.exists(f):
            os.unlink(f)
    thorough = tier == "thorough"
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next((c["level"] for c in manifest["checks"] if c["property"] == pid), "other")
    search = start_search(pid, seed, 300 if thorough else 40, tier, tmp)
    specs = load_specs().get(pid, [])
    deadline = 1500 if thorough else 400
    jobs = [(pid, i, deadline, 4 if thorough else 1) for i in range(len(specs))]
    results = run_jobs(jobs, specs, t0 + deadline)
    # an obligation that was not discharged gets a second chance with four times the time
    again = [i for i, r in enumerate(results) if r["unsupported"] in ("time limit",) or any(not o["ok"] for o in r["obligs"])]
    if again and not thorough and time.time() - t0 < 330:
        for i, r2 in zip(again, run_jobs([(pid, i, 250, 4) for i in again], specs, time.time() + 250)):
            if not r2["unsupported"] and (results[i]["unsupported"] or all(o["ok"] for o in r2["obligs"])):
                results[i] = r2
    found, serr = read_search(search, tmp, 900 if thorough else 200)
    obligs = [o for r in results for o in r["obligs"]]
    failed = [dict(o, spec=r["spec"]) for r in results for o in r["obligs"] if not o["ok"]]
    unsupported = [r for r in results if r["unsupported"]]
    # vacuity guard: a specification without reachable path or obligation proves nothing
    for r in results:
        if not r["unsupported"] and (r["normal"] == 0 or not r["obligs"]):
            r["unsupported"] = "vacuous: no reachable path or no obligation"
            unsupported.append(r)
    if failed and found and not found["failure"]:
        # look harder for an input that shows the failure on the real code
        s2 = start_search(pid, seed + 17, 60, "thorough", tmp)
        f2, e2 = read_search(s2, tmp, 200)
        if f2:
            f2["evaluations"] += found["evaluations"]
            f2["distinct"] += found["distinct"]
            found = f2
    if os.path.exists(tmp):
        os.unlink(tmp)
    violation = None
    if found and found["failure"]:
        violation = dict(found["failure"], kind="executable contract fails on the real code", failed_obligations=failed[:20], how="cd /verif && /opt/venv/bin/python -m replay --replay " + replay_path)
    elif failed:
        violation = {"property": pid, "kind": "proof obligation not discharged; no failing input found", "failed_obligations": failed, "verifier_output": [{k: r[k] for k in ("spec", "paths", "normal", "unsupported", "queries", "solver_s")} for r in results]}
    elif found is None:
        # the harness itself died: the code under it cannot even be imported or run
        violation = {"property": pid, "kind": "the real code could not be run by the executable contracts", "failure": serr, "failed_obligations": []}
    proved_fns = sorted({f for r in results if not r["unsupported"] and all(o["ok"] for o in r["obligs"]) for f in r["functions"]})
    cov = {
        "obligations": len(obligs),
        "discharged": sum(1 for o in obligs if o["ok"]),
        "checker_cmd": f"python3-vt /verif/check.py {pid} {tier}",
        "trusted_base": ["pyvc (/verif/pyvc): symbolic execution of the Python AST of /repo, loop summarisation, library models in pyvc/lib.py", "z3 " + z3_version() + " (and cvc5 1.1.2 as a second back end)", "CPython semantics of the supported subset; machine floats treated as mathematical reals"],
        "functions_under_contract": sorted({f for r in results for f in r["functions"]}),
        "functions_proved": proved_fns,
        "functions_executed_symbolically": sorted({f for r in results for f in r["inlined"]}),
        "paths": sum(r["paths"] for r in results),
        "backends": merge([r["by"] for r in results]),
        "solver_queries": sum(r["queries"] for r in results),
        "solver_s": round(sum(r["solver_s"] for r in results), 2),
        "specs": [{k: r[k] for k in ("spec", "paths", "normal", "wall")} | {"obligations": len(r["obligs"])} for r in results],
        "outside_subset": [{"spec": r["spec"], "why": r["unsupported"]} for r in unsupported],
        "bounded_cross_check": {"label": "bounded, not counted as proved", "evaluations": found["evaluations"] if found else 0},
        "evaluations": found["evaluations"] if found else 0,
        "distinct_nontrivial": found["distinct"] if found else 0,
        "rule": "executable contracts on generated inputs (seeded, sizes growing); two cases are the same when their step logs are",
        "samples": found["samples"] if found else [],
    }
    assumptions = sorted({a for r in results for a in r["assumptions"]})
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    with open(os.path.join(EV, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in findings()["findings"]:
        if k["property"] == pid and k.get("status") == "known":
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid}: {cov['discharged']}/{cov['obligations']} obligations of {len(results)} specifications discharged, {len(unsupported)} outside the subset, {cov['evaluations']} executable-contract evaluations, {ev['wall_s']} s")
    for r in unsupported:
        print(f"  undecided by proof (bounded check stands in): {r['spec']}: {r['unsupported']}")
        if os.environ.get("VERIF_DEBUG"):
            print(r["where"])
    if violation:
        with open(replay_path, "w") as f:
            json.dump(violation, f, indent=1, default=str)
        for o in failed[:5]:
            print(f"  not discharged: {o['spec']}: {o['name']}")
        if "failure" in violation:
            print("  " + str(violation["failure"])[:600])
            print(f"VIOLATION property={pid} replay={replay_path}")
        else:
            print(f"VIOLATION property={pid} replay={replay_path} no-failing-input-found")
        return 1
    return 0


def merge(ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    return out


def z3_version():
    import z3

    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
