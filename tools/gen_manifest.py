"""Writes MANIFEST.json from the table below."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PROOF = json.load(open(os.path.join(HERE, "tools", "levels.json")))
NA = {
    "C26": "the guarantee is provided by Apache Beam's runner and window functions (WindowInto, CombineGlobally, watermarks); /repo only configures them, and no contract on a function of /repo can state or decide what the runner delivers",
    "C27": "the work is done by Beam's Filter/Map over a regular expression and by int/json.loads; /repo only wires them together, so a contract would restate assumed library behaviour and decide nothing about this code",
}
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        continue
    lv = PROOF.get(p, {})
    proof = lv.get("level", "exploration") == "proof"
    checks.append({
        "property": p,
        "quick_cmd": f"python3-vt check.py {p} quick",
        "thorough_cmd": f"python3-vt check.py {p} thorough",
        "technique": "contract-based deductive verification of the real source (pyvc + z3)" if proof else "executable contracts on the real functions (bounded stand-in; the verifier does not reach the whole property)",
        "level": "proof" if proof else "exploration",
        "level_note": lv.get("note") or ("All obligations generated from the current source are discharged for all inputs; assumes the library contracts listed in the evidence file and mathematical reals for floats." if proof else "Bounded: contracts evaluated on generated inputs."),
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "No hooks in /repo: the verifier reads the source as it is. fix: commits are listed in known_findings.json."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
