import sys, os, json, random, time, traceback, importlib

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from .base import CASES, Fail, Skip, Log  # noqa

for m in ("cases_model", "cases_solver", "cases_stream", "cases_util"):
    try:
        importlib.import_module("replay." + m)
    except ModuleNotFoundError as e:
        if "replay." not in str(e):
            raise


def one(pid, name, f, seed, size):
    log = Log()
    rng = random.Random(f"{pid}/{name}/{seed}")
    try:
        import numpy

        numpy.random.seed(seed % 2**32)
        random.seed(seed)
        f(rng, size, log)
        return None, log
    except Skip:
        return None, log
    except Fail as e:
        return "contract: " + str(e), log
    except Exception as e:
        return f"unexpected {type(e).__name__}: {e}\n" + "".join(traceback.format_exc()[-1800:]), log


def search(pid, seed, budget, n=None, tier="quick"):
    """Bounded search: returns (evaluations, failure dict or None, samples)."""
    t0 = time.time()
    ev, samples, distinct = 0, [], set()
    cs = CASES.get(pid, [])
    for name, f, quick, thorough in cs:
        total = n or (thorough if tier == "thorough" else quick)
        share = budget / max(1, len(cs))
        t1 = time.time()
        for i in range(total):
            if time.time() - t1 > share:
                break
            s = seed * 1000003 + i
            size = min(8, i // 20)
            bad, log = one(pid, name, f, s, size)
            ev += 1
            h = hash("\n".join(log.lines))
            distinct.add(h)
            if len(samples) < 2 and i in (3, 40) and log.lines:
                samples.append({"case": name, "seed": s, "size": size, "steps": log.lines[:12]})
            if bad:
                return ev, {"property": pid, "case": name, "seed": s, "size": size, "failure": bad, "steps": log.lines}, samples, len(distinct)
    return ev, None, samples, len(distinct)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        for name, f, _, _ in CASES[d["property"]]:
            if name == d["case"]:
                bad, log = one(d["property"], name, f, d["seed"], d["size"])
                print("\n".join(log.lines))
                print("FAILS: " + bad if bad else "does not fail")
                sys.exit(1 if bad else 0)
        sys.exit(2)
    pid, seed, budget, tier, out = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), sys.argv[4], sys.argv[5]
    ev, fail, samples, distinct = search(pid, seed, budget, tier=tier)
    json.dump({"evaluations": ev, "distinct": distinct, "failure": fail, "samples": samples}, open(out, "w"), default=str)
