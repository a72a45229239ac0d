from .base import *


class Bag:
    """Beam bag state: reading is lazy, as the runner's is."""

    def __init__(self, items=()):
        self.items = list(items)

    def read(self):
        return iter(list(self.items))

    def add(self, x):
        self.items.append(copy.copy(x) if isinstance(x, list) else x)

    def clear(self):
        self.items = []


def ts(x):
    from apache_beam.utils.timestamp import Timestamp

    return Timestamp(x)


class Stream:
    def __init__(self, algorithm, options, initial_mtype="ising"):
        from sawatabi.algorithm import Window

        self.dofn = Window.SolveDoFn()
        self.algorithm, self.options, self.mt = algorithm, options, initial_mtype
        self.t, self.e, self.m, self.s = Bag(), Bag(), Bag(), Bag()

    def state(self):
        return [list(b.items) for b in (self.t, self.e, self.m, self.s)]

    def step(self, timestamp, elements, map_fn, solve_fn, unmap_fn, solver="SOLVER"):
        return list(self.dofn.process((None, elements), timestamp=timestamp, timestamp_state=self.t, elements_state=self.e, model_state=self.m, sampleset_state=self.s, algorithm=self.algorithm, algorithm_options=self.options, map_fn=map_fn, solve_fn=solve_fn, unmap_fn=unmap_fn, solver=solver, initial_mtype=self.mt))


ALGS = ["window", "delta", "incremental", "partial", "attenuation"]


def windows(rng, alg, size):
    """Time ordered windows of distinct elements, as the Beam stages of each algorithm produce them."""
    n = rng.randint(2, 6 + size) if rng.random() < 0.95 else rng.randint(20, 40)
    t, els = rng.choice([0.0, 0.0, 0.0, 1000.0, 0.5]), []
    for i in range(n):
        t += rng.choice([0.0, 1.0, 1.0, 2.0, 5.0])
        els.append((t, (i, rng.choice([3, 1, 7]))))
    out = []
    if alg in ("incremental", "partial"):
        w = rng.choice([2.0, 3.0, 5.0])
        k = 0.0
        while k <= t:
            e = [x for x in els if k <= x[0] < k + w]
            if e:
                out.append((k + w, e))
            k += w
    else:
        size_, per = rng.choice([(4.0, 2.0), (3.0, 3.0), (6.0, 1.0), (10.0, 5.0)])
        k = -size_ + per
        while k <= t:
            e = [x for x in els if k <= x[0] < k + size_]
            if e:
                out.append((k + size_, e))
            k += per
    for _, e in out:
        rng.shuffle(e)
    return out


def model_for(rng):
    from sawatabi.model import LogicalModel

    m = LogicalModel(mtype=rng.choice(["ising", "qubo"]))
    x = m.variables("x", shape=(3,))
    for i in range(3):
        if rng.random() < 0.8:
            m.add_interaction(x[i], coefficient=1.0 + i, timestamp=rng.choice([1, 2, 3.5, 10]), scale=rng.choice([1.0, 0.5]), attributes={"ts": rng.choice([1, 2, 8])})
    m.add_interaction((x[0], x[1]), coefficient=-1.0, timestamp=rng.choice([1, 4]), attributes={"ts": rng.choice([1, 2, 8])})
    return m


class Custom(Exception):
    pass


def run_stream(rng, size, log, faults):
    alg = rng.choice(ALGS)
    opts = {}
    if alg == "partial":
        cut = rng.choice([0, 1, 2, 3])
        opts["filter_fn"] = lambda e: e[1][0] % 4 <= cut
    if alg == "attenuation":
        opts["attenuation.key"] = rng.choice(["timestamp", "attributes.ts"])
        opts["attenuation.min_scale"] = rng.choice([0.0, 0.1, 0.5, 1.0])
    mt = rng.choice(["ising", "qubo"])
    st = Stream(alg, opts, mt)
    ws = windows(rng, alg, size)
    log(alg, mt, ws)
    prev, pm, ps, pt = [], None, None, None
    for k, (T, els) in enumerate(ws):
        if k and rng.random() < 0.15:
            T = T - rng.choice([0.0, 0.125, 1.0, 20.0])  # the same instant, or a late window
        calls = []
        fault = rng.choice(["map", "solve", "unmap"]) if faults and rng.random() < 0.4 else None
        exc = rng.choice([ValueError("boom"), KeyError("k"), RuntimeError("r"), TypeError("t"), ZeroDivisionError("z"), Exception(), StopIteration(3), AssertionError(), OSError(2, "x"), TimeoutError("late"), Custom("\u03bb {x} %s"), ImportError("i"), MemoryError(), RecursionError("deep"), NotImplementedError()])
        model = model_for(rng)
        sampleset = ("sampleset", k)
        scales = []

        def map_fn(a, b, e, i, o):
            calls.append(("map", a, b, list(e), list(i), list(o)))
            if fault == "map":
                raise exc
            return model

        def solve_fn(s, m, b, e, i, o):
            calls.append(("solve", s, m, b, list(e), list(i), list(o)))
            scales.append(clone_array(m._interactions_array))
            if fault == "solve":
                raise exc
            return sampleset

        def unmap_fn(ss, e, i, o):
            calls.append(("unmap", ss, list(e), list(i), list(o)))
            if fault == "unmap":
                raise exc
            return f"result {k}"

        before = st.state()
        given = list(els)
        pre_model = clone_array(model._interactions_array)
        out = st.step(ts(T), els, map_fn, solve_fn, unmap_fn)
        ensure(els == given, "window's elements modified")
        if pt is not None and T < pt:
            log("late window", T, "after", pt)
            ensure(len(out) == 1 and isinstance(out[0], str) and "outdated" in out[0], "late window gave", out)
            ensure(not calls, "late window processed")
            ensure(str(ts(T).to_utc_datetime()) in out[0] and str(ts(pt).to_utc_datetime()) in out[0], "outdated message", out[0], T, pt)
            ensure(st.state() == before, "late window changed the state")
            continue
        es = sorted(els)
        if alg == "incremental":
            es = sorted(es + prev)
        elif alg == "partial":
            es = sorted([p for p in prev if opts["filter_fn"](p)] + es)
        inc = [e for e in es if e not in prev]
        outg = [p for p in prev if p not in es]
        ensure(calls and calls[0][0] == "map", "map_fn not called")
        c = calls[0]
        if pm is None:
            ensure(type(c[1]).__name__ == "LogicalModel" and c[1]._mtype == mt and c[1]._interactions_length == 0 and not c[1]._variables, "initial model", c[1])
        else:
            ensure(c[1] is pm, "previous model handed to map_fn")
        ensure(c[2] is ps or c[2] == ps, "previous sample set handed to map_fn", c[2], ps)

        def data(x, what):
            ensure(x[0] == es, what, "elements", x[0], "expected", es)
            ensure(x[1] == inc, what, "incoming", x[1], "expected", inc)
            ensure(x[2] == outg, what, "outgoing", x[2], "expected", outg)

        data(c[3:], "map_fn")
        want = ["map"] if fault == "map" else ["map", "solve"] if fault == "solve" else ["map", "solve", "unmap"]
        ensure([q[0] for q in calls] == want, "phases called", [q[0] for q in calls], "expected", want)
        if len(calls) > 1:
            c = calls[1]
            ensure(c[1] == "SOLVER" and c[2] is model, "solver or model handed to solve_fn")
            ensure(c[3] is ps or c[3] == ps, "previous sample set handed to solve_fn", c[3])
            data(c[4:], "solve_fn")
        if len(calls) > 2:
            c = calls[2]
            ensure(c[1] is sampleset, "sample set handed to unmap_fn")
            data(c[2:], "unmap_fn")
        ensure(len(out) == 1, "outputs", out)
        if fault:
            ensure(isinstance(out[0], str) and fault in out[0].split(":")[0] and all(f not in out[0].split(":")[0] for f in ("map", "solve", "unmap") if f != fault and not (f == "map" and fault == "unmap")), "message", out[0][:80])
            ensure("Failed" in out[0], "message", out[0][:80])
        else:
            ensure(out[0] == f"result {k}", "output", out)
        prev, pt = es, T
        if fault != "map":
            pm = model
            if fault != "solve":
                ps = sampleset
        ensure([float(x) for x in st.t.items] == [T], "timestamp state", st.t.items)
        ensure(st.e.items == [es], "elements state", st.e.items, "expected", es)
        ensure((st.m.items == [] and pm is None) or (len(st.m.items) == 1 and st.m.items[0] is pm), "model state", len(st.m.items))
        ensure((st.s.items == [] and ps is None) or (len(st.s.items) == 1 and (st.s.items[0] is ps or st.s.items[0] == ps)), "sample set state", st.s.items)
        if alg != "attenuation" and scales:
            ensure(same(scales[0], pre_model), "model changed before solving")


@case("C16", quick=150, thorough=3000)
def stream(rng, size, log):
    run_stream(rng, size, log, False)


@case("C16,C17", quick=150, thorough=3000)
def stream_faults(rng, size, log):
    run_stream(rng, size, log, True)


@case("C18", quick=150, thorough=3000)
def attenuation(rng, size, log):
    m = new_model(rng, log)
    n = rng.randint(1, 3 + size)
    key = rng.choice(["timestamp", "attributes.ts"])
    ms = rng.choice([0.0, 0.1, 0.5, 1.0, 0.25, 0.9999, 0.001])
    tss = rng.choice([[5], [0], [0, 1, 2, 3], [7, 7 + 1e-4], [0, 10**9], list(range(50)), [100.5, 7, 7, 3.25], [-4, 0, 4], [1602345678, 1602345679.5]])
    for i in range(n):
        m.add_interaction(rand_target(rng, m), name=f"i{i}", coefficient=dyadic(rng), scale=rng.choice([1.0, 3.0, 0.5]), timestamp=rng.choice(tss), attributes={"ts": rng.choice(tss), "o": i})
    for i in range(1, n):
        if rng.random() < 0.3:
            m.remove_interaction(name=f"i{i}")
    if rng.random() < 0.2:
        m.add_interaction(rand_target(rng, m), name="extreme", coefficient=1.0, timestamp=10**10, attributes={"ts": -(10**10)})
        m.remove_interaction(name="extreme")
    A0 = clone_array(m._interactions_array)
    live = [i for i in range(len(A0["name"])) if not A0["removed"][i]]
    b0 = snap(m)
    alg = "attenuation" if rng.random() < 0.8 else rng.choice(["window", "delta", "incremental", "partial"])
    log(alg, key, ms, A0["name"], A0[key], A0["removed"])
    st = Stream(alg, {"attenuation.key": key, "attenuation.min_scale": ms, "filter_fn": lambda e: True}, m._mtype)
    seen = []

    def solve_fn(s, mm, *a):
        seen.append((mm, clone_array(mm._interactions_array)))
        return 1

    out = st.step(ts(10), [(1.0, (0, 1))], lambda *a: m, solve_fn, lambda *a: "ok")
    ensure(out == ["ok"] and len(seen) == 1 and seen[0][0] is m, "step failed", out)
    A = seen[0][1]
    if alg != "attenuation":
        ensure(same(A, A0), "model changed by algorithm", alg)
        return
    ensure(A["name"] == [A0["name"][i] for i in live], "interactions", A["name"])
    lo, hi = min(A0[key][i] for i in live), max(A0[key][i] for i in live)
    for j, i in enumerate(live):
        t = A0[key][i]
        w = A0["scale"][i] if lo == hi else ms + (1 - ms) * (t - lo) / (hi - lo)
        ensure(close(A["scale"][j], w, 1e-9), "scale of", A0["name"][i], A["scale"][j], "expected", w)
        for c in A0:
            if c not in ("scale", "dirty"):
                ensure(same(A[c][j], A0[c][i]), "property", c, "of", A0["name"][i], "changed")
    b = snap(m)
    for f in ("mtype", "variables", "offset", "deleted", "fixed", "constraints", "attrs"):
        ensure(same(b[f], b0[f]), f, "changed")


class Idx:
    def __init__(self):
        self.v = 0

    def read(self):
        return self.v

    def add(self, k):
        self.v += k


@case("C24", quick=100, thorough=1000)
def dofns(rng, size, log):
    from sawatabi.algorithm.abstract_algorithm import AbstractAlgorithm as A

    st = Idx()
    f = A.IndexAssigningStatefulDoFn()
    vals = [rng.choice([None, 0, 3, "s", [1], (1, 2), {"a": 1}, 2.5]) for _ in range(rng.randint(1, 5 + size) if rng.random() < 0.95 else 150)]
    log(vals)
    for k, v in enumerate(vals):
        out = list(f.process((None, v), index=st))
        ensure(len(out) == 1 and out[0][0] == k and out[0][1] is v and len(out[0]) == 2, "element", k, out)
    t = rng.choice([0, 1.5, -2, 1602345678.25, 10**9, 0.001, 1602345678.123456, 253402300799])
    v = rng.choice(vals)
    out = list(A.WithTimestampTupleFn().process(v, timestamp=ts(t)))
    ensure(len(out) == 1 and out[0] == (float(t), v) and type(out[0][0]) is float, "WithTimestampTupleFn", out)
    out = list(A.WithTimestampStrFn().process(v, timestamp=ts(t)))
    ensure(len(out) == 1 and str(ts(t).to_utc_datetime()) in out[0] and out[0].endswith(str(v)) and out[0] == f"[{ts(t).to_utc_datetime()}] {v}", "WithTimestampStrFn", out)
