from .base import *


def rand_physical(rng, log, mtype=None, nmax=5, nonempty=True):
    from sawatabi.model import PhysicalModel

    p = PhysicalModel(mtype=mtype or rng.choice(["ising", "qubo"]))
    pool = ["x[0]", "x[1]", "x[10]", "x[2]", "a", "b[1][0]", "Z"]
    if rng.random() < 0.08:
        pool = pool + [f"v[{i}]" for i in range(12)]
        nmax = 14
    labs = rng.sample(pool, rng.randint(1, nmax))
    used = set()
    for l in labs:
        if rng.random() < 0.6:
            p.add_interaction(l, 1, dyadic(rng, nonzero=True))
            used.add(l)
    s = sorted(labs)
    for i, l in enumerate(s):
        for k in s[i + 1:]:
            if rng.random() < 0.5:
                p.add_interaction((l, k), 2, dyadic(rng, nonzero=True))
                used |= {l, k}
    if not used:
        p.add_interaction(labs[0], 1, dyadic(rng, nonzero=True))
        used.add(labs[0])
    for i, l in enumerate([l for l in labs if l in used]):
        p._label_to_index[l] = i
        p._index_to_label[i] = l
    p._variables_set = set(used)
    p._offset = dyadic(rng) if rng.random() < 0.7 else 0.0
    log("physical", p._mtype, p._raw_interactions, "offset", p._offset, "index", p._label_to_index)
    return p


def phys_energy(p, s):
    return p._offset - sum(c * s[k] for k, c in p._raw_interactions[1].items()) - sum(c * s[a] * s[b] for (a, b), c in p._raw_interactions[2].items())


def solve_args(rng, p):
    kw = {"num_reads": rng.choice([1, 1, 2, 3]), "num_sweeps": rng.choice([1, 2, 3, 6]), "seed": rng.choice([0, 1, 2, 12345, None])}
    if rng.random() < 0.08:
        kw["num_sweeps"] = rng.choice([65, 101, 130, 257])
    if rng.random() < 0.05:
        kw["num_reads"] = rng.choice([8, 17, 33])
    if rng.random() < 0.4:
        kw["pickup_mode"] = rng.choice(["random", "sequential"])
    vals = (-1, 1) if p._mtype == "ising" else (0, 1)
    if rng.random() < 0.5:
        kw["initial_states"] = [{l: rng.choice(vals) for l in p._label_to_index} for _ in range(kw["num_reads"])]
    if rng.random() < 0.4:
        kw["reverse_options"] = rng.choice([{"reverse_period": rng.choice([0, 1, 2, 10, 50]), "reverse_temperature": rng.choice([5.0, 100, 0.5, 1])}, {}])
    if rng.random() < 0.5:
        kw["cooling_rate"] = rng.choice([0.9, 0.5, 0.99])
    if rng.random() < 0.5:
        kw["initial_temperature"] = rng.choice([100.0, 1, 0.1])
    return kw


@case("C12", quick=200, thorough=4000)
def energies(rng, size, log):
    from sawatabi.solver import SawatabiSolver

    p = rand_physical(rng, log, nmax=2 + min(5, size))
    kw = solve_args(rng, p)
    log("solve", kw)
    s = SawatabiSolver()
    ss, stats = s.solve(p, need_stats=True, **kw)
    vals = {-1, 1} if p._mtype == "ising" else {0, 1}
    tot = 0
    for d in ss.data():
        ensure(set(d.sample) == set(p._label_to_index), "sample variables", dict(d.sample))
        ensure(set(d.sample.values()) <= vals, "illegal value", dict(d.sample))
        ensure(close(d.energy, phys_energy(p, d.sample), 1e-6), "energy", d.energy, "true", phys_energy(p, d.sample), dict(d.sample))
        tot += d.num_occurrences
    ensure(tot == kw["num_reads"], "number of samples", tot, kw["num_reads"])
    ensure(len(stats) == kw["num_reads"], "stats per read")
    for r, st in enumerate(stats):
        for k in ("energy_history", "temperature_history", "acceptance_history"):
            ensure(len(st[k]) == kw["num_sweeps"], k, "has", len(st[k]), "entries")
        if kw.get("initial_states"):
            e = phys_energy(p, kw["initial_states"][r])
            ensure(close(st["energy_history"][0], e, 1e-6), "first recorded energy", st["energy_history"][0], "initial state has", e)
    # prefix property: a run with k sweeps ends in the state at the start of sweep k of a longer run
    # (only valid where the random streams agree: sequential pick-up and downhill moves); skip otherwise
    if kw.get("seed") is not None and kw["num_sweeps"] >= 2 and kw.get("pickup_mode") == "sequential" and kw.get("initial_states"):
        k2 = dict(kw)
        k2.update(initial_temperature=1e-12, cooling_rate=0.5, reverse_options=None, num_reads=1, initial_states=kw["initial_states"][:1])
        full, st = s.solve(p, need_stats=True, **k2)
        for q in range(1, k2["num_sweeps"]):
            k3 = dict(k2, num_sweeps=q)
            part = s.solve(p, **k3)
            ensure(close(st[0]["energy_history"][q], phys_energy(p, part.first.sample), 1e-6), "energy recorded at the start of sweep", q, st[0]["energy_history"][q], "state energy", phys_energy(p, part.first.sample))


@case("C13", quick=130, thorough=2500)
def reproducible(rng, size, log):
    import numpy as np
    from sawatabi.solver import SawatabiSolver

    p = rand_physical(rng, log)
    kw = solve_args(rng, p)
    kw["seed"] = rng.choice([0, 0, 1, 7, 2**31, 2**40 + 1, 99])
    log("solve", kw)
    before = copy.deepcopy(vars(p))
    ist, ro = copy.deepcopy(kw.get("initial_states")), copy.deepcopy(kw.get("reverse_options"))

    def res(s):
        r, st = s.solve(p, need_stats=True, **kw)
        return [(dict(d.sample), d.energy, d.num_occurrences) for d in r.data()], [{k: [float(x) for x in v] for k, v in q.items()} for q in st]

    s = SawatabiSolver()
    a = res(s)
    # other use of the solver object and of the global generators
    s.solve(rand_physical(rng, lambda *z: None), num_sweeps=2, seed=rng.choice([None, 3]))
    np.random.random(3)
    b = res(s)
    c = res(SawatabiSolver())
    ensure(a == b, "second run with the same seed differs", a, b)
    ensure(a == c, "run of a fresh solver with the same seed differs")
    ensure(before == vars(p), "physical model modified")
    ensure(ist == kw.get("initial_states"), "initial states modified", ist, kw.get("initial_states"))
    ensure(ro == kw.get("reverse_options"), "reverse options modified")


class FakeComposite:
    def __init__(self):
        self.calls = []

    def sample(self, bqm, **kw):
        self.calls.append((bqm, kw))
        return "sampled"


def same_bqm(b, p, sign=-1.0):
    import dimod

    lin, quad = p._raw_interactions[1], p._raw_interactions[2]
    ensure(b.vartype is (dimod.SPIN if p._mtype == "ising" else dimod.BINARY), "vartype handed to the back end")
    ensure(b.offset == p._offset, "offset handed to the back end")
    ensure(set(b.variables) == set(p._label_to_index), "variables handed to the back end")
    for v in b.variables:
        ensure(b.linear[v] == sign * lin.get(v, 0.0), "linear bias handed to the back end", v, b.linear[v])
    for (u, v), c in quad.items():
        ensure(b.quadratic[u, v] == sign * c, "quadratic bias handed to the back end", u, v)
    ensure(len(b.quadratic) == len(quad), "number of quadratic biases")


def local_solver(exact):
    from unittest import mock
    from sawatabi.solver import LocalSolver

    return LocalSolver(exact=exact)


def dwave_solver():
    from unittest import mock
    import sawatabi.solver.dwave_solver as dw

    with mock.patch.object(dw.DWaveSolver, "_create_composite", lambda self, *a, **k: FakeComposite()):
        s = dw.DWaveSolver(endpoint="e", token="t")
    for k, v in vars(s).items():
        if isinstance(v, FakeComposite):
            return s, v
    raise Skip()


class Net:
    """Intercepts HTTP at the session level: records the prepared request, returns a canned response."""

    def __init__(self, status=200, body=None):
        self.status, self.body, self.reqs = status, body if body is not None else {"spins": [], "energies": []}, []

    def __enter__(self):
        import requests

        self.old = requests.sessions.Session.send
        net = self

        def send(sess, req, **kw):
            import json as J

            net.reqs.append(req)
            r = requests.models.Response()
            r.status_code = net.status
            r._content = J.dumps(net.body).encode()
            r.encoding = "utf-8"
            r.url = req.url
            r.request = req
            return r

        requests.sessions.Session.send = send
        return self

    def __exit__(self, *a):
        import requests

        requests.sessions.Session.send = self.old


@case("C14", quick=150, thorough=2000)
def admission(rng, size, log):
    from sawatabi.model import PhysicalModel, LogicalModel
    from sawatabi.solver import SawatabiSolver, LocalSolver, OptiganSolver

    kind = rng.choice(["local", "exact", "dwave", "optigan", "sawatabi", "sawatabi"])
    mt = rng.choice(["ising", "qubo"])
    log(kind, mt)
    empty = PhysicalModel(mtype=mt)
    empty._offset = dyadic(rng)
    bad = rng.choice([None, 3, "model", LogicalModel(mtype=mt), {}, object()])
    p = rand_physical(rng, log, mtype=mt)
    only = rng.random()
    if only < 0.25:
        p = PhysicalModel(mtype=mt)
        p.add_interaction("q", 1, 1.0)
        p._label_to_index, p._index_to_label = {"q": 0}, {0: "q"}
    elif only < 0.5:
        p = PhysicalModel(mtype=mt)
        p.add_interaction(("q", "r"), 2, 1.0)
        p._label_to_index, p._index_to_label = {"q": 0, "r": 1}, {0: "q", 1: "r"}
    if kind in ("local", "exact"):
        s = LocalSolver(exact=kind == "exact")
        ctr = Spy(s._solver)
        s._solver = ctr
        for f in (s.solve, s.default_beta_range):
            raises(TypeError, f, bad)
            raises(ValueError, f, empty)
        ensure(not ctr.calls, "back end contacted for a refused model")
        s.default_beta_range(p)
        kw = {"seed": 3, "num_reads": 2} if kind == "local" else {}
        r = s.solve(p, **kw)
        ensure(len(ctr.calls) == 1, "back end calls", len(ctr.calls))
        a, k = ctr.calls[0]
        same_bqm(a[0] if a else k["bqm"], p)
        k.pop("bqm", None)
        if kind == "local":
            ensure(k == kw, "options handed to the back end", k)
        for d in r.data():
            ensure(set(d.sample) == set(p._label_to_index), "sample variables")
            ensure(close(d.energy, phys_energy(p, d.sample)), "energy", d.energy)
        ensure("execution_sec" in r.info.get("timing", {}) and r.info["timing"]["execution_sec"] >= 0, "timing")
    elif kind == "dwave":
        s, comp = dwave_solver()
        raises(TypeError, s.solve, bad)
        raises(ValueError, s.solve, empty)
        ensure(not comp.calls, "back end contacted for a refused model")
        kw = {"num_reads": 5, "annealing_time": 3}
        r = s.solve(p, **kw)
        ensure(r == "sampled" and len(comp.calls) == 1, "result of the back end")
        same_bqm(comp.calls[0][0], p)
        ensure(comp.calls[0][1] == kw, "options handed to the back end", comp.calls[0][1])
    elif kind == "optigan":
        s = OptiganSolver(endpoint="http://localhost/e", token="T")
        with Net(rng.choice([200, 200, 200, 500, 503, 404, 401, 400, 201, 202, 203, 204, 206, 226, 299, 302, 304, 100, 0, rng.randint(100, 599)])) as net:
            raises(TypeError, s.solve, bad)
            raises(ValueError, s.solve, empty)
            ensure(not net.reqs, "request sent for a refused model")
            if mt == "ising":
                raises(ValueError, s.solve, p)
                ensure(not net.reqs, "request sent for an Ising model")
            else:
                if net.status == 200:
                    net.body = {"spins": [[1] * len(p._label_to_index)], "energies": [0.5]}
                    s.solve(p)
                    ensure(len(net.reqs) == 1, "requests sent", len(net.reqs))
                else:
                    net.body = {"spins": [[1] * len(p._label_to_index)], "energies": [0.5]}
                    raises(ValueError, s.solve, p)
    else:
        s = SawatabiSolver()
        raises(TypeError, s.solve, bad)
        raises(ValueError, s.solve, empty)
        vals = (-1, 1) if mt == "ising" else (0, 1)
        st = lambda: {l: rng.choice(vals) for l in p._label_to_index}
        n = rng.choice([1, 2, 3])
        m = rng.choice([x for x in (1, 2, 3, 4) if x != n])
        raises(ValueError, s.solve, p, num_reads=n, num_sweeps=1, initial_states=[st() for _ in range(m)])
        raises(ValueError, s.solve, p, num_sweeps=1, pickup_mode=rng.choice(["", "Random", "seq", None, "randomx"]))
        raises(ValueError, s.solve, p, num_sweeps=1, reverse_options={"reverse_period": 1})
        raises(ValueError, s.solve, p, num_sweeps=1, reverse_options={"reverse_temperature": 1})
        raises(TypeError, s.solve, p, num_sweeps=1, reverse_options=[1])
        raises(ValueError, s.solve, p, num_sweeps=1, reverse_options={"other": 0})
        for kw in ({"pickup_mode": "random"}, {"pickup_mode": "sequential"}, {"initial_states": [st() for _ in range(n)], "num_reads": n}, {"initial_states": [], "num_reads": n}, {"initial_states": None}, {"reverse_options": {"reverse_period": rng.choice([0, 1, 5]), "reverse_temperature": rng.choice([1.0, 50])}}, {"reverse_options": {}}, {"reverse_options": None}, {"reverse_options": {"reverse_period": 1, "reverse_temperature": 1.0, "extra": 1}}):
            s.solve(p, num_sweeps=2, seed=0, **kw)


class Spy:
    def __init__(self, o):
        self.o, self.calls = o, []

    def sample(self, *a, **k):
        self.calls.append((a, dict(k)))
        return self.o.sample(*a, **k)

    def __getattr__(self, n):
        return getattr(self.o, n)


@case("C15", quick=130, thorough=2000)
def optigan(rng, size, log):
    import gzip, json, tempfile, os, shutil
    from unittest import mock
    from sawatabi.solver import OptiganSolver

    p = rand_physical(rng, log, mtype="qubo")
    before = copy.deepcopy(vars(p))
    d = tempfile.mkdtemp()
    try:
        cfg = os.path.join(d, "o.yml")
        with open(cfg, "w") as f:
            f.write("api:\n  endpoint: http://localhost/cfg\n  token: CFGTOKEN\n")
        home = os.path.join(d, "home")
        os.mkdir(home)
        with open(os.path.join(home, ".optigan.yml"), "w") as f:
            f.write("api:\n  endpoint: http://localhost/home\n  token: HOMETOKEN\n")
        mode = rng.choice(["explicit", "config", "both", "home", "explicit_home", "partial"])
        kw = {}
        want = ("http://localhost/x", "XT")
        if mode in ("explicit", "both", "explicit_home"):
            kw.update(endpoint="http://localhost/x", token="XT")
        if mode in ("config", "both"):
            kw["config"] = cfg
        if mode == "partial":
            # only one of the two is explicit: the configuration file counts
            kw["config"] = cfg
            kw[rng.choice(["endpoint", "token"])] = "http://localhost/x"
        if mode in ("config", "partial"):
            want = ("http://localhost/cfg", "CFGTOKEN")
        if mode == "home":
            want = ("http://localhost/home", "HOMETOKEN")
        n = len(p._label_to_index)
        rows = rng.randint(1, 3) if rng.random() < 0.9 else rng.randint(10, 15)
        spins = [[rng.choice([0, 1]) for _ in range(n)] for _ in range(rows)]
        energies = [float(i) * rng.choice([1, -1]) + 0.25 for i in range(rows)]
        body = {"spins": spins, "energies": energies, "execution_time": 3, "other": {"a": 1}}
        steps, timeout = rng.choice([0, 1, 10, 99, 10**6]), rng.choice([0, 1, 1000, 123456, 10**7])
        dup, gq, gr = rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5
        skw = {"num_unit_steps": steps, "timeout": timeout, "duplicate": dup, "gzip_request": gq, "gzip_response": gr}
        defaults = rng.random() < 0.15
        log(mode, skw, "defaults" if defaults else "", spins)
        with mock.patch.dict(os.environ, {"HOME": home if "home" in mode else d}):
            s = OptiganSolver(**kw)
            with Net(200, body) as net:
                r = s.solve(p) if defaults else s.solve(p, **skw)
        if defaults:
            steps, timeout, dup, gq, gr = 10, 10000, False, True, True
        ensure(len(net.reqs) == 1, "requests", len(net.reqs))
        q = net.reqs[0]
        ensure(q.method == "POST" and q.url == want[0], "endpoint", q.url, "expected", want[0])
        ensure(q.headers.get("Authorization") == "Bearer " + want[1], "token", q.headers.get("Authorization"))
        data = q.body
        if gq:
            ensure(q.headers.get("Content-Encoding") == "gzip", "request not marked as compressed")
            data = gzip.decompress(data)
        else:
            ensure(q.headers.get("Content-Encoding") is None, "request marked as compressed")
            ensure("application/json" in q.headers.get("Content-Type", ""), "content type")
        pl = json.loads(data)
        if gr:
            ensure(q.headers.get("Accept-Encoding") == "gzip", "compressed response not asked for")
        else:
            ensure(q.headers.get("Accept-Encoding") in (None, "gzip, deflate", "gzip, deflate, br", "gzip, deflate, br, zstd", "gzip, deflate, zstd"), "compressed response asked for", q.headers.get("Accept-Encoding"))
        norm = lambda e: [min(e[0], e[1]), max(e[0], e[1]), e[2]]
        pol = [[p._label_to_index[k]] * 2 + [-c] for k, c in p._raw_interactions[1].items()] + [[p._label_to_index[a], p._label_to_index[b], -c] for (a, b), c in p._raw_interactions[2].items()]
        ensure(sorted(map(norm, pl["polynomial"])) == sorted(map(norm, pol)), "polynomial", pl["polynomial"], pol)
        ensure(pl["num_unit_steps"] == steps and pl["timeout"] == timeout, "steps/timeout", pl["num_unit_steps"], pl["timeout"])
        ensure(("outputs" in pl) == dup and (not dup or pl["outputs"].get("duplicate") is True), "duplicate option", pl.get("outputs"))
        exp = collections.Counter()
        en = {}
        for sp, e in zip(spins, energies):
            t = tuple(sp)
            exp[t] += 1
            en.setdefault(t, set()).add(e)
        got = collections.Counter()
        for dd in r.data():
            t = tuple(dd.sample[p._index_to_label[i]] for i in range(n))
            ensure(set(dd.sample) == set(p._label_to_index), "sample variables", dict(dd.sample))
            got[t] += dd.num_occurrences
            ensure(dd.energy in en.get(t, ()), "energy of", t, dd.energy, en.get(t))
        ensure(got == exp, "samples", got, "expected", exp)
        ensure(r.info == body, "info", r.info)
        ensure(before == vars(p), "physical model changed")
    finally:
        shutil.rmtree(d)
