from .base import *


@case("C01", quick=250, thorough=4000)
def store(rng, size, log):
    import pyqubo, time

    m = new_model(rng, log)
    rows = []  # oracle
    attrs = set()

    def find(n):
        for r in rows:
            if r["name"] == n:
                return r
        return None

    def expect():
        A = wf(m)
        ensure(m._interactions_length == len(rows), "number of interactions", m._interactions_length, len(rows))
        ensure(set(m._interactions_attrs) == attrs, "attribute columns", m._interactions_attrs, attrs)
        byname = {A["name"][i]: i for i in range(len(rows))}
        for r in rows:
            ensure(r["name"] in byname, "interaction lost:", r["name"])
            i = byname[r["name"]]
            for k in COLS:
                if k == "timestamp" and isinstance(r[k], list):
                    ensure(r[k][0] <= A[k][i] <= r[k][1], "default timestamp of", r["name"], A[k][i], "not in", r[k])
                    r[k] = A[k][i]
                    continue
                if k in r:
                    ensure(same(A[k][i], r[k]), "column", k, "of", r["name"], "is", A[k][i], "expected", r[k])
            for a in attrs:
                ensure(same(A[a][i], r["attrs"].get(a, float("nan"))), "attribute", a, "of", r["name"], "is", A[a][i], "expected", r["attrs"].get(a))
            if rng.random() < 0.2:
                got = m.get_attributes(name=r["name"])
                ensure(set(got) == attrs and all(same(got[a], r["attrs"].get(a, float("nan"))) for a in attrs), "get_attributes", r["name"], got)
                if attrs:
                    a = rng.choice(sorted(attrs))
                    ensure(same(m.get_attribute(name=r["name"], key=a), r["attrs"].get(a, float("nan"))), "get_attribute", a)

    def info(t):
        if isinstance(t, tuple):
            p = tuple(sorted(t, key=lambda v: v.label))
            return {"body": 2, "interacts": p, "key": (p[0].label, p[1].label), "name": p[0].label + "*" + p[1].label, "key_0": p[0].label, "key_1": p[1].label}
        return {"body": 1, "interacts": t, "key": t.label, "name": t.label, "key_0": t.label, "key_1": float("nan")}

    def rattrs():
        return {rng.choice(["k", "k1", "name", "", "x y"]): rng.choice([0, 1, 2.5, None, "", "v", [], [1, 2], False, {"z": 1}, ()]) for _ in range(rng.choice([0, 1, 1, 2, 3]))}

    def refused(kinds, f, *a, **k):
        before = snap(m)
        raises(kinds, f, *a, **k)
        d = diff(before, snap(m))
        ensure(not d, "refused call changed the model:", d)

    def some_name():
        return rng.choice([r["name"] for r in rows]) if rows and rng.random() < 0.8 else rng.choice(["n1", "n2", "nowhere", "x[0]"])

    for _ in range(rng.randint(1, 3 + size)):
        op = rng.choice(["add", "add", "add", "update", "update", "remove", "bad"])
        t = rand_target(rng, m)
        if op == "add":
            kw = {}
            if rng.random() < 0.8:
                kw["coefficient"] = rng.choice([dyadic(rng), 0, 0.0, True, dyadic(rng)])
            if rng.random() < 0.5:
                kw["scale"] = rng.choice([0, 0.5, 2, -1.0])
            if rng.random() < 0.6:
                kw["attributes"] = rng.choice([None, rattrs(), rattrs(), rattrs()])
            if rng.random() < 0.5:
                kw["timestamp"] = rng.choice([0, 0.0, 7, 1.25, -4])
            if rng.random() < 0.5:
                kw["name"] = rng.choice(["n1", "n2", "n3", "x[0]", "", "a*b"])
            log("add_interaction", t, kw)
            r = info(t)
            nm = kw.get("name") or r["name"]
            old = find(nm)
            if old is not None:
                refused(ValueError, m.add_interaction, t, **kw)
            else:
                at = copy.deepcopy(kw.get("attributes"))
                t0 = time.time()
                m.add_interaction(t, **kw)
                t1 = time.time()
                r.update(name=nm, coefficient=kw.get("coefficient", 0.0), scale=kw.get("scale", 1.0), timestamp=kw.get("timestamp", [t0, t1]), dirty=True, removed=False)
                r["attrs"] = {f"attributes.{k}": v for k, v in (at or {}).items()}
                attrs |= set(r["attrs"])
                rows.append(r)
                ensure(at == kw.get("attributes"), "caller's attributes changed")
        elif op == "update":
            kw = {}
            for k in ("coefficient", "scale"):
                if rng.random() < 0.4:
                    kw[k] = rng.choice([0, 0.0, dyadic(rng), 3])
            if rng.random() < 0.4:
                kw["attributes"] = rattrs()
            if rng.random() < 0.4:
                kw["timestamp"] = rng.choice([0, 9, 2.5])
            byname = rng.random() < 0.5
            nm = some_name() if byname else info(t)["name"]
            log("update_interaction", nm if byname else t, kw)
            a = {"name": nm} if byname else {"target": t}
            r = find(nm)
            if r is None and byname:
                refused(KeyError, m.update_interaction, name=nm, **kw)
            elif r is not None and r["removed"]:
                refused(ValueError, m.update_interaction, **a, **kw)
            else:
                at = copy.deepcopy(kw.get("attributes"))
                t0 = time.time()
                m.update_interaction(**a, **kw)
                t1 = time.time()
                if r is None:
                    r = info(t)
                    r.update(coefficient=0.0, scale=1.0, dirty=True, removed=False, attrs={})
                    rows.append(r)
                for k in ("coefficient", "scale"):
                    if k in kw:
                        r[k] = kw[k]
                r["timestamp"] = kw.get("timestamp", [t0, t1])
                r["dirty"] = True
                for k, v in (at or {}).items():
                    r["attrs"][f"attributes.{k}"] = v
                    attrs.add(f"attributes.{k}")
        elif op == "remove":
            byname = rng.random() < 0.6
            nm = some_name() if byname else info(t)["name"]
            log("remove_interaction", nm if byname else t)
            a = {"name": nm} if byname else {"target": t}
            r = find(nm)
            if r is None:
                refused(KeyError, m.remove_interaction, **a)
            else:
                m.remove_interaction(**a)
                r["removed"] = True
                r["dirty"] = True
        else:
            k = rng.randrange(8)
            log("bad call", k)
            if k == 0:
                refused(TypeError, m.add_interaction, t, name="q", coefficient="1")
            elif k == 1:
                refused(TypeError, m.add_interaction, t, name="q", scale="1")
            elif k == 2:
                refused(TypeError, m.add_interaction, t, name="q", attributes=[("a", 1)])
            elif k == 3:
                refused(TypeError, m.add_interaction, t, name="q", timestamp="1")
            elif k == 4:
                v = rng.choice(all_vars(m))
                refused(ValueError, m.add_interaction, (v, v), name="q")
            elif k == 5:
                refused(TypeError, m.add_interaction, tuple(all_vars(m)[:1]) * 3, name="q")
            elif k == 6:
                refused(ValueError, m.update_interaction, target=t, name="n1", coefficient=1.0)
            else:
                refused(ValueError, m.update_interaction, coefficient=1.0)
        # a converted model: marks cleared, removed rows gone
        if rng.random() < 0.08:
            log("to_physical")
            m.to_physical()
            rows[:] = [r for r in rows if not r["removed"]]
            for r in rows:
                r["dirty"] = False
        expect()


def expected_physical(m, ph):
    """Independent sums over the live interactions and the constraints' polynomials."""
    import pyqubo

    def ev(x):
        if isinstance(x, pyqubo.core.Coefficient):
            return x.evaluate(feed_dict=ph)
        if isinstance(x, pyqubo.core.Express):
            return (x + pyqubo.Binary("q")).compile().to_qubo(feed_dict=ph)[1]
        return x

    A = m._interactions_array
    lin, quad = collections.defaultdict(float), collections.defaultdict(float)
    off = ev(m._offset)
    mag = collections.defaultdict(float)
    for i in range(m._interactions_length):
        if A["removed"][i]:
            continue
        c = ev(A["coefficient"][i]) * ev(A["scale"][i])
        (lin if A["body"][i] == 1 else quad)[A["key"][i]] += c
        mag[A["key"][i]] += abs(c)
    for c in m._constraints.values():
        l, q = constraint_qubo(c)
        o = 0.0
        if m._mtype == "ising":
            l, q, o = to_spin(l, q)
        for k, v in l.items():
            lin[k] += v
            mag[k] += abs(v)
        for k, v in q.items():
            quad[k] += v
            mag[k] += abs(v)
        off += o
    return prune(lin, mag), prune(quad, mag), off


class Entries(dict):
    """Expected entries; `unsure` are keys whose terms cancel up to rounding."""


def prune(d, mag):
    out = Entries()
    out.unsure = set()
    for k, v in d.items():
        if v and abs(v) <= 1e-14 * mag[k]:
            out.unsure.add(k)
        elif v:
            out[k] = v
        elif mag[k] > 2.0**20:
            out.unsure.add(k)
    return out


def rand_full_model(rng, size, log, placeholders=True, constraints=True, dele=True):
    import pyqubo

    m = new_model(rng, log)
    phs = placeholders and rng.random() < 0.35
    ph = {"A": 2.0, "B": -0.5, "C": 0.0} if phs else {}
    fill(rng, m, log, rng.randint(0, 3 + size), attrs=rng.random() < 0.6)
    if phs:
        for _ in range(rng.randint(1, 2)):
            P = pyqubo.Placeholder(rng.choice("ABC"))
            try:
                k = rng.randrange(3)
                kw = {"coefficient": P} if k == 0 else {"scale": P, "coefficient": dyadic(rng)} if k == 1 else {"coefficient": P * 2.0 + 1.0}
                t = rand_target(rng, m)
                m.add_interaction(t, name=f"ph{rng.randint(0, 9)}", **kw)
                log("add_interaction with placeholder", t, kw)
            except ValueError:
                pass
    if rng.random() < 0.6:
        off = dyadic(rng)
        if phs and rng.random() < 0.4:
            off = pyqubo.Placeholder("A") * 3.0
        m.offset(off)
        log("offset", off)
    if rng.random() < 0.3 and m._interactions_length and m._variables:
        # cancel an entry exactly
        A = m._interactions_array
        i = rng.randrange(m._interactions_length)
        if not A["removed"][i] and isinstance(A["coefficient"][i], (int, float)) and isinstance(A["scale"][i], (int, float)):
            m.add_interaction(A["interacts"][i], name="cancel", coefficient=-A["coefficient"][i] * A["scale"][i])
            log("cancel", A["name"][i])
    if constraints and rng.random() < 0.6:
        for j in range(rng.randint(1, 3)):
            pool = None
            if rng.random() < 0.15:
                T = pyqubo.Spin if m._mtype == "ising" else pyqubo.Binary
                pool = [T("undeclared"), T("w[3]")] + all_vars(m)
            m.add_constraint(rand_constraint(rng, m, log, f"c{j}", pool))
    if dele and rng.random() < 0.3:
        v = rng.choice(all_vars(m))
        m.delete_variable(v)
        log("delete_variable", v)
    return m, ph


@case("C02,C04", quick=170, thorough=2500)
def physical(rng, size, log):
    m, ph = rand_full_model(rng, size, log)
    lin, quad, off = expected_physical(m, ph)
    mt = m._mtype
    deleted = set(m._deleted)
    declared = [v.label for v in all_vars(m)]
    p = m.to_physical(placeholder=ph) if ph or rng.random() < 0.5 else m.to_physical()
    check_physical(p, lin, quad, off, mt, declared, deleted)
    if rng.random() < 0.3:
        # a second conversion after an edit
        fill(rng, m, log, 2, named=True)
        lin, quad, off = expected_physical(m, ph)
        p2 = m.to_physical(placeholder=ph)
        check_physical(p2, lin, quad, off, mt, declared, deleted)


def check_physical(p, lin, quad, off, mt, declared, deleted):
    rl, rq = p._raw_interactions[1], p._raw_interactions[2]
    ensure(p.get_mtype() == mt, "type", p.get_mtype(), mt)
    ensure(set(rl) - lin.unsure == set(lin), "linear entries", sorted(rl), "expected", sorted(lin))
    ensure(set(rq) - quad.unsure == set(quad), "quadratic entries", sorted(rq), "expected", sorted(quad))
    for k in lin:
        ensure(close(rl[k], lin[k], 1e-13), "linear", k, rl[k], "expected", lin[k])
    for k in quad:
        ensure(close(rq[k], quad[k], 1e-13), "quadratic", k, rq[k], "expected", quad[k])
    ensure(close(p.get_offset(), off), "offset", p.get_offset(), "expected", off)
    occurs = set(rl) | {x for k in rq for x in k}
    want = [l for l in declared if l in occurs and l not in deleted]
    ensure([p._index_to_label.get(i) for i in range(len(want))] == want and len(p._index_to_label) == len(want), "index_to_label", p._index_to_label, "expected", want)
    ensure(p._label_to_index == {l: i for i, l in enumerate(want)}, "label_to_index", p._label_to_index, "expected", want)


@case("C03", quick=170, thorough=2500)
def intact(rng, size, log):
    m, ph = rand_full_model(rng, size, log)
    before = snap(m)
    p1 = m.to_physical(placeholder=ph)
    after = snap(m)
    A = before["array"]
    live = [i for i in range(before["length"]) if not A["removed"][i]]
    exp = dict(before)
    exp["array"] = {k: [v[i] for i in live] for k, v in A.items()}
    exp["array"]["dirty"] = [False] * len(live)
    exp["length"] = len(live)
    d = diff(exp, after)
    ensure(not d, "logical model changed by to_physical:", d)
    for k, v in A.items():
        if k not in ("dirty",):
            for j, i in enumerate(live):
                if isinstance(v[i], list):
                    pass
    p2 = m.to_physical(placeholder=ph)
    ensure(p1._mtype == p2._mtype and p1._raw_interactions == p2._raw_interactions and p1._offset == p2._offset and p1._label_to_index == p2._label_to_index and p1._index_to_label == p2._index_to_label, "second conversion differs", p1, p2)
    d = diff(exp, snap(m))
    ensure(not d, "logical model changed by second to_physical:", d)
    # editing the logical model does not reach the physical model
    raw = copy.deepcopy(p1._raw_interactions)
    if m._interactions_length:
        m.remove_interaction(name=m._interactions_array["name"][0])
    ensure(p1._raw_interactions == raw, "physical model shares state with the logical model")


def per_key(m):
    A = m._interactions_array
    d = collections.defaultdict(float)
    for i in range(m._interactions_length):
        if not A["removed"][i]:
            d[A["key"][i]] += A["coefficient"][i] * A["scale"][i]
    return {k: v for k, v in d.items() if abs(v) > 1e-9}


@case("C05", quick=150, thorough=2500)
def convert(rng, size, log):
    import pyqubo

    m = new_model(rng, log)
    fill(rng, m, log, rng.randint(0, 3 + size))
    m.offset(dyadic(rng))
    if rng.random() < 0.2:
        m.delete_variable(rng.choice(all_vars(m)))
    before = snap(m)
    old = copy.deepcopy(m)
    old_mt = m._mtype
    # the current type: nothing
    (m.to_ising if m._mtype == "ising" else m.to_qubo)()
    d = diff(before, snap(m))
    ensure(not d, "conversion to the current type changed:", d)
    k = rng.randrange(2)
    if k == 0:
        m._convert_mtype()
    else:
        (m.to_qubo if m._mtype == "ising" else m.to_ising)()
    log("converted from", old_mt)
    wf(m)
    ensure(m._mtype != old_mt and m._mtype in ("ising", "qubo"), "type after conversion", m._mtype)
    T = pyqubo.Spin if m._mtype == "ising" else pyqubo.Binary
    A = m._interactions_array
    for i in range(m._interactions_length):
        if not A["removed"][i]:
            ps = A["interacts"][i] if isinstance(A["interacts"][i], tuple) else (A["interacts"][i],)
            ensure(all(type(q) is T for q in ps), "live interaction of the wrong variable type", A["name"][i], ps)
    for nm, a in m._variables.items():
        ensure(all(type(q) is T for q in flat(a)), "variable array of the wrong type", nm)
        ensure(a.shape == before["variables"][nm][1] and [q.label for q in flat(a)] == [q.label for q in flat(old._variables[nm])], "variable array changed shape", nm)
    ensure(list(m._variables) == before["varorder"], "variables", list(m._variables))
    # removed stays removed
    old_names = {n: r for n, r in zip(before["array"]["name"], before["array"]["removed"])}
    for n, r in zip(A["name"], A["removed"]):
        if n in old_names:
            ensure(r == old_names[n], "removed flag changed", n)
    ensure(set(old_names) <= set(A["name"]), "interaction lost")
    for f in ("deleted", "fixed", "constraints"):
        ensure(same(before[f], snap(m)[f]), f, "changed")
    labs = labels_in(old) | labels_in(m)
    consts = set()
    for x in assignments(rng, labs, "qubo"):
        s = {l: 2 * v - 1 for l, v in x.items()}
        a, b = (x, s) if old_mt == "qubo" else (s, x)
        ensure(close(value_of(old, a), value_of(m, b)), "value at", a, "was", value_of(old, a), "is", value_of(m, b))
        consts.add(round(energy_of(old, a) - energy_of(m, b), 6))
    ensure(len(consts) == 1, "energy changes by different amounts", sorted(consts)[:4])
    pk = per_key(old)
    m._convert_mtype()
    wf(m)
    ensure(m._mtype == old_mt, "round trip type")
    pk2 = per_key(m)
    ensure(set(pk) == set(pk2) and all(close(pk[k], pk2[k]) for k in pk), "round trip coefficients", pk, pk2)
    ensure(close(before["offset"], m._offset), "round trip offset", before["offset"], m._offset)


@case("C06", quick=150, thorough=2500)
def fix(rng, size, log):
    m = new_model(rng, log)
    fill(rng, m, log, rng.randint(1, 4 + size))
    m.offset(dyadic(rng))
    if rng.random() < 0.2:
        v0 = rng.choice(all_vars(m))
        m.fix_variable(v0, 1)
        log("fix first", v0, 1)
    # a constraint on other variables
    v = rng.choice(all_vars(m))
    pool = [q for q in all_vars(m) if q.label != v.label]
    if pool and rng.random() < 0.3:
        m.add_constraint(rand_constraint(rng, m, log, "c", pool))
    before, old = snap(m), copy.deepcopy(m)
    legal = (1, -1) if m._mtype == "ising" else (0, 1)
    bad = rng.choice([b for b in (-2, 2, 0.5, -1, 0, "1", None) if b not in legal])
    raises(Exception, m.fix_variable, v, bad)
    d = diff(before, snap(m))
    ensure(not d, "refused fix_variable changed the model:", d)
    val = rng.choice(legal)
    log("fix_variable", v, val)
    m.fix_variable(v, val)
    A = wf(m)
    for i in range(m._interactions_length):
        if not A["removed"][i]:
            k = A["key"][i]
            ensure(v.label not in (k if isinstance(k, tuple) else (k,)), "live interaction still refers to the fixed variable:", A["name"][i])
    B = before["array"]
    for i, nm in enumerate(B["name"]):
        k = B["key"][i]
        if v.label not in (k if isinstance(k, tuple) else (k,)):
            ensure(nm in A["name"], "interaction lost", nm)
            j = A["name"].index(nm)
            for c in COLS:
                ensure(same(A[c][j], B[c][i]), "interaction not involving the variable changed:", nm, c, B[c][i], A[c][j])
            for c in before["attrs"]:
                ensure(same(A[c][j], B[c][i]), "attribute changed", nm, c)
    ensure(v.label in m._fixed and set(m._fixed) == set(before["fixed"]) | {v.label}, "fixed set", m._fixed)
    for f in ("mtype", "variables", "deleted", "constraints"):
        ensure(same(before[f], snap(m)[f]), f, "changed", before[f], snap(m)[f])
    labs = labels_in(old) | labels_in(m) | {v.label}
    for x in assignments(rng, labs, m._mtype):
        x = dict(x)
        x[v.label] = val
        ensure(close(energy_of(old, x), energy_of(m, x)), "energy at", x, "was", energy_of(old, x), "is", energy_of(m, x))


def csets(c):
    return [c._variables_1, c._variables_2] if hasattr(c, "_variables_1") else [c._variables]


@case("C07", quick=150, thorough=2500)
def delete(rng, size, log):
    m = new_model(rng, log)
    fill(rng, m, log, rng.randint(0, 4 + size))
    m.offset(dyadic(rng))
    for j in range(rng.randint(0, 3)):
        m.add_constraint(rand_constraint(rng, m, log, f"c{j}"))
    if rng.random() < 0.2:
        (m.to_ising if m._mtype == "qubo" else m.to_qubo)()
        log("converted")
    for _ in range(rng.randint(1, 2)):
        v = rng.choice(all_vars(m))
        before = snap(m)
        cbefore = {k: [set(s) for s in csets(c)] for k, c in m._constraints.items()}
        log("delete_variable", v)
        m.delete_variable(v)
        A = wf(m)
        B = before["array"]
        ensure(len(A["name"]) == len(B["name"]) and A["name"] == B["name"], "interactions", A["name"])
        for i in range(len(B["name"])):
            k = B["key"][i]
            if v.label in (k if isinstance(k, tuple) else (k,)):
                ensure(A["removed"][i] is True, "interaction still live:", A["name"][i])
            else:
                for c in COLS + before["attrs"]:
                    ensure(same(A[c][i], B[c][i]), "interaction not involving the variable changed:", B["name"][i], c)
        ensure(set(m._constraints) == set(cbefore), "constraints", list(m._constraints))
        for k, c in m._constraints.items():
            for a, b in zip(cbefore[k], csets(c)):
                ensure({q.label for q in b} == {q.label for q in a} - {v.label}, "constraint", k, "members", b, "were", a)
                ensure({q for q in a if q.label != v.label} == b, "constraint", k, "members", b, "were", a)
        for f in ("mtype", "variables", "fixed", "offset"):
            ensure(same(before[f], snap(m)[f]), f, "changed")
        ensure(set(m._deleted) == set(before["deleted"]) | {v.label}, "deleted", m._deleted)
    p = m.to_physical()
    for v in before["deleted"] | {v.label: True}:
        ensure(v not in p._raw_interactions[1] and not any(v in k for k in p._raw_interactions[2]) and v not in p._label_to_index, "deleted variable", v, "in the physical model")


@case("C08", quick=170, thorough=2500)
def merge(rng, size, log):
    mt = rng.choice(["ising", "qubo"])
    a = new_model(rng, log, mtype=mt)
    log("--- other")
    b = new_model(rng, log, mtype=mt if rng.random() < 0.7 else ("qubo" if mt == "ising" else "ising"))
    for m in (a, b):
        fill(rng, m, log, rng.randint(0, 2 + size))
        m.offset(dyadic(rng))
        if rng.random() < 0.3:
            v = rng.choice(all_vars(m))
            m.delete_variable(v)
            log("delete", v)
        if rng.random() < 0.3:
            v = rng.choice(all_vars(m))
            m.fix_variable(v, 1)
            log("fix", v)
    if rng.random() < 0.25 and all(len(a._variables[k].shape) == len(b._variables[k].shape) for k in set(a._variables) & set(b._variables)):
        for _ in range(rng.randint(1, 3)):
            a.merge(b)
            log("merge beforehand")
            wf(a)
    labels = ["c0", "c1", "c2", "c3"]
    for m in (a, b):
        for l in rng.sample(labels, rng.choice([0, 0, 1, 2])):
            m.add_constraint(rand_constraint(rng, m, log, l))
    sa, sb = snap(a), snap(b)
    shared = set(a._variables) & set(b._variables)
    baddim = any(len(a._variables[k].shape) != len(b._variables[k].shape) for k in shared)
    badcon = bool(set(a._constraints) & set(b._constraints))
    if baddim or badcon:
        log("incompatible", baddim, badcon)
        raises(ValueError, a.merge, b)
        d = diff(sa, snap(a))
        ensure(not d, "refused merge changed the receiver:", d)
        d = diff(sb, snap(b))
        ensure(not d, "refused merge changed the other model:", d)
        return
    raises(TypeError, a.merge, "model")
    oldb = copy.deepcopy(b)
    a.merge(b)
    wf(a)
    ensure(a._mtype == mt, "type changed")
    if oldb._mtype != mt:
        ensure(b._mtype == mt, "other model not converted")
        labs = labels_in(oldb) | labels_in(b)
        for x in assignments(rng, labs, "qubo", 16):
            s = {l: 2 * v - 1 for l, v in x.items()}
            u, w = (x, s) if oldb._mtype == "qubo" else (s, x)
            ensure(close(value_of(oldb, u), value_of(b, w)), "converted value of the other model")
    else:
        d = diff(sb, snap(b))
        ensure(not d, "other model changed:", d)
    sb = snap(b)
    A, X, Y = a._interactions_array, sa["array"], sb["array"]
    na, nb = sa["length"], sb["length"]
    ensure(a._interactions_length == na + nb, "number of interactions", a._interactions_length, na, nb)
    ensure(set(a._interactions_attrs) == set(sa["attrs"]) | set(sb["attrs"]), "attributes", a._interactions_attrs)
    dup = set(X["name"]) & set(Y["name"])
    for i in range(na + nb):
        src, j = (X, i) if i < na else (Y, i - na)
        for c in COLS:
            if c == "name":
                if src[c][j] in dup:
                    ensure(A[c][i] != src[c][j], "shared name kept", A[c][i])
                else:
                    ensure(A[c][i] == src[c][j], "name not shared changed", src[c][j], A[c][i])
            else:
                ensure(same(A[c][i], src[c][j]), "merged", c, A[c][i], "expected", src[c][j])
        for c in a._interactions_attrs:
            e = src[c][j] if c in src else float("nan")
            ensure(same(A[c][i], e), "merged attribute", c, A[c][i], "expected", e)
    ensure(close(a._offset, sa["offset"] + sb["offset"]), "offset", a._offset)
    ensure(set(a._deleted) == set(sa["deleted"]) | set(sb["deleted"]), "deleted", a._deleted)
    ensure(set(a._fixed) == set(sa["fixed"]) | set(sb["fixed"]), "fixed", a._fixed)
    want = dict(sa["constraints"])
    want.update(sb["constraints"])
    ensure(same(want, snap(a)["constraints"]), "constraints", snap(a)["constraints"])
    ensure(set(a._variables) == set(sa["variables"]) | set(sb["variables"]), "variables")
    for k in a._variables:
        shp = [s["variables"][k][1] for s in (sa, sb) if k in s["variables"]]
        ensure(tuple(a._variables[k].shape) == tuple(max(t) for t in zip(*shp)), "shape of", k, a._variables[k].shape, shp)
    # independence: later edits of one side do not reach the other
    if nb:
        b.remove_interaction(name=Y["name"][0])
        b.update_interaction(name=Y["name"][-1], coefficient=77.0) if not b._interactions_array["removed"][-1] else None
        ensure(same(clone_array(a._interactions_array), A) and a._interactions_array["removed"][na] == Y["removed"][0], "models share rows after merge")


@case("C21", quick=200, thorough=3000)
def arrays(rng, size, log):
    import pyqubo, numpy as np
    from sawatabi.model import LogicalModel

    m = LogicalModel(mtype=rng.choice(["ising", "qubo"]))
    T = pyqubo.Spin if m._mtype == "ising" else pyqubo.Binary
    shapes = {}
    for _ in range(rng.randint(1, 3 + size)):
        op = rng.choice(["var", "var", "append", "append", "array", "bad", "del"])
        nm = rng.choice(NAMES)
        sh = tuple(rng.randint(1, 3) for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))
        if rng.random() < 0.1:
            sh = (rng.randint(9, 14),) + sh[1:2]
        before = {k: v for k, v in m._variables.items()}
        if op == "var":
            log("variables", nm, sh)
            r = m.variables(nm, shape=sh)
            shapes[nm] = sh
        elif op == "array":
            log("variables(Array)", nm, sh)
            arr = pyqubo.Array.create(nm, shape=sh, vartype="SPIN" if T is pyqubo.Spin else "BINARY")
            r = m.variables(arr)
            shapes[nm] = sh
            other = pyqubo.Array.create("qq", shape=sh, vartype="BINARY" if T is pyqubo.Spin else "SPIN")
            b = dict(m._variables)
            raises(TypeError, m.variables, other)
            ensure(same_arrays(b, m._variables), "refused array changed the variables")
        elif op == "append":
            if nm in shapes:
                sh = tuple(rng.choice([0, 1, 2, 2, 9]) if i == 0 else rng.choice([0, 1, 2]) for i, _ in enumerate(shapes[nm]))
                if rng.random() < 0.3:
                    sh = tuple(np.int64(x) for x in sh)
                new = tuple(int(a + b) for a, b in zip(shapes[nm], sh))
                old_labels = {v.label for v in flat(m._variables[nm])}
                log("append", nm, sh)
                r = m.append(nm, shape=sh)
                shapes[nm] = new
                ensure(old_labels <= {v.label for v in flat(r)}, "existing labels lost", nm)
            else:
                log("append(new)", nm, sh)
                r = m.append(nm, shape=sh)
                shapes[nm] = sh
        elif op == "bad":
            k = rng.randrange(4)
            b = dict(m._variables)
            if k == 0:
                raises(TypeError, m.variables, 3, (2,))
            elif k == 1:
                raises(TypeError, m.variables, nm, [2])
            elif k == 2:
                raises(TypeError, m.variables, nm, ())
            else:
                raises(TypeError, m.append, nm, ("2",))
            ensure(same_arrays(b, m._variables), "refused call changed the variables")
            continue
        else:
            if not shapes:
                continue
            v = rng.choice(all_vars(m))
            if rng.random() < 0.5:
                m.delete_variable(v)
                log("delete", v)
            else:
                m.fix_variable(v, 1)
                log("fix", v)
            r = None
        if r is not None:
            ensure(r is m._variables[nm], "returned array is not the registered one")
            for k in before:
                if k != nm:
                    ensure(m._variables[k] is before[k], "array", k, "was touched")
        ensure(set(m._variables) == set(shapes) == set(m.get_variables()), "names", list(m._variables), list(shapes))
        tot = 0
        for k, s in shapes.items():
            a = m._variables[k]
            ensure(tuple(a.shape) == s, "shape of", k, a.shape, s)
            fl = flat(a)
            n = 1
            for x in s:
                n *= x
            ensure(len(fl) == n and len({v.label for v in fl}) == n, "number of labels", k)
            ensure(all(type(v) is T for v in fl), "variable type of", k)
            import itertools

            ensure({v.label for v in fl} == {k + "".join(f"[{i}]" for i in ix) for ix in itertools.product(*[range(x) for x in s])}, "labels of", k)
            tot += n
        ensure(m.get_all_size() == tot, "all size", m.get_all_size(), tot)
        ensure(m.get_deleted_size() == len(set(m.get_deleted_array())) == len(m._deleted), "deleted size")
        ensure(m.get_fixed_size() == len(set(m.get_fixed_array())) == len(m._fixed), "fixed size")
        ensure(m.get_size() == tot - len(m._deleted) - len(m._fixed), "alive size", m.get_size())
        for k in shapes:
            ensure(m.get_variables_by_name(k) is m._variables[k], "get_variables_by_name")


def same_arrays(a, b):
    return set(a) == set(b) and all(a[k] is b[k] for k in a)


@case("C22", quick=150, thorough=2500)
def equality(rng, size, log):
    import pyqubo
    from sawatabi.model import LogicalModel, PhysicalModel
    from sawatabi.model.constraint import NHotConstraint, EqualityConstraint, ZeroOrOneHotConstraint

    def both(a, b, want, what):
        for x, y in ((a, b), (b, a)):
            ensure((x == y) is want or bool(x == y) == want, what, "==", x == y, "expected", want)
            ensure(bool(x != y) == (not want), what, "!=", x != y, "expected", not want)

    kind = rng.choice(["logical", "logical", "physical", "constraint", "constraint"])
    log(kind)
    if kind == "logical":
        m, _ = rand_full_model(rng, size, log, placeholders=False)
        c = copy.copy(m)
        c._variables = dict(m._variables)
        c._interactions_array = clone_array(m._interactions_array)
        c._interactions_attrs = list(m._interactions_attrs)
        c._constraints = copy.deepcopy(m._constraints)
        c._deleted, c._fixed = dict(m._deleted), dict(m._fixed)
        both(m, c, True, "copy")
        c._previous_physical_model = 3
        both(m, c, True, "copy")
        k = rng.randrange(14)
        log("change", k)
        if k == 0:
            c._mtype = "qubo" if m._mtype == "ising" else "ising"
        elif k == 1:
            c._variables = dict(m._variables)
            nm = rng.choice(list(c._variables))
            c._variables[nm] = pyqubo.Array.create(nm, shape=tuple(x + 1 for x in c._variables[nm].shape), vartype="SPIN")
        elif k in (2, 3):
            if not m._interactions_length:
                return
            col = rng.choice([x for x in COLS if x != "key_1"])
            i = rng.randrange(m._interactions_length)
            c._interactions_array[col] = list(c._interactions_array[col])
            c._interactions_array[col][i] = "different"
        elif k == 4:
            c._interactions_attrs = list(m._interactions_attrs) + ["attributes.zz"]
        elif k == 5:
            c._constraints["new"] = NHotConstraint(variables=all_vars(m)[0], n=1, label="new")
        elif k == 6:
            c._deleted["gone"] = True
        elif k == 7:
            c._fixed["gone"] = True
        elif k == 9:
            # the same keys with another value
            m._fixed["f"], c._fixed["f"] = True, False
        elif k == 10:
            m._deleted["f"], c._deleted["f"] = True, False
        elif k == 11:
            v = all_vars(m)[0]
            m._constraints["same"] = NHotConstraint(variables=v, n=1, label="same")
            c._constraints["same"] = rng.choice([NHotConstraint(variables=v, n=2, label="same"), NHotConstraint(variables=v, n=1, label="same", strength=1.5), ZeroOrOneHotConstraint(variables=v, label="same")])
        elif k == 12:
            m._variables["v"] = pyqubo.Array.create("v", shape=(2,), vartype="SPIN")
            c._variables["v"] = pyqubo.Array.create("v", shape=(2,), vartype="BINARY")
        elif k == 13:
            if not m._interactions_length:
                return
            i = rng.randrange(m._interactions_length)
            col = rng.choice(["coefficient", "scale", "timestamp"])
            c._interactions_array[col][i] = c._interactions_array[col][i] + 0.5
        else:
            c._offset = m._offset + rng.choice([1, 2.0**-12])
        both(m, c, False, f"component {k} differs")
        for o in (None, 3, "model", PhysicalModel(mtype=m._mtype), [m]):
            both(m, o, False, "other kind")
    elif kind == "physical":
        m, _ = rand_full_model(rng, size, log, placeholders=False)
        p = m.to_physical()
        q = copy.deepcopy(p)
        both(p, q, True, "copy")
        k = rng.randrange(10)
        log("change", k)
        if k == 0:
            q._mtype = "qubo" if p._mtype == "ising" else "ising"
        elif k == 1:
            q._offset = p._offset + 0.5
        elif k == 2:
            q._raw_interactions[1]["new"] = 1.0
        elif k == 3:
            q._raw_interactions[2][("a", "b")] = 1.0
        elif k == 4:
            q._label_to_index["new"] = 99
        elif k == 6:
            p._raw_interactions[1]["v"], q._raw_interactions[1]["v"] = 1.0, 1.0 + 2.0**-16
        elif k == 7:
            p._raw_interactions[2][("v", "w")], q._raw_interactions[2][("v", "w")] = 1.0, -1.0
        elif k == 8:
            p._label_to_index["v"], q._label_to_index["v"] = 70, 71
        elif k == 9:
            p._index_to_label[70], q._index_to_label[70] = "v", "w"
        else:
            q._index_to_label[99] = "new"
        both(p, q, False, f"component {k} differs")
        for o in (None, 3, LogicalModel(mtype=m._mtype), {}):
            both(p, o, False, "other kind")
    else:
        x = pyqubo.Array.create("x", shape=(4,), vartype="BINARY")
        vs = flat(x)
        a, b = vs[:2], vs[2:3]
        mk = {
            "n": lambda v=a, n=2, l="L", s=2.0: NHotConstraint(variables=v, n=n, label=l, strength=s),
            "z": lambda v=a, l="L", s=2.0: ZeroOrOneHotConstraint(variables=v, label=l, strength=s),
            "e": lambda v=a, w=b, l="L", s=2.0: EqualityConstraint(variables_1=v, variables_2=w, label=l, strength=s),
        }
        for k, f in mk.items():
            both(f(), f(), True, k)
            both(f(), f(v=list(reversed(a))), True, k)
            both(f(), f(v=vs[:3]), False, k + " variables")
            both(f(), f(l="M"), False, k + " label")
            both(f(), f(s=2.5), False, k + " strength")
            both(f(), f(s=2.0 + 2.0**-20), False, k + " strength")
            both(f(), f(v=[vs[0], vs[3]]), False, k + " variables of the same number")
            if k == "n":
                both(f(), f(n=1), False, "n")
            if k == "e":
                both(f(), f(w=[vs[3]]), False, "variables_2")
            for o in (None, 1, "L", LogicalModel(mtype="ising")):
                both(f(), o, False, "other kind")
            for k2, g in mk.items():
                if k2 != k:
                    both(f(), g(), False, k + " vs " + k2)


@case("C23", quick=120, thorough=2000)
def pyq(rng, size, log):
    import pyqubo
    from sawatabi.model import LogicalModel

    m = LogicalModel(mtype="qubo")
    sh = rng.choice([(3,), (2, 2), (4,), (2, 1, 2), (12,)])
    x = m.variables("x", shape=sh)
    arrs = flat(x)
    if rng.random() < 0.4:
        arrs += flat(m.variables("y", shape=(2,)))
    expr = dyadic(rng)
    for _ in range(rng.randint(1, 4 + size)):
        c = dyadic(rng, nonzero=True)
        v, w = rng.choice(arrs), rng.choice(arrs)
        t = c * v if rng.random() < 0.4 else c * v * w
        expr = expr + t
        log("term", c, v, w)
    model = expr.compile()
    feed = {"A": 2.0, "B": -0.5}
    ph = rng.random() < 0.3
    if ph:
        # coefficients with placeholders (dimod here cannot compile them from an expression)
        q = model.compiled_qubo
        from pyqubo import Coefficient, PlaceholderProd

        for k in list(q.qubo):
            if rng.random() < 0.6:
                q.qubo[k] = Coefficient(collections.defaultdict(float, {PlaceholderProd({"A": 1}): q.qubo[k], PlaceholderProd({}): 1.5, PlaceholderProd({"A": 1, "B": 2}): -1.0}))
        log("placeholders")
    src = "model" if ph else rng.choice(["express", "model"])
    q0, o0 = model.to_qubo(feed_dict=feed)
    obj = expr if src == "express" else model
    snapq = repr(model.compiled_qubo.qubo) if src == "model" else repr(expr)
    m.from_pyqubo(obj)
    A = wf(m)
    qa, oa = model.to_qubo(feed_dict=feed)
    ensure(q0 == qa and o0 == oa, "the imported pyqubo model was changed", q0, qa)
    decl = {v.label: v for v in arrs}
    for p in A["interacts"]:
        for v in p if isinstance(p, tuple) else (p,):
            ensure(v.label in decl and v == decl[v.label], "target is not the declared variable", v)
    phm = m.to_physical(placeholder=feed)
    for asg in assignments(rng, list(decl), "qubo"):
        want = o0 + sum(c * asg[a] * asg[b] if a != b else c * asg[a] for (a, b), c in q0.items())
        got = phm.get_offset() - sum(c * asg[k] for k, c in phm._raw_interactions[1].items()) - sum(c * asg[k[0]] * asg[k[1]] for k, c in phm._raw_interactions[2].items())
        ensure(close(want, got), "energy at", asg, got, "expected", want)


def cons_kinds():
    from sawatabi.model.constraint import NHotConstraint, EqualityConstraint, ZeroOrOneHotConstraint

    return NHotConstraint, ZeroOrOneHotConstraint, EqualityConstraint


@case("C09", quick=150, thorough=2500)
def penalty(rng, size, log):
    import pyqubo

    N, Z, E = cons_kinds()
    names = ["a", "b", "x[0]", "x[1]", "x[10]", "x[2]", "B", "zz", "y[0][1]"]
    vs = [pyqubo.Binary(n) for n in rng.sample(names, rng.randint(1, 5 if rng.random() < 0.9 else 9))]
    st = rng.choice([1.0, 2, 0.5, 10, -1.5, 0.25, 0, 1000, 2.0**-10])
    lab = rng.choice(["L", "my label", "x"])
    k = rng.choice("nze")
    log(k, vs, "strength", st)
    if k == "n":
        n = rng.choice([1, 1, 2, 3, 5, 8, 20])
        c = N(variables=vs, n=n, label=lab, strength=st)
        f = lambda x: st * ((sum(x[v.label] for v in vs) - n) ** 2 - n * n)
    elif k == "z":
        c = Z(variables=vs, label=lab, strength=st)
        f = lambda x: st * sum(x[v.label] for v in vs) * (sum(x[v.label] for v in vs) - 1)
    else:
        cut = rng.randint(0, len(vs))
        a, b = vs[:cut], vs[cut:]
        c = E(variables_1=a or None, variables_2=b or None, label=lab, strength=st)
        f = lambda x: st * (sum(x[v.label] for v in a) - sum(x[v.label] for v in b)) ** 2
    before = snap_constraint(c)
    m = c.to_model()
    ensure(m is not None and m._mtype == "qubo", "model type")
    A = wf(m)
    ensure(labels_in(m) <= {v.label for v in vs}, "other variables", labels_in(m))
    ensure(len(set(map(str, A["key"]))) == len(A["key"]) and not any(A["removed"]), "more than one interaction per variable or pair", A["key"])
    ensure(not m._constraints and not m._deleted and not m._fixed, "extra components")
    for x in assignments(rng, [v.label for v in vs], "qubo"):
        ensure(close(energy_of(m, x), f(x)), "energy at", x, energy_of(m, x), "expected", f(x))
    ensure(same(before, snap_constraint(c)), "constraint changed by to_model")
    m2 = c.to_model()
    ensure(m2 is not m, "models shared")


@case("C10", quick=200, thorough=3000)
def csetalg(rng, size, log):
    import pyqubo

    N, Z, E = cons_kinds()
    T = rng.choice([pyqubo.Binary, pyqubo.Spin])
    arr = pyqubo.Array.create("x", shape=rng.choice([(3,), (2, 2)]), vartype="BINARY" if T is pyqubo.Binary else "SPIN")
    pool = flat(arr) + [T("a"), T("b"), T("c")]
    if rng.random() < 0.3:
        O = pyqubo.Spin if T is pyqubo.Binary else pyqubo.Binary
        pool += [O("a"), O("b")]

    def arg():
        k = rng.randrange(5)
        if k == 0:
            return arr, set(flat(arr))
        if k == 1:
            v = rng.choice(pool)
            return v, {v}
        vs = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
        if k == 2:
            return set(vs), set(vs)
        return vs, set(vs)

    owned = []

    def own(a):
        if isinstance(a, (list, set)):
            owned.append((a, copy.copy(a)))
        return a

    kind = rng.choice("nze")
    nside = 2 if kind == "e" else 1
    cur = []
    kw = {}
    for i in range(nside):
        if rng.random() < 0.25:
            cur.append(set())
        else:
            a, s = arg()
            kw["variables" if nside == 1 else f"variables_{i + 1}"] = own(a)
            cur.append(set(s))
    log(kind, kw)
    c = {"n": N, "z": Z, "e": E}[kind](label="L", **kw)
    get = lambda i: c.get_variables() if nside == 1 else (c.get_variables_1, c.get_variables_2)[i]()
    addf = lambda i: c.add_variable if nside == 1 else (c.add_variable_to_1, c.add_variable_to_2)[i]
    remf = lambda i: c.remove_variable if nside == 1 else (c.remove_variable_from_1, c.remove_variable_from_2)[i]

    def check():
        for i in range(nside):
            g = get(i)
            ensure(isinstance(g, set) and g == cur[i], "members of side", i, g, "expected", cur[i])
        for a, b in owned:
            ensure(a == b, "collection owned by the caller changed", a, b)

    check()
    for _ in range(rng.randint(1, 3 + size)):
        i = rng.randrange(nside)
        a, s = arg()
        op = rng.choice(["add", "add", "remove", "remove", "discard", "bad"])
        log(op, i, a)
        if op == "add":
            addf(i)(own(a))
            cur[i] = cur[i] | s
        elif op == "remove":
            if rng.random() < 0.6 and cur[i]:
                s = set(rng.sample(sorted(cur[i], key=str), rng.randint(1, len(cur[i]))))
                a = rng.choice([list(s), set(s), list(s) + [next(iter(s))]])
                log("  actually", a)
            if s <= cur[i]:
                remf(i)(own(a))
                cur[i] = cur[i] - s
            else:
                raises(ValueError, remf(i), own(a))
        elif op == "discard":
            if not hasattr(c, "discard_variable"):
                continue
            l = rng.choice(pool).label
            c.discard_variable(l)
            cur = [{v for v in s if v.label != l} for s in cur]
        else:
            b = rng.choice([3, "x", None, [], set(), [1], [pool[0], "y"], (pool[0],)])
            raises(TypeError, addf(i), b)
            raises(TypeError, remf(i), b)
        check()
    for a, b in owned:
        ensure(all(get(i) is not a or a == cur[i] for i in range(nside)), "aliasing")


@case("C11", quick=150, thorough=2500)
def exports(rng, size, log):
    import dimod
    from sawatabi.model import PhysicalModel

    p = PhysicalModel(mtype=rng.choice(["ising", "qubo"]))
    labs = [f"x[{i}]" for i in range(rng.randint(1, 5) if rng.random() < 0.9 else 12)] + ["a"]
    rng.shuffle(labs)
    for i, l in enumerate(labs):
        p._label_to_index[l] = i
        p._index_to_label[i] = l
    for l in labs:
        if rng.random() < 0.6:
            p.add_interaction(l, 1, dyadic(rng))
    for i, l in enumerate(sorted(labs)):
        for k in sorted(labs)[i + 1:]:
            if rng.random() < 0.5:
                p.add_interaction((l, k), 2, dyadic(rng))
    p._offset = dyadic(rng)
    before = copy.deepcopy(vars(p))
    sg = rng.choice([None, None, 1.0, -1.0, 2.0, 0.5, -3, 0.0, 7.25])
    log(p._raw_interactions, "sign", sg)
    b = p.to_bqm() if sg is None else p.to_bqm(sign=sg)
    s = -1.0 if sg is None else sg
    ensure(b.vartype is (dimod.SPIN if p._mtype == "ising" else dimod.BINARY), "vartype", b.vartype)
    ensure(b.offset == p._offset, "offset", b.offset)
    lin, quad = p._raw_interactions[1], p._raw_interactions[2]
    ensure(set(b.variables) == set(lin) | {x for k in quad for x in k}, "variables", list(b.variables))
    for v in b.variables:
        ensure(b.linear[v] == s * lin.get(v, 0.0), "linear", v, b.linear[v])
    ensure(len(b.quadratic) == len(quad), "number of pairs")
    for (u, v), c in quad.items():
        ensure(b.quadratic[u, v] == s * c, "quadratic", u, v)
    pol = p.to_polynomial()
    want = sorted([[p._label_to_index[k]] * 2 + [-c] for k, c in lin.items()] + [[p._label_to_index[a], p._label_to_index[b2], -c] for (a, b2), c in quad.items()])
    norm = lambda e: [min(e[0], e[1]), max(e[0], e[1]), e[2]]
    ensure(sorted(map(norm, pol)) == sorted(map(norm, want)), "polynomial", sorted(pol), "expected", want)
    ensure(before == vars(p), "physical model changed by an export")
