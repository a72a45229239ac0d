"""Executable contracts: the same pre/postconditions as in /verif/specs, evaluated on the real code for generated inputs.

Used to look for a failing input when an obligation fails, to cross-check the verifier's library
assumptions against the real libraries, and as the labelled bounded stand-in where a function is
outside the verifier's reach.  A case is identified by (property, case name, seed, size).
"""
import math
import random
import copy
import collections
import warnings

warnings.simplefilter("ignore")

CASES = {}


class Fail(Exception):
    pass


class Skip(Exception):
    pass


def case(pid, quick=100, thorough=1500, weight=1.0):
    def deco(f):
        for p in pid.split(","):
            CASES.setdefault(p, []).append((f.__name__, f, quick, thorough))
        return f

    return deco


class Log:
    """What a case did: written to the replay file."""

    def __init__(self):
        self.lines = []

    def __call__(self, *a):
        self.lines.append(" ".join(str(x)[:300] for x in a))


def ensure(c, *msg):
    if not c:
        raise Fail(" ".join(str(m)[:400] for m in msg))


def isnan(v):
    return isinstance(v, float) and v != v


def same(a, b):
    """Structural equality, nan equal to nan, 1 and True different."""
    import numpy as np

    if isnan(a) and isnan(b):
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and bool((a == b).all())
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if a is b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def raises(kinds, f, *a, **k):
    """Call must raise one of kinds; returns the exception."""
    try:
        r = f(*a, **k)
    except kinds as e:
        return e
    except Exception as e:
        raise Fail(f"raised {type(e).__name__}: {e} where {kinds} was expected")
    raise Fail(f"no exception (returned {str(r)[:100]}) where {kinds} was expected")


def dyadic(rng, lo=-4, hi=4, den=(1, 2, 4, 8), nonzero=False):
    """A number the arithmetic is exact on, now and then very small or very large."""
    if rng.random() < 0.06:
        return rng.choice([-1, 1]) * rng.choice([2.0**-28, 2.0**-22, 2.0**-16, 3 * 2.0**-12, 1000.0, 4096, 2**16, 100001.5])
    while True:
        d = rng.choice(den)
        v = rng.randint(lo * d, hi * d) / d
        if v or not nonzero:
            return v if rng.random() < 0.8 else (int(v) if v == int(v) else v)


COLS = ["body", "name", "key", "key_0", "key_1", "interacts", "coefficient", "scale", "timestamp", "dirty", "removed"]


def clone_array(arr):
    return {k: list(v) for k, v in arr.items()}


def snap_constraint(c):
    d = {}
    for k, v in vars(c).items():
        d[k] = set(v) if isinstance(v, set) else v
    return (type(c).__name__, id(c), d)


def snap(m):
    """Deep semantic snapshot of a logical model."""
    return {
        "mtype": m._mtype,
        "variables": {k: (id(v), v.shape, repr(v)) for k, v in m._variables.items()},
        "varorder": list(m._variables),
        "offset": m._offset,
        "deleted": dict(m._deleted),
        "fixed": dict(m._fixed),
        "constraints": {k: snap_constraint(c) for k, c in m._constraints.items()},
        "array": clone_array(m._interactions_array),
        "attrs": list(m._interactions_attrs),
        "length": m._interactions_length,
    }


def diff(a, b):
    out = []
    for k in a:
        if not same(a[k], b[k]):
            if k == "array":
                for c in sorted(set(a[k]) | set(b[k]), key=str):
                    if not same(a[k].get(c), b[k].get(c)):
                        out.append(f"column {c}: {a[k].get(c)} -> {b[k].get(c)}")
            else:
                out.append(f"{k}: {a[k]} -> {b[k]}")
    return "; ".join(out)


def wf(m):
    """Representation invariant of a logical model's interaction store."""
    import pyqubo

    A = m._interactions_array
    n = m._interactions_length
    ensure(set(A) == set(COLS) | set(m._interactions_attrs), "columns", list(A), m._interactions_attrs)
    ensure(len(set(m._interactions_attrs)) == len(m._interactions_attrs), "attribute list has duplicates", m._interactions_attrs)
    for k, v in A.items():
        ensure(isinstance(v, list) and len(v) == n, "column", k, "has length", len(v), "of", n)
    ensure(len(set(A["name"])) == n, "names not unique", A["name"])
    for i in range(n):
        if A["body"][i] == 1:
            p = A["interacts"][i]
            ensure(not isinstance(p, tuple) and A["key"][i] == p.label and A["key_0"][i] == p.label and isnan(A["key_1"][i]), "row", i, "inconsistent", A["key"][i], p)
        else:
            p = A["interacts"][i]
            ensure(A["body"][i] == 2 and isinstance(p, tuple) and len(p) == 2, "row", i, "body")
            ensure(p[0].label < p[1].label, "row", i, "targets not in canonical order", p)
            ensure(A["key"][i] == (p[0].label, p[1].label) and A["key_0"][i] == p[0].label and A["key_1"][i] == p[1].label, "row", i, "keys", A["key"][i])
    return A


def value_of(m, assign, live_only=True):
    """offset + sum(coefficient*scale*vars) (un-negated) of a logical model."""
    A = m._interactions_array
    t = m._offset
    for i in range(m._interactions_length):
        if A["removed"][i]:
            continue
        t += A["coefficient"][i] * A["scale"][i] * prod_vars(A["key"][i], assign)
    return t


def energy_of(m, assign):
    A = m._interactions_array
    t = m._offset
    for i in range(m._interactions_length):
        if A["removed"][i]:
            continue
        t -= A["coefficient"][i] * A["scale"][i] * prod_vars(A["key"][i], assign)
    return t


def prod_vars(key, assign):
    if isinstance(key, tuple):
        return assign[key[0]] * assign[key[1]]
    return assign[key]


def labels_in(m):
    s = set()
    for k in m._interactions_array["key"]:
        s |= set(k) if isinstance(k, tuple) else {k}
    return s


def assignments(rng, labels, mtype, limit=40):
    vals = (-1, 1) if mtype == "ising" else (0, 1)
    labels = sorted(labels)
    if 2 ** len(labels) <= limit:
        import itertools

        for c in itertools.product(vals, repeat=len(labels)):
            yield dict(zip(labels, c))
    else:
        for _ in range(limit):
            yield {l: rng.choice(vals) for l in labels}


def flat(a):
    out = []

    def go(x):
        if isinstance(x, list):
            for y in x:
                go(y)
        else:
            out.append(x)

    go(a.bit_list)
    return out


NAMES = ["x", "y", "zz", "a1"]


def new_model(rng, log=None, mtype=None, nvars=None, dims=None, maxdim=3):
    from sawatabi.model import LogicalModel

    mt = mtype or rng.choice(["ising", "qubo"])
    m = LogicalModel(mtype=mt)
    big = rng.random() < 0.06
    for nm in rng.sample(NAMES, nvars or rng.choice([1, 1, 2, 3, 3, 4])):
        shape = tuple(rng.randint(1, maxdim) for _ in range(dims or rng.choice([1, 1, 1, 2, 2, 3])))
        if big and len(shape) == 1:
            shape = (rng.randint(10, 13),)  # two-digit positions: label order differs from position order
        m.variables(nm, shape=shape)
        if log:
            log(f"variables({nm!r}, {shape})")
    if log:
        log("mtype", mt)
    return m


def all_vars(m):
    return [v for a in m._variables.values() for v in flat(a)]


def rand_target(rng, m, pool=None):
    vs = pool or all_vars(m)
    if len(vs) >= 2 and rng.random() < 0.55:
        return tuple(rng.sample(vs, 2))
    return rng.choice(vs)


def fill(rng, m, log, n, attrs=True, removed=True, scale=True, coeff=None, named=True, maxtries=3):
    """Random interactions, some updated and removed."""
    if n and rng.random() < 0.04:
        n += rng.randint(10, 40)
    for _ in range(n):
        t = rand_target(rng, m)
        kw = {"coefficient": coeff(rng) if coeff else dyadic(rng)}
        if scale and rng.random() < 0.5:
            kw["scale"] = dyadic(rng, -2, 3)
        if attrs and rng.random() < 0.4:
            kw["attributes"] = {rng.choice(["a", "b", "c d"]): rng.choice([0, 1.5, "s", None, [1], False]) for _ in range(rng.randint(1, 2))}
        if rng.random() < 0.5:
            kw["timestamp"] = rng.choice([0, 1, 5.5, 100, -3, 1602345678.5, 10**12])
        if named and rng.random() < 0.5:
            kw["name"] = rng.choice([f"n{rng.randint(0, 12)}", f"n{rng.randint(0, 12)}", f"n{rng.randint(0, 99)}", "a*b", "with space", "x[0]", "L" * 70, "\u03bb"])
        try:
            m.add_interaction(t, **kw)
            log("add_interaction", t, kw)
        except ValueError:
            pass
    A = m._interactions_array
    for i in range(m._interactions_length):
        if removed and rng.random() < 0.25:
            m.remove_interaction(name=A["name"][i])
            log("remove_interaction", A["name"][i])
    return m


def rand_constraint(rng, m, log, label, pool=None):
    from sawatabi.model.constraint import NHotConstraint, EqualityConstraint, ZeroOrOneHotConstraint

    vs = pool or all_vars(m)
    vs = list({v.label: v for v in vs}.values())
    k = rng.choice(["n", "z", "e"])
    st = rng.choice([1.0, 2, 0.5, 10, -1.5, 0.25, 1000, 2.0**-10])
    top = 4 if rng.random() < 0.85 else 9
    if k == "n":
        sub = rng.sample(vs, rng.randint(1, min(top, len(vs))))
        c = NHotConstraint(variables=sub, n=rng.choice([1, 1, 2, 3, 4, 7, 12]), label=label, strength=st)
    elif k == "z":
        sub = rng.sample(vs, rng.randint(1, min(top, len(vs))))
        c = ZeroOrOneHotConstraint(variables=sub, label=label, strength=st)
    else:
        sub = rng.sample(vs, rng.randint(1, min(top, len(vs))))
        cut = rng.randint(0, len(sub))
        a, b = sub[:cut], sub[cut:]
        c = EqualityConstraint(variables_1=a or None, variables_2=b or None, label=label, strength=st)
    log("constraint", k, label, "strength", st, c)
    return c


def constraint_qubo(c):
    """Linear and quadratic coefficients (sawatabi sign) of the defining polynomial, over 0/1 variables."""
    lin, quad = collections.defaultdict(float), collections.defaultdict(float)
    s = c._strength
    nm = type(c).__name__
    if nm == "EqualityConstraint":
        sg = {v.label: 1 for v in c._variables_1}
        sg.update({v.label: -1 for v in c._variables_2})
        n = 0
    else:
        sg = {v.label: 1 for v in c._variables}
        n = c._n if nm == "NHotConstraint" else 0.5
    ls = sorted(sg)
    for l in ls:
        # (sum)^2 - 2n sum
        lin[l] -= s * (1 - 2 * n)
    for i, a in enumerate(ls):
        for b in ls[i + 1:]:
            quad[(a, b)] -= 2 * s * sg[a] * sg[b]
    return lin, quad


def to_spin(lin, quad):
    """Value-preserving change of variables x=(s+1)/2."""
    l2, q2, off = collections.defaultdict(float), collections.defaultdict(float), 0.0
    for k, v in lin.items():
        l2[k] += v / 2
        off += v / 2
    for (a, b), v in quad.items():
        q2[(a, b)] += v / 4
        l2[a] += v / 4
        l2[b] += v / 4
        off += v / 4
    return l2, q2, off
