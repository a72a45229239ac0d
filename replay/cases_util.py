from .base import *
import itertools


@case("C19", quick=350, thorough=6000)
def npp(rng, size, log):
    import io, contextlib
    from sawatabi.utils import solve_npp_with_dp

    top = rng.choice([2, 3, 6, 12, 40])
    nums = [rng.randint(1, top) for _ in range(rng.randint(1 if rng.random() < 0.97 else 0, 3 + min(size, 8)))]
    if rng.random() < 0.1:
        nums = sorted(nums, reverse=rng.random() < 0.5)
    if nums and rng.random() < 0.05:
        nums[rng.randrange(len(nums))] = rng.choice([100, 257, 1000])
    ea = rng.random() < 0.5
    log(nums, "enumerate_all" if ea else "")
    orig = list(nums)
    kw = {"enumerate_all": ea}
    if rng.random() < 0.1:
        kw["print_dp_table"] = True
    with contextlib.redirect_stdout(io.StringIO()):
        r = solve_npp_with_dp(nums, **kw)
    ensure(nums == orig, "input changed")
    ok, a, b = r
    n, tot = len(nums), sum(nums)
    best, firsts = -1, set()
    for k in range(2**n):
        ix = frozenset(i for i in range(n) if k >> i & 1)
        s = sum(nums[i] for i in ix)
        if s <= tot // 2:
            if s > best:
                best, firsts = s, set()
            if s == best:
                firsts.add(ix)
    ensure(ok is (2 * best == tot) or ok == (2 * best == tot), "verdict", ok, "best", best, "total", tot)
    ensure(len(a) == len(b), "pairs")
    for p, q in zip(a, b):
        ensure(sorted(list(p) + list(q)) == list(range(n)), "not a partition of the indices", p, q)
        ensure(sum(nums[i] for i in p) == best, "first part", p, "has sum", sum(nums[i] for i in p), "best", best)
    if ea:
        ensure(len(a) == len(firsts) and {frozenset(p) for p in a} == firsts, "enumeration", a, "expected", sorted(map(sorted, firsts)))
    else:
        ensure(len(a) == 1, "number of partitions", len(a))


@case("C20", quick=400, thorough=5000)
def checks(rng, size, log):
    import operator
    import numpy as np
    from sawatabi.base_mixin import BaseMixin
    from sawatabi.utils import Functions

    vals = [0, 1, -3, 2.5, "s", "", None, [], (1,), {}, set(), True, np.int64(3), np.int32(2), np.float64(1.5), object(), int, 1j]
    types = [int, float, str, list, tuple, dict, set, bool, np.int64, type(None), complex, object]
    k = rng.randrange(6)
    if k == 0:
        v, t = rng.choice(vals), rng.choice(types)
        t = t if rng.random() < 0.5 else tuple(rng.sample(types, rng.randint(1, 3)))
        log("check", v, t)
        if isinstance(v, t):
            ensure(BaseMixin._check_argument_type("arg", v, t) is None, "return value")
        else:
            raises(TypeError, BaseMixin._check_argument_type, "arg", v, t)
    elif k in (1, 2):
        t = rng.choice(types) if rng.random() < 0.5 else tuple(rng.sample(types, rng.randint(1, 3)))
        good = [v for v in vals if isinstance(v, t)]
        vs = [rng.choice(good if good and rng.random() < 0.85 else vals) for _ in range(rng.randint(0, 4) if rng.random() < 0.9 else rng.randint(10, 70))]
        if len(vs) > 4 and good and rng.random() < 0.7:
            vs = [rng.choice(good) for _ in vs]
            if rng.random() < 0.6:
                vs[rng.choice([0, -1, len(vs) // 2, rng.randrange(len(vs))])] = rng.choice(vals)  # one offender
        ok = len(vs) > 0 and all(isinstance(v, t) for v in vs)
        f, c = (BaseMixin._check_argument_type_in_tuple, tuple(vs)) if k == 1 else (BaseMixin._check_argument_type_in_list, list(vs))
        log("check in", c, t)
        if ok:
            f("arg", c, t)
        else:
            raises(TypeError, f, "arg", c, t)
    elif k == 3:
        for a, b in (("ising", "SPIN"), ("qubo", "BINARY")):
            ensure(BaseMixin._modeltype_to_vartype(a) == b, "vartype of", a)
            ensure(BaseMixin._vartype_to_modeltype(b) == a, "mtype of", b)
        x = rng.choice(["", "Ising", "SPIN", "x", None, 3, "QUBO"])
        raises(ValueError, BaseMixin._modeltype_to_vartype, x)
        x = rng.choice(["", "spin", "ising", "x", None, 3, "qubo"])
        raises(ValueError, BaseMixin._vartype_to_modeltype, x)
    elif k == 4:
        n = rng.randint(0, 4) if rng.random() < 0.9 else 20
        top = rng.choice([5, 5, 1000, 2**33])
        a = [rng.randint(-top, top) for _ in range(n)]
        b = [rng.randint(-top, top) for _ in range(n)]
        kind = rng.choice([tuple, list])
        fn, op = rng.choice([("add", operator.add), ("sub", operator.sub), ("max", max), ("min", min)])
        log("elementwise", fn, kind, a, b)
        f = getattr(Functions, "elementwise_" + fn)
        x, y = kind(a), kind(b)
        r = f(x, y)
        ensure(type(r) is kind and len(r) == n and all(int(u) == op(v, w) for u, v, w in zip(r, a, b)), "result", r)
        ensure(x == kind(a) and y == kind(b), "argument changed")
        other = list if kind is tuple else tuple
        raises(TypeError, f, kind(a), other(b))
        raises(TypeError, f, other(a), kind(b))
        raises(TypeError, f, rng.choice([None, 3, "ab", {1: 2}, {1}, np.array([1])]), rng.choice([kind(b), 3, "ab", {1: 2}]))
    else:
        leaves = []

        def mk(d):
            out = []
            for _ in range(rng.randint(0, 3)):
                if d and rng.random() < 0.45:
                    out.append(mk(d - 1))
                else:
                    v = rng.choice([1, "str", (1, 2), None, (), "", {"a": 1}, 2.5, False])
                    leaves.append(v)
                    out.append(v)
            return out

        l = mk(3)
        c = copy.deepcopy(l)
        log("flatten", l)
        ensure(list(Functions._flatten(l)) == leaves, "flatten", list(Functions._flatten(l)), "expected", leaves)
        ensure(l == c, "argument changed")


@case("C25", quick=150, thorough=1500)
def clocks(rng, size, log):
    import time
    from unittest import mock
    import sawatabi.utils as u

    if rng.random() < 0.5:
        t = rng.choice([0.0, 1.0, 1602345678.123456, 12.999999, rng.uniform(0, 2e9), 0.9999995])
        log("time", t)
        with mock.patch("time.time", lambda: t):
            for nm, k in (("", 1), ("_ms", 1000), ("_us", 1000000), ("_ns", 1000000000)):
                v = getattr(u, "current_time" + nm)()
                ensure(close(v, t * k, 1e-12), nm, v)
                i = getattr(u, "current_time" + nm + "_as_int")()
                ensure(type(i) is int and i == int(v), "integer variant", nm, i, v)
    else:
        calls = []
        now = [100.0]

        def clock():
            now[0] += rng.choice([0.5, 0.25, 3.0])
            return now[0]

        ret = rng.choice([None, 0, [1], {"a": 1}, "x", (1, 2), False])
        boom = rng.random() < 0.4
        kind = rng.choice([KeyError, ValueError, TypeError, TimeoutError, ConnectionError, StopIteration, OSError, RuntimeError, Exception, ZeroDivisionError, KeyboardInterrupt, SystemExit, AssertionError, NotImplementedError, AttributeError])

        def target(*a, **k):
            calls.append((a, k))
            if boom:
                raise kind("inside")
            now[0] += 10.0
            return ret

        args = tuple(rng.choice([1, "a", None, [2]]) for _ in range(rng.randint(0, 3)))
        kw = {k: rng.randint(0, 9) for k in rng.sample(["a", "b", "func", "args"], rng.randint(0, 2))}
        log("profile", args, kw, "raises" if boom else "returns", ret)
        with mock.patch("time.perf_counter", clock), mock.patch("time.time", clock), mock.patch("time.monotonic", clock):
            f = u.profile(target)
            ensure(f.__name__ == "target", "wrapper name")
            if boom:
                try:
                    f(*args, **kw)
                    ensure(False, "the exception of the wrapped function is lost", kind)
                except BaseException as e:
                    ensure(not isinstance(e, Fail) and type(e) is kind and e.args == ("inside",), "exception", type(e), "expected", kind)
            else:
                r = f(*args, **kw)
        ensure(calls == [(args, kw)], "calls of the wrapped function", calls)
        if not boom:
            ensure(r["return"] is ret, "returned", r["return"], ret)
            ensure(r["profile"]["function_name"] == "target", "name")
            d = r["profile"]["execution_sec"]
            ensure(d in (10.5, 10.25, 13.0), "duration", d)
