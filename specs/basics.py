"""C20 argument checks and shape arithmetic, C25 clocks and profiling, C24 index and timestamp stages."""
from .common import *

BM = "sawatabi.base_mixin.BaseMixin"
FN = "sawatabi.utils.functions.Functions"
TM = "sawatabi.utils.time."
AA = "sawatabi.algorithm.abstract_algorithm.AbstractAlgorithm"

ANYT = z3.Function("isinstance_any", U, U, BoolS)
CHAR = z3.Function("char_at", RealS, IntS, RealS)


def a_type(t):
    return Opaque(t, "is:builtins.type")


def _tname(I, o):
    t = z3.Function("type_name", U, RealS)(o.t)
    I.ctx.assume(t != str_code(""))
    return SStr(t)


lib.OPAQUE_ATTR[("is:builtins.type", "__name__")] = _tname


def types_arg(I):
    """A type, or a non-empty tuple of types of any length: (argument, predicate 'is an instance of one of them')."""
    ctx = I.ctx
    if ctx.choose(2) == 0:
        t = ctx.fresh("T", U)
        return a_type(t), (lambda v: ANYT(v, t)), (lambda: None)
    n = ctx.fresh("ntypes", Z)
    ctx.assume(n >= 1)
    f = ctx.fresh_fn("T", Z, U)
    at = ctx.alloc(lib.fn_list(n, lambda i: a_type(f(i)), "tuple"))
    isin = ctx.fresh_fn("isin", U, BoolS)
    w = ctx.fresh_fn("isinw", U, Z)
    v, i = z3.Const("v", U), z3.Int("i")
    # isin(v) <=> exists i. 0<=i<n and isinstance(v, T_i)
    ctx.axiom(z3.ForAll([v, i], z3.Implies(z3.And(i >= 0, i < n, ANYT(v, f(i))), isin(v)), patterns=[ANYT(v, f(i))]))
    ctx.axiom(z3.ForAll([v], z3.Implies(isin(v), z3.And(w(v) >= 0, w(v) < n, ANYT(v, f(w(v))))), patterns=[isin(v)]))
    return at, isin, None


@spec("C20", BM + "._check_argument_type")
def check_type(I):
    ctx = I.ctx
    at, isin, _ = types_arg(I)
    v = ctx.fresh("value", U)
    pre = dict(ctx.heap)
    name = SStr(ctx.fresh("name", R))
    out = run(I, get(I, BM + "._check_argument_type"), [name, Opaque(v), at])
    if out.ok:
        ctx.ensure("accepts only instances", isin(v))
    else:
        must_raise(I, "refusal", out, "TypeError")
        ctx.ensure("refuses only non-instances", z3.Not(isin(v)))
    ctx.ensure("frame", all(ctx.heap[i] is r for i, r in pre.items()))


def _check_many(fn, kind):
    @spec("C20", BM + "." + fn, name=fn)
    def check(I):
        ctx = I.ctx
        at, isin, _ = types_arg(I)
        n = ctx.fresh("nvalues", Z)
        ctx.assume(n >= 0)
        g = ctx.fresh_fn("value", Z, U)
        vals = ctx.alloc(lib.fn_list(n, lambda i: Opaque(g(i)), kind))
        j = ctx.fresh("j", Z)
        out = run(I, get(I, BM + "." + fn), [SStr(ctx.fresh("name", R)), vals, at])
        if out.ok:
            ctx.ensure("accepted: not empty", n >= 1)
            ctx.ensure("accepted: every element is an instance", z3.Implies(z3.And(j >= 0, j < n), isin(g(j))))
        else:
            must_raise(I, "refusal", out, "TypeError")
            # refused: not every element is an instance
            i = z3.Int("i!q")
            ctx.ensure("refused: empty or some element is not an instance", z3.Or(n <= 0, z3.Not(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), isin(g(i))), patterns=[g(i)]))))

    return check


_check_many("_check_argument_type_in_list", "list")
_check_many("_check_argument_type_in_tuple", "tuple")


@spec("C20", BM + "._check_argument_type_in_list", name="check_in_list_of_a_set")
def check_set(I):
    """The same check applied to a set (as constraints do)."""
    ctx = I.ctx
    at, isin, _ = types_arg(I)
    vals = ctx.alloc(new_set(I, SH_U, "S"))
    has = ctx.rec(vals).has
    out = run(I, get(I, BM + "._check_argument_type_in_list"), ["x", vals, at])
    x = ctx.fresh("x", U)
    if out.ok:
        ctx.ensure("accepted: every element is an instance", z3.Implies(has([x]), isin(x)))
    else:
        must_raise(I, "refusal", out, "TypeError")
        y = z3.Const("y!q", U)
        ctx.ensure("refused: empty or some element is not an instance", z3.Or(z3.Not(z3.Exists([y], has([y]))), z3.Not(z3.ForAll([y], z3.Implies(has([y]), isin(y)), patterns=[has([y])]))))


@spec("C20", BM + "._modeltype_to_vartype", BM + "._vartype_to_modeltype")
def type_names(I):
    ctx = I.ctx
    to_v, to_m = get(I, BM + "._modeltype_to_vartype"), get(I, BM + "._vartype_to_modeltype")
    pairs = [("ising", "SPIN"), ("qubo", "BINARY")]
    k = ctx.choose(4)
    if k < 2:
        f, sel, res = (to_v, 0, 1) if k == 0 else (to_m, 1, 0)
        p = pairs[ctx.choose(2)]
        ctx.ensure("translation", must_return(I, "translation", run(I, f, [p[sel]])) == p[res])
        return
    f, sel = (to_v, 0) if k == 2 else (to_m, 1)
    s = SStr(ctx.fresh("s", R))
    for p in pairs:
        ctx.assume(s.t != str_code(p[sel]))
    must_raise(I, "unknown name", run(I, f, [s]), "ValueError")


def _elementwise(fn, f):
    @spec("C20", FN + "." + fn, name=fn)
    def check(I):
        ctx = I.ctx
        F = I.getattr(get(I, FN), fn)
        n = ctx.fresh("n", Z)
        ctx.assume(n >= 0)
        sort = Z if ctx.choose(2) == 0 else R
        a, b = ctx.fresh_fn("a", Z, sort), ctx.fresh_fn("b", Z, sort)
        kinds = ["tuple", "list", "other"]
        ka, kb = kinds[ctx.choose(3)], kinds[ctx.choose(3)]

        def mk(k, g):
            if k == "other":
                return [None, 1, "s", ctx.alloc(SRec()), ctx.alloc(MRec())][ctx.choose(5)]
            return ctx.alloc(lib.fn_list(n, lambda i: g(i), k))

        x, y = mk(ka, a), mk(kb, b)
        pre = dict(ctx.heap)
        out = run(I, F, [x, y])
        if ka != kb or ka == "other":
            must_raise(I, "mixed kinds", out, "TypeError")
            return
        v = must_return(I, fn, out)
        r = ctx.rec(v) if isinstance(v, (Ref, Frozen)) else None
        ctx.ensure("same kind", isinstance(r, LRec) and r.kind == ka)
        ctx.ensure("a new container", not isinstance(v, Ref) or v.id not in pre)
        ctx.ensure("same length", num_term(lib.list_len(I, r)) == n)
        i = ctx.fresh("i", Z)
        inr = z3.And(i >= 0, i < n)
        ctx.assume(inr)
        ctx.ensure("element-wise result", num_term(lib.list_at(I, r, i)) == f(a(i), b(i)))
        ctx.ensure("frame", all(ctx.heap[q] is rr for q, rr in pre.items()))

    return check


_elementwise("elementwise_add", lambda x, y: x + y)
_elementwise("elementwise_sub", lambda x, y: x - y)
_elementwise("elementwise_max", lambda x, y: z3.If(x >= y, x, y))
_elementwise("elementwise_min", lambda x, y: z3.If(x <= y, x, y))


# ---------------------------------------------------------------- C25

CLOCKS = {"current_time": (1, False), "current_time_as_int": (1, True), "current_time_ms": (1000, False), "current_time_ms_as_int": (1000, True), "current_time_us": (10**6, False), "current_time_us_as_int": (10**6, True), "current_time_ns": (10**9, False), "current_time_ns_as_int": (10**9, True)}


@spec("C25", *[TM + k for k in CLOCKS], max_paths=100)
def clocks(I):
    ctx = I.ctx
    names = sorted(CLOCKS)
    nm = names[ctx.choose(len(names))]
    mul, isint = CLOCKS[nm]
    out = run(I, get(I, TM + nm), [])
    v = must_return(I, nm, out)
    ctx.ensure(nm + ": one clock reading", len(ctx.clock) == 1)
    t = ctx.clock[0] * mul
    if isint:
        ctx.ensure(nm + ": an integer", is_z3(v) and v.sort() == IntS or isinstance(v, int))
        v = real(v)
        ctx.ensure(nm + ": truncation", z3.If(t >= 0, z3.And(v <= t, t < v + 1), z3.And(v >= t, t > v - 1)))
    else:
        ctx.ensure(nm + ": value", real(v) == t)


@spec("C25", "sawatabi.utils.profile.profile")
def profile(I):
    ctx = I.ctx
    calls = []
    EXC = ["UserError", "ValueError", "TypeError", "KeyError", "RuntimeError", "TimeoutError", "ConnectionError", "OSError", "StopIteration", "ZeroDivisionError", "AssertionError", "KeyboardInterrupt"]
    fails = ctx.choose(2) == 1
    kind = EXC[ctx.choose(len(EXC))] if fails else None
    ret = Opaque(ctx.fresh("ret", U))

    def body(J, a, k):
        calls.append((list(a), dict(k), len(ctx.clock)))
        if fails:
            raise PyRaise(Ext("builtins." + kind), ("boom",))
        return ret

    f = PyFn(body, "user_function")
    f.fname = SStr(ctx.fresh("fname", R))
    wrapped = must_return(I, "decorating", run(I, get(I, "sawatabi.utils.profile.profile"), [f]))
    ctx.ensure("decorating does not call the function", not calls)
    args = [[], [Opaque(ctx.fresh("x", U))], [Opaque(ctx.fresh("x", U)), Opaque(ctx.fresh("y", U))]][ctx.choose(3)]
    kw = [{}, {"key": Opaque(ctx.fresh("kw", U))}][ctx.choose(2)]
    ctx.clock.clear()
    out = run(I, wrapped, list(args), dict(kw))
    ctx.ensure("called exactly once", len(calls) == 1)
    if not calls:
        raise Infeasible()
    a, k, nclock = calls[0]
    ctx.ensure("same arguments", len(a) == len(args) and all(x is y for x, y in zip(a, args)) and set(k) == set(kw) and all(k[q] is kw[q] for q in kw))
    if fails:
        ctx.ensure("the exception passes through", (not out.ok) and isinstance(out.exc.cls, Ext) and out.exc.cls.path.endswith("." + kind))
        return
    v = must_return(I, "profiled call", out)
    r = ctx.rec(v)
    ctx.ensure("result keys", isinstance(r, MRec) and r.amap is None and set(r.items) == {"return", "profile"})
    ctx.ensure("the function's result", r.items["return"] is ret)
    p = ctx.rec(r.items["profile"])
    ctx.ensure("profile keys", set(p.items) == {"function_name", "execution_sec"})
    nm = p.items["function_name"]
    ctx.ensure("function name", isinstance(nm, SStr) and nm.t.eq(f.fname.t))
    before, after = ctx.clock[:nclock], ctx.clock[nclock:]
    ctx.ensure("duration is the difference of a reading before and one after", len(before) >= 1 and len(after) >= 1)
    ctx.ensure("duration value", z3.Or(*[real(p.items["execution_sec"]) == y - x for x in before for y in after]) if before and after else False)


# ---------------------------------------------------------------- C24


def timestamp(I, name="ts"):
    return Struct("Timestamp", t=I.ctx.fresh(name, R))


@method("Timestamp", "to_utc_datetime")
def _(I, o, r, a, k):
    I.ctx.assumptions.add("apache_beam Timestamp.to_utc_datetime() and float() are functions of the timestamp")
    return Opaque(z3.Function("utc_datetime", R, U)(o["t"]))


def counter(I, n):
    return I.ctx.alloc(ORec("combining_state", {"total": n}))


@method("combining_state", "read")
def _(I, o, r, a, k):
    I.ctx.assumptions.add("Beam CombiningValueState with combine_fn=sum: read() returns the sum of what was added, 0 at the start")
    return r.fields["total"]


@method("combining_state", "add")
def _(I, o, r, a, k):
    setf(I, o, total=lib.binop(I, ast.Add(), r.fields["total"], a[0]))


@method("combining_state", "clear")
def _(I, o, r, a, k):
    setf(I, o, total=0)


@spec("C24", AA + ".IndexAssigningStatefulDoFn.process")
def index_stage(I):
    """Inductive step: state = number of elements seen so far."""
    ctx = I.ctx
    cls = get(I, AA + ".IndexAssigningStatefulDoFn")
    decl = cls.members.get("INDEX_STATE")
    ok = isinstance(decl, tuple) and isinstance(decl[1], ast.Call)
    if ok:
        kw = {k.arg: k.value for k in decl[1].keywords}
        cf = kw.get("combine_fn")
        ok = isinstance(cf, ast.Name) and cf.id == "sum"
    if not ok:
        raise Unsupported("the state declaration is not CombiningValueStateSpec(..., combine_fn=sum)")
    self_ = ctx.alloc(ORec(cls, {}))
    k = ctx.fresh("seen", Z)
    ctx.assume(k >= 0)
    st = counter(I, k)
    val = Opaque(ctx.fresh("value", U))
    out = run(I, I.getattr(self_, "process"), [(Opaque(ctx.fresh("key", U)), val)], {"index": st})
    v = must_return(I, "index stage", out)
    r = ctx.rec(v)
    ctx.ensure("one output", isinstance(r, LRec) and len(r.parts) == 1 and r.parts[0].dom is None)
    e = r.parts[0].elem([])
    ctx.ensure("a pair", isinstance(e, tuple) and len(e) == 2)
    ctx.ensure("index is the number of elements seen", num_term(e[0]) == k)
    ctx.ensure("value unchanged", e[1] is val)
    ctx.ensure("the state counts this element", num_term(ctx.rec(st).fields["total"]) == k + 1)
    ctx.ensure("no other state", not [f for f in fields(I, self_) if f])


@spec("C24", AA + ".WithTimestampTupleFn.process")
def timestamp_tuple(I):
    ctx = I.ctx
    self_ = ctx.alloc(ORec(get(I, AA + ".WithTimestampTupleFn"), {}))
    ts, data = timestamp(I), Opaque(ctx.fresh("data", U))
    v = must_return(I, "stage", run(I, I.getattr(self_, "process"), [data], {"timestamp": ts}))
    r = ctx.rec(v)
    ctx.ensure("one output", isinstance(r, LRec) and len(r.parts) == 1 and r.parts[0].dom is None)
    e = r.parts[0].elem([])
    ctx.ensure("a pair", isinstance(e, tuple) and len(e) == 2)
    ctx.ensure("event time", real(e[0]) == ts["t"])
    ctx.ensure("value unchanged", e[1] is data)


@spec("C24", AA + ".WithTimestampStrFn.process")
def timestamp_str(I):
    ctx = I.ctx
    self_ = ctx.alloc(ORec(get(I, AA + ".WithTimestampStrFn"), {}))
    ts, data = timestamp(I), Opaque(ctx.fresh("data", U))
    v = must_return(I, "stage", run(I, I.getattr(self_, "process"), [data], {"timestamp": ts}))
    r = ctx.rec(v)
    ctx.ensure("one output", isinstance(r, LRec) and len(r.parts) == 1 and r.parts[0].dom is None)
    e = to_sstr(r.parts[0].elem([]), ctx)
    want = to_sstr(LazyStr(["[", Opaque(z3.Function("utc_datetime", R, U)(ts["t"])), "] ", data]), ctx)
    ctx.ensure("'[event time] value'", str_term(e, ctx) == str_term(want, ctx))
