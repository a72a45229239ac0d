"""The stateful stream step SolveDoFn.process (C16, C17) and attenuation (C18)."""
from .common import *
from .arrays import *
from .logical import *
from . import basics

AA = "sawatabi.algorithm.abstract_algorithm.AbstractAlgorithm"
STEP = AA + ".SolveDoFn.process"

# ---------------------------------------------------------------- assumed library contracts


@method("bag", "read")
def _read(I, o, r, a, k):
    I.ctx.assumptions.add("Beam bag state: read() gives what was added since the last clear(); timestamps compare like their float()")
    return r.fields["items"]


@method("bag", "clear")
def _clear(I, o, r, a, k):
    setf(I, o, items=I.ctx.alloc(LRec([])))


@method("bag", "add")
def _add(I, o, r, a, k):
    old = I.ctx.rec(r.fields["items"])
    setf(I, o, items=I.ctx.alloc(LRec(old.parts + (single(a[0]),))))


@ext("traceback.format_exc")
def _fmt(I, a, k):
    return SStr(I.ctx.fresh("traceback", R))


def _tscmp(I, op, a, b):
    if isinstance(op, (ast.Eq, ast.NotEq)) and (I.res(a) is None or I.res(b) is None):
        return isinstance(op, ast.NotEq)
    t = lambda x: x["t"] if isinstance(x, Struct) and x.kind == "Timestamp" else x
    return lib.compare(I, op, t(I.res(a)), t(I.res(b)))


lib.STRUCT_CMP["Timestamp"] = _tscmp


def bag(I, *items):
    return I.ctx.alloc(ORec("bag", dict(items=I.ctx.alloc(LRec([single(x) for x in items])))))


def held(I, b):
    """What a bag holds: a list of values."""
    parts = I.ctx.rec(fields(I, b)["items"]).parts
    return [p.elem([]) if p.dom is None else None for p in parts]


# ---------------------------------------------------------------- streams


class Stream:
    pass


ALGS = ("WINDOW", "DELTA", "INCREMENTAL", "PARTIAL", "ATTENUATION")


def less(I, a, b, strict=True):
    return zb(lib.tuple_less(I, ast.Lt() if strict else ast.LtE(), a, b))


def stream(I, alg=None, first=None, late=False):
    """An arbitrary step: window elements (global indices c(p), p < n), the state left by earlier steps (pv(p), p < m)."""
    ctx = I.ctx
    ctx.mem_preds = True
    s = Stream()
    s.alg = alg or ALGS[ctx.choose(len(ALGS))]
    s.T, s.V = ctx.fresh_fn("T", Z, R), ctx.fresh_fn("V", Z, U)
    s.el = lambda i: (s.T(i), (i, Opaque(s.V(i))))
    s.n = ctx.fresh("n", Z)
    ctx.assume(s.n >= 0)
    s.c, s.cpos = ctx.fresh_fn("c", Z, Z), ctx.fresh_fn("cpos", Z, Z)
    s.pv, s.ppos = ctx.fresh_fn("pv", Z, Z), ctx.fresh_fn("ppos", Z, Z)
    p, q = z3.Const("p", Z), z3.Const("q", Z)
    inn = lambda x, n: z3.And(x >= 0, x < n)
    i = z3.Const("i", Z)
    s.incur, s.inprev = ctx.fresh_fn("incur", Z, B), ctx.fresh_fn("inprev", Z, B)
    ctx.assume(z3.ForAll([p], z3.Implies(inn(p, s.n), z3.And(s.incur(s.c(p)), s.cpos(s.c(p)) == p)), patterns=[s.c(p)]))
    ctx.assume(z3.ForAll([i], z3.Implies(s.incur(i), z3.And(inn(s.cpos(i), s.n), s.c(s.cpos(i)) == i)), patterns=[s.incur(i)]))
    s.first = ctx.choose(2) == 0 if first is None else first
    if s.first:
        s.m = z3.IntVal(0)
        s.inprev = lambda i: z3.BoolVal(False)
        s.ts0 = None
    else:
        s.m = ctx.fresh("m", Z)
        ctx.assume(s.m >= 0)
        # the elements of the last step: in order, each once (a partial step may keep one twice)
        ctx.assume(z3.ForAll([i], z3.Implies(s.inprev(i), z3.And(inn(s.ppos(i), s.m), s.pv(s.ppos(i)) == i)), patterns=[s.inprev(i)]))
        ctx.assume(z3.ForAll([p], z3.Implies(inn(p, s.m), s.inprev(s.pv(p))), patterns=[s.pv(p)]))
        if s.alg != "PARTIAL":
            ctx.assume(z3.ForAll([p], z3.Implies(inn(p, s.m), s.ppos(s.pv(p)) == p), patterns=[s.pv(p)]))
        ctx.assume(z3.ForAll([p, q], z3.Implies(z3.And(inn(p, s.m), inn(q, s.m), p < q), less(I, s.el(s.pv(p)), s.el(s.pv(q)), False)), patterns=[z3.MultiPattern(s.pv(p), s.pv(q))]))
        # windows advance: what was not there before is younger than everything that was
        ctx.assume(z3.ForAll([p], z3.Implies(z3.And(inn(p, s.n), z3.Not(s.inprev(s.c(p))), s.m > 0), s.T(s.c(p)) > s.T(s.pv(s.m - 1))), patterns=[s.c(p)]))
        if s.alg == "INCREMENTAL":
            ctx.assume(z3.ForAll([p], z3.Implies(inn(p, s.n), z3.Not(s.inprev(s.c(p)))), patterns=[s.c(p)]))
        s.ts0 = Struct("Timestamp", t=ctx.fresh("ts0", R))
    key = [R, Z, U]
    ctx.inverses.append((key, [Z], lambda ts: [s.cpos(ts[1])]))
    if s.alg != "PARTIAL" and not s.first:
        ctx.inverses.append((key, [Z], lambda ts: [s.ppos(ts[1])]))
    s.ts = Struct("Timestamp", t=ctx.fresh("ts", R))
    if not s.first:
        ctx.assume(s.ts["t"] < s.ts0["t"] if late else s.ts["t"] >= s.ts0["t"])
    s.window = ctx.alloc(lib.fn_list(s.n, lambda i: s.el(s.c(i))))
    s.prev = ctx.alloc(lib.fn_list(s.m, lambda i: s.el(s.pv(i))))
    s.tstate = bag(I) if s.first else bag(I, s.ts0)
    s.estate = bag(I) if s.first else bag(I, s.prev)
    s.no_model = s.first or ctx.choose(2) == 0
    s.no_sample = s.no_model or ctx.choose(2) == 0
    s.model0 = None if s.no_model else Opaque(ctx.fresh("model0", U))
    s.sample0 = None if s.no_sample else Opaque(ctx.fresh("sample0", U))
    s.mstate = bag(I) if s.no_model else bag(I, s.model0)
    s.sstate = bag(I) if s.no_sample else bag(I, s.sample0)
    s.mt = mtype(I) if s.no_model else const(I, "MODEL_ISING")
    s.keep = ctx.fresh_fn("keep", Z, B)
    s.opts = {}
    s.solver = Opaque(ctx.fresh("solver", U))
    s.calls = []
    s.fail = None
    return s


def callbacks(I, s, model=None):
    """User functions: they return something, or raise (s.fail names the phase), and leave their arguments alone."""
    ctx = I.ctx
    s.model1 = model if model is not None else Opaque(ctx.fresh("model1", U))
    s.sample1 = Opaque(ctx.fresh("sample1", U))
    s.result = Opaque(ctx.fresh("result", U))
    ret = dict(map=s.model1, solve=s.sample1, unmap=s.result)
    s.message = SStr(ctx.fresh("message", R))

    def mk(phase):
        def fn(J, args, kwargs):
            if kwargs:
                raise Unsupported("callback called with keywords")
            s.calls.append((phase, list(args), dict(J.ctx.heap)))
            if s.fail == phase:
                raise PyRaise(Ext("builtins.Exception"), [s.message])
            return ret[phase]

        return PyFn(fn, phase + "_fn")

    return {ph: mk(ph) for ph in ("map", "solve", "unmap")}


def keep_fn(I, s):
    return PyFn(lambda J, a, k: s.keep(lib.unpack(J, lib.unpack(J, a[0], 2)[1], 2)[0]), "filter_fn")


def step(I, s, cb):
    cls = I.getattr(get(I, AA), "SolveDoFn")
    obj = I.ctx.alloc(ORec(cls, {}))
    opts = dict(s.opts)
    if s.alg == "PARTIAL":
        opts["filter_fn"] = keep_fn(I, s)
    opts = I.ctx.alloc(MRec(opts))
    kw = dict(
        timestamp=s.ts, timestamp_state=s.tstate, elements_state=s.estate, model_state=s.mstate, sampleset_state=s.sstate,
        algorithm=const(I, "ALGORITHM_" + s.alg), algorithm_options=opts, map_fn=cb["map"], solve_fn=cb["solve"], unmap_fn=cb["unmap"],
        solver=s.solver, initial_mtype=s.mt,
    )  # fmt: skip
    return run(I, I.getattr(obj, "process"), [(None, s.window)], kw)


# ---------------------------------------------------------------- obligations


def each(I, rec, tag):
    """Arbitrary elements of a list, part by part: (hypotheses, variables, element)."""
    out = []
    for p in rec.parts:
        vs = [I.ctx.fresh(tag, so) for so in (p.dom.sorts if p.dom is not None else ())]
        out.append(([zb(p.dom.pred(vs))] if p.dom is not None else [], vs, p.elem(vs), p))
    return out


def ordered(I, what, rec, strict=True):
    """Obligation: the list is in ascending (T, index) order."""
    ctx = I.ctx
    one, two = each(I, rec, "o"), each(I, rec, "o2")
    for i, (h, vs, e, p) in enumerate(one):
        for j, (h2, ws, e2, q) in enumerate(two):
            if i > j or (i == j and p.dom is None):
                continue
            hyp = h + h2
            if i == j:
                ok = len(vs) == 1 and vs[0].sort() == Z and not p.dom.inter and (p.dom.ordered or p.dom.mono)
                ctx.ensure(what + ": order known", bool(ok))
                hyp.append(vs[0] < ws[0])
            ctx.ensure(what + (": ascending, each once" if strict else ": ascending"), less(I, e, e2, strict), hyp)


def idx(I, e):
    return num_term(lib.unpack(I, lib.unpack(I, e, 2)[1], 2)[0])


def check_windows(I, W, s, elements, incoming, outgoing):
    ctx = I.ctx
    els, inc, outg = (ctx.rec(I.res(x)) for x in (elements, incoming, outgoing))
    for nm, r in (("elements", els), ("incoming", inc), ("outgoing", outg)):
        ctx.ensure(f"{W}: {nm} is a list", isinstance(r, LRec))
        for h, vs, e, p in each(I, r, "e"):
            ctx.ensure(f"{W}: {nm} are stream elements", lib.veq(I, e, s.el(idx(I, e)), True), h)
    want = lambda i: z3.Or(s.incur(i), s.inprev(i)) if s.alg == "INCREMENTAL" else (z3.Or(s.incur(i), z3.And(s.inprev(i), s.keep(i))) if s.alg == "PARTIAL" else s.incur(i))
    # elements: exactly the wanted ones, in order
    for h, vs, e, p in each(I, els, "e"):
        ctx.ensure(W + ": every element belongs to the step", want(idx(I, e)), h)
    i = ctx.fresh("i", Z)
    x = s.el(i)
    ine = zb(lib.contains(I, elements, x))
    ctx.ensure(W + ": every element of the step is there", ine, [want(i)])
    ordered(I, W + ": elements", els, s.alg != "PARTIAL")
    if s.alg != "PARTIAL":
        ctx.ensure(W + ": number of elements", num_term(lib.list_len(I, els)) == (s.n + s.m if s.alg == "INCREMENTAL" else s.n))
    # incoming
    for h, vs, e, p in each(I, inc, "e"):
        ctx.ensure(W + ": incoming are elements that were not there before", z3.And(want(idx(I, e)), z3.Not(s.inprev(idx(I, e)))), h)
    ctx.ensure(W + ": every new element is incoming", zb(lib.contains(I, incoming, x)), [want(i), z3.Not(s.inprev(i))])
    ordered(I, W + ": incoming", inc)
    # outgoing
    for h, vs, e, p in each(I, outg, "e"):
        ctx.ensure(W + ": outgoing are earlier elements that are gone", z3.And(s.inprev(idx(I, e)), z3.Not(want(idx(I, e)))), h)
    ctx.ensure(W + ": every element that is gone is outgoing", zb(lib.contains(I, outgoing, x)), [s.inprev(i), z3.Not(want(i))])
    ordered(I, W + ": outgoing", outg, s.alg != "PARTIAL")


def check_prev(I, W, s, model, sample):
    ctx = I.ctx
    if s.no_model:
        m = I.res(model)
        r = ctx.rec(m) if isinstance(m, Ref) else None
        ok = isinstance(r, ORec) and isinstance(r.cls, Cls) and r.cls.name == "LogicalModel"
        ctx.ensure(W + ": a model at the start", bool(ok))
        if ok:
            empty_model(I, W + ": the model at the start", m, s.mt)
    else:
        ctx.ensure(W + ": the previous model", lib.veq(I, model, s.model0, True))
    ctx.ensure(W + ": the previous sample set", lib.veq(I, sample, s.sample0, True) if s.sample0 is not None else I.res(sample) is None)


def empty_model(I, W, m, mt):
    ctx = I.ctx
    f = fields(I, m)
    ctx.ensure(W + " is of the configured type", f["_mtype"] == mt)
    ctx.ensure(W + " has no interactions", I.res(f["_interactions_length"]) == 0 and all(not ctx.rec(v).parts for v in ctx.rec(f["_interactions_array"]).items.values()))
    ctx.ensure(W + " has no offset", I.res(f["_offset"]) == 0)
    for k in ("_variables", "_constraints", "_deleted", "_fixed"):
        r = ctx.rec(f[k])
        ctx.ensure(f"{W} has no {k[1:]}", isinstance(r, MRec) and not r.items and r.amap is None)


def same_ref(I, what, a, b):
    a, b = I.res(a), I.res(b)
    I.ctx.ensure(what, isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id)


def one_held(I, W, b, v, what):
    xs = held(I, b)
    I.ctx.ensure(f"{W}: exactly one {what} is kept", len(xs) == 1)
    if len(xs) == 1:
        x, v = I.res(xs[0]), I.res(v)
        I.ctx.ensure(f"{W}: the {what} of this step is kept", x.id == v.id if isinstance(x, Ref) and isinstance(v, Ref) else lib.veq(I, x, v, True))


@spec("C16", STEP, timeout=10000, max_paths=3000)
def window_step(I):
    ctx = I.ctx
    s = stream(I)
    W = f"step ({s.alg.lower()})"
    run_step(I, W, s, attenuated(I, s).ref if s.alg == "ATTENUATION" else None)


def run_step(I, W, s, model=None):
    ctx = I.ctx
    cb = callbacks(I, s, model)
    out = must_return(I, W, step(I, s, cb))
    ctx.ensure(W + ": map, solve and unmap are called once, in this order", [c[0] for c in s.calls] == ["map", "solve", "unmap"])
    (_, am, hm), (_, asv, hs), (_, au, hu) = s.calls
    ctx.ensure(W + ": arguments", len(am) == 5 and len(asv) == 6 and len(au) == 4)
    now = ctx.heap
    for nm, args, h in (("map", am[2:], hm), ("solve", asv[3:], hs), ("unmap", au[1:], hu)):
        ctx.heap = h
        try:
            if nm != "map" and all(isinstance(I.res(a), Ref) and I.res(a).id == I.res(b).id and h.get(I.res(a).id) is hm.get(I.res(a).id) for a, b in zip(args, am[2:])):
                continue  # the very lists given to map
            check_windows(I, f"{W}: {nm}", s, *args)
        finally:
            ctx.heap = now
    ctx.heap = hm
    try:
        check_prev(I, W, s, am[0], am[1])
    finally:
        ctx.heap = now
    ctx.ensure(W + ": the solver is handed over", lib.veq(I, asv[0], s.solver, True))
    ctx.ensure(W + ": the mapped model is solved", lib.veq(I, asv[1], s.model1, True) if not isinstance(s.model1, Ref) else I.res(asv[1]).id == s.model1.id)
    ctx.ensure(W + ": solving sees the previous sample set", lib.veq(I, asv[2], s.sample0, True) if s.sample0 is not None else I.res(asv[2]) is None)
    ctx.ensure(W + ": the new sample set is unmapped", lib.veq(I, au[0], s.sample1, True))
    ys = ctx.rec(out).parts
    ctx.ensure(W + ": the result of unmapping is the output", len(ys) == 1 and ys[0].dom is None and lib.veq(I, ys[0].elem([]), s.result, True) is True)
    one_held(I, W, s.tstate, s.ts, "timestamp")
    one_held(I, W, s.mstate, s.model1, "model")
    one_held(I, W, s.sstate, s.sample1, "sample set")
    kept = held(I, s.estate)
    ctx.ensure(W + ": one list of elements is kept", len(kept) == 1)
    a, b = I.res(kept[0]), I.res(am[2])
    if not (isinstance(a, Ref) and a.id == b.id):
        e = lib.rec_eq(I, ctx.rec(a), hm[b.id])
        ctx.ensure(W + ": the elements of this step are kept", e)
    else:
        ctx.ensure(W + ": the elements of this step are kept", ctx.heap[a.id] is hm[b.id])
    return out


# ---------------------------------------------------------------- C17


def pieces(I, v):
    """Flat pieces of a formatted string."""
    v = I.res(v)
    if isinstance(v, LazyStr):
        return [x for p in v.pieces for x in pieces(I, p)]
    if isinstance(v, SStr) and v.pieces:
        return [x for p in v.pieces for x in pieces(I, p)]
    return [v]


def one_message(I, W, out):
    r = I.ctx.rec(out)
    ok = isinstance(r, LRec) and len(r.parts) == 1 and r.parts[0].dom is None
    I.ctx.ensure(W + ": exactly one message", ok)
    if not ok:
        raise Infeasible()
    v = r.parts[0].elem([])
    I.ctx.ensure(W + ": a text", is_strv(v))
    return pieces(I, v)


def text(ps):
    return " ".join(p for p in ps if isinstance(p, str)).lower()


@spec("C17", STEP, timeout=10000)
def outdated_window(I):
    ctx = I.ctx
    W = "outdated window"
    s = stream(I, first=False, late=True)
    cb = callbacks(I, s)
    pre = dict(ctx.heap)
    ps = one_message(I, W, must_return(I, W, step(I, s, cb)))
    ctx.ensure(W + ": says so", "outdated" in text(ps))
    utc = lambda t: z3.Function("utc_datetime", R, U)(t["t"])
    at = lambda t: [i for i, p in enumerate(ps) if isinstance(p, Opaque) and p.t.eq(utc(t))]
    ctx.ensure(W + ": names its own timestamp and then the one already processed", len(at(s.ts)) == 1 and len(at(s.ts0)) == 1 and at(s.ts) < at(s.ts0))
    ctx.ensure(W + ": no callback is called", not s.calls)
    for b, nm in ((s.tstate, "timestamp"), (s.estate, "elements"), (s.mstate, "model"), (s.sstate, "sample set")):
        a, c = fields(I, b)["items"], pre[b.id].fields["items"]
        ctx.ensure(f"{W}: the {nm} state is unchanged", same_list(I, ctx.rec(a), pre[c.id]))
    ctx.ensure(W + ": the elements kept are unchanged", ctx.heap[s.prev.id] is pre[s.prev.id])


def same_list(I, a, b):
    if a is b:
        return True
    if len(a.parts) != len(b.parts) or any(p.dom is not None for p in a.parts + b.parts):
        return False
    ident = lambda x, y: x.id == y.id if isinstance(x, Ref) and isinstance(y, Ref) else lib.veq(I, x, y, True)
    return band(*[ident(I.res(p.elem([])), I.res(q.elem([]))) for p, q in zip(a.parts, b.parts)])


STEMS = {"map": "map", "solve": "solv", "unmap": "unmap"}


def named(ps):
    import re

    return set(re.findall(r"unmap|map|solv", text(ps)))


@spec("C17", STEP, timeout=10000, max_paths=2000)
def failing_window(I):
    ctx = I.ctx
    phases = ("map", "solve", "unmap")
    alg = ALGS[ctx.choose(len(ALGS))]
    s = stream(I, alg)
    s.fail = phases[ctx.choose(3)]
    W = f"failure in {s.fail} ({alg.lower()})"
    m = attenuated(I, s) if alg == "ATTENUATION" else None
    cb = callbacks(I, s, m.ref if m else None)
    ps = one_message(I, W, must_return(I, W, step(I, s, cb)))
    ctx.ensure(W + ": the message names the phase", named(ps) == {STEMS[s.fail]})
    done = phases[: phases.index(s.fail)]
    ctx.ensure(W + ": later phases are skipped", [c[0] for c in s.calls] == list(done) + [s.fail])
    one_held(I, W, s.tstate, s.ts, "timestamp")
    kept = held(I, s.estate)
    ctx.ensure(W + ": the elements of this step are kept", len(kept) == 1 and isinstance(I.res(kept[0]), Ref) and I.res(kept[0]).id == I.res(s.calls[0][1][2]).id)
    for ph, b, new, old, nm in (("map", s.mstate, s.model1, s.model0, "model"), ("solve", s.sstate, s.sample1, s.sample0, "sample set")):
        if ph in done:
            one_held(I, W, b, new, nm)
        elif old is None:
            ctx.ensure(f"{W}: no {nm} is kept", held(I, b) == [])
        else:
            one_held(I, W, b, old, nm)


@spec("C17", STEP, timeout=10000, max_paths=2000)
def regular_window(I):
    """A window that is not older is never reported."""
    ctx = I.ctx
    W = "regular window"
    s = stream(I, ("WINDOW", "ATTENUATION")[ctx.choose(2)])
    m = attenuated(I, s) if s.alg == "ATTENUATION" else None
    cb = callbacks(I, s, m.ref if m else None)
    out = must_return(I, W, step(I, s, cb))
    ctx.ensure(W + ": all phases are run", [c[0] for c in s.calls] == ["map", "solve", "unmap"])
    ys = ctx.rec(out).parts
    ctx.ensure(W + ": the result of unmapping is the only output", len(ys) == 1 and ys[0].dom is None and lib.veq(I, ys[0].elem([]), s.result, True) is True)


# ---------------------------------------------------------------- C18


def attenuated(I, s, fixed=True):
    """The model returned by the mapping: an arbitrary store with numeric reference timestamps; to_physical by its contract."""
    ctx = I.ctx
    m = store(I, const(I, "MODEL_ISING") if fixed else None, name="w", attrs=False)
    key = 0 if fixed else ctx.choose(2)
    va = ctx.fresh_fn("w_attr", R, Z, R)
    ha = ctx.fresh_fn("w_attr_has", R, B)
    a = z3.Const("wa", R)
    aref = fields(I, m.ref)["_interactions_array"]
    arr = ctx.rec(aref)
    ctx.assume(z3.ForAll([a], z3.Implies(ha(a), z3.And(*[a != str_code(k) for k in COLS])), patterns=[ha(a)]))
    m.ahas, m.aval = ha, va
    col = lambda n, row: AbsMap(SH_STR, lambda ks: ha(*ks), lambda ks: Frozen(column(n, lambda j, ks=ks: va(ks[0], row(j)))))
    ctx.heap[aref.id] = MRec(arr.items, col(m.n, lambda j: j))
    if key == 0:
        s.key, m.ref_ts = "timestamp", m.f["timestamp"]
    else:
        t = ctx.fresh("refattr", R)
        ctx.assume(ha(t))
        s.key, m.ref_ts = SStr(t), (lambda j: va(t, j))
    s.ms = ctx.fresh("min_scale", R)
    s.opts["attenuation.key"] = s.key
    s.opts["attenuation.min_scale"] = s.ms
    m.conv = []
    # rows that are not removed, in some order
    m.n1 = ctx.fresh("live_n", Z)
    m.row, m.pos = ctx.fresh_fn("live_row", Z, Z), ctx.fresh_fn("live_pos", Z, Z)
    p = z3.Const("lp", Z)
    m.live = ctx.fresh_fn("live", Z, B)
    ctx.assume(m.n1 >= 0)
    ctx.assume(z3.ForAll([p], m.live(p) == z3.And(p >= 0, p < m.n, z3.Not(m.f["removed"](p))), patterns=[m.live(p)]))
    ctx.assume(z3.ForAll([p], z3.Implies(m.live(p), z3.And(m.pos(p) >= 0, m.pos(p) < m.n1, m.row(m.pos(p)) == p)), patterns=[m.live(p)]))
    ctx.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < m.n1), z3.And(m.live(m.row(p)), m.pos(m.row(p)) == p)), patterns=[m.row(p)]))

    def contract(J, args, kwargs):
        me = J.res(args[0])
        if me.id != m.ref.id or J.ctx.loopvars or m.conv:
            raise Unsupported("converting something else")
        J.ctx.assumptions.add("contract of to_physical (C03): afterwards the interactions are exactly those not removed, their properties as before; the model has no placeholders")
        f = fields(J, m.ref)
        arr = J.ctx.rec(f["_interactions_array"])
        for k in COLS:
            J.ctx.heap[arr.items[k].id] = column(m.n1, (lambda j: False) if k == "dirty" else (lambda j, k=k: m.at[k](m.row(j))))
        J.ctx.heap[f["_interactions_array"].id] = MRec(arr.items, col(m.n1, m.row))
        setf(J, m.ref, _interactions_length=m.n1)
        m.conv.append(dict(J.ctx.heap))
        return Opaque(J.ctx.fresh("physical", U))

    ctx.contracts[LM + ".to_physical"] = contract
    return m


def model_ids(I, m, heap):
    ids = {m.ref.id}
    todo = [v for v in heap[m.ref.id].fields.values()]
    while todo:
        v = todo.pop()
        if isinstance(v, Ref) and v.id not in ids:
            ids.add(v.id)
            r = heap[v.id]
            if isinstance(r, MRec):
                todo += list(r.items.values())
            elif isinstance(r, LRec):
                todo += [p.elem([]) for p in r.parts if p.dom is None]
    return ids


@spec("C18", STEP, timeout=10000, max_paths=2000)
def attenuation(I):
    ctx = I.ctx
    W = "attenuation"
    s = stream(I, "ATTENUATION")
    m = attenuated(I, s, False)
    cb = callbacks(I, s, m.ref)
    pre = dict(ctx.heap)
    must_return(I, W, step(I, s, cb))
    calls = {c[0]: c for c in s.calls}
    ctx.ensure(W + ": the model is solved", "solve" in calls)
    ctx.ensure(W + ": the mapped model is the one solved", I.res(calls["solve"][1][1]).id == m.ref.id)
    heap = calls["solve"][2]
    base = m.conv[0] if m.conv else pre
    pos = m.pos if m.conv else (lambda i: i)
    i, j, a, b = (ctx.fresh(x, Z) for x in "ijab")
    q = z3.Const("aq", Z)
    now = ctx.heap
    ctx.heap = heap
    try:
        cs, am = cols(I, m.ref)
        sc = lambda x: real(at(I, cs["scale"], pos(x)))
        t = m.ref_ts
        old = [z3.ForAll([q], z3.Implies(m.live(q), z3.And(t(a) <= t(q), t(q) <= t(b))), patterns=[m.live(q)]), m.live(a), m.live(b), m.live(i)]
        lo, hi = t(a), t(b)
        ctx.ensure(W + ": linear in the reference timestamp, 1 for the newest and the minimum scale for the oldest", sc(i) == (1 - s.ms) / (hi - lo) * (t(i) - lo) + s.ms, old + [lo < hi])
        ctx.ensure(W + ": nothing changes if all timestamps are equal", sc(i) == m.f["scale"](i), old + [lo == hi])
        # no other property
        n = m.n1 if m.conv else m.n
        for k in COLS:
            if k == "dirty":
                continue
            same_len(I, f"{W}: {k}", cs[k], n)
            if k != "scale":
                ctx.ensure(f"{W}: {k} unchanged", eqv(I, at(I, cs[k], pos(i)), m.at[k](i)), [m.live(i)])
        x = ctx.fresh("x", R)
        ctx.ensure(W + ": attribute columns unchanged", zb(am.has([x])) == m.ahas(x))
        ctx.ensure(W + ": attributes unchanged", eqv(I, at(I, am.get([x]).rec, pos(i)), m.aval(x, i)), [m.ahas(x), m.live(i)])
        scale_id = ctx.rec(fields(I, m.ref)["_interactions_array"]).items["scale"].id
        bad = [k for k in model_ids(I, m, base) if k != scale_id and heap.get(k) is not base[k]]
        ctx.ensure(W + ": nothing else of the model changes", not bad)
    finally:
        ctx.heap = now


@spec("C18", STEP)
def attenuation_range(I):
    """Consequences of the formula: within [min, 1], monotone."""
    ctx = I.ctx
    ms, lo, hi, t, u = (ctx.fresh(x, R) for x in ("ms", "lo", "hi", "t", "u"))
    f = lambda x: (1 - ms) / (hi - lo) * (x - lo) + ms
    hyp = [lo < hi, lo <= t, t <= hi, lo <= u, u <= hi, ms >= 0, ms <= 1]
    ctx.ensure("the scale is at least the minimum", f(t) >= ms, hyp)
    ctx.ensure("the scale is at most 1", f(t) <= 1, hyp)
    ctx.ensure("older interactions never have the larger scale", f(t) <= f(u), hyp + [t <= u])


@spec("C18", STEP, timeout=10000, max_paths=2000)
def other_algorithms(I):
    ctx = I.ctx
    s = stream(I, ALGS[ctx.choose(4)])
    W = f"{s.alg.lower()}"
    m = attenuated(I, s)
    cb = callbacks(I, s, m.ref)
    pre = dict(ctx.heap)
    must_return(I, W, step(I, s, cb))
    ids = model_ids(I, m, pre)
    for ph, args, heap in s.calls[1:] + [("end", None, ctx.heap)]:
        ctx.ensure(f"{W}: the model is not changed ({ph})", not [k for k in ids if heap.get(k) is not pre[k]])
