"""Solvers: refusals and hand-over to the back ends (C14), the Optigan request and response (C15)."""
from .common import *
from .models import physical, PM

SOLV = "sawatabi.solver."
LOC, DW, OPT, SAW = SOLV + "local_solver.LocalSolver", SOLV + "dwave_solver.DWaveSolver", SOLV + "optigan_solver.OptiganSolver", SOLV + "sawatabi_solver.SawatabiSolver"

# ---------------------------------------------------------------- assumed library contracts


class Backend:
    """Calls that reached a back end, in order."""

    def __init__(self):
        self.calls = []


def note(I, what, *a):
    I.ctx.backend.calls.append((what,) + a)


def backend(I):
    I.ctx.backend = Backend()
    return I.ctx.backend


def sampleset(I, **kw):
    ctx = I.ctx
    f = dict(info=ctx.alloc(MRec()))
    f.update(kw)
    return ctx.alloc(ORec("sampleset", f))


@ext("neal.SimulatedAnnealingSampler")
def _neal(I, a, k):
    return Struct("sampler", which="neal")


@ext("dimod.ExactSolver")
def _exact(I, a, k):
    return Struct("sampler", which="exact")


@method("sampler", "sample")
def _sample(I, o, r, a, k):
    I.ctx.assumptions.add("back ends (neal, dimod.ExactSolver, the D-Wave composite) are opaque: sample(bqm, **options) returns a sample set")
    ss = sampleset(I, which=o["which"])
    note(I, "sample", o, list(a), dict(k), ss)
    return ss


@ext("neal.default_beta_range")
def _beta(I, a, k):
    v = Opaque(I.ctx.fresh("beta_range", U))
    note(I, "beta", None, list(a), dict(k), v)
    return v


@ext("dwave.system.samplers.DWaveSampler")
def _dws(I, a, k):
    return Struct("dwsampler", args=tuple(a), kw=Frozen(MRec(dict(k))))


@ext("dwave.system.composites.EmbeddingComposite")
def _emb(I, a, k):
    return Struct("sampler", which="dwave", of=a[0])


# ---------------------------------------------------------------- arguments


def wrong_model(I):
    """Anything that is not a physical model."""
    ctx = I.ctx
    k = ctx.choose(6)
    if k == 5:
        return I.call(get(I, "sawatabi.model.logical_model.LogicalModel"), [], {"mtype": mtype(I)})
    return [None, 3, "model", ctx.alloc(MRec()), ctx.alloc(LRec([]))][k]


def good_model(I, mt=None):
    ctx = I.ctx
    mt = mt or mtype(I)
    p, lin, quad, off = physical(I, mt)
    which = ctx.choose(2)
    if which == 0:
        ctx.assume(lin.amap.has([ctx.fresh("l0", R)]))
    else:
        ctx.assume(quad.amap.has([ctx.fresh("q0", R), ctx.fresh("q1", R)]))
    return p, lin, quad, off, mt


def empty_model(I, mt=None):
    p = I.call(get(I, PM), [], {"mtype": mt or mtype(I)})
    setf(I, p, _offset=I.ctx.fresh("eoff", R))
    return p


def is_export(I, what, b, p, lin, quad, off, mt, sign=-1):
    """Obligation: b is the BQM with the model's coefficients times sign."""
    ctx = I.ctx
    b = I.res(b)
    ctx.ensure(what + ": a BQM", isinstance(b, Struct) and b.kind == "bqm")
    for part, m, sh in (("linear", lin, SH_STR), ("quadratic", quad, SH_PAIR)):
        ks, k = arb(I, sh, "k")
        h, v = mlookup(I, b[part], k)
        ctx.ensure(f"{what}: {part} keys", zb(h) == m.amap.has(ks))
        ctx.ensure(f"{what}: {part} coefficients", z3.Implies(m.amap.has(ks), real(v) == sign * m.amap.get(ks)) if v is not None else z3.Not(m.amap.has(ks)))
    ctx.ensure(what + ": offset", real(b["offset"]) == off)
    vt = b["vartype"]
    ctx.ensure(what + ": vartype", isinstance(vt, Ext) and vt.path == ("dimod.SPIN" if mt == const(I, "MODEL_ISING") else "dimod.BINARY"))


def unchanged(I, what, pre, allowed=()):
    ids = {r.id for r in allowed}
    bad = [i for i, r in pre.items() if i not in ids and I.ctx.heap.get(i) is not r]
    I.ctx.ensure(what + ": nothing else changes", not bad)


def options(I):
    """Keyword options of the caller: opaque, handed through."""
    ctx = I.ctx
    if ctx.choose(2) == 0:
        return {}
    return {"num_reads": Opaque(ctx.fresh("num_reads", U)), "seed": Opaque(ctx.fresh("seed", U))}


def same_kw(a, b):
    return set(a) == set(b) and all(a[k] is b[k] for k in a)


def refusals(I, what, f):
    """Obligations: a value that is no physical model, an empty model."""
    ctx = I.ctx
    n = len(ctx.backend.calls)
    if ctx.choose(2) == 0:
        must_raise(I, what + " refuses other arguments", run(I, f, [wrong_model(I)]), "TypeError")
    else:
        must_raise(I, what + " refuses an empty model", run(I, f, [empty_model(I)]), "ValueError")
    ctx.ensure(what + " refuses before contacting the back end", len(ctx.backend.calls) == n)


def handed_over(I, what, call, model, opts):
    """Obligation: the recorded back-end call got the model's export and the caller's options."""
    ctx = I.ctx
    _, who, a, k, res = call
    k = dict(k)
    b = a[0] if a else k.pop("bqm", None)
    ctx.ensure(what + ": one positional model", len(a) <= 1 and b is not None)
    is_export(I, what, b, *model)
    ctx.ensure(what + ": options", same_kw(k, opts))


@spec("C14", LOC + ".__init__", LOC + ".solve", LOC + ".default_beta_range", name="local_solver", max_paths=800)
def local_solver(I):
    ctx = I.ctx
    be = backend(I)
    exact = ctx.choose(2) == 0
    s = I.call(get(I, LOC), [], {"exact": exact})
    fn = ["solve", "default_beta_range"][ctx.choose(2)]
    f = I.getattr(s, fn)
    if ctx.choose(2) == 0:
        refusals(I, f"{fn}", f)
        return
    model = good_model(I)
    pre = dict(ctx.heap)
    opts = options(I) if fn == "solve" and not exact else {}
    v = must_return(I, fn, run(I, f, [model[0]], dict(opts)))
    unchanged(I, fn, pre)
    ctx.ensure(fn + ": one call of the back end", len(be.calls) == 1)
    if len(be.calls) != 1:
        return
    handed_over(I, fn, be.calls[0], model, opts)
    if fn == "solve":
        ctx.ensure("solve: the chosen back end", be.calls[0][0] == "sample" and be.calls[0][1]["which"] == ("exact" if exact else "neal"))
    else:
        ctx.ensure("default_beta_range: neal's range", be.calls[0][0] == "beta")
    ctx.ensure(fn + ": the back end's result", v is be.calls[0][4] or (isinstance(v, Ref) and v.id == be.calls[0][4].id))


@spec("C14", DW + ".__init__", DW + "._create_composite", DW + ".solve", name="dwave_solver", max_paths=800)
def dwave_solver(I):
    ctx = I.ctx
    be = backend(I)
    kw = {}
    if ctx.choose(2):
        kw = {"endpoint": SStr(ctx.fresh("endpoint", R)), "token": SStr(ctx.fresh("token", R))}
    s = I.call(get(I, DW), [], kw)
    f = I.getattr(s, "solve")
    if ctx.choose(2) == 0:
        refusals(I, "solve", f)
        return
    model = good_model(I)
    pre = dict(ctx.heap)
    opts = options(I)
    v = must_return(I, "solve", run(I, f, [model[0]], dict(opts)))
    unchanged(I, "solve", pre)
    ctx.ensure("solve: one call of the back end", len(be.calls) == 1)
    if len(be.calls) != 1:
        return
    handed_over(I, "solve", be.calls[0], model, opts)
    ctx.ensure("solve: the composite", be.calls[0][0] == "sample" and be.calls[0][1]["which"] == "dwave")
    ctx.ensure("solve: the back end's result", isinstance(v, Ref) and v.id == be.calls[0][4].id)


# ---------------------------------------------------------------- Optigan

HOME = SStr(z3.Const("home_directory", R))
EXISTS = z3.Function("file_exists", R, B)
CFG_EP, CFG_TOK = z3.Function("config_endpoint", R, R), z3.Function("config_token", R, R)
ENV = "the operating system: expanduser, exists, open, yaml.load (a configuration file holds api.endpoint and api.token), requests.post, gzip and json are opaque and faithful"


@ext("os.path.expanduser")
def _expand(I, a, k):
    return HOME


@ext("os.path.exists")
def _exists(I, a, k):
    I.ctx.assumptions.add(ENV)
    return EXISTS(str_term(to_sstr(I.res(a[0]), I.ctx), I.ctx))


ext("os.path.isfile")(_exists)


@ext("builtins.open")
def _open(I, a, k):
    return Struct("file", name=to_sstr(I.res(a[0]), I.ctx))


def _yaml(I, a, k):
    f = I.res(a[0])
    if not (isinstance(f, Struct) and f.kind == "file"):
        raise Unsupported("yaml source")
    t = str_term(f["name"], I.ctx)
    api = I.ctx.alloc(MRec({"endpoint": SStr(CFG_EP(t)), "token": SStr(CFG_TOK(t))}))
    return I.ctx.alloc(MRec({"api": api}))


ext("yaml.load")(_yaml)
ext("yaml.safe_load")(_yaml)


def frozen(I, v, depth=0):
    """The content of a value now."""
    v = I.res(v)
    if isinstance(v, (Ref, Frozen)):
        r = I.ctx.rec(v)
        if isinstance(r, MRec):
            return Frozen(MRec({k: frozen(I, x) for k, x in r.items.items()}, r.amap))
        if isinstance(r, LRec):
            return Frozen(LRec([p if p.dom is not None else single(frozen(I, p.elem([]))) for p in r.parts], r.kind))
    return v


@ext("json.dumps")
def _dumps(I, a, k):
    return Struct("jsontext", of=frozen(I, a[0]))


@method("jsontext", "encode")
def _encode(I, o, r, a, k):
    if a and a[0] not in ("utf-8", "utf8", "UTF-8"):
        raise Unsupported("encoding")
    return Struct("jsonbytes", of=o["of"])


@ext("io.BytesIO")
def _bytesio(I, a, k):
    return I.ctx.alloc(ORec("bytesio", {"data": None}))


@ext("gzip.GzipFile")
def _gz(I, a, k):
    fo = I.res(k.get("fileobj"))
    if fo is None or k.get("mode") != "wb":
        raise Unsupported("GzipFile arguments")
    return Struct("gzfile", buf=fo, st=I.ctx.alloc(ORec("gzstate", {"data": None})))


@method("gzfile", "write")
def _gzw(I, o, r, a, k):
    if fields(I, o["st"])["data"] is not None:
        raise Unsupported("several writes")
    setf(I, o["st"], data=a[0])


def _gzexit(I, o):
    setf(I, o["buf"], data=Struct("gz", of=fields(I, o["st"])["data"]))


lib.STRUCT_ATTR[("exit", "gzfile")] = _gzexit


@method("bytesio", "getvalue")
def _getvalue(I, o, r, a, k):
    return r.fields["data"]


@ext("gzip.compress")
def _compress(I, a, k):
    return Struct("gz", of=a[0])


@ext("requests.post")
def _post(I, a, k):
    ctx = I.ctx
    ctx.assumptions.add(ENV)
    kk = {n: frozen(I, v) for n, v in k.items()}
    st = ctx.fresh("status", Z)
    resp = ctx.alloc(ORec("response", {"status_code": st, "result": ctx.optigan_result}))
    note(I, "post", [I.res(x) for x in a], kk, st)
    return resp


@method("response", "json")
def _json(I, o, r, a, k):
    return r.fields["result"]


def _resp_attr(I, o, rec, name):
    if name == "ok":
        s = rec.fields["status_code"]
        return z3.And(s < 400)
    return NotImplemented


lib.OBJ_ATTR["response"] = _resp_attr


@ext("dimod.SampleSet.from_samples")
def _from_samples(I, a, k):
    I.ctx.assumptions.add("dimod.SampleSet.from_samples(samples, vartype, energy) holds the i-th sample with the i-th energy; aggregation only merges equal samples")
    k = dict(k)
    ss = sampleset(I, samples=Frozen(I.ctx.rec(I.res(a[0] if a else k.pop("samples_like")))), vartype=k.get("vartype"), energy=k.get("energy"), extra=tuple(sorted(k)))
    note(I, "from_samples", ss)
    return ss


def numbered(I, p, name="num"):
    """A numbering: labels lab(0..n-1), l2i the inverse."""
    ctx = I.ctx
    n = ctx.fresh(name + "_n", Z)
    ctx.assume(n >= 0)
    lab = ctx.fresh_fn(name + "_lab", Z, R)
    idx = ctx.fresh_fn(name + "_idx", R, Z)
    i, a = z3.Const("ni", Z), z3.Const("na", R)
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), idx(lab(i)) == i), patterns=[lab(i)]))
    known = lambda t: z3.And(idx(t) >= 0, idx(t) < n, lab(idx(t)) == t)
    i2l = MRec({}, AbsMap(SH_INT, lambda ks: z3.And(ks[0] >= 0, ks[0] < n), lambda ks: SStr(lab(ks[0])), size=n, seq=n))
    l2i = MRec({}, AbsMap(SH_STR, lambda ks: known(ks[0]), lambda ks: idx(ks[0]), size=n))
    setf(I, p, _index_to_label=ctx.alloc(i2l), _label_to_index=ctx.alloc(l2i))
    ctx.inverses.append(([R], [Z], lambda ks: [idx(ks[0])]))
    return n, lab, idx, known


def numbering_covers(I, lin, quad, known):
    ctx = I.ctx
    a, b = z3.Const("a", R), z3.Const("b", R)
    ctx.assume(z3.ForAll([a], z3.Implies(lin.amap.has([a]), known(a)), patterns=[lin.amap.has([a])]))
    ctx.assume(z3.ForAll([a, b], z3.Implies(quad.amap.has([a, b]), z3.And(known(a), known(b))), patterns=[quad.amap.has([a, b])]))


POLY = Opaque(z3.Const("the_polynomial", U))


def optigan(I):
    """A solver with every combination of configuration; returns (solver, endpoint, token) expected."""
    ctx = I.ctx
    ep, tok, cfg = SStr(ctx.fresh("endpoint", R)), SStr(ctx.fresh("token", R)), SStr(ctx.fresh("config", R))
    for s in (ep, tok, cfg):
        ctx.assume(s.t != str_code(""))
    kw = {}
    give = ctx.choose(4)
    if give in (1, 3):
        kw["endpoint"] = ep
    if give in (2, 3):
        kw["token"] = tok
    hasc = ctx.choose(2) == 1
    if hasc:
        kw["config"] = cfg
    home = to_sstr(LazyStr([HOME, "/.optigan.yml"]), ctx)
    ht = str_term(home, ctx)
    s = I.call(get(I, OPT), [], kw)
    if give == 3:
        return s, ep.t, tok.t
    if hasc:
        return s, CFG_EP(cfg.t), CFG_TOK(cfg.t)
    ctx.assume(EXISTS(ht))  # otherwise nothing is configured
    return s, CFG_EP(ht), CFG_TOK(ht)


def response(I, n):
    """A well-formed response: rows of n values, one energy per row, anything else."""
    ctx = I.ctx
    rows = ctx.fresh("rows", Z)
    ctx.assume(rows >= 0)
    sp, en = ctx.fresh_fn("spin", Z, Z, Z), ctx.fresh_fn("renergy", Z, R)
    spins = Frozen(lib.fn_list(rows, lambda r: Frozen(lib.fn_list(n, lambda i, r=r: sp(r, i)))))
    energies = Frozen(lib.fn_list(rows, lambda r: en(r)))
    res = ctx.alloc(MRec({"spins": spins, "energies": energies, "execution_time": Opaque(ctx.fresh("other", U))}))
    ctx.optigan_result = res
    return res, rows, sp, en


@spec("C14", OPT + ".solve", OPT + ".get_config", name="optigan_refusals", max_paths=800)
def optigan_refusals(I):
    ctx = I.ctx
    be = backend(I)
    s, ep, tok = optigan(I)
    f = I.getattr(s, "solve")
    k = ctx.choose(3)
    if k == 0:
        refusals(I, "solve", f)
    elif k == 1:
        p, lin, quad, off, mt = good_model(I, const(I, "MODEL_ISING"))
        must_raise(I, "Ising models are refused", run(I, f, [p]), "ValueError")
        ctx.ensure("solve refuses before contacting the back end", not be.calls)
    else:
        p, lin, quad, off, mt = good_model(I, const(I, "MODEL_QUBO"))
        n, lab, idx, known = numbered(I, p)
        numbering_covers(I, lin, quad, known)
        response(I, n)
        ctx.contracts[PM + ".to_polynomial"] = lambda J, a, k: POLY
        pre = dict(ctx.heap)
        opts = {o: ctx.choose(2) == 1 for o in ("gzip_request", "gzip_response", "duplicate")}
        out = run(I, f, [p], opts)
        posts = [c for c in be.calls if c[0] == "post"]
        ctx.ensure("one request", len(posts) == 1)
        if len(posts) == 1:
            st = posts[0][3]
            if out.ok:
                ctx.ensure("only a response with status 200 is accepted", st == 200)
            else:
                ctx.ensure("any other status is refused with ValueError", z3.And(st != 200, z3.BoolVal(bool(lib.exc_isa(I, out.exc.cls, Ext("builtins.ValueError"))))))
        unchanged(I, "solve", pre)


@spec("C15", OPT + ".__init__", OPT + ".get_config", OPT + ".solve", name="optigan_round_trip", max_paths=800)
def optigan_round_trip(I):
    ctx = I.ctx
    be = backend(I)
    s, ep, tok = optigan(I)
    p, lin, quad, off, mt = good_model(I, const(I, "MODEL_QUBO"))
    n, lab, idx, known = numbered(I, p)
    numbering_covers(I, lin, quad, known)
    res, rows, sp, en = response(I, n)
    got = []

    def poly(J, a, k):
        got.append(list(a))
        return POLY

    ctx.contracts[PM + ".to_polynomial"] = poly  # proved in C11
    steps, timeout = ctx.fresh("steps", Z), ctx.fresh("timeout", Z)
    opts = {o: ctx.choose(2) == 1 for o in ("gzip_request", "gzip_response", "duplicate")}
    opts.update(num_unit_steps=steps, timeout=timeout)
    defaults = ctx.choose(2) == 1
    if defaults:
        if opts["gzip_request"] is not True or opts["gzip_response"] is not True or opts["duplicate"] is not False:
            return
        steps, timeout = 10, 10000
    pre = dict(ctx.heap)
    out = run(I, I.getattr(s, "solve"), [p], {} if defaults else opts)
    posts = [c for c in be.calls if c[0] == "post"]
    ctx.ensure("one request", len(posts) == 1)
    if len(posts) != 1:
        return
    _, a, k, st = posts[0]
    k = dict(k)
    url = a[0] if a else k.pop("url", None)
    ctx.ensure("endpoint", str_term(to_sstr(url, ctx), ctx) == ep)
    h = ctx.rec(k.get("headers"))
    ctx.ensure("headers", isinstance(h, MRec) and h.amap is None and "Authorization" in h.items)
    want = to_sstr(LazyStr(["Bearer ", SStr(tok)]), ctx)
    ctx.ensure("token", str_term(to_sstr(h.items["Authorization"], ctx), ctx) == str_term(want, ctx))
    ctx.ensure("compressed response exactly when asked for", (h.items.get("Accept-Encoding") == "gzip") == opts["gzip_response"] and (opts["gzip_response"] or "Accept-Encoding" not in h.items))
    ctx.ensure("compressed request exactly when asked for", (h.items.get("Content-Encoding") == "gzip") == opts["gzip_request"])
    data = k.get("data")
    if opts["gzip_request"]:
        ok = isinstance(data, Struct) and data.kind == "gz" and isinstance(data["of"], Struct) and data["of"].kind == "jsonbytes" and k.get("json") is None
        ctx.ensure("the body is the compressed JSON text", ok)
        if not ok:
            return
        payload = data["of"]["of"]
    else:
        if isinstance(data, Struct) and data.kind in ("jsonbytes", "jsontext") and "json" not in k:
            payload = data["of"]
        else:
            ctx.ensure("the body is the JSON text", k.get("json") is not None and data is None)
            payload = k.get("json")
    pl = ctx.rec(payload)
    keys = {"num_unit_steps", "timeout", "polynomial"} | ({"outputs"} if opts["duplicate"] else set())
    ctx.ensure("payload entries", isinstance(pl, MRec) and pl.amap is None and set(pl.items) == keys)
    ctx.ensure("payload: steps", num_term(pl.items["num_unit_steps"]) == steps)
    ctx.ensure("payload: timeout", num_term(pl.items["timeout"]) == timeout)
    ctx.ensure("payload: the model's polynomial", pl.items["polynomial"] is POLY and len(got) == 1 and isinstance(got[0][0], Ref) and got[0][0].id == p.id)
    if opts["duplicate"]:
        o = ctx.rec(pl.items["outputs"])
        ctx.ensure("payload: duplicate option", o.items.get("duplicate") is True)
    if not out.ok:
        ctx.ensure("only a failing status is refused", st != 200)
        return
    v = out.value
    ss = [c for c in be.calls if c[0] == "from_samples"]
    ctx.ensure("one sample set", len(ss) == 1 and isinstance(v, Ref) and v.id == ss[0][1].id)
    if len(ss) != 1:
        return
    f = fields(I, v)
    ctx.ensure("sample set: binary", isinstance(f["vartype"], Ext) and f["vartype"].path == "dimod.BINARY")
    e = f["energy"]
    ctx.ensure("sample set: the energies as returned", e is not None and isinstance(I.res(e), (Ref, Frozen)))
    j = ctx.fresh("row", Z)
    ctx.assume(z3.And(j >= 0, j < rows))
    ctx.ensure("sample set: energy of each row", z3.And(num_term(lib.list_len(I, ctx.rec(I.res(e)))) == rows, real(lib.list_at(I, ctx.rec(I.res(e)), j)) == en(j)))
    sm = ctx.rec(f["samples"])
    ctx.ensure("sample set: number of samples", num_term(lib.list_len(I, sm)) == rows)
    row = lib.list_at(I, sm, j)
    i = ctx.fresh("var", Z)
    ctx.assume(z3.And(i >= 0, i < n))
    hh, vv = mlookup(I, row, SStr(lab(i)))
    ctx.ensure("each variable has a value", zb(hh))
    ctx.ensure("the i-th value is that of the variable numbered i", num_term(vv) == sp(j, i) if vv is not None else False)
    t = ctx.fresh("label", R)
    hh, vv = mlookup(I, row, SStr(t))
    ctx.ensure("no other variable", z3.Implies(zb(hh), known(t)))
    inf = f.get("_info", f["info"])
    ctx.ensure("the raw response is the info", isinstance(inf, Ref) and inf.id == res.id)
    unchanged(I, "solve", pre)
