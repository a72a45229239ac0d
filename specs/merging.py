"""LogicalModel.merge (C08)."""
from .common import *
from .arrays import *
from .logical import *


def two_models(I, same=None):
    ctx = I.ctx
    a = store(I, name="a", val="any")
    mt = mtype(I) if not same else a.mt
    b = store(I, mt, name="b", val="any")
    spin = lambda s: s.mt == const(I, "MODEL_ISING")
    a.vm = variable_map(I, a.ref, spin(a), "a_vars")
    b.vm = variable_map(I, b.ref, spin(b), "b_vars")
    constraint_map(I, a, "a_con")
    constraint_map(I, b, "b_con")
    return a, b


def compatible(I, a, b):
    ctx = I.ctx
    k = z3.Const("ck", R)
    ctx.assume(z3.ForAll([k], z3.Implies(z3.And(a.vm["has"](k), b.vm["has"](k)), a.vm["rank"](k) == b.vm["rank"](k)), patterns=[z3.MultiPattern(a.vm["rank"](k), b.vm["rank"](k))]))
    ctx.assume(z3.ForAll([k], z3.Not(z3.And(a.chas(k), b.chas(k))), patterns=[a.chas(k), b.chas(k)]))


def converter(I, a, b):
    """Contract of _convert_mtype (C05): other becomes a well-formed model of the other type with the same arrays."""
    calls = []

    def contract(J, args, kwargs):
        me = J.res(args[0])
        if me.id != b.ref.id or J.ctx.loopvars or calls:
            raise Unsupported("converting something else")
        J.ctx.assumptions.add("contract of _convert_mtype (C05): the other model becomes a well-formed model of the other type with the same arrays, constraints, deleted and fixed variables")
        c = store(J, a.mt, name="c", val="any")
        spin = a.mt == const(J, "MODEL_ISING")
        vm = b.vm
        getf = lambda ks: mk_array(SStr(ks[0]), vm["rank"](ks[0]), lambda i: vm["dim"](ks[0], i), spin)
        J.ctx.heap[fields(J, b.ref)["_variables"].id] = MRec({}, AbsMap(SH_STR, lambda ks: vm["has"](*ks), getf))
        f, g = fields(J, b.ref), fields(J, c.ref)
        x, y = J.ctx.rec(f["_interactions_array"]), J.ctx.rec(g["_interactions_array"])
        for k in COLS:
            J.ctx.heap[x.items[k].id] = J.ctx.heap[y.items[k].id]
        J.ctx.heap[f["_interactions_array"].id] = MRec(x.items, y.amap)
        J.ctx.heap[f["_interactions_attrs"].id] = J.ctx.heap[g["_interactions_attrs"].id]
        J.ctx.inverses.append(([R], [Z], lambda ts: [c.f["pos"](ts[0])]))
        setf(J, b.ref, _interactions_length=c.n, _offset=c.off, _mtype=a.mt)
        calls.append((c, dict(J.ctx.heap)))
        return None

    I.ctx.contracts[LM + "._convert_mtype"] = contract
    return calls


@spec("C08", LM + ".merge", LM + ".append", timeout=10000, max_paths=3000)
def merge(I):
    ctx = I.ctx
    W = "merge"
    a, b = two_models(I)
    ctx.mem_preds = True
    compatible(I, a, b)
    calls = converter(I, a, b)
    for s in (a, b):
        ctx.inverses.append(([R], [Z], lambda ts, s=s: [s.f["pos"](ts[0])]))
    pre = snapshot(I)
    aids = store_ids(I, a.ref)
    fa0 = dict(fields(I, a.ref))
    must_return(I, W, run(I, I.getattr(a.ref, "merge"), [b.ref]))
    ctx.ensure(W + ": a model of the other type is converted first", len(calls) == (a.mt != b.mt))
    c = calls[0][0] if calls else b
    mid = calls[0][1] if calls else pre
    fa, fb = fields(I, a.ref), fields(I, b.ref)
    # the rows of both
    cs, am = cols(I, a.ref)
    n = a.n + c.n
    ctx.ensure(W + ": number of interactions", num_term(fa["_interactions_length"]) == n)
    j = ctx.fresh("j", Z)
    ina, inb = [j >= 0, j < a.n], [j >= 0, j < c.n]
    nb = lambda t: z3.And(c.f["pos"](t) >= 0, c.f["pos"](t) < c.n, c.f["name"](c.f["pos"](t)) == t)
    na = lambda t: z3.And(a.f["pos"](t) >= 0, a.f["pos"](t) < a.n, a.f["name"](a.f["pos"](t)) == t)
    for k in COLS:
        same_len(I, f"{W}: {k}", cs[k], n)
        x, y = at(I, cs[k], j), at(I, cs[k], a.n + j)
        ha = ina if k != "name" else ina + [z3.Not(nb(a.f["name"](j)))]
        hb = inb if k != "name" else inb + [z3.Not(na(c.f["name"](j)))]
        ctx.ensure(f"{W}: {k} of the own interactions", eqv(I, x, a.at[k](j)), ha)
        ctx.ensure(f"{W}: {k} of the other's interactions", eqv(I, y, c.at[k](j)), hb)
    p, q = ctx.fresh("p", Z), ctx.fresh("q", Z)
    np_, nq = str_term(at(I, cs["name"], p), ctx), str_term(at(I, cs["name"], q), ctx)
    ctx.ensure(W + ": names are unique", np_ != nq, [p >= 0, p < q, q < n])
    # attributes
    t = ctx.fresh("attr", R)
    ctx.ensure(W + ": attribute columns of both", zb(am.has([t])) == z3.Or(a.ahas(t), c.ahas(t)))
    fam = am.get([t]).rec
    ht = [z3.Or(a.ahas(t), c.ahas(t))]
    ctx.ensure(W + ": attribute column length", num_term(lib.list_len(I, fam)) == n, ht)
    x, y = at(I, fam, j), at(I, fam, a.n + j)
    ctx.ensure(W + ": own attributes", eqv(I, x, a.aval(t, j)), ina + [a.ahas(t)])
    ctx.ensure(W + ": attributes only the other has are blank", eqv(I, x, NAN), ina + ht + [z3.Not(a.ahas(t))])
    ctx.ensure(W + ": attributes of the other", eqv(I, y, c.aval(t, j)), inb + [c.ahas(t)])
    ctx.ensure(W + ": attributes only the own interactions have are blank", eqv(I, y, NAN), inb + ht + [z3.Not(c.ahas(t))])
    attrs_ok(I, W, a.ref, am)
    # the rest
    ctx.ensure(W + ": offsets add up", eqv(I, fa["_offset"], a.off + c.off))
    ctx.ensure(W + ": type", eqv(I, fa["_mtype"], a.mt))
    y = ctx.fresh("y", R)
    for k in ("_deleted", "_fixed", "_constraints"):
        h, v = mlookup(I, fa[k], SStr(y))
        h1, v1 = mlookup(I, pre[fa0[k].id], SStr(y))
        h2, v2 = mlookup(I, mid[fb[k].id], SStr(y))
        ctx.ensure(f"{W}: {k} is the union", zb(h) == z3.Or(zb(h1), zb(h2)))
        same = (lambda u, w: eqv(I, u, w)) if k != "_constraints" else (lambda u, w: lib.veq(I, u["key"], w["key"]) if u["ghost"] is w["ghost"] else False)
        if k != "_constraints":
            ctx.ensure(f"{W}: {k}: own entries", same(v, v1), [zb(h1), z3.Not(zb(h2))])
            ctx.ensure(f"{W}: {k}: the other's entries", same(v, v2), [zb(h2), z3.Not(zb(h1))])
    h, v = mlookup(I, fa["_variables"], SStr(y))
    va, vb = a.vm, b.vm
    spin = a.mt == const(I, "MODEL_ISING")
    ctx.ensure(W + ": arrays of both", zb(h) == z3.Or(va["has"](y), vb["has"](y)))
    i = ctx.fresh("i", Z)
    ctx.ensure(W + ": rank of an array", num_term(v["rank"]) == z3.If(va["has"](y), va["rank"](y), vb["rank"](y)), [zb(h)])
    d = num_term(dim_of(v)(i))
    hi = [i >= 0, i < num_term(v["rank"])]
    ctx.ensure(W + ": own arrays keep their size", d == va["dim"](y, i), hi + [va["has"](y), z3.Not(vb["has"](y))])
    ctx.ensure(W + ": new arrays have the other's size", d == vb["dim"](y, i), hi + [vb["has"](y), z3.Not(va["has"](y))])
    ctx.ensure(W + ": shared arrays cover both", d == z3.If(va["dim"](y, i) >= vb["dim"](y, i), va["dim"](y, i), vb["dim"](y, i)), hi + [vb["has"](y), va["has"](y)])
    ctx.ensure(W + ": arrays carry their name and the model's variable type", z3.And(zb(eqv(I, v["name"], SStr(y))), zb(v["spin"]) == spin), [zb(h)])
    # nothing else, no sharing
    frame(I, W, mid, aids | {a.ref.id} | {fa0[k].id for k in ("_deleted", "_fixed", "_constraints", "_variables")})
    obj_frame(I, W, a.ref, mid, ("_offset", "_deleted", "_fixed", "_constraints", "_variables", "_interactions_array", "_interactions_attrs", "_interactions_length"))
    own = store_ids(I, a.ref) | {fa[k].id for k in ("_deleted", "_fixed", "_constraints", "_variables")}
    oth = store_ids(I, b.ref) | {fb[k].id for k in ("_deleted", "_fixed", "_constraints", "_variables")}
    ctx.ensure(W + ": the models share no tables", not (own & oth))


@spec("C08", LM + ".merge", name="merge_refused", timeout=10000)
def merge_refused(I):
    ctx = I.ctx
    a, b = two_models(I)
    k = ctx.fresh("k", R)
    if ctx.choose(2) == 0:
        ctx.assume(z3.And(a.vm["has"](k), b.vm["has"](k), a.vm["rank"](k) != b.vm["rank"](k)))
        W = "merge with a shared array of another dimension"
    else:
        ctx.assume(z3.And(a.chas(k), b.chas(k)))
        W = "merge with a shared constraint label"
    converter(I, a, b)
    pre = snapshot(I)
    must_raise(I, W, run(I, I.getattr(a.ref, "merge"), [b.ref]), "ValueError")
    frame(I, W, pre, ())
    obj_frame(I, W, a.ref, pre)


@spec("C08", LM + ".merge", name="merge_non_model")
def merge_non_model(I):
    ctx = I.ctx
    a = store(I, name="a", val="any")
    pre = snapshot(I)
    must_raise(I, "merge of something else", run(I, I.getattr(a.ref, "merge"), [["a string", 3, None][ctx.choose(3)]]), "TypeError")
    frame(I, "merge of something else", pre, ())
