"""LogicalModel.to_physical: exact sums (C02), logical model intact (C03), numbering (C04)."""
from .common import *
from .arrays import *
from .logical import *
from . import logical

# ---------------------------------------------------------------- pyqubo expressions without variables (placeholders)

NOTE = "pyqubo: an expression built from numbers and placeholders by * and + evaluates, at the supplied placeholder values, to the same arithmetic on the values; compile() and to_qubo(feed_dict) of 'expression + variable' report its value as the offset"
OTHER_FEED = z3.Function("value_at_other_placeholders", R, U, R)


def phx(v, coef=False):
    """A pyqubo expression of placeholders and numbers (coef: of class Coefficient); v is its value at the supplied placeholder values."""
    return Struct("phx", v=v, coef=coef)


def _isinst(I, v, p):
    if isinstance(v, Struct) and v.kind == "phx":
        if p in ("pyqubo.core.Coefficient", "pyqubo.Coefficient"):
            return v["coef"]
        return p == "builtins.object" or (p in ("pyqubo.Express", "pyqubo.core.Express") and bnot(v["coef"]))
    if p in ("pyqubo.core.Coefficient", "pyqubo.Coefficient"):
        return False
    return NotImplemented


lib.ISINST_HOOK.append(_isinst)
lib.IDEQ["phx"] = lambda I, a, b: band(real(a["v"]) == real(b["v"]), zb(a["coef"]) == zb(b["coef"]))


def _bin(I, op, a, b):
    px = lambda v: isinstance(v, Struct) and v.kind == "phx"
    if not (px(a) or px(b) or isinstance(a, PV) or isinstance(b, PV)):
        return NotImplemented
    I.ctx.assumptions.add(NOTE)
    if isinstance(b, PV) and isinstance(op, ast.Add) or isinstance(a, PV) and isinstance(op, ast.Add):
        c, v = (a, b) if isinstance(b, PV) else (b, a)
        if px(c) or is_num(c):
            return Struct("pqe", c=c)
        return NotImplemented
    va, vb = (x["v"] if px(x) else x for x in (a, b))
    if not (is_num(va) and is_num(vb)) or not isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
        return NotImplemented
    return phx(lib.arith(I, op, real(va), real(vb)), False)


lib.BIN_HOOK.append(("phx", _bin))


def feed(I, v, d):
    """Value of a number or placeholder expression at the given placeholder dictionary."""
    v = I.res(v)
    if is_num(v):
        return v
    sup = getattr(I.ctx, "supplied", None)
    d = None if d is None else I.res(d)
    if sup is not None and isinstance(d, (Ref, Frozen)) and I.ctx.rec(d) is sup:
        return v["v"]
    return OTHER_FEED(real(v["v"]), z3.Const("other_feed", U))


def _feed_arg(a, k):
    return k.get("feed_dict", a[0] if a else None)


@method("phx", "evaluate")
def _evaluate(I, o, r, a, k):
    return feed(I, o, _feed_arg(a, k))


@method("pqe", "compile")
def _compile(I, o, r, a, k):
    return Struct("pqm", c=o["c"])


@method("pqm", "to_qubo")
def _to_qubo(I, o, r, a, k):
    return (Opaque(I.ctx.fresh("qubo_of_the_variable", U)), feed(I, o["c"], _feed_arg(a, k)))


# ---------------------------------------------------------------- the pre-state

FOLD_FIELDS = ["_offset", "_deleted", "_fixed", "_interactions_array", "_interactions_attrs", "_interactions_length", "_interactions", "_variables", "_constraints"]


@method("constraint", "to_model")
def _to_model(I, o, r, a, k):
    return Struct("cmodel", key=o["key"])


class MergeFold:
    """Contract of merge applied once per constraint: afterwards the store holds the rows of the model and of every merged
    model (an arbitrary consistent store; the relation between the two is the postcondition of merge, C08)."""

    fields = FOLD_FIELDS

    def __init__(self, s):
        self.s = s
        self.merged = None

    def after(self, I, op, loop, V):
        ctx = I.ctx
        v = op.a["value"]
        s = self.s
        l = ctx.fresh("merged_label", R)
        # every constraint of the model is merged, exactly once
        i = loop.vars
        if not (isinstance(v, Struct) and v.kind == "cmodel"):
            raise Unsupported("merging something else")
        mem, ws = key_hit(I, op, loop, V, v["key"], l)
        ctx.ensure("to_physical: every constraint's model is merged, no other", zb(mem) == s.chas(l))
        m = self.merged = store(I, s.mt, name="merged")
        if s.ph:
            with_placeholders(I, m, "merged")
        put_store(I, s, m)


def key_hit(I, op, loop, V, key, l):
    """Some iteration of the loop merges the model of constraint l."""
    p = Part(Dom([v.sort() for v in op.vars], lambda vs: band(V(vs[: len(loop.vars)]), op.guard if isinstance(op.guard, bool) else z3.substitute(op.guard, *zip(op.vars, vs)))), lambda vs: vsubst(key, list(zip(op.vars, vs))))
    return lib.part_member(I, p, SStr(l))


def with_placeholders(I, m, name):
    """Coefficients and scales may be pyqubo expressions of placeholders; the functions of m.f give their values."""
    ctx = I.ctx
    ck, sk = ctx.fresh_fn(name + "_coefficient_kind", Z, Z), ctx.fresh_fn(name + "_scale_kind", Z, B)
    arr = ctx.rec(fields(I, m.ref)["_interactions_array"])
    cf, sc = m.f["coefficient"], m.f["scale"]
    m.at["coefficient"] = lambda j: GU([(ck(j) == 0, cf(j)), (ck(j) == 1, phx(cf(j), True)), (z3.And(ck(j) != 0, ck(j) != 1), phx(cf(j)))])
    m.at["scale"] = lambda j: GU([(sk(j), sc(j)), (z3.Not(sk(j)), phx(sc(j)))])
    for k in ("coefficient", "scale"):
        ctx.heap[arr.items[k].id] = column(m.n, m.at[k])


def put_store(I, s, m):
    """The columns, attributes and offset of m become those of s (in place)."""
    ctx = I.ctx
    f, g = fields(I, s.ref), fields(I, m.ref)
    a, b = ctx.rec(f["_interactions_array"]), ctx.rec(g["_interactions_array"])
    for k in COLS:
        ctx.heap[a.items[k].id] = ctx.heap[b.items[k].id]
    ctx.heap[f["_interactions_array"].id] = MRec(a.items, b.amap)
    ctx.heap[f["_interactions_attrs"].id] = ctx.heap[g["_interactions_attrs"].id]
    setf(I, s.ref, _interactions_length=m.n, _offset=[m.off, phx(m.off, True), phx(m.off)][s.ph])


def merge_contract(s, fold):
    def contract(I, args, kwargs):
        me = I.res(args[0])
        other = I.res(args[1] if len(args) > 1 else kwargs["other"])
        if not (isinstance(me, Ref) and me.id == s.ref.id):
            raise Unsupported("merging into another model")
        if not I.ctx.loopvars:
            raise Unsupported("a merge outside of a loop")
        I.ctx.assumptions.add("contract of merge (C08) and of to_model (C09): merging the model of a constraint appends its interactions and adds its offset; such a model has no arrays, constraints, deleted or fixed variables")
        I.ctx.log(Op("fold", ("h", me.id), value=other, tag="merge"))
        return None

    return contract


def declared(I, s):
    """Declared arrays in declaration order, their elements in row-major order, all labels distinct."""
    ctx = I.ctx
    N = ctx.fresh("arrays", Z)
    ctx.assume(N >= 0)
    nm, idx = ctx.fresh_fn("array_name", Z, R), ctx.fresh_fn("array_of", R, Z)
    size, lab = ctx.fresh_fn("array_size", R, Z), ctx.fresh_fn("element_label", R, Z, R)
    la, le = ctx.fresh_fn("label_array", R, Z), ctx.fresh_fn("label_element", R, Z)
    i, j, a = z3.Const("di", Z), z3.Const("dj", Z), z3.Const("da", R)
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(idx(nm(i)) == i, size(nm(i)) >= 0)), patterns=[nm(i)]))
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < N, j >= 0, j < size(nm(i))), z3.And(la(lab(nm(i), j)) == i, le(lab(nm(i), j)) == j)), patterns=[lab(nm(i), j)]))
    spin = s.mt == const(I, "MODEL_ISING")
    inn = lambda t: z3.And(idx(t) >= 0, idx(t) < N, nm(idx(t)) == t)
    val = lambda ks: mk_array(SStr(ks[0]), None, None, spin, n=size(ks[0]), fn=Frozen(lib.fn_list(size(ks[0]), lambda e, ks=ks: PV(SStr(lab(ks[0], e)), spin))))
    ctx.heap[fields(I, s.ref)["_variables"].id] = MRec({}, AbsMap(SH_STR, lambda ks: inn(ks[0]), val, seq=(N, lambda i: [nm(i)])))
    s.arrays, s.nm, s.size, s.lab, s.la, s.le = N, nm, size, lab, la, le
    # a label is declared iff its own position carries it
    s.declared = lambda t: z3.And(la(t) >= 0, la(t) < N, le(t) >= 0, le(t) < size(nm(la(t))), lab(nm(la(t)), le(t)) == t)
    ctx.inverses.append(([R], [Z, Z], lambda ts: [la(ts[0]), le(ts[0])]))


def occurrence(I, raw, x):
    """x occurs in a physical interaction: as a variable, or in a pair (at either place)."""
    ctx = I.ctx
    lin = zb(mlookup(I, raw.items[1], SStr(x))[0])
    q = z3.Const("oq", R)
    prs = [zb(mlookup(I, raw.items[2], (SStr(x), SStr(q)))[0]), zb(mlookup(I, raw.items[2], (SStr(q), SStr(x)))[0])]
    return lin, z3.Exists([q], z3.Or(*prs))


def convert(I, ph=None):
    ctx = I.ctx
    s = store(I)
    kw = {}
    # numbers only, or any mixture of numbers and placeholder expressions with the placeholder values supplied
    s.ph = ctx.choose(3) if ph is None else ph
    ctx.supplied = None
    if s.ph:
        with_placeholders(I, s, "m")
        setf(I, s.ref, _offset=phx(s.off, s.ph == 1))
        kw["placeholder"] = ctx.alloc(new_map(I, SH_STR, "placeholder_values"))
        ctx.supplied = ctx.rec(kw["placeholder"])
    constraint_map(I, s)
    declared(I, s)
    fold = MergeFold(s)
    ctx.folds["merge"] = fold
    ctx.contracts[LM + ".merge"] = merge_contract(s, fold)
    from .constraints import FL, flatten_contract
    ctx.contracts[FL] = flatten_contract
    s.fold = fold
    s.segs0 = segments(I, s.ref)
    s.pre = snapshot(I)
    s.store_ids = store_ids(I, s.ref)
    out = run(I, I.getattr(s.ref, "to_physical"), [], kw)
    return s, must_return(I, "to_physical", out)


@spec("C02", LM + ".to_physical", timeout=10000, max_paths=3000)
def exact_sum(I):
    ctx = I.ctx
    W = "to_physical"
    s, p = convert(I)
    f = fields(I, p)
    m = s.fold.merged
    ctx.ensure(W + ": constraints are merged", m is not None)
    live = lambda i: z3.Not(m.f["removed"](i))
    term = lambda i: m.f["coefficient"](i) * m.f["scale"](i)
    inr = lambda i: z3.And(i >= 0, i < m.n)
    lin = lambda l: sums.mk_sum(ctx, [Z], lambda v: z3.If(z3.And(inr(v[0]), live(v[0]), m.f["body"](v[0]) == 1, m.f["k0"](v[0]) == l), term(v[0]), real(0)))
    quad = lambda l, q: sums.mk_sum(ctx, [Z], lambda v: z3.If(z3.And(inr(v[0]), live(v[0]), m.f["body"](v[0]) == 2, m.f["k0"](v[0]) == l, m.f["k1"](v[0]) == q), term(v[0]), real(0)))
    l, q = ctx.fresh("l", R), ctx.fresh("q", R)
    raw = ctx.rec(f["_raw_interactions"])
    sums.support(ctx, lin(l))
    sums.support(ctx, quad(l, q))
    h, v = mlookup(I, raw.items[1], SStr(l))
    ctx.ensure(W + ": exactly the variables with a non-zero sum", zb(h) == (lin(l) != 0))
    ctx.ensure(W + ": linear coefficients", eqv(I, v, lin(l)), [zb(h)])
    h, v = mlookup(I, raw.items[2], (SStr(l), SStr(q)))
    ctx.ensure(W + ": exactly the pairs with a non-zero sum", zb(h) == (quad(l, q) != 0))
    ctx.ensure(W + ": pair coefficients", eqv(I, v, quad(l, q)), [zb(h)])
    ctx.ensure(W + ": nothing but variables and pairs", set(raw.items) == {1, 2} and raw.amap is None)
    ctx.ensure(W + ": offset", eqv(I, f["_offset"], m.off))
    ctx.ensure(W + ": type", eqv(I, f["_mtype"], s.mt))


@spec("C03", LM + ".to_physical", timeout=10000, max_paths=3000)
def logical_intact(I):
    ctx = I.ctx
    W = "to_physical"
    s, p = convert(I)
    f0, f = s.pre[s.ref.id].fields, fields(I, s.ref)
    rem = s.f["removed"]
    cs, am = cols(I, s.ref)
    segs = segments(I, s.ref)
    if len(segs) != 1 or segs[0][0] is None or segs[0][0].sorts != (Z,):
        raise Unsupported("the surviving rows in another arrangement")
    d, row = segs[0]
    j = ctx.fresh("j", Z)
    live = z3.And(j >= 0, j < s.n, z3.Not(rem(j)))
    ctx.ensure(W + ": exactly the interactions that are not removed stay", zb(d.pred([j])) == live)
    r = row([j])
    for k in COLS:
        if k == "dirty":
            ctx.ensure(W + ": marked as converted", bnot(r[k]), [live])
        else:
            ctx.ensure(f"{W}: {k} as before", eqv(I, r[k], s.at[k](j)), [live])
    n1 = num_term(f["_interactions_length"])
    cnt = sums.mk_sum(ctx, [Z], lambda v: z3.If(z3.And(v[0] >= 0, v[0] < s.n, z3.Not(rem(v[0]))), z3.IntVal(1), z3.IntVal(0)))
    ctx.ensure(W + ": the number of interactions", n1 == cnt)
    a = ctx.fresh("a", R)
    ctx.ensure(W + ": attribute columns as before", zb(am.has([a])) == s.ahas(a))
    fam = am.get([a]).rec
    ps = [q for q in fam.parts if q.dom is None or not ctx.valid(z3.Not(zb(q.dom.pred([ctx.fresh("u", so) for so in q.dom.sorts]))), [s.ahas(a)], to=3000)]
    if len(ps) != 1 or ps[0].dom is None or ps[0].dom.sorts != (Z,):
        raise Unsupported("the surviving attributes in another arrangement")
    ap = ps[0]
    ctx.ensure(W + ": attributes of exactly the interactions that stay", zb(ap.dom.pred([j])) == live, [s.ahas(a)])
    ctx.ensure(W + ": attributes as before", eqv(I, ap.elem([j]), s.aval(a, j)), [s.ahas(a), live])
    attrs_ok(I, W, s.ref, am)
    off = f["_offset"]
    ctx.ensure(W + ": offset as before", eqv(I, off, f0["_offset"]))
    same_map(I, W + ": deleted variables as before", ctx.rec(f["_deleted"]), s.deleted, SH_STR)
    same_map(I, W + ": fixed variables as before", ctx.rec(f["_fixed"]), s.fixed, SH_STR)
    obj_frame(I, W, s.ref, s.pre, changed=("_offset", "_deleted", "_fixed", "_interactions_array", "_interactions_attrs", "_interactions_length", "_previous_physical_model"))
    for k in ("_variables", "_constraints"):
        ctx.ensure(f"{W}: {k} untouched", ctx.heap[f[k].id] is s.pre[f[k].id])
    ids = s.store_ids
    frame(I, W, s.pre, ids | {s.ref.id, f0["_deleted"].id, f0["_fixed"].id})


@spec("C04", LM + ".to_physical", timeout=10000, max_paths=3000)
def numbering(I):
    ctx = I.ctx
    W = "to_physical"
    s, p = convert(I, ph=0)
    f = fields(I, p)
    l2i, i2l = f["_label_to_index"], f["_index_to_label"]
    raw = ctx.rec(f["_raw_interactions"])
    x, y = ctx.fresh("x", R), ctx.fresh("y", R)
    hx, ix = mlookup(I, l2i, SStr(x))
    ix = num_term(ix)
    hx = zb(hx)
    # mutually inverse
    i = ctx.fresh("i", Z)
    hi, li = mlookup(I, i2l, i)
    hi = zb(hi)
    lt = str_term(li, ctx)
    h2, l2 = mlookup(I, i2l, ix)
    ctx.ensure(W + ": the index of a label leads back to it", z3.And(zb(h2), str_term(l2, ctx) == x), [hx])
    h3, i3 = mlookup(I, l2i, SStr(lt))
    ctx.ensure(W + ": the label of an index leads back to it", z3.And(zb(h3), num_term(i3) == i), [hi])
    # 0 .. n-1, in declaration order
    k = ctx.fresh("k", Z)
    ctx.ensure(W + ": indices start at 0", i >= 0, [hi])
    hk, _ = mlookup(I, i2l, k)
    ctx.ensure(W + ": no index is skipped", zb(hk), [hi, k >= 0, k < i])
    hy, iy = mlookup(I, l2i, SStr(y))
    before = z3.Or(s.la(x) < s.la(y), z3.And(s.la(x) == s.la(y), s.le(x) < s.le(y)))
    ctx.ensure(W + ": in declaration order", ix < num_term(iy), [hx, zb(hy), before])
    # exactly the declared, not deleted variables of the interactions
    q = ctx.fresh("q", R)
    used = lambda t: [zb(mlookup(I, raw.items[1], SStr(t))[0]), zb(mlookup(I, raw.items[2], (SStr(t), SStr(q)))[0]), zb(mlookup(I, raw.items[2], (SStr(q), SStr(t)))[0])]
    dele = zb(mlookup(I, s.deleted, SStr(x))[0])
    for what, u in zip(("a linear interaction", "a pair (first)", "a pair (second)"), used(x)):
        ctx.ensure(f"{W}: every declared, not deleted variable of {what} has an index", hx, [s.declared(x), z3.Not(dele), u])
    ctx.ensure(W + ": only declared, not deleted variables have an index", z3.And(s.declared(x), z3.Not(dele)), [hx])
    # ... and they occur in an interaction
    w0, w1 = occurrence(I, raw, x)
    ctx.ensure(W + ": only variables of an interaction have an index", z3.Or(w0, w1), [hx])
