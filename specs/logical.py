"""LogicalModel: the interaction store (C01) and the operations over it."""
from .common import *
from .arrays import *

LM = "sawatabi.model.logical_model.LogicalModel"
COLS = ["body", "name", "key", "key_0", "key_1", "interacts", "coefficient", "scale", "timestamp", "dirty", "removed"]
ATT = "attributes."


class Store:
    """An arbitrary logical model satisfying the representation invariant."""


def column(n, f):
    return LRec([Part(lib.dom_int(n), lambda vs: f(vs[0]))])


def store(I, mt=None, name="m", val="num", attrs=True):
    ctx = I.ctx
    s = Store()
    mt = mtype(I) if mt is None else mt
    s.mt = mt
    s.ref = I.call(get(I, LM), [], {"mtype": mt})
    s.n = n = ctx.fresh_plain(name + "_n", Z)
    ctx.assume(n >= 0)
    fn = lambda k, so: ctx.fresh_fn(f"{name}_{k}", Z, so)
    body, nm, pos, k0, k1, sp = fn("body", Z), fn("name", R), ctx.fresh_fn(name + "_pos", R, Z), fn("k0", R), fn("k1", R), z3.BoolVal(mt == const(I, "MODEL_ISING"))
    i = z3.Const("si", Z)
    inr = z3.And(i >= 0, i < n)
    e = str_code("")
    ctx.assume(z3.ForAll([i], z3.Implies(inr, z3.And(pos(nm(i)) == i, nm(i) != e)), patterns=[nm(i)]))
    ctx.assume(z3.ForAll([i], z3.Implies(inr, z3.Or(body(i) == 1, body(i) == 2)), patterns=[body(i)]))
    ctx.assume(z3.ForAll([i], z3.Implies(inr, z3.And(k0(i) != e, z3.Not(STAR(k0(i))))), patterns=[k0(i)]))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(inr, body(i) == 2), z3.And(k0(i) < k1(i), z3.Not(STAR(k1(i))))), patterns=[k1(i)]))
    if val == "num":
        cf, sc, ts = fn("coefficient", R), fn("scale", R), fn("timestamp", R)
        wrap = lambda f: f
    else:
        cf, sc, ts = fn("coefficient", U), fn("scale", U), fn("timestamp", U)
        wrap = lambda f: (lambda j: Opaque(f(j)))
    dirty, removed = fn("dirty", B), fn("removed", B)
    two = lambda j: simp(body(j) == 2)
    P = lambda l: PV(SStr(l), simp(sp))
    s.at = {
        "body": lambda j: body(j),
        "name": lambda j: SStr(nm(j)),
        "key": lambda j: GU([(z3.Not(two(j)), SStr(k0(j))), (two(j), (SStr(k0(j)), SStr(k1(j))))]),
        "key_0": lambda j: SStr(k0(j)),
        "key_1": lambda j: GU([(z3.Not(two(j)), NAN), (two(j), SStr(k1(j)))]),
        "interacts": lambda j: GU([(z3.Not(two(j)), P(k0(j))), (two(j), (P(k0(j)), P(k1(j))))]),
        "coefficient": wrap(cf), "scale": wrap(sc), "timestamp": wrap(ts),
        "dirty": lambda j: dirty(j), "removed": lambda j: removed(j),
    }
    s.f = dict(body=body, name=nm, pos=pos, k0=k0, k1=k1, coefficient=cf, scale=sc, timestamp=ts, dirty=dirty, removed=removed)
    aref = fields(I, s.ref)["_interactions_array"]
    arr = ctx.rec(aref)
    if not isinstance(arr, MRec) or set(arr.items) != set(COLS) or arr.amap is not None:
        raise Unsupported("the interaction store has another representation")
    for k in COLS:
        ctx.heap[arr.items[k].id] = column(n, s.at[k])
    if attrs:
        ha = ctx.fresh_fn(name + "_attr_has", R, B)
        va = ctx.fresh_fn(name + "_attr", R, Z, U)
        sfx = ctx.fresh_fn(name + "_sfx", R, R)
        a = z3.Const("sa", R)
        ctx.assume(z3.ForAll([a], z3.Implies(ha(a), z3.And(CAT(str_code(ATT), sfx(a)) == a, *[a != str_code(k) for k in COLS])), patterns=[ha(a)]))
        s.ahas = lambda t: ha(t)
        s.aval = lambda t, j: Opaque(va(t, j))
        ctx.heap[aref.id] = MRec(arr.items, AbsMap(SH_STR, lambda ks: ha(*ks), lambda ks: Frozen(column(n, lambda j, ks=ks: Opaque(va(ks[0], j))))))
        ctx.heap[fields(I, s.ref)["_interactions_attrs"].id] = LRec([Part(Dom([R], lambda vs: ha(vs[0])), lambda vs: SStr(vs[0]))])
    else:
        s.ahas = lambda t: z3.BoolVal(False)
        s.aval = lambda t, j: NAN
    s.off = ctx.fresh(name + "_off", R)
    dl, fx = new_map(I, SH_STR, name + "_deleted", BoolS), new_map(I, SH_STR, name + "_fixed", BoolS)
    f = fields(I, s.ref)
    setf(I, s.ref, _interactions_length=n, _offset=s.off)
    ctx.heap[f["_deleted"].id] = dl
    ctx.heap[f["_fixed"].id] = fx
    s.deleted, s.fixed = dl, fx
    return s


def cols(I, m):
    """The columns of a model now: {key: LRec}, attribute family (AbsMap or None)."""
    ctx = I.ctx
    arr = ctx.rec(fields(I, m)["_interactions_array"])
    if set(arr.items) != set(COLS):
        raise Unsupported("the interaction store has another representation")
    return {k: ctx.rec(v) for k, v in arr.items.items()}, arr.amap


def at(I, rec, j):
    return lib.list_at(I, rec, j)


def head_at(I, rec, j, n):
    """Element j < n of a list whose first segment is the n old elements."""
    p = rec.parts[0]
    if p.dom is not None and p.dom.ordered and p.dom.size is not None and I.ctx.valid(num_term(p.dom.size) == n, to=2000):
        return p.elem([j])
    return at(I, rec, j)


def same_len(I, what, rec, n):
    I.ctx.ensure(what + ": length", num_term(lib.list_len(I, rec)) == num_term(n))


def eqv(I, a, b):
    return lib.veq(I, a, b, True)


OTHER_FIELDS = ["_mtype", "_variables", "_offset", "_deleted", "_fixed", "_constraints", "_interactions_array", "_interactions_attrs", "_default_keys", "_previous_physical_model"]


def snapshot(I):
    return dict(I.ctx.heap)


def frame(I, what, pre, allowed):
    """Every object that existed before is unchanged, except the given ones."""
    ok = [i for i, r in pre.items() if i not in allowed and I.ctx.heap.get(i) is not r]
    I.ctx.ensure(what + ": nothing else changes", not ok)


def obj_frame(I, what, ref, pre, changed=()):
    a, b = pre[ref.id].fields, fields(I, ref)
    for k in set(a) | set(b):
        if k in changed or k == "_interactions":
            continue
        same = k in a and k in b and (a[k] is b[k] or (isinstance(a[k], Ref) and isinstance(b[k], Ref) and a[k].id == b[k].id))
        if not same and k in a and k in b and not isinstance(a[k], (Ref, Poison)) and not isinstance(b[k], (Ref, Poison)):
            same = eqv(I, a[k], b[k])
        I.ctx.ensure(f"{what}: {k} unchanged", same)


def store_ids(I, ref):
    """Heap objects that hold the interaction columns."""
    f = fields(I, ref)
    arr = I.ctx.rec(f["_interactions_array"])
    return {f["_interactions_array"].id, f["_interactions_attrs"].id} | {v.id for v in arr.items.values()}


def attrs_ok(I, what, ref, am):
    """The attribute list names exactly the attribute columns, each once."""
    ctx = I.ctx
    r = ctx.rec(fields(I, ref)["_interactions_attrs"])
    a = ctx.fresh("anattr", R)
    mem = bor(*[lib.part_member(I, p, SStr(a))[0] for p in r.parts])
    ctx.ensure(what + ": the attribute list names the attribute columns", zb(mem) == (zb(am.has([a])) if am is not None else False))
    inst = []
    for k, p in enumerate(r.parts):
        for t in (0, 1):
            vs = [] if p.dom is None else [ctx.fresh(f"at{k}{t}", so) for so in p.dom.sorts]
            inst.append((k, vs, str_term(p.elem(vs), ctx), True if p.dom is None else zb(p.dom.pred(vs))))
    for k, vs, t, pr in inst[::2]:
        for k2, vs2, t2, pr2 in inst[1::2]:
            if k < k2 or (k == k2 and vs):
                goal = z3.And(*[x == y for x, y in zip(vs, vs2)]) if k == k2 else z3.BoolVal(False)
                ctx.ensure(what + ": no attribute column is listed twice", goal, [zb(pr), zb(pr2), t == t2])


def target_arg(I, name="t"):
    """An arbitrary target: (value, labels or None when malformed)."""
    ctx = I.ctx
    c = ctx.choose(3)
    L = lambda k: ctx.fresh(f"{name}_l{k}", R)
    if c == 2:
        k = ctx.choose(4)
        if k == 0:
            return None, None, "missing"
        if k == 1:
            return (PV(SStr(L(0)), ctx.fresh("sp", B)),), None, "bad"
        if k == 2:
            return (PV(SStr(L(0)), ctx.fresh("sp", B)), ctx.fresh("notavar", R)), None, "bad"
        return SStr(L(0)), None, "bad"
    out = []
    for k in range(c + 1):
        l = L(k)
        ctx.assume(z3.And(l != str_code(""), z3.Not(STAR(l))))
        out.append(PV(SStr(l), ctx.fresh(f"{name}_s{k}", B)))
    return (out[0] if c == 0 else tuple(out)), out, "ok"


def info(I, vs):
    """Canonical description of a target: body, labels, variables, default name."""
    ctx = I.ctx
    if len(vs) == 1:
        t = vs[0].label.t
        return 1, [t], [vs[0]], t
    a, b = vs
    c = a.label.t < b.label.t
    lo, hi = ite(c, a, b), ite(c, b, a)
    nm = z3.If(c, CAT(CAT(a.label.t, str_code("*")), b.label.t), CAT(CAT(b.label.t, str_code("*")), a.label.t))
    return 2, [lo.label.t, hi.label.t], [lo, hi], nm


def number(I, name):
    return I.ctx.fresh(name, R)


def attr_dict(I, name="attr_given"):
    """An arbitrary dict of attributes (string keys, any values)."""
    d = new_map(I, SH_STR, name, U)
    return I.ctx.alloc(d), d


def given(I, d, a):
    """(condition, value) of attribute column a being given by the attribute dict d."""
    if d is None:
        return z3.BoolVal(False), None
    ctx = I.ctx
    w = lib.get_witness(ctx, [R], lambda v: zb(d.amap.has(v)), lambda v: [CAT(str_code(ATT), v[0])])
    ws = w([a])
    return z3.And(d.amap.has(ws), CAT(str_code(ATT), ws[0]) == a), d.amap.get(ws)


@spec("C01", LM + ".add_interaction", LM + "._get_interaction_info_from_target", LM + "._has_name", LM + "._is_removed", max_paths=3000, timeout=8000)
def add_interaction(I):
    ctx = I.ctx
    s = store(I, val="any")
    tgt, vs, kind = target_arg(I)
    kw = {}
    named = ctx.choose(2) == 0
    nm = None
    if named:
        nm = ctx.fresh("given_name", R)
        kw["name"] = SStr(nm)
    c, sc = number(I, "c"), number(I, "s")
    kw["coefficient"], kw["scale"] = c, sc
    d = dref = None
    if ctx.choose(2) == 0:
        dref, d = attr_dict(I)
        kw["attributes"] = dref
    t = None
    if ctx.choose(2) == 0:
        t = number(I, "ts")
        kw["timestamp"] = t
    pre = snapshot(I)
    ids = store_ids(I, s.ref)
    out = run(I, I.getattr(s.ref, "add_interaction"), [tgt], kw)
    W = "add_interaction"
    if kind == "ok":
        body, ls, pvs, dname = info(I, vs)
        name = dname if nm is None else z3.If(nm == str_code(""), dname, nm)
        j = z3.Const("ej", Z)
        exists = z3.And(s.f["pos"](name) >= 0, s.f["pos"](name) < s.n, s.f["name"](s.f["pos"](name)) == name)
        loop = z3.BoolVal(False) if body == 1 else vs[0].label.t == vs[1].label.t
    if not out.ok:
        frame(I, W + " (refused)", pre, ())
        if kind == "missing":
            must_raise(I, W, out, "ValueError")
        elif kind == "bad":
            must_raise(I, W, out, "TypeError", "ValueError")
        else:
            must_raise(I, W, out, "ValueError")
            ctx.ensure(W + ": refuses only a known name or a self-interaction", z3.Or(exists, loop))
        return
    ctx.ensure(W + ": accepts only variables and pairs of variables", kind == "ok")
    if kind != "ok":
        raise Infeasible()
    ctx.ensure(W + ": refuses a known name", z3.Not(exists))
    ctx.ensure(W + ": refuses a pair of one variable", z3.Not(loop))
    n1 = s.n + 1
    cs, am = cols(I, s.ref)
    j = ctx.fresh("j", Z)
    inr = [j >= 0, j < s.n]
    for k in COLS:
        same_len(I, f"{W}: {k}", cs[k], n1)
        ctx.ensure(f"{W}: {k} of the other interactions", eqv(I, at(I, cs[k], j), s.at[k](j)), inr)
    last = {k: at(I, cs[k], s.n) for k in COLS}
    one = body == 1
    want = {"body": body, "name": SStr(name), "key": SStr(ls[0]) if one else (SStr(ls[0]), SStr(ls[1])), "key_0": SStr(ls[0]), "key_1": NAN if one else SStr(ls[1]),
            "interacts": pvs[0] if one else (pvs[0], pvs[1]), "coefficient": c, "scale": sc, "dirty": True, "removed": False}
    if t is not None:
        want["timestamp"] = t
    for k, v in want.items():
        ctx.ensure(f"{W}: {k} of the new interaction", eqv(I, last[k], v))
    if t is None:
        ctx.ensure(f"{W}: the new interaction is stamped with the clock", is_num(last["timestamp"]))
    ctx.ensure(W + ": count", num_term(fields(I, s.ref)["_interactions_length"]) == n1)
    a = ctx.fresh("a", R)
    g, gv = given(I, d, a)
    ctx.ensure(W + ": attribute columns", zb(am.has([a])) == z3.Or(s.ahas(a), g))
    fam = am.get([a]).rec
    ha = [zb(am.has([a]))]
    ctx.ensure(W + ": attribute column length", num_term(lib.list_len(I, fam)) == n1, ha)
    x = at(I, fam, j)
    ctx.ensure(W + ": attributes of the other interactions", zb(bor(band(s.ahas(a), eqv(I, x, s.aval(a, j))), band(z3.Not(s.ahas(a)), eqv(I, x, NAN)))), ha + inr)
    y = at(I, fam, s.n)
    ctx.ensure(W + ": attributes of the new interaction", zb(bor(band(g, eqv(I, y, gv)) if d is not None else False, band(z3.Not(g), eqv(I, y, NAN)))), ha)
    attrs_ok(I, W, s.ref, am)
    frame(I, W, pre, ids | {s.ref.id})
    obj_frame(I, W, s.ref, pre, ["_interactions_length"])


def locate(I, s, tgt, vs, kind, nm):
    """The internal name addressed by (target, name)."""
    if nm is not None:
        return nm
    return info(I, vs)[3]


def known(s, name):
    p = s.f["pos"](name)
    return z3.And(p >= 0, p < s.n, s.f["name"](p) == name)


def unchanged_but(I, W, s, idx, changes, d=None, length=None):
    """Columns after an in-place change: only row idx, only the given columns (value or None for 'any')."""
    ctx = I.ctx
    cs, am = cols(I, s.ref)
    j = ctx.fresh("j", Z)
    inr = [j >= 0, j < s.n]
    for k in COLS:
        same_len(I, f"{W}: {k}", cs[k], s.n)
        v = at(I, cs[k], j)
        if k in changes:
            ctx.ensure(f"{W}: {k} of the other interactions", eqv(I, v, s.at[k](j)), inr + [j != idx])
            if changes[k] is not ANY:
                ctx.ensure(f"{W}: {k}", eqv(I, v, changes[k]), inr + [j == idx])
        else:
            ctx.ensure(f"{W}: {k} unchanged", eqv(I, v, s.at[k](j)), inr)
    a = ctx.fresh("a", R)
    g, gv = given(I, d, a)
    ctx.ensure(W + ": attribute columns", zb(am.has([a])) == z3.Or(s.ahas(a), g))
    fam = am.get([a]).rec
    ha = [zb(am.has([a]))]
    ctx.ensure(W + ": attribute column length", num_term(lib.list_len(I, fam)) == s.n, ha)
    x = at(I, fam, j)
    old = bor(band(s.ahas(a), eqv(I, x, s.aval(a, j))), band(z3.Not(s.ahas(a)), eqv(I, x, NAN)))
    ctx.ensure(W + ": attributes", zb(bor(band(z3.And(g, j == idx), eqv(I, x, gv)) if d is not None else False, band(z3.Not(z3.And(g, j == idx)), old))), ha + inr)
    ctx.ensure(W + ": count", num_term(fields(I, s.ref)["_interactions_length"]) == s.n)
    attrs_ok(I, W, s.ref, am)


ANY = object()


@spec("C01", LM + ".update_interaction", max_paths=3000, timeout=8000)
def update_interaction(I):
    ctx = I.ctx
    W = "update_interaction"
    s = store(I, val="any")
    by = ctx.choose(4)
    tgt, vs, kind = (None, None, "missing") if by in (1, 3) else target_arg(I)
    nm = ctx.fresh("given_name", R) if by in (1, 2) else None
    kw = {}
    if nm is not None:
        ctx.assume(nm != str_code(""))
        kw["name"] = SStr(nm)
    if tgt is not None:
        kw["target"] = tgt
    ch = {"timestamp": ANY, "dirty": True}
    if ctx.choose(2) == 0:
        kw["coefficient"] = ch["coefficient"] = number(I, "c")
    if ctx.choose(2) == 0:
        kw["scale"] = ch["scale"] = number(I, "s")
    d = None
    if ctx.choose(2) == 0:
        kw["attributes"], d = attr_dict(I)
    if ctx.choose(2) == 0:
        kw["timestamp"] = ch["timestamp"] = number(I, "ts")
    pre = snapshot(I)
    ids = store_ids(I, s.ref)
    out = run(I, I.getattr(s.ref, W), [], kw)
    valid = (tgt is None and nm is not None) or (kind == "ok" and nm is None)
    loop = vs[0].label.t == vs[1].label.t if kind == "ok" and len(vs) == 2 else z3.BoolVal(False)
    if valid:
        name = locate(I, s, tgt, vs, kind, nm)
        kn, p = known(s, name), s.f["pos"](name)
        rem = s.f["removed"](p)
    if not out.ok:
        frame(I, W + " (refused)", pre, ())
        if valid:
            if nm is not None:
                ctx.ensure(W + ": refuses only an unknown or removed name", z3.Or(z3.Not(kn), rem))
                if lib.exc_isa(I, out.exc.cls, Ext("builtins.KeyError")):
                    ctx.ensure(W + ": KeyError only for an unknown name", z3.Not(kn))
                else:
                    must_raise(I, W, out, "ValueError")
                    ctx.ensure(W + ": ValueError only for a removed one", z3.And(kn, rem))
            else:
                must_raise(I, W, out, "ValueError")
                ctx.ensure(W + ": refuses only a removed interaction or a self-interaction", z3.Or(z3.And(kn, rem), loop))
        else:
            must_raise(I, W, out, "ValueError", "TypeError")
        return
    ctx.ensure(W + ": refuses malformed arguments", bool(valid))
    if not valid:
        raise Infeasible()
    ctx.ensure(W + ": refuses a removed interaction", z3.Not(z3.And(kn, rem)))
    ctx.ensure(W + ": refuses a pair of one variable", z3.Not(loop))
    if nm is not None:
        ctx.ensure(W + ": refuses an unknown name", kn)
    if ctx.decide(kn):
        unchanged_but(I, W, s, p, ch, d)
        frame(I, W, pre, ids | {s.ref.id})
        obj_frame(I, W, s.ref, pre, ["_interactions_length"])
        return
    # an unknown default name: added instead
    cs, am = cols(I, s.ref)
    body, ls, pvs, dname = info(I, vs)
    j = ctx.fresh("j", Z)
    for k in COLS:
        same_len(I, f"{W} adds: {k}", cs[k], s.n + 1)
        ctx.ensure(f"{W} adds: {k} of the other interactions", eqv(I, at(I, cs[k], j), s.at[k](j)), [j >= 0, j < s.n])
    last = {k: at(I, cs[k], s.n) for k in COLS}
    one = body == 1
    want = {"body": body, "name": SStr(dname), "key": SStr(ls[0]) if one else (SStr(ls[0]), SStr(ls[1])), "key_0": SStr(ls[0]), "key_1": NAN if one else SStr(ls[1]),
            "interacts": pvs[0] if one else (pvs[0], pvs[1]), "coefficient": ch.get("coefficient", real(0)), "scale": ch.get("scale", real(1)), "dirty": True, "removed": False}
    if "timestamp" in kw:
        want["timestamp"] = kw["timestamp"]
    for k, v in want.items():
        ctx.ensure(f"{W} adds: {k}", eqv(I, last[k], v))
    a = ctx.fresh("a", R)
    g, gv = given(I, d, a)
    ctx.ensure(W + " adds: attribute columns", zb(am.has([a])) == z3.Or(s.ahas(a), g))
    fam = am.get([a]).rec
    y = at(I, fam, s.n)
    ctx.ensure(W + " adds: attributes", zb(bor(band(g, eqv(I, y, gv)) if d is not None else False, band(z3.Not(g), eqv(I, y, NAN)))), [zb(am.has([a]))])
    ctx.ensure(W + " adds: count", num_term(fields(I, s.ref)["_interactions_length"]) == s.n + 1)
    attrs_ok(I, W, s.ref, am)


@spec("C01", LM + ".remove_interaction", LM + "._get_internal_name_from_target_and_name", max_paths=1000)
def remove_interaction(I):
    ctx = I.ctx
    W = "remove_interaction"
    s = store(I, val="any")
    by = ctx.choose(4)
    tgt, vs, kind = (None, None, "missing") if by in (1, 3) else target_arg(I)
    nm = ctx.fresh("given_name", R) if by in (1, 2) else None
    kw = {}
    if nm is not None:
        ctx.assume(nm != str_code(""))
        kw["name"] = SStr(nm)
    if tgt is not None:
        kw["target"] = tgt
    pre = snapshot(I)
    ids = store_ids(I, s.ref)
    out = run(I, I.getattr(s.ref, W), [], kw)
    valid = (tgt is None and nm is not None) or (kind == "ok" and nm is None)
    loop = vs[0].label.t == vs[1].label.t if kind == "ok" and len(vs) == 2 else z3.BoolVal(False)
    if valid:
        name = locate(I, s, tgt, vs, kind, nm)
        kn, p = known(s, name), s.f["pos"](name)
    if not out.ok:
        frame(I, W + " (refused)", pre, ())
        if valid and not lib.exc_isa(I, out.exc.cls, Ext("builtins.ValueError")):
            must_raise(I, W, out, "KeyError")
            ctx.ensure(W + ": KeyError only for an unknown interaction", z3.Not(kn))
        elif valid:
            ctx.ensure(W + ": ValueError only for a self-interaction", loop)
        else:
            must_raise(I, W, out, "ValueError", "TypeError")
        return
    ctx.ensure(W + ": refuses malformed arguments", bool(valid))
    if not valid:
        raise Infeasible()
    ctx.ensure(W + ": refuses an unknown interaction", kn)
    unchanged_but(I, W, s, p, {"removed": True, "dirty": True})
    frame(I, W, pre, ids | {s.ref.id})
    obj_frame(I, W, s.ref, pre, ["_interactions_length"])


@spec("C01", LM + ".get_attributes", LM + ".get_attribute")
def get_attributes(I):
    ctx = I.ctx
    W = "get_attributes"
    s = store(I, val="any")
    nm = ctx.fresh("given_name", R)
    ctx.assume(nm != str_code(""))
    pre = snapshot(I)
    which = ctx.choose(2)
    key = ctx.fresh("akey", R)
    if which == 0:
        out = run(I, I.getattr(s.ref, W), [], {"name": SStr(nm)})
    else:
        out = run(I, I.getattr(s.ref, "get_attribute"), [], {"name": SStr(nm), "key": SStr(key)})
    frame(I, W, pre, ())
    kn, p = known(s, nm), s.f["pos"](nm)
    if not out.ok:
        must_raise(I, W, out, "KeyError")
        ctx.ensure(W + ": refuses only what is not there", z3.Not(kn) if which == 0 else z3.Or(z3.Not(kn), z3.Not(s.ahas(key))))
        return
    ctx.ensure(W + ": refuses an unknown interaction", kn)
    if which == 0:
        h, v = mlookup(I, out.value, SStr(key))
        ctx.ensure(W + ": all attributes", zb(h) == s.ahas(key))
        ctx.ensure(W + ": the interaction's own values", eqv(I, v, s.aval(key, p)), [s.ahas(key)])
    else:
        ctx.ensure("get_attribute: refuses an unknown attribute", s.ahas(key))
        ctx.ensure("get_attribute: the interaction's own value", eqv(I, out.value, s.aval(key, p)))


@spec("C01", LM + ".__init__")
def empty_store(I):
    ctx = I.ctx
    m = I.call(get(I, LM), [], {"mtype": mtype(I)})
    cs, am = cols(I, m)
    for k in COLS:
        same_len(I, "a new model: " + k, cs[k], 0)
    ctx.ensure("a new model has no attribute column", am is None)
    ctx.ensure("a new model has no interaction", eqv(I, fields(I, m)["_interactions_length"], 0))
    ctx.ensure("a new model has no attribute", num_term(lib.list_len(I, ctx.rec(fields(I, m)["_interactions_attrs"]))) == 0)
    ids = [v.id for v in ctx.rec(fields(I, m)["_interactions_array"]).items.values()]
    ctx.ensure("a new model: one list per column", len(set(ids)) == len(ids))


# ---------------------------------------------------------------- C07

AC = "sawatabi.model.constraint.abstract_constraint.AbstractConstraint"


def constraint_map(I, s, name="con"):
    """An arbitrary dict of constraints; calls on its members are recorded by contract (checked per class in C10/C07)."""
    ctx = I.ctx
    has = ctx.fresh_fn(name + "_has", R, B)
    ghost = ctx.alloc(MRec({}, AbsMap(SH_STR, lambda ks: z3.BoolVal(False), lambda ks: SStr(real(0)))))
    m = MRec({}, AbsMap(SH_STR, lambda ks: has(*ks), lambda ks: Struct("constraint", key=SStr(ks[0]), ghost=ghost)))
    f = fields(I, s.ref)
    ctx.heap[f["_constraints"].id] = m
    s.chas, s.ghost = has, ghost
    return m


@method("constraint", "discard_variable")
def _discard(I, o, r, a, k):
    I.ctx.assumptions.add("contract of discard_variable (proved for every constraint class): exactly the variables with that label leave the constraint")
    lib.setitem(I, o["ghost"], o["key"], a[0])
    return None


@spec("C07", LM + ".delete_variable", LM + ".select_interactions_by_variable", LM + ".remove_interaction", timeout=8000)
def delete_variable(I):
    ctx = I.ctx
    W = "delete_variable"
    s = store(I, val="any")
    constraint_map(I, s)
    tgt, vs, kind = target_arg(I)
    pre = snapshot(I)
    ids = store_ids(I, s.ref)
    out = run(I, I.getattr(s.ref, W), [tgt])
    good = kind == "ok" and len(vs) == 1
    if not out.ok:
        ctx.ensure(W + ": succeeds for every variable", not good)
        must_raise(I, W, out, "TypeError", "ValueError")
        frame(I, W + " (refused)", pre, ())
        return
    ctx.ensure(W + ": refuses what is not a variable", bool(good))
    if not good:
        raise Infeasible()
    l = vs[0].label.t
    cs, am = cols(I, s.ref)
    j = ctx.fresh("j", Z)
    inr = [j >= 0, j < s.n]
    k0, k1, body = s.f["k0"](j), s.f["k1"](j), s.f["body"](j)
    hit = z3.Or(k0 == l, z3.And(body == 2, k1 == l))
    for k in COLS:
        same_len(I, f"{W}: {k}", cs[k], s.n)
        v = at(I, cs[k], j)
        if k == "removed":
            ctx.ensure(W + ": exactly the interactions on the variable are removed", zb(v) == z3.Or(s.f["removed"](j), hit), inr)
        elif k == "dirty":
            ctx.ensure(W + ": dirty of the other interactions", zb(v) == s.f["dirty"](j), inr + [z3.Not(hit)])
        else:
            ctx.ensure(f"{W}: {k} unchanged", eqv(I, v, s.at[k](j)), inr)
    c = ctx.fresh("clabel", R)
    h, v = mlookup(I, s.ghost, SStr(c))
    ctx.ensure(W + ": every constraint drops the variable", zb(h) == s.chas(c))
    ctx.ensure(W + ": only that variable is dropped", eqv(I, v, SStr(l)) if v is not None else False, [s.chas(c)])
    x = ctx.fresh("x", R)
    h, v = mlookup(I, fields(I, s.ref)["_deleted"], SStr(x))
    ctx.ensure(W + ": the variable is recorded as deleted", zb(h) == z3.Or(s.deleted.amap.has([x]), x == l))
    f = fields(I, s.ref)
    frame(I, W, pre, (ids - {f["_interactions_array"].id, f["_interactions_attrs"].id}) | {s.ref.id, s.ghost.id, f["_deleted"].id})
    obj_frame(I, W, s.ref, pre, [])


# ---------------------------------------------------------------- energy

def segments(I, m):
    """The rows of a model now, segment by segment: [(dom, vs -> row)]."""
    ctx = I.ctx
    cs, am = cols(I, m)
    n = len(cs["body"].parts)
    out = []
    for i in range(n):
        ps = {k: c.parts[i] if i < len(c.parts) else None for k, c in cs.items()}
        d = ps["body"].dom
        for k, p in ps.items():
            if p is None or (p.dom is None) != (d is None):
                raise Unsupported("columns of different structure")
            if d is not None and p.dom.key != d.key:
                vs = [ctx.fresh("seg", so) for so in d.sorts]
                if list(map(str, p.dom.sorts)) != list(map(str, d.sorts)) or not ctx.valid(zb(p.dom.pred(vs)) == zb(d.pred(vs)), to=3000):
                    raise Unsupported("columns of different structure")
        out.append((d, (lambda vs, ps=ps: {k: p.elem(vs) for k, p in ps.items()})))
    for k, c in cs.items():
        if len(c.parts) != n:
            raise Unsupported("columns of different structure")
    return out


def alts(v):
    return v.alts if isinstance(v, GU) else [(True, v)]


def label_of(I, v):
    """The string among the alternatives of a label column entry."""
    ss = [(g, x) for g, x in alts(v) if isinstance(x, (str, SStr, LazyStr))]
    if not ss:
        return None
    t = str_term(ss[-1][1], I.ctx)
    for g, x in ss[:-1]:
        t = z3.If(zb(g), str_term(x, I.ctx), t)
    return t


def row_term(I, row, x):
    """coefficient * scale * variables of a row, 0 when removed."""
    b = num_term(row["body"])
    k0, k1 = label_of(I, row["key_0"]), label_of(I, row["key_1"])
    c = real(row["coefficient"]) * real(row["scale"])
    one = x(k0)
    two = one if k1 is None else x(k0) * x(k1)
    return z3.If(zb(row["removed"]), real(0), c * (simp(z3.If(b == 1, one, two)) if k1 is not None else one))


def row_sum(I, segs, f):
    ctx = I.ctx
    tot = real(0)
    for d, row in segs:
        tot = tot + (f(row([])) if d is None else sums.mk_sum(ctx, d.sorts, lambda vs, d=d, row=row: z3.If(zb(d.pred(vs)), f(row(vs)), real(0))))
    return tot


def energy(I, off, segs, x):
    return real(off) - row_sum(I, segs, lambda r: row_term(I, r, x))


# ---------------------------------------------------------------- C06

@spec("C06", LM + ".fix_variable", LM + ".select_interactions_by_variable", LM + ".add_interaction", LM + ".remove_interaction", LM + "._is_removed", timeout=10000)
def fix_variable(I):
    ctx = I.ctx
    W = "fix_variable"
    s = store(I)
    tgt, vs, kind = target_arg(I)
    ising = s.mt == const(I, "MODEL_ISING")
    c = ctx.choose(3)
    legal = [1, -1] if ising else [1, 0]
    if c < 2:
        val = legal[c]
    else:
        val = ctx.fresh("badvalue", R)
        ctx.assume(z3.And(*[val != v for v in legal]))
    k0, k1, body, nm, rem = (s.f[k] for k in ("k0", "k1", "body", "name", "removed"))
    good = kind == "ok" and len(vs) == 1
    if good:
        l = vs[0].label.t
        # precondition: the names derived for the halved interactions are not in use and distinct
        other = lambda j: z3.If(k0(j) == l, k1(j), k0(j))
        derived = lambda j: CAT(CAT(CAT(other(j), str_code(" (before fixed: ")), nm(j)), str_code(")"))
        i, j2 = z3.Const("pi", Z), z3.Const("pj", Z)
        inr = lambda t: z3.And(t >= 0, t < s.n)
        ctx.assume(z3.ForAll([i], z3.Implies(inr(i), z3.Not(known(s, derived(i)))), patterns=[nm(i)]))
        inv = ctx.fresh_fn("derived_from", R, Z)
        ctx.assume(z3.ForAll([i], z3.Implies(inr(i), inv(derived(i)) == i), patterns=[nm(i)]))
    x = ctx.fresh_fn("x", R, R)
    segs0 = segments(I, s.ref)
    pre = snapshot(I)
    ids = store_ids(I, s.ref)
    out = run(I, I.getattr(s.ref, W), [tgt, val])
    if not out.ok:
        ctx.ensure(W + ": accepts every variable and legal value", not (good and c < 2))
        must_raise(I, W, out, "TypeError", "ValueError")
        frame(I, W + " (refused)", pre, ())
        return
    ctx.ensure(W + ": refuses other values and targets", bool(good and c < 2))
    if not (good and c < 2):
        raise Infeasible()
    segs1 = segments(I, s.ref)
    E0 = energy(I, s.off, segs0, lambda t: z3.If(t == l, real(val), x(t)))
    E1 = energy(I, fields(I, s.ref)["_offset"], segs1, x)
    ctx.ensure(W + ": energy equals the substituted energy", E0 == E1)
    for d, row in segs1:
        v = [] if d is None else [ctx.fresh("rj", so) for so in d.sorts]
        r = row(v)
        hyp = [] if d is None else [zb(d.pred(v))]
        a, b = label_of(I, r["key_0"]), label_of(I, r["key_1"])
        ctx.ensure(W + ": no live interaction refers to the variable", z3.Or(zb(r["removed"]), z3.And(a != l, z3.Or(num_term(r["body"]) == 1, b != l) if b is not None else True)), hyp)
    cs, am = cols(I, s.ref)
    j = ctx.fresh("j", Z)
    hit = z3.Or(k0(j) == l, z3.And(body(j) == 2, k1(j) == l))
    for k in COLS:
        v = at(I, cs[k], j)
        h = [j >= 0, j < s.n] + ([z3.Not(hit)] if k in ("removed", "dirty") else [])
        ctx.ensure(f"{W}: {k} of the other interactions", eqv(I, v, s.at[k](j)), h)
    y = ctx.fresh("y", R)
    h, v = mlookup(I, fields(I, s.ref)["_fixed"], SStr(y))
    ctx.ensure(W + ": the variable is recorded as fixed", zb(h) == z3.Or(s.fixed.amap.has([y]), y == l))
    f = fields(I, s.ref)
    frame(I, W, pre, ids | {s.ref.id, f["_fixed"].id})
    obj_frame(I, W, s.ref, pre, ["_offset", "_interactions_length"])


# ---------------------------------------------------------------- C05

def fresh_names(I, s):
    """Precondition of a conversion: no interaction carries a name derived at a time that has not come yet."""
    ctx = I.ctx
    ctx.now0 = ctx.fresh_plain("now0", R)
    k, n, t = z3.Reals("dk dn dt")
    d = CAT(CAT(CAT(CAT(CAT(k, str_code(" from ")), n), str_code(" (mtype additional ")), STRNUM(t)), str_code(")"))
    ok, on = ctx.fresh_fn("derived_key", R, R), ctx.fresh_fn("derived_name", R, R)
    used = ctx.fresh_fn("name_in_use", R, B)
    i = z3.Const("ni", Z)
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), used(s.f["name"](i))), patterns=[s.f["name"](i)]))
    ctx.assume(z3.ForAll([k, n, t], z3.Implies(t >= ctx.now0, z3.And(ok(d) == k, on(d) == n, z3.Not(used(d)))), patterns=[d]))
    ctx.inverses.append(([R], [Z], lambda ts: [s.f["pos"](ts[0])]))
    ctx.inverses.append(([R], [Z], lambda ts: [s.f["pos"](on(ts[0]))]))
    ctx.assumptions.add("the clock does not run backwards: a name stamped with the time of this call is not in use, and two derived names are equal only for the same variable and interaction")


def law(I, off, segs):
    """(offset, linear coefficient of a label, coefficient of a pair, sum over the pairs of a label, sum of all linear, of all pairs)"""
    def pick(f):
        return row_sum(I, segs, lambda r: z3.If(zb(r["removed"]), real(0), f(r, num_term(r["body"]), label_of(I, r["key_0"]), label_of(I, r["key_1"]), real(r["coefficient"]) * real(r["scale"]))))
    nz = real(0)
    two = lambda b, k1: z3.And(b == 2, True if k1 is not None else False)
    return Struct(
        "law",
        off=real(off),
        lin=lambda l: pick(lambda r, b, k0, k1, c: z3.If(z3.And(b == 1, k0 == l), c, nz)),
        pair=lambda p, q: pick(lambda r, b, k0, k1, c: nz if k1 is None else z3.If(z3.And(b == 2, k0 == p, k1 == q), c, nz)),
        touch=lambda l: pick(lambda r, b, k0, k1, c: nz if k1 is None else z3.If(z3.And(b == 2, z3.Or(k0 == l, k1 == l)), c, nz)),
        all1=pick(lambda r, b, k0, k1, c: z3.If(b == 1, c, nz)),
        all2=pick(lambda r, b, k0, k1, c: nz if k1 is None else z3.If(b == 2, c, nz)),
    )


def _convert(fn, to):
    @spec("C05", LM + "." + fn, LM + "._update_variables_type", LM + ".select_interaction", LM + ".update_interaction", LM + ".add_interaction", name=fn, timeout=10000)
    def check(I):
        ctx = I.ctx
        src = const(I, "MODEL_QUBO" if to == "MODEL_ISING" else "MODEL_ISING")
        s = store(I, src)
        vm = variable_map(I, s.ref, src == const(I, "MODEL_ISING"))
        fresh_names(I, s)
        segs0 = segments(I, s.ref)
        pre = snapshot(I)
        ids = store_ids(I, s.ref)
        out = run(I, I.getattr(s.ref, fn), [])
        must_return(I, fn, out)
        spin = to == "MODEL_ISING"
        f = fields(I, s.ref)
        ctx.ensure(fn + ": the new type", eqv(I, f["_mtype"], const(I, to)))
        segs1 = segments(I, s.ref)
        x = ctx.fresh_fn("spin_value", R, R)
        as_bin = lambda t: (x(t) + 1) / 2
        old, new = (as_bin, x) if spin else (x, as_bin)
        v0 = real(s.off) + row_sum(I, segs0, lambda r: row_term(I, r, old))
        v1 = real(f["_offset"]) + row_sum(I, segs1, lambda r: row_term(I, r, new))
        ctx.ensure(fn + ": offset + sum(coefficient*scale*variables) is preserved", v0 == v1)
        a, b = law(I, s.off, segs0), law(I, f["_offset"], segs1)
        l, p, q = (ctx.fresh(k, R) for k in ("l", "p", "q"))
        if spin:
            ctx.ensure(fn + ": linear coefficients", b["lin"](l) == a["lin"](l) / 2 + a["touch"](l) / 4)
            ctx.ensure(fn + ": pair coefficients", b["pair"](p, q) == a["pair"](p, q) / 4)
            ctx.ensure(fn + ": offset", b["off"] == a["off"] + a["all1"] / 2 + a["all2"] / 4)
        else:
            ctx.ensure(fn + ": linear coefficients", b["lin"](l) == 2 * a["lin"](l) - 2 * a["touch"](l))
            ctx.ensure(fn + ": pair coefficients", b["pair"](p, q) == 4 * a["pair"](p, q))
            ctx.ensure(fn + ": offset", b["off"] == a["off"] - a["all1"] + a["all2"])
        for d, row in segs1:
            v = [] if d is None else [ctx.fresh("rj", so) for so in d.sorts]
            r = row(v)
            hyp = ([] if d is None else [zb(d.pred(v))]) + [z3.Not(zb(r["removed"]))]
            for g, w in alts(r["interacts"]):
                for z in w if isinstance(w, tuple) else (w,):
                    ctx.ensure(fn + ": live interactions carry the new variable type", isinstance(z, PV) and zb(z.spin) == spin, hyp + [zb(g)])
        j = ctx.fresh("j", Z)
        cs, am = cols(I, s.ref)
        for k in COLS:
            if k in ("coefficient", "timestamp", "dirty", "interacts"):
                continue
            ctx.ensure(f"{fn}: {k} of the existing interactions", eqv(I, head_at(I, cs[k], j, s.n), s.at[k](j)), [j >= 0, j < s.n])
        key = ctx.fresh("vname", R)
        h, v = mlookup(I, f["_variables"], SStr(key))
        ctx.ensure(fn + ": the same arrays", zb(h) == vm["has"](key))
        w = vm["get"]([key])
        ctx.ensure(fn + ": arrays keep their shape and take the new type", eqv(I, v, mk_array(w["name"], w["rank"], dim_of(w), spin)), [vm["has"](key)])
        frame(I, fn, pre, ids | {s.ref.id, f["_variables"].id})
        obj_frame(I, fn, s.ref, pre, ["_offset", "_interactions_length", "_mtype"])

    @spec("C05", LM + "." + fn, name=fn + "_same")
    def same(I):
        s = store(I, const(I, to), val="any")
        variable_map(I, s.ref, to == "MODEL_ISING")
        pre = snapshot(I)
        must_return(I, fn, run(I, I.getattr(s.ref, fn), []))
        frame(I, fn + " (already that type)", pre, ())

    return check


_convert("to_ising", "MODEL_ISING")
_convert("to_qubo", "MODEL_QUBO")


@spec("C05", LM + "._convert_mtype")
def convert_mtype(I):
    """Toggles by calling the conversion to the other type."""
    ctx = I.ctx
    m = mtype(I)
    s = store(I, m, val="any", attrs=False)
    calls = []
    for fn in ("to_ising", "to_qubo"):
        ctx.contracts[LM + "." + fn] = lambda J, a, k, fn=fn: calls.append(fn)
    must_return(I, "_convert_mtype", run(I, I.getattr(s.ref, "_convert_mtype"), []))
    ctx.ensure("_convert_mtype: calls the conversion to the other type", calls == (["to_qubo"] if m == const(I, "MODEL_ISING") else ["to_ising"]))


@spec("C05", name="round_trip")
def round_trip(I):
    """Lemma over the laws of to_ising and to_qubo: composing them gives back every coefficient and the offset."""
    ctx = I.ctx
    h, t, J, o, a1, a2 = (ctx.fresh(k, R) for k in ("h", "touch", "J", "off", "all1", "all2"))
    # touch and all2 are sums of pair coefficients, all1 of linear ones; each pair touches two labels (sum over labels of touch = 2 all2)
    ising = dict(h=h / 2 + t / 4, t=t / 4, J=J / 4, o=o + a1 / 2 + a2 / 4, a1=a1 / 2 + 2 * a2 / 4, a2=a2 / 4)
    back = dict(h=2 * ising["h"] - 2 * ising["t"], J=4 * ising["J"], o=ising["o"] - ising["a1"] + ising["a2"])
    ctx.ensure("QUBO -> Ising -> QUBO", z3.And(back["h"] == h, back["J"] == J, back["o"] == o))
    qubo = dict(h=2 * h - 2 * t, t=4 * t, J=4 * J, o=o - a1 + a2, a1=2 * a1 - 2 * 2 * a2, a2=4 * a2)
    back = dict(h=qubo["h"] / 2 + qubo["t"] / 4, J=qubo["J"] / 4, o=qubo["o"] + qubo["a1"] / 2 + qubo["a2"] / 4)
    ctx.ensure("Ising -> QUBO -> Ising", z3.And(back["h"] == h, back["J"] == J, back["o"] == o))
