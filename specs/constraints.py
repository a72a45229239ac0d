"""C10: set algebra of the constraints' variables; C09: the generated penalty models."""
from .common import *
from .arrays import *

CB = "sawatabi.model.constraint."
NH = CB + "n_hot_constraint.NHotConstraint"
ZH = CB + "zero_or_one_hot_constraint.ZeroOrOneHotConstraint"
EQ = CB + "equality_constraint.EqualityConstraint"
AC = CB + "abstract_constraint.AbstractConstraint"
FL = "sawatabi.utils.functions.Functions._flatten"
KINDS = [NH, ZH, EQ]


# ---------------------------------------------------------------- pyqubo arrays


def flatten_contract(I, args, kwargs):
    """Functions._flatten on the nested list of an array: its elements in order (proved for nested lists in C20)."""
    x = I.res(args[-1])
    if isinstance(x, Struct) and x.kind == "nested":
        return I.ctx.alloc(LRec(x["arr"]["fn"].rec.parts))
    f = I.ctx.repo.get(FL)
    return I.run_body(f, args, kwargs)


# ---------------------------------------------------------------- arguments


def variables_arg(I, name):
    """(argument, member predicate, well-formed?, caller-owned containers)"""
    ctx = I.ctx
    k = ctx.choose(5)
    if k == 0:
        s = ctx.alloc(new_set(I, SH_PV, name))
        return s, ctx.rec(s).has, lambda: z3.Exists(QV, ctx.rec(s).has(QV)), [s]
    if k == 1:
        n = ctx.fresh(name + "_n", Z)
        ctx.assume(n >= 0)
        lf, sf = ctx.fresh_fn(name + "_label", Z, R), ctx.fresh_fn(name + "_spin", Z, B)
        rec = lib.fn_list(n, lambda i: PV(SStr(lf(i)), sf(i)))
        l = ctx.alloc(rec)
        return l, (lambda vs: zb(lib.part_member(I, rec.parts[0], SH_PV.mk(vs))[0])), lambda: n >= 1, [l]
    if k == 2:
        a = array(I, name)
        return a, (lambda vs: zb(lib.part_member(I, a["fn"].rec.parts[0], SH_PV.mk(vs))[0])), lambda: True, []
    if k == 3:
        l, s = ctx.fresh(name + "_label", R), ctx.fresh(name + "_spin", B)
        return PV(SStr(l), s), (lambda vs: z3.And(vs[0] == l, vs[1] == s)), lambda: True, []
    j = ctx.choose(5)
    if j == 0:
        return None, None, lambda: False, []
    if j == 1:
        return ctx.fresh(name + "_int", Z), None, lambda: False, []
    if j == 2:
        return SStr(ctx.fresh(name + "_str", R)), None, lambda: False, []
    if j == 3:
        l = ctx.alloc(lib.fn_list(ctx.fresh(name + "_n", Z), lambda i: PV(SStr(z3.Function("bl", Z, R)(i)), False)))
        r = LRec(ctx.rec(l).parts + (single("x[0]"),))
        l = ctx.alloc(r)
        return l, None, lambda: False, [l]
    t = (PV(SStr(ctx.fresh(name + "_label", R)), True),)
    return t, None, lambda: False, []


QV = [z3.Const("qv~l", R), z3.Const("qv~s", B)]


def make(I, kind, side):
    """A constraint in any reachable state: (object, member predicate per field, caller-owned sets)."""
    ctx = I.ctx
    ctx.contracts[FL] = flatten_contract
    cls = get(I, kind)
    nm = ["variables_1", "variables_2"] if kind == EQ else ["variables"]
    fs = ["_" + x for x in nm]
    kw = {}
    if kind == NH:
        n = ctx.fresh("n", Z)
        ctx.assume(n >= 1)
        kw["n"] = n
    strength = ctx.fresh("strength", R)
    lab = SStr(ctx.fresh("clabel", R))
    ctx.assume(lab.t != str_code(""))
    kw.update(label=lab, strength=strength)
    owned = []
    how = ctx.choose(2)
    for i, x in enumerate(nm):
        if how == 0:
            s = ctx.alloc(new_set(I, SH_PV, "given"))
            ctx.assume(z3.Exists(QV, ctx.rec(s).has(QV)))
            owned.append(s)
            kw[x] = s
    c = must_return(I, "constructor", run(I, cls, [], kw))
    has = {}
    for i, f in enumerate(fs):
        ref = fields(I, c)[f]
        if how == 0:
            has[f] = ctx.rec(owned[i]).has
        else:
            ctx.heap[ref.id] = new_set(I, SH_PV, "own")
            has[f] = ctx.heap[ref.id].has
    return c, has, owned, kw


def members(I, c, f):
    """Member predicate of a field of a constraint now."""
    r = I.ctx.rec(fields(I, c)[f])
    return lambda vs: zb(lib.set_has(I, r, SH_PV.mk(vs)))


def getter(I, c, f):
    r = I.ctx.rec(must_return(I, "getter", run(I, I.getattr(c, "get" + f), [])))
    return lambda vs: zb(lib.set_has(I, r, SH_PV.mk(vs)))


def untouched(I, name, objs, recs):
    ctx = I.ctx
    for o, r0 in zip(objs, recs):
        r1 = ctx.rec(o)
        if r1 is r0:
            continue
        ctx.ensure(name + ": the caller's collection is unchanged", lib.rec_eq(I, r0, r1))


def others(I, name, c, pre, skip):
    """Everything of the constraint except the given fields is as before."""
    now = fields(I, c)
    ctx = I.ctx
    ctx.ensure(name + ": same fields", set(now) == set(pre))
    for k, v in pre.items():
        if k in skip or k not in now:
            continue
        e = lib.veq(I, now[k], v, True) if now[k] is not v else True
        ctx.ensure(name + ": " + k + " unchanged", e)


def _fields(kind):
    return ["_variables_1", "_variables_2"] if kind == EQ else ["_variables"]


def _ctor(kind):
    cname = kind.split(".")[-1]

    @spec("C10", kind + ".__init__", AC + ".__init__", AC + "._check_variables_and_to_set", name=cname + ".__init__", max_paths=1500)
    def check(I):
        ctx = I.ctx
        ctx.contracts[FL] = flatten_contract
        cls = get(I, kind)
        fs = _fields(kind)
        kw, want, good, owned = {}, {}, True, []
        conds = []
        pick = ctx.choose(len(fs))
        for i, f in enumerate(fs):
            if i == pick:
                if ctx.choose(2) == 0:
                    want[f] = lambda vs: z3.BoolVal(False)
                    continue
                a, h, ok, ow = variables_arg(I, "v%d" % i)
                if a is None:
                    raise Infeasible()
                kw[f[1:]] = a
                want[f] = h
                conds.append(ok())
                owned += ow
            else:
                s = ctx.alloc(new_set(I, SH_PV, "w"))
                conds.append(z3.Exists(QV, ctx.rec(s).has(QV)))
                kw[f[1:]] = s
                want[f] = ctx.rec(s).has
                owned.append(s)
        recs = [ctx.rec(o) for o in owned]
        lab, st = SStr(ctx.fresh("label", R)), ctx.fresh("strength", R)
        ctx.assume(lab.t != str_code(""))
        kw.update(label=lab, strength=st)
        if kind == NH:
            n = ctx.fresh("n", Z)
            ctx.assume(n >= 1)
            kw["n"] = n
        out = run(I, cls, [], dict(kw))
        untouched(I, cname, owned, recs)
        okc = zb(band(*conds))
        if not out.ok:
            must_raise(I, cname, out, "TypeError")
            ctx.ensure(cname + ": refuses only malformed variables", z3.Not(okc))
            return
        ctx.ensure(cname + ": accepts only variables", not any(c is False for c in conds))
        c = out.value
        for f in fs:
            if want[f] is None:
                continue
            vs, _ = arb(I, SH_PV, "x")
            ctx.ensure(cname + ": " + f + " is the given set", getter(I, c, f)(vs) == want[f](vs))
        ff = fields(I, c)
        ctx.ensure(cname + ": label and strength", band(lib.veq(I, ff["_label"], lab), lib.veq(I, ff["_strength"], st)))
        if kind == NH:
            ctx.ensure(cname + ": n", num_term(ff["_n"]) == kw["n"])

    return check


def _ops(kind):
    cname = kind.split(".")[-1]
    for f in _fields(kind):
        sfx = f.replace("_variables", "")
        addn = "add_variable" + ("_to" + sfx if sfx else "")
        remn = "remove_variable" + ("_from" + sfx if sfx else "")

        def add(I, f=f, addn=addn):
            ctx = I.ctx
            c, has, owned, kw = make(I, kind, f)
            pre = dict(fields(I, c))
            a, h, ok, ow = variables_arg(I, "v")
            owned = owned + ow
            recs = [ctx.rec(o) for o in owned]
            out = run(I, I.getattr(c, addn), [a])
            untouched(I, addn, owned, recs)
            vs, _ = arb(I, SH_PV, "x")
            for g in has:
                want = z3.Or(has[g](vs), h(vs)) if g == f and out.ok and h else has[g](vs)
                if g == f and out.ok and h is None:
                    continue
                ctx.ensure(f"{addn}: {g}", getter(I, c, g)(vs) == want)
            others(I, addn, c, pre, list(has))
            if not out.ok:
                must_raise(I, addn, out, "TypeError")
                ctx.ensure(addn + ": refuses only malformed variables", bnot(ok()))
            else:
                ctx.ensure(addn + ": accepts only variables", ok() is not False)

        def remove(I, f=f, remn=remn):
            ctx = I.ctx
            c, has, owned, kw = make(I, kind, f)
            pre = dict(fields(I, c))
            a, h, ok, ow = variables_arg(I, "v")
            owned = owned + ow
            recs = [ctx.rec(o) for o in owned]
            out = run(I, I.getattr(c, remn), [a])
            untouched(I, remn, owned, recs)
            vs, _ = arb(I, SH_PV, "x")
            for g in has:
                if g == f and out.ok and h is None:
                    continue
                want = z3.And(has[g](vs), z3.Not(h(vs))) if g == f and out.ok else has[g](vs)
                ctx.ensure(f"{remn}: {g}", getter(I, c, g)(vs) == want)
            others(I, remn, c, pre, list(has))
            if out.ok:
                ctx.ensure(remn + ": accepts only variables", ok() is not False)
                if h:
                    ctx.ensure(remn + ": accepts only members", z3.Implies(h(vs), has[f](vs)))
            elif lib.exc_isa(I, out.exc.cls, Ext("builtins.TypeError")):
                ctx.ensure(remn + ": refuses malformed variables", bnot(ok()))
            else:
                must_raise(I, remn, out, "ValueError")
                ctx.ensure(remn + ": refuses only when some variable is not a member", z3.Not(z3.ForAll(QV, z3.Implies(h(QV), has[f](QV)))) if h else False)

        spec("C10", kind + "." + addn, AC + "._check_variables_and_to_set", name=f"{cname}.{addn}", max_paths=1500)(add)
        spec("C10", kind + "." + remn, AC + "._check_variables_and_to_set", name=f"{cname}.{remn}", max_paths=1500)(remove)

    def discard(I):
        ctx = I.ctx
        c, has, owned, kw = make(I, kind, None)
        pre = dict(fields(I, c))
        recs = [ctx.rec(o) for o in owned]
        l = ctx.fresh("label", R)
        must_return(I, "discard_variable", run(I, I.getattr(c, "discard_variable"), [SStr(l)]))
        untouched(I, "discard_variable", owned, recs)
        vs, _ = arb(I, SH_PV, "x")
        for g in has:
            ctx.ensure(f"discard_variable: {g}", getter(I, c, g)(vs) == z3.And(has[g](vs), vs[0] != l))
        others(I, "discard_variable", c, pre, list(has))

    spec("C10,C07", kind + ".discard_variable", name=f"{cname}.discard_variable")(discard)


for _k in KINDS:
    _ctor(_k)
    _ops(_k)


# ---------------------------------------------------------------- C09

LM = "sawatabi.model.logical_model.LogicalModel"
COLS = ["body", "name", "key", "key_0", "key_1", "interacts", "coefficient", "scale", "timestamp", "dirty", "removed"]


def rows(I, m):
    """The rows of a model's interaction columns, segment by segment: [(dom, row closure)]."""
    ctx = I.ctx
    arr = ctx.rec(fields(I, m)["_interactions_array"])
    cols = {k: ctx.rec(arr.items[k]) for k in COLS}
    n = len(cols["body"].parts)
    out = []
    for i in range(n):
        ps = {k: c.parts[i] if i < len(c.parts) else None for k, c in cols.items()}
        d = ps["body"].dom
        for k, p in ps.items():
            if p is None or (p.dom is None) != (d is None) or (d is not None and p.dom.key != d.key):
                raise Unsupported("columns of different structure")
        out.append((d, (lambda vs, ps=ps: {k: p.elem(vs) for k, p in ps.items()})))
    for k, c in cols.items():
        if len(c.parts) != n:
            raise Unsupported("columns of different structure")
    return out


def total(I, segs, f):
    """Sum of f(row) over all rows."""
    ctx = I.ctx
    tot = real(0)
    for d, row in segs:
        if d is None:
            tot = tot + f(row([]))
        else:
            tot = tot + sums.mk_sum(ctx, d.sorts, lambda vs, d=d, row=row: z3.If(zb(d.pred(vs)), f(row(vs)), real(0)))
    return tot


def term(I, row, x):
    """coefficient * scale * product of the variables of a row (0 when removed)."""
    b = row["body"]
    c = real(row["coefficient"]) * real(row["scale"])
    k = row["key"]
    if b == 1:
        v = x(str_term(k, I.ctx))
    elif b == 2:
        v = x(str_term(k[0], I.ctx)) * x(str_term(k[1], I.ctx))
    else:
        raise Unsupported("symbolic body")
    rem = row["removed"]
    if rem is False:
        return c * v
    return z3.If(zb(rem), real(0), c * v)


def _penalty(kind):
    cname = kind.split(".")[-1]

    @spec("C09", kind + ".to_model", name=cname + ".to_model", timeout=10000)
    def check(I):
        ctx = I.ctx
        c, has, owned, kw = make(I, kind, None)
        sigma = ctx.fresh("sigma", B)
        # every variable of the constraint is of one type; pyqubo labels contain no '*'
        for h in has.values():
            ctx.assume(z3.ForAll(QV, z3.Implies(h(QV), z3.And(QV[1] == sigma, z3.Not(STAR(QV[0])), QV[0] != str_code(""))), patterns=[h(QV)]))
        if kind == EQ:
            h1, h2 = has["_variables_1"], has["_variables_2"]
            ctx.assume(z3.ForAll(QV, z3.Not(z3.And(h1(QV), h2(QV))), patterns=[h1(QV)]))
        pre = dict(fields(I, c))
        recs = [ctx.rec(o) for o in owned]
        m = must_return(I, "to_model", run(I, I.getattr(c, "to_model"), []))
        ctx.ensure("to_model: a QUBO logical model", isinstance(ctx.rec(m), ORec) and ctx.rec(m).cls is get(I, LM) and lib.veq(I, fields(I, m)["_mtype"], const(I, "MODEL_QUBO")))
        x = ctx.fresh_fn("x", R, R)
        a = z3.Const("xa", R)
        ctx.axiom(z3.ForAll([a], x(a) * x(a) == x(a), patterns=[x(a)]))
        segs = rows(I, m)
        S = kw["strength"]
        e = real(fields(I, m)["_offset"]) - total(I, segs, lambda row: term(I, row, x))
        H = list(has.values())
        one = lambda h: sums.mk_sum(ctx, [R, B], lambda u: z3.If(h(u), x(u[0]), real(0)))
        two = lambda h, g: sums.mk_sum(ctx, [R, B, R, B], lambda u: z3.If(z3.And(h(u[:2]), g(u[2:])), x(u[0]) * x(u[2]), real(0)))
        if kind == NH:
            want = S * two(H[0], H[0]) - 2 * real(kw["n"]) * S * one(H[0])
        elif kind == ZH:
            want = S * two(H[0], H[0]) - S * one(H[0])
        else:
            want = S * two(H[0], H[0]) + S * two(H[1], H[1]) - 2 * S * two(H[0], H[1])
        ctx.ensure("to_model: energy is the defining polynomial", e == want)
        # one interaction per variable or pair, over the constraint's variables only
        anyh = lambda l: z3.Or(*[h([l, sigma]) for h in H])
        inst = []
        for k, (d, row) in enumerate(segs):
            for t in (0, 1):
                vs = [] if d is None else [ctx.fresh(f"r{k}{t}", so) for so in d.sorts]
                r = row(vs)
                ks = [str_term(r["key"], ctx)] if r["body"] == 1 else [str_term(q, ctx) for q in r["key"]]
                inst.append((k, vs, r, ks, True if d is None else zb(d.pred(vs))))
        for k, vs, r, ks, pr in inst[::2]:
            ctx.ensure("to_model: mentions members only", z3.And(*[anyh(q) for q in ks]), [zb(pr)])
            if len(ks) == 2:
                ctx.ensure("to_model: canonical order of pairs", ks[0] < ks[1], [zb(pr)])
        for k, vs, r, ks, pr in inst[::2]:
            for k2, vs2, r2, ks2, pr2 in inst[1::2]:
                if len(ks) == len(ks2) and k <= k2:
                    goal = z3.And(*[a_ == b_ for a_, b_ in zip(vs, vs2)]) if k == k2 else z3.BoolVal(False)
                    ctx.ensure("to_model: one interaction per variable or pair", goal, [zb(pr), zb(pr2)] + [a_ == b_ for a_, b_ in zip(ks, ks2)])
        others(I, "to_model", c, pre, [])
        untouched(I, "to_model", owned, recs)

    return check


for _k in KINDS:
    _penalty(_k)
