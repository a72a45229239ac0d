"""Library models: the meaning of Python builtins and of the external packages the code calls.

Everything here that is not a Python builtin is an assumed contract on a dependency and is listed
in ctx.assumptions when used.
"""
import ast
import builtins
import z3
from fractions import Fraction
from .values import *
from .values import Dom, Part, LRec, MRec, SRec, ORec, AbsMap, Shape
from .repo import Ext, Mod, Func, Cls
from .engine import PyRaise, Bound, BMethod, PyFn, Op, single, Ctx, Frame

# ---------------------------------------------------------------- shapes


def _of_str(v):
    return [str_term(v)] if is_strv(v) else None


SH_STR = Shape("str", [RealS], lambda vs: SStr(vs[0]), _of_str)
SH_INT = Shape("int", [IntS], lambda vs: vs[0], lambda v: [num_term(v)] if (is_num(v) and (not is_z3(v) and isinstance(v, int) or is_z3(v) and v.sort() == IntS)) else None)
SH_NUM = Shape("num", [RealS], lambda vs: vs[0], lambda v: [real(v)] if is_num(v) else None)
SH_PV = Shape("pv", [RealS, BoolS], lambda vs: PV(SStr(vs[0]), vs[1]), lambda v: [str_term(v.label), zb(v.spin)] if isinstance(v, PV) else None)
SH_U = Shape("u", [U], lambda vs: Opaque(vs[0]), lambda v: [v.t] if isinstance(v, Opaque) else None)


def tuple_shape(shapes):
    sorts = [s for sh in shapes for s in sh.sorts]

    def mk(vs):
        out, i = [], 0
        for sh in shapes:
            out.append(sh.mk(vs[i: i + len(sh.sorts)]))
            i += len(sh.sorts)
        return tuple(out)

    def of(v):
        if not isinstance(v, tuple) or len(v) != len(shapes):
            return None
        r = []
        for sh, x in zip(shapes, v):
            o = sh.of(x)
            if o is None:
                return None
            r += o
        return r

    return Shape("(" + ",".join(s.name for s in shapes) + ")", sorts, mk, of)


SH_PAIR = tuple_shape([SH_STR, SH_STR])


def shape_of(v):
    if is_strv(v):
        return SH_STR
    if isinstance(v, PV):
        return SH_PV
    if isinstance(v, Opaque):
        return SH_U
    if isinstance(v, tuple):
        return tuple_shape([shape_of(x) for x in v])
    if is_num(v):
        if is_z3(v):
            return SH_INT if v.sort() == IntS else SH_NUM
        return SH_INT if isinstance(v, int) else SH_NUM
    raise Unsupported(f"no shape for {v!r}")


def hkey(k):
    """A concrete key usable in a python dict, or None."""
    if isinstance(k, (str, int, float, bool)) or k is None:
        return k
    if isinstance(k, LazyStr):
        s = to_sstr(k)
        return s if isinstance(s, str) else None
    if isinstance(k, tuple):
        ks = [hkey(x) for x in k]
        return None if any(x is None and y is not None for x, y in zip(ks, k)) else tuple(ks)
    return None


# ---------------------------------------------------------------- equality, truth, order


def starts_with_lit(v):
    ps = merge_pieces(flat_pieces(v))
    if ps and isinstance(ps[0], str):
        return ps[0]
    return ""


def veq(I, a, b, ident=False):
    """Python ==, as bool/BoolRef.  ident: container semantics (identical objects are equal)."""
    if isinstance(a, GU):
        return bor(*[band(c, veq(I, x, b, ident)) for c, x in a.alts])
    if isinstance(b, GU):
        return bor(*[band(c, veq(I, a, x, ident)) for c, x in b.alts])
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("comparison of a poisoned value")
    if a is NAN or b is NAN:
        return bool(ident and a is NAN and b is NAN)
    if a is None or b is None:
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            o = a if isinstance(a, Opaque) else b
            return isnone(o)
        return a is None and b is None
    if is_strv(a) and is_strv(b):
        if isinstance(a, LazyStr):
            a = to_sstr(a, I.ctx)
        if isinstance(b, LazyStr):
            b = to_sstr(b, I.ctx)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        for x, y in ((a, b), (b, a)):
            if isinstance(y, str):
                lit = starts_with_lit(x)
                if lit and not (y.startswith(lit)):
                    return False
        return simp(str_term(a, I.ctx) == str_term(b, I.ctx))
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if (isinstance(a, bool) or is_z3(a) and z3.is_bool(a)) and (isinstance(b, bool) or is_z3(b) and z3.is_bool(b)):
        return simp(zb(a) == zb(b))
    if isinstance(a, bool) or (is_z3(a) and z3.is_bool(a)):
        if is_num(b):
            return simp(real(a) == real(b))
        return veq_other(I, a, b, ident)
    if isinstance(b, bool) or (is_z3(b) and z3.is_bool(b)):
        if is_num(a):
            return simp(real(a) == real(b))
        return veq_other(I, a, b, ident)
    if is_num(a) and is_num(b):
        if not is_z3(a) and not is_z3(b):
            return a == b
        ta, tb = num_term(a), num_term(b)
        if ta.sort() != tb.sort():
            ta, tb = real(ta), real(tb)
        return simp(ta == tb)
    if isinstance(a, PV) and isinstance(b, PV):
        return band(veq(I, a.label, b.label), veq(I, a.spin, b.spin))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return band(*[veq(I, x, y, True) for x, y in zip(a, b)])
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return simp(a.t == b.t)
    if isinstance(a, PosVal) and isinstance(b, PosVal):
        if a.part != b.part:
            return False
        return band(*[simp(x == y) for x, y in zip(a.vars, b.vars)])
    return veq_other(I, a, b, ident)


ISNONE = z3.Function("is_none", U, BoolS)
TYPEF = {}


def typef(name):
    if name not in TYPEF:
        TYPEF[name] = z3.Function("isinstance_" + name, U, BoolS)
    return TYPEF[name]


def isnone(o):
    return ISNONE(o.t)


EQH = {}
IDEQ = {}  # sameness of values whose == is not modelled


def veq_other(I, a, b, ident=False):
    if isinstance(a, (Ref, VRef, Frozen)) and isinstance(b, (Ref, VRef, Frozen)):
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            r = I.ctx.rec(a)
            if not isinstance(r, ORec):
                return True
        ra, rb = I.ctx.rec(a), I.ctx.rec(b)
        if isinstance(ra, ORec) and isinstance(ra.cls, Cls):
            m, _ = ra.cls.lookup("__eq__")
            if m is not None:
                return truthy(I, I.call(Bound(a, m), [b]))
            return isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id
        return rec_eq(I, ra, rb)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        o, x = (a, b) if isinstance(a, Opaque) else (b, a)
        f = I.ctx.det("opaque_eq", BoolS)
        return f
    for k in (Struct,):
        if isinstance(a, k) and isinstance(b, k):
            if a is b:
                return True
            h = EQH.get(a.kind) or (ident and IDEQ.get(a.kind))
            if h and a.kind == b.kind:
                return h(I, a, b)
            if a.kind != b.kind:
                return False
            raise Unsupported(f"equality of {a!r}")
    if type(a) is not type(b):
        return False
    if isinstance(a, (Ext,)):
        return a.path == b.path
    return a is b


def rec_eq(I, ra, rb):
    """Equality of two containers, as a formula (universally quantified facts become fresh booleans with both directions)."""
    ctx = I.ctx
    if type(ra) is not type(rb):
        return False
    if isinstance(ra, LRec):
        if ra.kind != rb.kind:
            return False
        if all(p.dom is None for p in ra.parts) and all(p.dom is None for p in rb.parts):
            if len(ra.parts) != len(rb.parts):
                return False
            return band(*[veq(I, p.elem([]), q.elem([]), True) for p, q in zip(ra.parts, rb.parts)])
        la, lb = list_len(I, ra), list_len(I, rb)
        i = ctx.fresh_plain("eqi", IntS)
        e = veq(I, list_at(I, ra, i), list_at(I, rb, i), True)
        return quant_eq(ctx, [i], z3.And(i >= 0, i < num_term(la)), e, band(simp(num_term(la) == num_term(lb))))
    if isinstance(ra, MRec):
        if ra.amap is None and rb.amap is None:
            if set(ra.items) != set(rb.items):
                return False
            return band(*[veq(I, v, rb.items[k], True) for k, v in ra.items.items()])
        if set(ra.items) != set(rb.items):
            raise Unsupported("equality of partly concrete maps")
        c = band(*[veq(I, v, rb.items[k], True) for k, v in ra.items.items()])
        if ra.amap is None or rb.amap is None:
            m = ra.amap or rb.amap
            vs = [ctx.fresh_plain("eqk", s) for s in m.shape.sorts]
            return band(c, quant_eq(ctx, vs, True, bnot(m.has(vs)), True))
        ma, mb = ra.amap, rb.amap
        if ma.shape.name != mb.shape.name:
            raise Unsupported("equality of maps of different shapes")
        vs = [ctx.fresh_plain("eqk", s) for s in ma.shape.sorts]
        va, vb = ma.get(vs), mb.get(vs)
        if isinstance(va, Frozen):
            ev = rec_eq(I, va.rec, vb.rec)
        else:
            ev = veq(I, va, vb, True)
        e = band(simp(zb(ma.has(vs)) == zb(mb.has(vs))), bimp(ma.has(vs), ev))
        return band(c, quant_eq(ctx, vs, True, e, True))
    if isinstance(ra, SRec):
        if ra.has is None and rb.has is None and not ra.items and not rb.items:
            return True
        sh = ra.shape or rb.shape or shape_of((ra.items or rb.items)[0])
        vs = [ctx.fresh_plain("eqe", s) for s in sh.sorts]
        x = sh.mk(vs)
        return quant_eq(ctx, vs, True, simp(zb(set_has(I, ra, x)) == zb(set_has(I, rb, x))), True)
    raise Unsupported(f"rec_eq {ra!r}")


def quant_eq(ctx, vs, dom, body, side):
    """A formula equivalent to side and forall vs. dom -> body."""
    if body is True:
        return side
    f = zb(bimp(dom, body))
    cs = [z3.Const(f"eq~{i}~{v.sort()}", v.sort()) for i, v in enumerate(vs)]  # equal contents give the same formula
    return band(side, z3.ForAll(cs, z3.substitute(f, *zip(vs, cs))))


def truthy(I, v):
    v = I.res(v)
    if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)):
        return v
    if v is None:
        return False
    if v is NAN:
        return True
    if is_num(v):
        return (v != 0) if not is_z3(v) else simp(v != 0)
    if isinstance(v, (LazyStr, SStr)) and any(isinstance(p, str) and p for p in flat_pieces(v)):
        return True
    if isinstance(v, LazyStr):
        v = to_sstr(v, I.ctx)
    if isinstance(v, str):
        return len(v) > 0
    if isinstance(v, SStr):
        return simp(v.t != str_code(""))
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, PV):
        return True
    if isinstance(v, (Ref, VRef, Frozen)):
        r = I.ctx.rec(v)
        if isinstance(r, ORec):
            return True
        n = rec_len(I, r)
        return n > 0 if not is_z3(n) else simp(n > 0)
    if isinstance(v, Opaque):
        f = typef("truthy")
        return f(v.t)
    if isinstance(v, (Func, Cls, Ext, PyFn, Bound, Struct, Mod)):
        return True
    if isinstance(v, PosVal):
        return PosInt(I, v) != 0
    raise Unsupported(f"truth of {v!r}")


def PosInt(I, v):
    raise Unsupported("position as a number")


def compare(I, op, a, b):
    if isinstance(op, (ast.Is, ast.IsNot)):
        a, b = I.res(a), I.res(b)
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            r = veq(I, a, b) if (isinstance(a, Opaque) or isinstance(b, Opaque)) else ((a is b) if not (is_z3(a) or is_z3(b)) else (False if (a is None or b is None) else veq(I, a, b)))
        elif isinstance(a, Ext) and isinstance(b, Ext):
            r = a.path == b.path
        elif isinstance(a, Ref) and isinstance(b, Ref):
            r = a.id == b.id
        elif isinstance(a, (Cls, Func)) or isinstance(b, (Cls, Func)):
            r = a is b
        elif isinstance(a, str) and isinstance(b, str):
            r = a == b
        elif isinstance(a, Opaque) and isinstance(b, Opaque):
            r = simp(a.t == b.t)
        else:
            raise Unsupported("identity comparison")
        return bnot(r) if isinstance(op, ast.IsNot) else r
    for x in (a, b):
        if isinstance(x, Struct) and x.kind in STRUCT_CMP and not isinstance(op, (ast.In, ast.NotIn)):
            return STRUCT_CMP[x.kind](I, op, a, b)
    if isinstance(op, ast.Eq):
        return veq(I, a, b)
    if isinstance(op, ast.NotEq):
        a2, b2 = I.res(a), I.res(b)
        if isinstance(a2, Ref) and isinstance(I.ctx.rec(a2), ORec) and isinstance(I.ctx.rec(a2).cls, Cls):
            m, _ = I.ctx.rec(a2).cls.lookup("__ne__")
            if m is not None:
                return truthy(I, I.call(Bound(a2, m), [b2]))
        return bnot(veq(I, a2, b2))
    if isinstance(op, ast.In):
        return contains(I, b, a)
    if isinstance(op, ast.NotIn):
        return bnot(contains(I, b, a))
    a, b = I.res(a), I.res(b)
    if is_strv(a) and is_strv(b):
        a, b = to_sstr(a, I.ctx), to_sstr(b, I.ctx)
        if isinstance(a, str) and isinstance(b, str):
            x, y = a, b
        else:
            x, y = str_term(a, I.ctx), str_term(b, I.ctx)
    elif (is_num(a) or isinstance(a, bool)) and (is_num(b) or isinstance(b, bool)):
        if is_z3(a) or is_z3(b):
            x, y = num_term(a), num_term(b)
            if x.sort() != y.sort():
                x, y = real(x), real(y)
        else:
            x, y = a, b
    elif isinstance(a, tuple) and isinstance(b, tuple):
        return tuple_less(I, op, a, b)
    elif a is NAN or b is NAN:
        return False
    else:
        h = CMP_HOOK.get((type(a).__name__, type(b).__name__))
        if h:
            return h(I, op, a, b)
        raise Unsupported(f"order of {a!r} and {b!r}")
    f = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]
    r = f()
    return r if isinstance(r, bool) else simp(r)


CMP_HOOK = {}
STRUCT_CMP = {}
STRUCT_INV = {}


def tuple_less(I, op, a, b):
    """Lexicographic order (of tuples whose corresponding components are comparable)."""
    if isinstance(op, (ast.Gt, ast.GtE)):
        a, b, op = b, a, (ast.Lt() if isinstance(op, ast.Gt) else ast.LtE())
    strict = isinstance(op, ast.Lt)
    if not a or not b:
        return (len(a) < len(b)) if strict else (len(a) <= len(b))
    x, y = I.res(a[0]), I.res(b[0])
    if isinstance(x, Opaque) and isinstance(y, Opaque):
        lt = z3.Function("opaque_lt", U, U, BoolS)(x.t, y.t)
    elif is_num(x) and is_num(y) and (is_z3(x) or is_z3(y)):
        # the same for a total order, in a form that propagates
        return band(compare(I, ast.LtE(), x, y), bor(bnot(veq(I, x, y)), tuple_less(I, op, a[1:], b[1:])))
    else:
        lt = compare(I, ast.Lt(), x, y)
    return bor(lt, band(veq(I, x, y, True), tuple_less(I, op, a[1:], b[1:])))


def contains(I, c, x):
    c = I.res(c)
    ctx = I.ctx
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, tuple):
        return bor(*[veq(I, x, y, True) for y in c])
    if isinstance(c, (Ref, VRef, Frozen)):
        r = ctx.rec(c)
        if isinstance(r, LRec):
            return bor(*[part_member(I, p, x)[0] for p in r.parts])
        if isinstance(r, MRec):
            return map_has(I, r, x)
        if isinstance(r, SRec):
            return set_has(I, r, x)
        if isinstance(r, ORec):
            if isinstance(r.cls, Cls):
                m, _ = r.cls.lookup("__contains__")
                if m:
                    return truthy(I, I.call(Bound(c, m), [x]))
    if isinstance(c, Struct) and c.kind in STRUCT_CONTAINS:
        return STRUCT_CONTAINS[c.kind](I, c, x)
    raise Unsupported(f"in {c!r}")


STRUCT_CONTAINS = {}


# ---------------------------------------------------------------- witnesses


def canon_vars(sorts, tag="b"):
    return [z3.Const(f"{tag}~{i}~{s}", s) for i, s in enumerate(sorts)]


def invert(kv, vs, xs):
    """Solve kappa(vs) = xs for vs when kappa is structurally invertible; None otherwise."""
    sol = {}
    ids = {v.get_id(): v for v in vs}

    def go(t, x):
        if t.get_id() in ids:
            sol.setdefault(t.get_id(), x)
            return True
        fr = consts_in(t) & set(ids)
        if not fr:
            return True
        k = t.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED and t.decl().name() == "cat":
            a, b = t.children()
            if not (consts_in(a) & set(ids)):
                return go(b, CANR(x, a))
            if not (consts_in(b) & set(ids)):
                return go(a, CANL(x, b))
            return False
        if k == z3.Z3_OP_ADD:
            dep = [c for c in t.children() if consts_in(c) & set(ids)]
            rest = [c for c in t.children() if not (consts_in(c) & set(ids))]
            if len(dep) == 1:
                y = x
                for c in rest:
                    y = y - c
                return go(dep[0], y)
            return False
        if k == z3.Z3_OP_SUB and t.num_args() == 2:
            a, b = t.children()
            if not (consts_in(a) & set(ids)):
                return go(b, a - x)
            if not (consts_in(b) & set(ids)):
                return go(a, x + b)
        return False

    for t, x in zip(kv, xs):
        if not go(t, x):
            return None
    if len(sol) != len(vs):
        return None
    return [z3.simplify(sol[v.get_id()]) for v in vs]


def counter_inverse(ctx, ks, vs):
    """A key that is a (nested) running count, or an enumeration: the iterations it came from."""
    if len(vs) == 1 and all(t.decl().name() in ctx.enuminv and t.num_args() and t.children()[-1].eq(vs[0]) for t in ks):
        k, rk = ctx.enuminv[ks[0].decl().name()]
        par = ks[0].children()[:-1]
        if all(t.decl().name() == f"sel{k}_{i}" for i, t in enumerate(ks)) and rk.arity() == len(par) + len(ks):
            return [([t.sort() for t in ks], [IntS], lambda ts: [rk(*par, *ts)])]
    if len(ks) != 1 or not vs or ks[0].sort() != IntS:
        return []
    t = z3.simplify(ks[0])
    todo = list(t.children()) if t.decl().kind() == z3.Z3_OP_ADD else [t]
    rels = [u for u in todo if u.decl().name() in ctx.relinfo]
    rest = [u for u in todo if u.decl().name() not in ctx.relinfo]
    own = {v.get_id() for v in vs}
    has = lambda u, ids: any(c.get_id() in ids for c in subterms(u))
    if not rels or any(has(u, own) for u in rest):
        return []

    def h(ts):
        x = z3.simplify(ts[0] - sum(rest, z3.IntVal(0)))
        sol, left = {}, list(rels)
        while left:
            step = None
            for u in left:
                info = ctx.relinfo[u.decl().name()]
                k = info["params"]
                new = u.children()[k:]
                par = u.children()[:k]
                open_ids = own - set(sol)
                if any(has(q, open_ids) for q in par) or not all(v.get_id() in open_ids for v in new):
                    continue
                last = len(left) == 1
                if (last and info["inv"] is not None) or (not last and info["blk"] is not None):
                    step = (u, info, par, new)
                    break
            if step is None:
                return None
            u, info, par, new = step
            sub = [(v, sol[v.get_id()]) for v in vs if v.get_id() in sol]
            par = [z3.substitute(q, *sub) if sub else q for q in par]
            fs = info["inv"] if len(left) == 1 else [info["blk"]]
            for v, g in zip(new, fs):
                sol[v.get_id()] = g(*par, x)
            x = z3.simplify(x - u.decl()(*par, *[sol[v.get_id()] for v in new]))
            left = [y for y in left if y is not u]
        if set(sol) != own:
            return None
        return [sol[v.get_id()] for v in vs]

    if h(ks) is None:
        return []
    return [([IntS], [v.sort() for v in vs], h)]


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        st += x.children()


def shifted(sorts, kappa):
    """A key that depends on its variable v only through c + v or c - v: (back, dir) with v = back(u) for u = c +- v."""
    if list(sorts) != [IntS]:
        return None
    v = z3.Const("sh~v", IntS)
    arg = None
    todo = [z3.simplify(t) for t in kappa([v])]
    seen = set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            if z3.is_quantifier(t):
                return None
            continue
        seen.add(t.get_id())
        for c in t.children():
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and c.sort() == IntS and contains_term(c, v):
                if arg is not None and not arg.eq(c):
                    return None
                arg = c
            else:
                todo.append(c)
    if arg is None or arg.eq(v):
        return None
    for sgn in (1, -1):
        rest = z3.simplify(arg - v if sgn == 1 else arg + v)
        if not contains_term(rest, v):
            return (lambda u: z3.simplify(u - rest) if sgn == 1 else z3.simplify(rest - u)), sgn
    return None


def reparam(sorts, pred, kappa, first):
    sh = shifted(sorts, kappa)
    if sh is None or (first and sh[1] == -1):
        return None
    back = sh[0]
    return (lambda us: pred([back(us[0])])), (lambda us: [z3.simplify(t) for t in kappa([back(us[0])])]), (lambda ws: [back(ws[0])])


def get_witness(ctx, sorts, pred, kappa, first=False, tag=""):
    """Skolem functions w with: forall v. pred(v) -> pred(w(k(v))) and k(w(k(v))) = k(v)   [w: one preimage, the first if ordered]."""
    from . import sums

    vs = canon_vars(sorts, "wv")
    p = zb(pred(vs))
    ks = list(kappa(vs))
    # a key with a left inverse has one preimage (which is then also the first)
    xs0 = [z3.Const(f"inv~{i}", t.sort()) for i, t in enumerate(ks)]
    r = invert(ks, vs, xs0) if not first or ctx.mem_preds else None
    if r is not None:
        return lambda ts: [z3.substitute(t, *zip(xs0, ts)) for t in r]
    for sk, sv, h in ctx.inverses + counter_inverse(ctx, ks, vs) if not first or ctx.mem_preds else ():
        if sk == [t.sort() for t in ks] and sv == list(sorts):
            cand = h(ks)
            if ctx.valid(z3.Implies(p, z3.And(*[a == b for a, b in zip(cand, vs)])), to=1500):
                return h  # a left inverse of the key (proved here)
    own = {v.get_id() for v in vs}
    params = [c for c in sums.bindable(ctx, [p] + ks) if c.get_id() not in own]
    qs = [z3.Const(f"wp~{i}~{c.sort()}", c.sort()) for i, c in enumerate(params)]
    sub = list(zip(params, qs))
    p2 = z3.substitute(p, *sub) if sub else p
    ks2 = [z3.substitute(t, *sub) for t in ks] if sub else ks
    key = (sums.acnorm(z3.simplify(p2)), tuple(sums.acnorm(t) for t in ks2), first)
    if key not in ctx.witcache:
        n = len(ctx.witcache)
        ctx.witcache[key] = [z3.Function(f"wit{n}_{i}", *[q.sort() for q in qs], *[t.sort() for t in ks], s) for i, s in enumerate(sorts)]
    fs = ctx.witcache[key]

    def wq(par, ts):
        return [f(*par, *ts) for f in fs]

    def body_at(par):
        sb = list(zip(params, par))
        S = lambda t: z3.substitute(t, *sb) if sb else t
        kk = [S(t) for t in ks]
        ws = wq(par, kk)
        wsub = list(zip(vs, ws))
        b = [z3.substitute(S(p), *wsub)] + [z3.substitute(S(t), *wsub) == u for t, u in zip(ks, kk)]
        if first:
            b.append(ws[0] <= vs[0])
        return S(p), kk, z3.Implies(S(p), z3.And(*b))

    pp, kk, ax = body_at(params)
    trig = find_patterns(vs, z3.And(pp, *[t == t for t in kk], *[z3.Const("dummy~" + str(t.sort()), t.sort()) == t for t in kk]))
    (ctx.axiom if params else ctx.gaxiom)(z3.ForAll(vs, ax, patterns=trig) if trig else z3.ForAll(vs, ax))
    if params:
        pp, kk, ax = body_at(qs)
        ys = [z3.Const(f"wy~{i}~{t.sort()}", t.sort()) for i, t in enumerate(kk)]
        trig = find_patterns(vs, z3.And(*[z3.Const("dummy~" + str(t.sort()), t.sort()) == t for t in kk], pp))
        if trig:
            t0 = trig[0]
            terms = list(MULTI[t0.get_id()][0]) if isinstance(t0, z3.PatternRef) else [t0]
            ctx.gaxiom(z3.ForAll(qs + ys + vs, ax, patterns=[z3.MultiPattern(wq(qs, ys)[0], *terms)]))

    def w(ts):
        return wq(params, ts)

    return w


def member_pred(ctx, sorts, pred, kappa, xs, first=False):
    """Membership as a predicate symbol: mem(x) -> a preimage w(x); every preimage v has mem(kappa(v)).
    (Opt-in: keeps chains of memberships from instantiating one another.)"""
    from . import sums

    rp = reparam(sorts, pred, kappa, first)
    if rp is not None:
        m, w = member_pred(ctx, sorts, rp[0], rp[1], xs, first)
        return m, rp[2](w)
    vs = canon_vars(sorts, "wv")
    p = zb(pred(vs))
    ks = list(kappa(vs))
    own = {v.get_id() for v in vs}
    params = [c for c in sums.bindable(ctx, [p] + ks) if c.get_id() not in own]
    qs = [z3.Const(f"wp~{i}~{c.sort()}", c.sort()) for i, c in enumerate(params)]
    S = lambda t: z3.substitute(t, *zip(params, qs)) if params else t
    key = ("mem", sums.acnorm(z3.simplify(S(p))), tuple(sums.acnorm(S(t)) for t in ks), first)
    if key not in ctx.witcache:
        n = len(ctx.witcache)
        pre = [q.sort() for q in qs] + [t.sort() for t in ks]
        ws = [z3.Function(f"wit{n}_{i}", *pre, so) for i, so in enumerate(sorts)]
        for sk, sv, h in ctx.inverses:
            if sk == [t.sort() for t in ks] and sv == list(sorts):
                if ctx.valid(z3.Implies(p, z3.And(*[a == b for a, b in zip(h(ks), vs)])), to=1500):
                    ws = h
                    break
        ctx.witcache[key] = (z3.Function(f"mem{n}", *pre, BoolS), ws)
    mem, ws = ctx.witcache[key]
    w = (lambda par, ts: ws(ts)) if callable(ws) else (lambda par, ts: [f(*par, *ts) for f in ws])
    ys = [z3.Const(f"wy~{i}~{t.sort()}", t.sort()) for i, t in enumerate(ks)]
    wy = w(qs, ys)
    sub = list(zip(vs, wy))
    ctx.gaxiom(z3.ForAll(qs + ys, z3.Implies(mem(*qs, *ys), z3.And(z3.substitute(S(p), *sub), *[z3.substitute(S(t), *sub) == y for t, y in zip(ks, ys)])), patterns=[mem(*qs, *ys)]))
    K = [S(t) for t in ks]
    concl = [mem(*qs, *K)]
    if first:
        concl.append(w(qs, K)[0] <= vs[0])
    body = z3.Implies(S(p), z3.And(*concl))
    trig = find_patterns(vs, z3.And(*[z3.Const("dummy~" + str(t.sort()), t.sort()) == t for t in K], S(p)))
    if trig and not qs:
        ctx.gaxiom(z3.ForAll(vs, body, patterns=trig))
    elif trig:
        t0 = trig[0]
        terms = list(MULTI[t0.get_id()][0]) if isinstance(t0, z3.PatternRef) else [t0]
        ctx.gaxiom(z3.ForAll(qs + ys + vs, body, patterns=[z3.MultiPattern(mem(*qs, *ys), *terms)]))
    else:
        ctx.gaxiom(z3.ForAll(qs + vs, body))
    return mem(*params, *xs), w(params, xs)


MULTI = {}


def mk_forall(vs, body):
    vs = list(vs)
    if not vs:
        return body
    pats = find_patterns(vs, body)
    if pats:
        return z3.ForAll(vs, body, patterns=pats)
    # a variable that only occurs shifted (f(c - v)) is renamed so that f(u) can be the pattern
    sh = shifted([v.sort() for v in vs], lambda us: [z3.substitute(body, (vs[0], us[0]))])
    if sh is not None:
        b2 = z3.simplify(z3.substitute(body, (vs[0], sh[0](vs[0]))))
        pats = find_patterns(vs, b2)
        if pats:
            return z3.ForAll(vs, b2, patterns=pats)
    return z3.ForAll(vs, body)


def find_patterns(vs, body):
    """Choose uninterpreted applications covering all variables (single-term patterns, else one multi-pattern)."""
    ids = {v.get_id(): v for v in vs}
    found = {}

    seen = set()

    def go(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return
        for c in e.children():
            go(c)
        if z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not e.decl().name().startswith("wit"):
            cov = frozenset(consts_in(e) & set(ids))
            if cov and simple_args(e, ids):
                found.setdefault(cov, []).append(e)

    go(body)
    full = [e for cov, es in found.items() if len(cov) == len(vs) for e in es]
    if full:
        # drop patterns that contain other patterns
        full.sort(key=lambda e: len(e.sexpr()))
        out = []
        for e in full:
            if not any(contains_term(e, o) for o in out):
                out.append(e)
        return out[:6]
    # multi-pattern
    need = set(ids)
    chosen = []
    for cov, es in sorted(found.items(), key=lambda kv: -len(kv[0])):
        if cov & need:
            chosen.append(min(es, key=lambda e: len(e.sexpr())))
            need -= cov
    if chosen and not need:
        mp = z3.MultiPattern(*chosen)
        MULTI[mp.get_id()] = (tuple(chosen), mp)
        return [mp]
    return []


def simple_args(e, ids):
    """No interpreted operators around bound variables inside the pattern."""
    for c in e.children():
        if not (consts_in(c) & set(ids)):
            continue
        if z3.is_const(c):
            continue
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and simple_args(c, ids):
            continue
        return False
    return True


_cc = {}


def consts_in(e):
    k = e.get_id()
    if k in _cc:
        return _cc[k][0]
    if z3.is_const(e) and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        r = frozenset([k])
    elif z3.is_quantifier(e):
        r = consts_in(e.body())
    elif z3.is_var(e):
        r = frozenset()
    else:
        r = frozenset().union(*[consts_in(c) for c in e.children()]) if e.num_args() else frozenset()
    _cc[k] = (r, e)
    return r


def contains_term(e, t):
    seen, todo, tid = set(), [e], t.get_id()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i == tid:
            return True
        if i in seen:
            continue
        seen.add(i)
        todo += x.children() if not z3.is_quantifier(x) else [x.body()]
    return False


def free_loop_consts(ctx, terms):
    ids = frozenset().union(*[consts_in(t) for t in terms]) if terms else frozenset()
    return [v for v in ctx.loopvars if v.get_id() in ids]


def part_member(I, p, x):
    """(membership condition, witness variables) of x in a list part."""
    ctx = I.ctx
    if p.mem is not None:
        return p.mem(x), None
    if p.dom is None:
        return veq(I, p.elem([]), x, True), []
    vs = canon_vars(p.dom.sorts)
    e = p.elem(vs)
    if isinstance(e, GU):
        raise Unsupported(f"membership in a list of mixed elements {e!r}")
    if is_strv(e) and is_strv(x) or not is_strv(e):
        pass
    try:
        sh = shape_of(e)
    except Unsupported:
        raise
    if isinstance(x, GU):
        conds = [(c, part_member(I, p, y)[0]) for c, y in x.alts]
        return bor(*[band(c, m) for c, m in conds]), None
    xs = sh.of(x)
    if xs is None:
        if isinstance(x, Opaque):
            raise Unsupported("membership of an unknown value")
        return False, None
    if is_strv(x):
        xs = [str_term(x, ctx)]
    es = sh.of(e)
    # identity: the variables are the element
    if len(es) == len(vs) and all(a.eq(b) for a, b in zip(es, vs)):
        return zb(p.dom.pred(xs)), xs
    r = invert(es, vs, xs)
    if r is not None:
        return band(zb(p.dom.pred(r)), *[simp(a == b) for a, b in zip(sh.of(p.elem(r)), xs)]), r
    if ctx.mem_preds:
        return member_pred(ctx, p.dom.sorts, p.dom.pred, lambda v: sh.of(p.elem(v)), xs, first=p.dom.ordered)
    w = get_witness(ctx, p.dom.sorts, p.dom.pred, lambda v: sh.of(p.elem(v)), first=p.dom.ordered)
    ws = w(xs)
    return band(zb(p.dom.pred(ws)), *[a == b for a, b in zip(sh.of(p.elem(ws)), xs)]), ws


# ---------------------------------------------------------------- lists


def dom_int(n):
    n_ = num_term(n)
    return Dom([IntS], lambda vs: z3.And(vs[0] >= 0, vs[0] < n_), size=n, ordered=True, mono=True)


def fn_list(n, fn, kind="list"):
    return LRec([Part(dom_int(n), lambda vs: fn(vs[0]))], kind)


def part_size(I, p):
    from . import sums

    if p.dom is None:
        return 1
    if p.dom.size is not None:
        return p.dom.size
    return sums.count(I.ctx, p.dom)


def add_nums(*xs):
    c, ts = 0, []
    for x in xs:
        if isinstance(x, int):
            c += x
        else:
            ts.append(x)
    if not ts:
        return c
    t = ts[0]
    for u in ts[1:]:
        t = t + u
    return t + c if c else t


def list_len(I, r):
    return add_nums(*[part_size(I, p) for p in r.parts])


def rec_len(I, r):
    from . import sums

    if isinstance(r, LRec):
        return list_len(I, r)
    if isinstance(r, MRec):
        n = len(r.items)
        if r.amap is not None:
            m = r.amap
            if m.size is not None:
                return add_nums(n, m.size)
            return add_nums(n, sums.count(I.ctx, Dom(m.shape.sorts, lambda vs: zb(m.has(vs)))))
        return n
    if isinstance(r, SRec):
        if r.has is None:
            if not r.items:
                return 0
            if all(hkey(x) is not None for x in r.items):
                return len(set(hkey(x) for x in r.items))
            if len(r.items) == 1:
                return 1
        if r.size is not None and not r.items:
            return r.size
        sh = r.shape or shape_of(r.items[0])
        return sums.count(I.ctx, Dom(sh.sorts, lambda vs: zb(set_has(I, r, sh.mk(vs)))))
    raise Unsupported("len")


def sub_off(t, off):
    if isinstance(off, int) and off == 0:
        return t
    return z3.simplify(t - num_term(off))


def enum_fns(I, p):
    """The enumeration of a segment: position -> variables, and its inverse."""
    d = p.dom
    if d.inter:
        raise Unsupported("position in a list of unknown order")
    if d.ordered and len(d.sorts) == 1:
        return (lambda t: [t]), (lambda vs: vs[0])
    ctx = I.ctx
    from . import sums

    n = num_term(part_size(I, p))
    vs = canon_vars(d.sorts, "en")
    pr = zb(d.pred(vs))
    own = {v.get_id() for v in vs}
    params = [c for c in sums.bindable(ctx, [pr]) if c.get_id() not in own]
    qs = [z3.Const(f"ep~{i}~{c.sort()}", c.sort()) for i, c in enumerate(params)]
    key = ("enum", sums.acnorm(z3.substitute(pr, *zip(params, qs)) if params else pr), d.mono)
    if key not in ctx.witcache:
        k = len(ctx.witcache)
        ctx.witcache[key] = (
            [z3.Function(f"sel{k}_{i}", *[c.sort() for c in params], IntS, s) for i, s in enumerate(d.sorts)],
            z3.Function(f"rank{k}", *[c.sort() for c in params], *d.sorts, IntS),
        )
    fs, rk = ctx.witcache[key]
    for f in fs:
        ctx.enuminv[f.name()] = (f.name()[3:].split("_")[0], rk)
    add = ctx.axiom if params else ctx.gaxiom
    sel = lambda t: [f(*params, t) for f in fs]
    rank = lambda us: rk(*params, *us)
    t, u = z3.Const("en~t", IntS), z3.Const("en~u", IntS)
    st = sel(t)
    add(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), z3.And(zb(d.pred(st)), rank(st) == t)), patterns=[st[0]]) if st else z3.BoolVal(True))
    if vs:
        trig = [rank(vs)] + [x for x in find_patterns(vs, pr) if not isinstance(x, z3.PatternRef)][:1]
        add(z3.ForAll(vs, z3.Implies(pr, z3.And(rank(vs) >= 0, rank(vs) < n, *[a == b for a, b in zip(sel(rank(vs)), vs)])), patterns=trig))
    if d.mono and len(vs) == 1:
        add(z3.ForAll([t, u], z3.Implies(z3.And(t >= 0, t < u, u < n), sel(t)[0] < sel(u)[0]), patterns=[z3.MultiPattern(sel(t)[0], sel(u)[0])]))
    return sel, rank


def list_at(I, r, i):
    """Element at a z3 Int position assumed in range (no forking)."""
    off = 0
    cands = []
    for p in r.parts:
        n = part_size(I, p)
        if p.dom is None:
            cands.append((off, n, p.elem([])))
        else:
            k = sub_off(i, off)
            cands.append((off, n, p.elem(enum_fns(I, p)[0](k))))
        off = add_nums(off, n)
    if not cands:
        return Poison("element of an empty list")
    v = cands[-1][2]
    for o, n, x in reversed(cands[:-1]):
        v = ite(simp(i < num_term(add_nums(o, n))), x, v)
    return v


def abs_idx(I, r, pos):
    """Absolute position of a PosVal where it is a plain number, else the PosVal."""
    if not isinstance(pos, PosVal):
        return pos
    p = r.parts[pos.part]
    if p.dom is not None and not p.dom.ordered:
        return pos
    off = 0
    for q in r.parts[: pos.part]:
        off = add_nums(off, part_size(I, q))
    if p.dom is None:
        return off if isinstance(off, int) else z3.simplify(num_term(off))
    k = pos.vars[0]
    return z3.simplify(k + num_term(off)) if not (isinstance(off, int) and off == 0) else k


def set_list_nofork(I, r, idx, v, cond=True):
    """Element idx (absolute or PosVal) becomes v where cond; idx is in range."""
    parts = list(r.parts)
    off = 0
    for q, p in enumerate(parts):
        if isinstance(idx, PosVal):
            if idx.part == q:
                if p.dom is None:
                    parts[q] = single(ite(cond, v, p.elem([])))
                else:
                    parts[q] = upd_part(I, p, lambda vs: simp(zb(band(cond, *[a == b for a, b in zip(vs, idx.vars)]))), lambda vs: v)
            continue
        if p.dom is None:
            c = simp(zb(band(cond, num_term(idx) == num_term(off))))
            parts[q] = single(ite(c, v, p.elem([])))
        else:
            sel, rank = enum_fns(I, p)
            t = sub_off(num_term(idx), off)
            n = num_term(part_size(I, p))
            parts[q] = upd_part(I, p, lambda vs, t=t, n=n, sel=sel: simp(zb(band(cond, t >= 0, t < n, *[a == b for a, b in zip(vs, sel(t))]))), lambda vs: v)
        off = add_nums(off, part_size(I, p))
    return LRec(parts, r.kind), idx


def getitem_list(I, r, k):
    ctx = I.ctx
    k = I.res(k)
    if isinstance(k, PosVal):
        return r.parts[k.part].elem(list(k.vars))
    if isinstance(k, tuple) and k and k[0] == "slice":
        return slice_list(I, r, k)
    if isinstance(k, bool) or not is_num(k):
        raise Unsupported(f"list index {k!r}")
    if not is_z3(k):
        if all(p.dom is None for p in r.parts):
            try:
                return r.parts[k].elem([])
            except IndexError:
                I.raise_("IndexError")
        if k >= 0 and k < len(r.parts) and all(p.dom is None for p in r.parts[: k + 1]):
            return r.parts[k].elem([])
        if k < 0:
            if all(p.dom is None for p in r.parts[k:]):
                return r.parts[k].elem([])
            n = list_len(I, r)
            k = num_term(n) + k
            if not ctx.decide(k >= 0):
                I.raise_("IndexError")
        k = num_term(k)
    # symbolic
    if k.sort() != IntS:
        raise Unsupported("non-integer index")
    n = num_term(list_len(I, r))
    if not ctx.decide(z3.And(k >= 0, k < n)):
        if ctx.decide(z3.And(k < 0, k >= -n)):
            k = k + n
        else:
            I.raise_("IndexError")
    off = 0
    for j, p in enumerate(r.parts):
        m = part_size(I, p)
        nxt = add_nums(off, m)
        if j == len(r.parts) - 1 or ctx.decide(k < num_term(nxt)):
            if p.dom is None:
                return p.elem([])
            return p.elem(enum_fns(I, p)[0](sub_off(k, off)))
        off = nxt
    I.raise_("IndexError")


def slice_list(I, r, k):
    _, lo, hi, step = k
    if step is not None and step != 1:
        if step == -1 and lo is None and hi is None:
            return I.ctx.alloc(reverse_rec(I, r))
        raise Unsupported("slice step")
    if all(p.dom is None for p in r.parts) and not any(is_z3(x) for x in (lo, hi)):
        return I.ctx.alloc(LRec(r.parts[lo:hi], r.kind))
    if lo is None and hi is None:
        return I.ctx.alloc(LRec(r.parts, r.kind))
    if isinstance(lo, int) and lo >= 0 and hi is None and all(p.dom is None for p in r.parts[:lo]) and len(r.parts) >= lo:
        return I.ctx.alloc(LRec(r.parts[lo:], r.kind))
    n = num_term(list_len(I, r))
    l = num_term(0 if lo is None else lo)
    h = n if hi is None else num_term(hi)
    l = z3.If(l < 0, z3.If(l + n < 0, 0, l + n), z3.If(l > n, n, l))
    h = z3.If(h < 0, z3.If(h + n < 0, 0, h + n), z3.If(h > n, n, h))
    m = z3.simplify(z3.If(h > l, h - l, 0))
    l = z3.simplify(l)
    return I.ctx.alloc(fn_list(m, lambda i: list_at(I, r, l + i), r.kind))


def reverse_rec(I, r):
    out = []
    for p in reversed(r.parts):
        if p.dom is None:
            out.append(p)
        elif p.dom.ordered:
            n = num_term(p.dom.size)
            out.append(Part(p.dom, lambda vs, p=p, n=n: p.elem([n - 1 - vs[0]])))
        else:
            out.append(p)
    return LRec(out, r.kind)


def upd_part(I, p, cond, val):
    """Part whose element at vs is val(vs) where cond(vs)."""
    return Part(p.dom, lambda vs: ite(cond(vs), val(vs), p.elem(vs)))


def set_list(I, r, k, v):
    """r[k] = v, returns a new record."""
    ctx = I.ctx
    k = I.res(k)
    if isinstance(k, PosVal):
        p = r.parts[k.part]
        if p.dom is None:
            np_ = single(v)
        else:
            np_ = upd_part(I, p, lambda vs: simp(z3.And(*[a == b for a, b in zip(vs, k.vars)])), lambda vs: v)
        return LRec(r.parts[: k.part] + (np_,) + r.parts[k.part + 1:], r.kind), k
    if not is_z3(k):
        if all(p.dom is None for p in r.parts):
            if not (-len(r.parts) <= k < len(r.parts)):
                I.raise_("IndexError")
            ps = list(r.parts)
            ps[k] = single(v)
            return LRec(ps, r.kind), (k if k >= 0 else len(ps) + k)
        if k < 0 and all(p.dom is None for p in r.parts[k:]):
            ps = list(r.parts)
            ps[k] = single(v)
            return LRec(ps, r.kind), PosVal(len(ps) + k, [])
        if k >= 0 and k < len(r.parts) and all(p.dom is None for p in r.parts[: k + 1]):
            ps = list(r.parts)
            ps[k] = single(v)
            return LRec(ps, r.kind), PosVal(k, [])
        if k < 0:
            n = num_term(list_len(I, r))
            k = n + k
            if not ctx.decide(k >= 0):
                I.raise_("IndexError")
        k = num_term(k)
    n = num_term(list_len(I, r))
    if not ctx.decide(z3.And(k >= 0, k < n)):
        if ctx.decide(z3.And(k < 0, k >= -n)):
            k = k + n
        else:
            I.raise_("IndexError")
    off = 0
    for j, p in enumerate(r.parts):
        m = part_size(I, p)
        nxt = add_nums(off, m)
        if j == len(r.parts) - 1 or ctx.decide(k < num_term(nxt)):
            if p.dom is None:
                pos = PosVal(j, [])
            else:
                pos = PosVal(j, enum_fns(I, p)[0](sub_off(k, off)))
            return set_list(I, r, pos, v)
        off = nxt
    I.raise_("IndexError")


def put(I, ref, rec):
    ctx = I.ctx
    if isinstance(ref, Ref):
        if ref.id in ctx.moved:
            raise Unsupported("write to a list that was stored by value")
        ctx.heap[ref.id] = rec
    elif isinstance(ref, VRef):
        m = ctx.heap[ref.d]
        am = m.amap
        kt = am.shape.of(ref.key)
        fz = Frozen(rec)

        def get(ks, am=am):
            return frozen_ite(z3.And(*[a == b for a, b in zip(ks, kt)]), fz, am.get(ks))

        ctx.heap[ref.d] = MRec(m.items, AbsMap(am.shape, am.has, get, am.size), m.kind)
    else:
        raise Unsupported(f"write to a read-only container {ref!r}")


def frozen_ite(c, a, b):
    """Merge two list values pointwise (same part structure after padding with guards)."""
    c = simp(c)
    if c is True:
        return a
    if c is False:
        return b
    ra, rb = a.rec, b.rec
    if ra is rb:
        return a
    aligned = len(ra.parts) == len(rb.parts) and all((p.dom is None) == (q.dom is None) and (p.dom is None or p.dom.key == q.dom.key) for p, q in zip(ra.parts, rb.parts))
    posl = lambda r: all(p.dom is None or p.dom.ordered for p in r.parts)
    if not aligned and posl(ra) and posl(rb):
        la, lb = list_len(None, ra), list_len(None, rb)
        n = ite(c, la, lb)
        if not is_z3(n) or z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE and z3.simplify(num_term(la) - num_term(lb)).eq(z3.IntVal(0)):
            n = la
        return Frozen(fn_list(n, lambda i: ite(c, list_at(None, ra, i), list_at(None, rb, i)), ra.kind))
    parts = []
    same = 0
    for p, q in zip(ra.parts, rb.parts):
        if (p.dom is None) != (q.dom is None):
            break
        if p.dom is not None and p.dom.key != q.dom.key:
            break
        parts.append(Part(p.dom, lambda vs, p=p, q=q: ite(c, p.elem(vs), q.elem(vs))))
        same += 1

    def guarded(p, g):
        d = p.dom
        if d is None:
            return Part(Dom([], lambda vs: g), lambda vs: p.elem([]))
        return Part(Dom(d.sorts, lambda vs: z3.And(zb(d.pred(vs)), g)), p.elem)

    parts += [guarded(p, c) for p in ra.parts[same:]]
    parts += [guarded(p, z3.Not(c)) for p in rb.parts[same:]]
    return Frozen(LRec(parts, ra.kind))


def loc_of(ref):
    return ("h", ref.id) if isinstance(ref, Ref) else ("d", ref.d)


def list_append(I, ref, v):
    r = I.ctx.rec(ref)
    if isinstance(ref, VRef):
        I.ctx.log(Op("vappend", ("h", ref.d), key=ref.key, value=v))
    else:
        I.ctx.log(Op("append", ("h", ref.id), value=v))
    put(I, ref, LRec(r.parts + (single(v),), r.kind))


def list_extend(I, ref, other):
    o = I.res(other)
    rec = as_list(I, o)
    r = I.ctx.rec(ref)
    for p in rec.parts:
        if p.dom is None:
            list_append(I, ref, p.elem([]))
        else:
            vs = [I.ctx.fresh_plain("x", s) for s in p.dom.sorts]
            if isinstance(ref, VRef):
                raise Unsupported("extend of a family list")
            I.ctx.log(Op("append", ("h", ref.id), vs, zb(p.dom.pred(vs)), value=p.elem(vs), dom=p.dom))
            r = I.ctx.rec(ref)
            put(I, ref, LRec(r.parts + (p,), r.kind))


def as_list(I, v):
    """The elements of an iterable as a list record."""
    v = I.res(v)
    ctx = I.ctx
    if isinstance(v, tuple):
        return LRec([single(x) for x in v])
    if isinstance(v, str):
        return LRec([single(x) for x in v])
    if isinstance(v, (Ref, VRef, Frozen)):
        r = ctx.rec(v)
        if isinstance(r, LRec):
            return LRec(r.parts)
        if isinstance(r, MRec):
            parts = [single(k) for k in r.items]
            if r.amap is not None:
                m = r.amap
                parts.append(Part(Dom(m.shape.sorts, lambda vs: zb(m.has(vs)), size=m.size), lambda vs: m.shape.mk(vs)))
            return LRec(parts)
        if isinstance(r, SRec):
            return LRec(set_parts(I, r))
    if isinstance(v, Struct) and v.kind == "view":
        return v["rec"]
    if isinstance(v, Struct) and v.kind in STRUCT_ITER:
        return STRUCT_ITER[v.kind](I, v)
    raise Unsupported(f"iteration over {v!r}")


STRUCT_ITER = {}


def set_parts(I, r):
    parts = []
    if r.items:
        seen = []
        for x in r.items:
            for y in seen:
                if I.ctx.decide(veq(I, x, y)):
                    break
            else:
                if r.has is not None and I.ctx.decide(r.has(r.shape.of(x))):
                    continue
                seen.append(x)
        parts += [single(x) for x in seen]
    if r.has is not None:
        parts.append(Part(Dom(r.shape.sorts, lambda vs: zb(r.has(vs)), size=r.size), lambda vs: r.shape.mk(vs)))
    return parts


def concrete_list(I, v):
    r = as_list(I, v)
    if any(p.dom is not None for p in r.parts):
        raise Unsupported("unpacking of an unbounded collection")
    return [p.elem([]) for p in r.parts]


def unpack(I, v, n):
    v = I.res(v)
    if isinstance(v, tuple):
        if len(v) != n:
            I.raise_("ValueError", "unpack")
        return list(v)
    if isinstance(v, Struct) and v.kind in UNPACK:
        return UNPACK[v.kind](I, v, n)
    r = as_list(I, v)
    if all(p.dom is None for p in r.parts):
        if len(r.parts) != n:
            I.raise_("ValueError", "unpack")
        return [p.elem([]) for p in r.parts]
    raise Unsupported("unpack")


UNPACK = {}


def list_index(I, r, x):
    """Position of the first occurrence; forks over the parts."""
    ctx = I.ctx
    allsingle = all(p.dom is None for p in r.parts)
    for j, p in enumerate(r.parts):
        m, ws = part_member(I, p, x)
        if ctx.decide(m):
            if allsingle:
                return j
            if p.dom is None:
                return PosVal(j, [])
            ws = nicer(I, p, x, ws)
            if j == 0 and p.dom.ordered:
                return ws[0]
            return PosVal(j, ws)
    I.raise_("ValueError", "not in list")


def nicer(I, p, x, ws):
    """If x is syntactically the element at some t and the found position provably is t, t itself."""
    if ws is None or not is_strv(x) or len(p.dom.sorts) != len(ws):
        return ws
    vs = canon_vars(p.dom.sorts)
    e = p.elem(vs)
    if not is_strv(e):
        return ws
    t = invert([str_term(e)], vs, [str_term(x, I.ctx)])
    if t is None:
        m = match(str_term(e), str_term(x, I.ctx), vs)
        t = m
    if t is not None and all(a.eq(b) for a, b in zip(t, ws)):
        return ws
    if t is not None and I.ctx.valid(z3.And(*[a == b for a, b in zip(t, ws)]), to=2500):
        return t
    return ws


def match(pat, t, vs):
    """Values of vs with pat[vs] syntactically t, or None."""
    sol = {}
    ids = {v.get_id() for v in vs}

    def go(a, b):
        if a.get_id() in ids:
            if a.get_id() in sol:
                return sol[a.get_id()].eq(b)
            sol[a.get_id()] = b
            return True
        if a.eq(b):
            return True
        if not (z3.is_app(a) and z3.is_app(b)) or not a.decl().eq(b.decl()) or a.num_args() != b.num_args():
            return False
        return all(go(x, y) for x, y in zip(a.children(), b.children()))

    if go(pat, t) and len(sol) == len(vs):
        return [sol[v.get_id()] for v in vs]
    return None


# ---------------------------------------------------------------- maps


def map_key_terms(I, m, k):
    if isinstance(k, LazyStr):
        k = to_sstr(k, I.ctx)
    t = m.amap.shape.of(k)
    if t is None:
        return None
    if is_strv(k):
        return [str_term(k, I.ctx)]
    return t


def map_has(I, r, k):
    if isinstance(k, GU):
        return bor(*[band(c, map_has(I, r, x)) for c, x in k.alts])
    hk = hkey(k)
    if hk is not None or k is None:
        if hk in r.items:
            return True
        acc = False
    else:
        acc = bor(*[veq(I, kk, k) for kk in r.items])
    if r.amap is None:
        return acc
    t = map_key_terms(I, r, k)
    if t is None:
        return acc
    return bor(acc, r.amap.has(t))


def getitem_map(I, ref, r, k):
    ctx = I.ctx
    k = I.res(k)
    hk = hkey(k)
    if hk is not None or k is None:
        if hk in r.items:
            return r.items[hk]
    elif r.items:
        ne = band(*[bnot(veq(I, kk, k)) for kk in r.items])
        if not (simp(ne) is True or ctx.valid(ne, to=2000)):
            for kk, vv in r.items.items():
                if ctx.decide(veq(I, kk, k)):
                    return vv
    if r.amap is None:
        if r.kind == "defaultdict":
            raise Unsupported("defaultdict")
        I.raise_("KeyError")
    t = map_key_terms(I, r, k)
    if t is None or not ctx.decide(r.amap.has(t)):
        I.raise_("KeyError")
    v = r.amap.get(t)
    if isinstance(v, Frozen) and isinstance(v.rec, LRec) and isinstance(ref, Ref):
        return VRef(ref.id, k)
    return v


def setitem_map(I, ref, r, k, v):
    ctx = I.ctx
    k = I.res(k)
    if isinstance(k, LazyStr):
        k = to_sstr(k, ctx)
    hk = hkey(k)
    if (hk is not None or k is None) and (r.amap is None or hk in r.items):
        it = dict(r.items)
        it[hk] = v
        ctx.log(Op("mset", ("h", ref.id), key=k, value=v))
        put(I, ref, MRec(it, r.amap, r.kind))
        return
    if hk is None and r.items:
        for kk in list(r.items):
            if ctx.decide(veq(I, kk, k)):
                it = dict(r.items)
                it[kk] = v
                ctx.log(Op("mset", ("h", ref.id), key=kk, value=v))
                put(I, ref, MRec(it, r.amap, r.kind))
                return
    sh = r.amap.shape if r.amap is not None else shape_of(k)
    t = sh.of(k)
    if t is None:
        raise Unsupported(f"key {k!r} in a map of shape {sh.name}")
    if is_strv(k):
        t = [str_term(k, ctx)]
    fam = isinstance(v, (Ref, VRef, Frozen)) and isinstance(ctx.rec(v), LRec) and (r.amap is None or ref_is_family(ctx, r))
    if fam:
        if isinstance(v, Ref):
            ctx.moved.add(v.id)
        elif isinstance(v, VRef):
            raise Unsupported("a column shared by two entries")
        ctx.log(Op("vnew", ("h", ref.id), key=k, rec=ctx.rec(v)))
        val = Frozen(ctx.rec(v))
    elif isinstance(v, Ref):
        ctx.log(Op("mset", ("h", ref.id), key=k, value=v))
        val = v
    else:
        ctx.log(Op("mset", ("h", ref.id), key=k, value=v))
        val = v
    put(I, ref, map_put(r, sh, t, val))


def map_put(r, sh, t, val):
    old = r.amap

    def eq(ks):
        return simp(z3.And(*[a == b for a, b in zip(ks, t)]))

    if old is None:
        am = AbsMap(sh, lambda ks: eq(ks), lambda ks: val, None)
    else:
        am = AbsMap(sh, lambda ks: simp(zb(bor(eq(ks), old.has(ks)))), lambda ks: mite(eq(ks), val, old.get(ks)), None)
    return MRec(r.items, am, r.kind)


def mite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, Frozen) and isinstance(b, Frozen) and isinstance(a.rec, LRec) and isinstance(b.rec, LRec):
        return frozen_ite(c, a, b)
    return ite(c, a, b)


def ref_is_family(ctx, r):
    vs = canon_vars(r.amap.shape.sorts)
    return isinstance(r.amap.get(vs), Frozen)


def dict_update(I, ref, other):
    o = I.res(other)
    r, q = I.ctx.rec(ref), I.ctx.rec(o)
    if q.amap is None:
        for k, v in q.items.items():
            setitem_map(I, ref, I.ctx.rec(ref), k, v)
        return
    m2 = q.amap
    vs = [I.ctx.fresh_plain("k", s) for s in m2.shape.sorts]
    I.ctx.log(Op("mset", ("h", ref.id), vs, zb(m2.has(vs)), key=m2.shape.mk(vs), value=m2.get(vs)))
    for k, v in q.items.items():
        setitem_map(I, ref, I.ctx.rec(ref), k, v)
    r = I.ctx.rec(ref)
    if r.items:
        raise Unsupported("update of a concrete dict by an abstract one")
    if r.amap is None:
        put(I, ref, MRec({}, m2, r.kind))
        return
    m1 = r.amap
    put(I, ref, MRec({}, AbsMap(m1.shape, lambda ks: z3.Or(zb(m1.has(ks)), zb(m2.has(ks))), lambda ks: mite(zb(m2.has(ks)), m2.get(ks), m1.get(ks)), None), r.kind))


def map_view(I, r, what, ref=None):
    f = {"items": lambda k, v: (k, v), "keys": lambda k, v: k, "values": lambda k, v: v}[what]

    def live(k, v):
        if isinstance(ref, Ref) and isinstance(I.ctx.heap.get(ref.id), MRec):
            return I.ctx.heap[ref.id].items.get(k, v)
        return v

    parts = [Part(None, lambda vs, k=k, v=v: f(k, live(k, v))) for k, v in r.items.items()]
    if r.amap is not None:
        m = r.amap
        if isinstance(m.seq, tuple):
            n, key = m.seq
            parts.append(Part(dom_int(n), lambda vs: f(m.shape.mk(key(vs[0])), m.get(key(vs[0])))))
            return parts
        if m.seq is not None:
            dom = dom_int(m.seq)
        else:
            dom = Dom(m.shape.sorts, lambda vs: zb(m.has(vs)), size=m.size)
        parts.append(Part(dom, lambda vs: f(m.shape.mk(vs), m.get(vs))))
    return parts


# ---------------------------------------------------------------- sets


def set_has(I, r, x):
    if isinstance(x, GU):
        return bor(*[band(c, set_has(I, r, y)) for c, y in x.alts])
    acc = bor(*[veq(I, y, x, True) for y in r.items])
    if r.has is None:
        return acc
    t = r.shape.of(x)
    if t is None:
        return acc
    if is_strv(x):
        t = [str_term(x, I.ctx)]
    return bor(acc, r.has(t))


def set_add(I, ref, x):
    r = I.ctx.rec(ref)
    x = I.res(x)
    if isinstance(x, LazyStr):
        x = to_sstr(x, I.ctx)
    I.ctx.log(Op("sadd", ("h", ref.id), value=x))
    put(I, ref, SRec(r.items + (x,), r.shape, r.has))


def set_norm(I, r):
    """(shape, has) view of a set record."""
    if r.has is None and not r.items:
        return None, None
    sh = r.shape or shape_of(r.items[0])
    return sh, (lambda vs: zb(set_has(I, r, sh.mk(vs))))


def to_set_rec(I, v):
    v = I.res(v)
    if isinstance(v, (Ref, Frozen)) and isinstance(I.ctx.rec(v), SRec):
        return I.ctx.rec(v)
    r = as_list(I, v)
    return list_to_set(I, r)


def list_to_set(I, r):
    items = [p.elem([]) for p in r.parts if p.dom is None]
    doms = [p for p in r.parts if p.dom is not None]
    if not doms:
        return SRec(items)
    sh = None
    hs = []
    for p in doms:
        e = p.elem(canon_vars(p.dom.sorts))
        s = shape_of(e)
        if sh is not None and s.name != sh.name:
            raise Unsupported("set of mixed elements")
        sh = s
        hs.append(p)
    return SRec(items, sh, lambda vs: zb(bor(*[part_member(I, p, sh.mk(vs))[0] for p in hs])))


def set_binop(I, a, b, f):
    sa, ha = set_norm(I, a)
    sb, hb = set_norm(I, b)
    sh = sa or sb
    if sh is None:
        return SRec()
    if sa is not None and sb is not None and sa.name != sb.name:
        raise Unsupported("sets of different shapes")
    ha = ha or (lambda vs: False)
    hb = hb or (lambda vs: False)
    return SRec((), sh, lambda vs: zb(f(zb(ha(vs)), zb(hb(vs)))))


SETOPS = {
    "union": lambda x, y: z3.Or(x, y),
    "difference": lambda x, y: z3.And(x, z3.Not(y)),
    "intersection": lambda x, y: z3.And(x, y),
    "symmetric_difference": lambda x, y: z3.Xor(x, y),
}

# ---------------------------------------------------------------- subscripts


def getitem(I, o, k):
    o = I.res(o)
    ctx = I.ctx
    if isinstance(o, tuple):
        k = I.res(k)
        if isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                I.raise_("IndexError")
        if isinstance(k, tuple) and k and k[0] == "slice":
            return o[slice(k[1], k[2], k[3])]
        raise Unsupported("tuple index")
    if isinstance(o, str):
        k = I.res(k)
        if isinstance(k, int):
            return o[k]
        if isinstance(k, tuple) and k and k[0] == "slice":
            return o[slice(k[1], k[2], k[3])]
        raise Unsupported("string index")
    if isinstance(o, (SStr, LazyStr)):
        k = I.res(k)
        if k == 0 and isinstance(k, int):
            t = str_term(o, ctx)
            if ctx.decide(t == str_code("")):
                I.raise_("IndexError")
            return SStr(z3.Function("first_char", RealS, RealS)(t))
        if isinstance(k, tuple) and k and k[0] == "slice" and k[1] in (None, 0) and k[3] is None and is_num(I.res(k[2])):
            return SStr(STR_PRE(str_term(o, ctx), num_term(I.res(k[2]))))
        raise Unsupported("string index")
    if isinstance(o, (Ref, VRef, Frozen)):
        r = ctx.rec(o)
        if isinstance(r, LRec):
            return getitem_list(I, r, k)
        if isinstance(r, MRec):
            return getitem_map(I, o, r, k)
    if isinstance(o, Struct) and o.kind in STRUCT_GET:
        return STRUCT_GET[o.kind](I, o, k)
    if isinstance(o, Opaque):
        return opaque_attr(I, o, "[]", k)
    raise Unsupported(f"subscript of {o!r}")


STRUCT_GET = {}


def setitem(I, o, k, v):
    o = I.res(o)
    ctx = I.ctx
    if isinstance(o, (Ref, VRef)):
        r = ctx.rec(o)
        if isinstance(r, LRec):
            new, pos = set_list(I, r, k, v)
            pos = abs_idx(I, r, pos)
            if isinstance(o, VRef):
                ctx.log(Op("vset", ("h", o.d), key=o.key, idx=pos, value=v))
            else:
                ctx.log(Op("lset", ("h", o.id), idx=pos, value=v))
            put(I, o, new)
            return
        if isinstance(r, MRec):
            setitem_map(I, o, r, k, v)
            return
        if isinstance(r, ORec) and (r.cls if isinstance(r.cls, str) else "") in OBJ_SET:
            OBJ_SET[r.cls](I, o, r, k, v)
            return
    if isinstance(o, Struct) and o.kind in STRUCT_SET:
        return STRUCT_SET[o.kind](I, o, k, v)
    raise Unsupported(f"item assignment on {o!r}")


OBJ_SET = {}
STRUCT_SET = {}


def delitem(I, o, k):
    o = I.res(o)
    r = I.ctx.rec(o)
    if isinstance(r, MRec):
        map_pop(I, o, r, k)
        return
    raise Unsupported("del item")


def map_pop(I, ref, r, k):
    ctx = I.ctx
    k = I.res(k)
    hk = hkey(k)
    if hk is not None and hk in r.items:
        it = dict(r.items)
        v = it.pop(hk)
        ctx.log(Op("mdel", ("h", ref.id), key=k))
        put(I, ref, MRec(it, r.amap, r.kind))
        return v
    if r.amap is None:
        I.raise_("KeyError")
    t = map_key_terms(I, r, k)
    m = r.amap
    if not ctx.decide(m.has(t)):
        I.raise_("KeyError")
    v = m.get(t)
    ctx.log(Op("mdel", ("h", ref.id), key=k))
    put(I, ref, MRec(r.items, AbsMap(m.shape, lambda ks: z3.And(zb(m.has(ks)), z3.Not(z3.And(*[a == b for a, b in zip(ks, t)]))), m.get, None), r.kind))
    return v


# ---------------------------------------------------------------- arithmetic


def binop(I, op, a, b, inplace=False):
    a, b = I.res(a), I.res(b)
    ctx = I.ctx
    numa = is_num(a) or isinstance(a, bool) or (is_z3(a) and z3.is_bool(a))
    numb = is_num(b) or isinstance(b, bool) or (is_z3(b) and z3.is_bool(b))
    if a is NAN and (numb or b is NAN) or b is NAN and numa:
        return NAN
    if numa and numb:
        return arith(I, op, a, b)
    if isinstance(op, ast.Add) and is_strv(a) and is_strv(b):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        return LazyStr(flat_pieces(a) + flat_pieces(b))
    if isinstance(op, ast.Mod) and isinstance(a, str):
        return LazyStr(["<formatted>"])
    if isinstance(op, ast.Mult) and isinstance(a, str) and isinstance(b, int):
        return a * b
    if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
        return a + b
    isl = lambda v: isinstance(v, (Ref, VRef, Frozen)) and isinstance(ctx.rec(v), LRec)
    if isinstance(op, ast.Add) and isl(a) and isl(b):
        ka, kb = ctx.rec(a).kind, ctx.rec(b).kind
        if inplace and ka == "list":
            list_extend(I, a, b)
            return a
        if ka != kb:
            I.raise_("TypeError", "concatenation of different kinds")
        return ctx.alloc(LRec(ctx.rec(a).parts + ctx.rec(b).parts, ka))
    if isinstance(op, ast.Mult) and (isl(a) and numb or isl(b) and numa):
        l, n = (a, b) if isl(a) else (b, a)
        if inplace and l is a and ctx.rec(l).kind == "list":
            raise Unsupported("in-place repetition of a list")
        return ctx.alloc(repeat_list(I, ctx.rec(l), n))
    iss = lambda v: isinstance(v, (Ref, Frozen)) and isinstance(ctx.rec(v), SRec)
    if (iss(a) or is_view(a)) and (iss(b) or is_view(b)):
        f = {ast.BitOr: "union", ast.BitAnd: "intersection", ast.Sub: "difference", ast.BitXor: "symmetric_difference"}.get(type(op))
        if f:
            out = set_binop(I, to_set_rec(I, a), to_set_rec(I, b), SETOPS[f])
            if inplace and iss(a):
                if not isinstance(a, Ref):
                    raise Unsupported("in-place change of a set held by value")
                ctx.log(Op("replace", ("h", a.id)))
                put(I, a, out)
                return a
            return ctx.alloc(out)
    for t, h in BIN_HOOK:
        r = h(I, op, a, b)
        if r is not NotImplemented:
            return r
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return opaque_attr(I, a if isinstance(a, Opaque) else b, "op" + type(op).__name__, b if isinstance(a, Opaque) else a)
    if (numa or a is None or is_strv(a)) and (numb or b is None or is_strv(b)):
        I.raise_("TypeError", "operands")
    raise Unsupported(f"{type(op).__name__} on {a!r}, {b!r}")


BIN_HOOK = []


def is_view(v):
    return isinstance(v, Struct) and v.kind == "view"


def repeat_list(I, r, n):
    if len(r.parts) == 1 and r.parts[0].dom is None:
        v = r.parts[0].elem([])
        if isinstance(v, Ref):
            raise Unsupported("repetition of a mutable element")
        if isinstance(n, int):
            return LRec([single(v)] * n, r.kind)
        if isinstance(v, (tuple,)) or True:
            m = num_term(n)
            if not I.ctx.valid(m >= 0, to=1000):
                m = z3.If(m < 0, z3.IntVal(0), m)
            return fn_list(m, lambda i: v, r.kind)
    if isinstance(n, int):
        return LRec(list(r.parts) * n, r.kind)
    raise Unsupported("list repetition")


def arith(I, op, a, b):
    if not is_z3(a) and not is_z3(b):
        fa = frac(a) if isinstance(a, float) else a
        fb = frac(b) if isinstance(b, float) else b
        if isinstance(op, ast.Add):
            r = fa + fb
        elif isinstance(op, ast.Sub):
            r = fa - fb
        elif isinstance(op, ast.Mult):
            r = fa * fb
        elif isinstance(op, ast.Div):
            if fb == 0:
                I.raise_("ZeroDivisionError")
            r = Fraction(fa) / Fraction(fb)
        elif isinstance(op, ast.FloorDiv):
            if fb == 0:
                I.raise_("ZeroDivisionError")
            r = fa // fb
        elif isinstance(op, ast.Mod):
            r = fa % fb
        elif isinstance(op, ast.Pow) and isinstance(fb, int) and fb >= 0:
            r = fa**fb
        else:
            raise Unsupported("arithmetic")
        return r
    if isinstance(op, ast.Div):
        x, y = real(a), real(b)
        if I.ctx.decide(y == 0):
            I.raise_("ZeroDivisionError")
        return x / y
    x, y = num_term(real(a) if (is_z3(a) and z3.is_bool(a)) else a), num_term(real(b) if (is_z3(b) and z3.is_bool(b)) else b)
    if x.sort() != y.sort():
        x, y = real(x), real(y)
    if isinstance(op, ast.Add):
        return x + y
    if isinstance(op, ast.Sub):
        return x - y
    if isinstance(op, ast.Mult):
        return x * y
    if isinstance(op, ast.FloorDiv) and x.sort() == IntS:
        if I.ctx.decide(y == 0):
            I.raise_("ZeroDivisionError")
        if not I.ctx.valid(y > 0, to=1000):
            raise Unsupported("floor division by a possibly negative number")
        return x / y
    if isinstance(op, ast.Mod) and x.sort() == IntS:
        if I.ctx.decide(y == 0):
            I.raise_("ZeroDivisionError")
        if not I.ctx.valid(y > 0, to=1000):
            raise Unsupported("mod by a possibly negative number")
        return x % y
    if isinstance(op, ast.Pow) and isinstance(b, int) and 0 <= b <= 4:
        r = num_term(1) if x.sort() == IntS else real(1)
        for _ in range(b):
            r = r * x
        return r
    raise Unsupported(f"arithmetic {type(op).__name__}")


def unop(I, op, v):
    v = I.res(v)
    if isinstance(op, ast.USub):
        if v is NAN:
            return NAN
        if is_num(v):
            return -v
        for t, h in BIN_HOOK:
            r = h(I, ast.Mult(), -1, v)
            if r is not NotImplemented:
                return r
    if isinstance(op, ast.Invert) and isinstance(v, Struct) and v.kind in STRUCT_INV:
        return STRUCT_INV[v.kind](I, v)
    if isinstance(op, ast.UAdd) and is_num(v):
        return v
    raise Unsupported("unary operator")


# ---------------------------------------------------------------- attributes and methods of library values


def attr(I, o, name):
    if isinstance(o, PV):
        if name == "label":
            return o.label
        raise Unsupported(f"attribute {name} of a pyqubo variable")
    if isinstance(o, (Ref, VRef, Frozen, str, SStr, LazyStr, tuple)):
        return BMethod(o, name)
    if isinstance(o, Struct):
        h = STRUCT_ATTR.get(o.kind)
        if h:
            r = h(I, o, name)
            if r is not NotImplemented:
                return r
        return BMethod(o, name)
    if isinstance(o, Opaque):
        return opaque_getattr(I, o, name)
    if isinstance(o, Func) and name == "__name__":
        return o.name
    if isinstance(o, (PyFn,)) and name == "__name__":
        return getattr(o, "fname", o.name)
    if isinstance(o, PyRaise):
        if name == "args":
            return tuple(o.pargs)
    if is_num(o) or (is_z3(o) and z3.is_bool(o)):
        return BMethod(o, name)
    raise Unsupported(f"attribute {name} of {o!r}")


STRUCT_ATTR = {}
OPAQUE_ATTR = {}


def opaque_getattr(I, o, name):
    h = OPAQUE_ATTR.get((o.tag, name)) or OPAQUE_ATTR.get(("any", name))
    if h:
        return h(I, o)
    return BMethod(o, name)


def opaque_attr(I, o, name, *args):
    raise Unsupported(f"operation {name} on an unknown value")


def obj_attr(I, o, rec, name):
    h = OBJ_ATTR.get(rec.cls if isinstance(rec.cls, str) else None)
    if h:
        r = h(I, o, rec, name)
        if r is not NotImplemented:
            return r
    if isinstance(rec.cls, str):
        return BMethod(o, name)
    I.raise_("AttributeError", name)


OBJ_ATTR = {}
METHODS = {}


def method(kind, name):
    def deco(f):
        METHODS[(kind, name)] = f
        return f

    return deco


def call_method(I, o, name, args, kwargs):
    o = I.res(o)
    ctx = I.ctx
    if isinstance(o, (Ref, VRef, Frozen)):
        r = ctx.rec(o)
        kind = {LRec: "list", MRec: "dict", SRec: "set"}.get(type(r))
        if kind == "list" and r.kind == "tuple":
            kind = "list"
        if kind is None and isinstance(r, ORec) and isinstance(r.cls, str):
            kind = r.cls
        h = METHODS.get((kind, name))
        if h:
            return h(I, o, r, args, kwargs)
        raise Unsupported(f"method {kind}.{name}")
    if is_strv(o):
        o2 = to_sstr(o, ctx)
        h = METHODS.get(("str", name))
        if isinstance(o2, str) and all(isinstance(a, str) for a in args) and not kwargs and name in ("lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "index", "replace", "find", "count"):
            try:
                return getattr(o2, name)(*args)
            except ValueError:
                I.raise_("ValueError")
        if h:
            return h(I, o2, None, args, kwargs)
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "capitalize", "title") and not args:
            return SStr(z3.Function("str_" + name, RealS, RealS)(str_term(o2, ctx)))
        if name == "format":
            return LazyStr([o2 if not isinstance(o2, str) else o2] + list(args)) if not isinstance(o2, str) else fmt_call(I, o2, args, kwargs)
        raise Unsupported(f"str.{name}")
    if isinstance(o, Struct):
        h = METHODS.get((o.kind, name))
        if h:
            return h(I, o, None, args, kwargs)
        raise Unsupported(f"method {o.kind}.{name}")
    if isinstance(o, Opaque):
        h = METHODS.get((o.tag, name))
        if h:
            return h(I, o, None, args, kwargs)
        raise Unsupported(f"method {name} of an unknown value ({o.tag})")
    if isinstance(o, tuple):
        if name == "index":
            for i, y in enumerate(o):
                if ctx.decide(veq(I, y, args[0])):
                    return i
            I.raise_("ValueError")
        if name == "count" and len(o) == 0:
            return 0
    raise Unsupported(f"method {name} of {o!r}")


def fmt_call(I, s, args, kwargs):
    parts = s.split("{}")
    if kwargs or len(parts) != len(args) + 1:
        return LazyStr(["<formatted>"])
    out = []
    for i, p in enumerate(parts):
        if p:
            out.append(p)
        if i < len(args):
            out.append(str_piece(I, args[i]))
    if all(isinstance(p, str) for p in out):
        return "".join(out)
    return LazyStr(out)


def str_piece(I, x):
    x = I.res(x)
    if is_strv(x):
        return x
    if isinstance(x, bool) or x is None or isinstance(x, int):
        return str(x)
    if is_num(x) or isinstance(x, Opaque):
        return x
    if isinstance(x, Struct) and x.kind == "strlike":
        return x["s"]
    return LazyStr(["<formatted>"]) if not isinstance(x, Struct) else Opaque(z3.Const(f"str_of_{x.kind}", U))


@method("list", "append")
def _(I, o, r, a, k):
    list_append(I, o, a[0])


@method("list", "extend")
def _(I, o, r, a, k):
    list_extend(I, o, a[0])


@method("list", "insert")
def _(I, o, r, a, k):
    i = I.res(a[0])
    if i == 0 and not is_z3(i):
        I.ctx.log(Op("prepend", ("h", o.id), value=a[1]))
        put(I, o, LRec((single(a[1]),) + r.parts, r.kind))
        return
    if isinstance(i, int) and all(p.dom is None for p in r.parts):
        ps = list(r.parts)
        ps.insert(i, single(a[1]))
        I.ctx.log(Op("replace", ("h", o.id)))
        put(I, o, LRec(ps, r.kind))
        return
    raise Unsupported("insert")


@method("list", "index")
def _(I, o, r, a, k):
    return list_index(I, r, I.res(a[0]))


@method("list", "copy")
def _(I, o, r, a, k):
    return I.ctx.alloc(LRec(r.parts, r.kind))


@method("list", "clear")
def _(I, o, r, a, k):
    I.ctx.log(Op("replace", ("h", o.id)))
    put(I, o, LRec([]))


@method("list", "count")
def _(I, o, r, a, k):
    raise Unsupported("list.count")


@method("list", "pop")
def _(I, o, r, a, k):
    if all(p.dom is None for p in r.parts):
        i = I.res(a[0]) if a else -1
        if isinstance(i, int):
            if not r.parts:
                I.raise_("IndexError")
            ps = list(r.parts)
            v = ps.pop(i)
            I.ctx.log(Op("replace", ("h", o.id)))
            put(I, o, LRec(ps, r.kind))
            return v.elem([])
    raise Unsupported("list.pop")


@method("dict", "items")
def _(I, o, r, a, k):
    return Struct("view", rec=LRec(map_view(I, r, "items", o)), src=(o.id,) if isinstance(o, Ref) else ())


@method("dict", "keys")
def _(I, o, r, a, k):
    return Struct("view", rec=LRec(map_view(I, r, "keys", o)), src=(o.id,) if isinstance(o, Ref) else ())


@method("dict", "values")
def _(I, o, r, a, k):
    return Struct("view", rec=LRec(map_view(I, r, "values", o)), src=(o.id,) if isinstance(o, Ref) else ())


STRUCT_CONTAINS["view"] = lambda I, c, x: bor(*[part_member(I, p, x)[0] for p in c["rec"].parts])


@method("dict", "get")
def _(I, o, r, a, k):
    d = a[1] if len(a) > 1 else k.get("default")
    c = map_has(I, r, a[0])
    if I.ctx.decide(c):
        return getitem_map(I, o, r, a[0])
    return d


@method("dict", "setdefault")
def _(I, o, r, a, k):
    if I.ctx.decide(map_has(I, r, a[0])):
        return getitem_map(I, o, r, a[0])
    setitem_map(I, o, r, a[0], a[1] if len(a) > 1 else None)
    return getitem_map(I, o, I.ctx.rec(o), a[0])


@method("dict", "update")
def _(I, o, r, a, k):
    if a:
        dict_update(I, o, a[0])
    for kk, v in k.items():
        setitem_map(I, o, I.ctx.rec(o), kk, v)


@method("dict", "copy")
def _(I, o, r, a, k):
    return I.ctx.alloc(MRec(r.items, r.amap, r.kind))


@method("dict", "pop")
def _(I, o, r, a, k):
    if len(a) > 1:
        if not I.ctx.decide(map_has(I, r, a[0])):
            return a[1]
    return map_pop(I, o, r, a[0])


@method("dict", "clear")
def _(I, o, r, a, k):
    I.ctx.log(Op("replace", ("h", o.id)))
    put(I, o, MRec({}, None, r.kind))


@method("set", "add")
def _(I, o, r, a, k):
    set_add(I, o, a[0])


@method("set", "copy")
def _(I, o, r, a, k):
    return I.ctx.alloc(SRec(r.items, r.shape, r.has, r.size))


def _setm(name):
    @method("set", name)
    def _(I, o, r, a, k):
        out = r
        for x in a:
            out = set_binop(I, out, to_set_rec(I, x), SETOPS[name])
        return I.ctx.alloc(out)


for _n in SETOPS:
    _setm(_n)


def _setupd(name, base):
    @method("set", name)
    def _(I, o, r, a, k):
        out = r
        for x in a:
            out = set_binop(I, out, to_set_rec(I, x), SETOPS[base])
        I.ctx.log(Op("replace", ("h", o.id)))
        put(I, o, out)


_setupd("update", "union")
_setupd("difference_update", "difference")
_setupd("intersection_update", "intersection")


@method("set", "discard")
def _(I, o, r, a, k):
    I.ctx.log(Op("sdel", ("h", o.id), value=a[0]))
    put(I, o, set_binop(I, r, SRec([a[0]]), SETOPS["difference"]))


@method("set", "remove")
def _(I, o, r, a, k):
    if not I.ctx.decide(set_has(I, r, a[0])):
        I.raise_("KeyError")
    I.ctx.log(Op("sdel", ("h", o.id), value=a[0]))
    put(I, o, set_binop(I, r, SRec([a[0]]), SETOPS["difference"]))


@method("set", "issubset")
def _(I, o, r, a, k):
    b = to_set_rec(I, a[0])
    sh, h = set_norm(I, r)
    if sh is None:
        return True
    vs = [I.ctx.fresh_plain("e", s) for s in sh.sorts]
    return quant_eq(I.ctx, vs, zb(h(vs)), zb(set_has(I, b, sh.mk(vs))), True)


# ---------------------------------------------------------------- isinstance

PY_TYPES = {"int": int, "float": float, "str": str, "bool": bool, "tuple": tuple, "list": list, "dict": dict, "set": set}


def type_name(t):
    if isinstance(t, Ext):
        return t.path
    if isinstance(t, Cls):
        return t.qual
    raise Unsupported(f"type {t!r}")


def isinst(I, v, t):
    t = I.res(t)
    if isinstance(t, tuple):
        return bor(*[isinst(I, v, x) for x in t])
    if isinstance(t, (Ref, Frozen)):
        r = I.ctx.rec(t)
        if not (isinstance(r, LRec) and r.kind == "tuple"):
            I.raise_("TypeError", "isinstance() arg 2 must be a type, a tuple of types, or a union")
        out = []
        for p in r.parts:
            if p.dom is None:
                out.append(isinst(I, v, p.elem([])))
            else:
                vs = [I.ctx.fresh_plain("ty", x) for x in p.dom.sorts]
                out.append(z3.Exists(vs, z3.And(zb(p.dom.pred(vs)), zb(isinst(I, v, p.elem(vs))))))
        return bor(*out)
    if isinstance(v, GU):
        return bor(*[band(c, isinst(I, x, t)) for c, x in v.alts])
    if isinstance(t, Opaque):
        # an arbitrary type
        f = z3.Function("isinstance_any", U, U, BoolS)
        return f(obj_term(I, v), t.t)
    if isinstance(v, Opaque):
        if v.tag.startswith("is:"):
            return v.tag[3:] == type_name(t)
        return typef(type_name(t))(v.t)
    if isinstance(t, Cls):
        if isinstance(v, Ref) and isinstance(I.ctx.rec(v), ORec) and isinstance(I.ctx.rec(v).cls, Cls):
            return I.ctx.rec(v).cls.issub(t)
        if isinstance(v, PyRaise):
            return isinstance(v.cls, Cls) and v.cls.issub(t)
        return False
    p = t.path
    for h in ISINST_HOOK:
        r = h(I, v, p)
        if r is not NotImplemented:
            return r
    b = p.split(".")[-1]
    if p.startswith("builtins."):
        if b == "object":
            return True
        if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)):
            return b in ("bool", "int")
        if is_num(v) or v is NAN:
            if v is NAN:
                return b == "float"
            if is_z3(v):
                if b == "bool":
                    return False
                if v.sort() == IntS:
                    return b == "int"
                if b in ("int", "float"):
                    g = z3.Function("real_is_int_object", RealS, BoolS)(v)
                    return g if b == "int" else z3.Not(g)
                return False
            return b == ("int" if isinstance(v, int) else "float")
        if is_strv(v):
            return b == "str"
        if isinstance(v, tuple):
            return b == "tuple"
        if isinstance(v, (Ref, VRef, Frozen)):
            r = I.ctx.rec(v)
            if isinstance(r, LRec):
                return b == r.kind
            if isinstance(r, MRec):
                return b == "dict"
            if isinstance(r, SRec):
                return b == "set"
            return False
        return False
    if p in ("numbers.Number", "numbers.Real"):
        return is_num(v) or isinstance(v, bool) or v is NAN or (is_z3(v) and z3.is_bool(v))
    if p in ("pyqubo.Spin", "pyqubo.core.Spin"):
        return v.spin if isinstance(v, PV) else False
    if p in ("pyqubo.Binary", "pyqubo.core.Binary"):
        return bnot(v.spin) if isinstance(v, PV) else False
    if p in ("pyqubo.Express", "pyqubo.core.Express"):
        return isinstance(v, PV)
    return False


ISINST_HOOK = []


def obj_term(I, v):
    if isinstance(v, Opaque):
        return v.t
    raise Unsupported("object term")


# ---------------------------------------------------------------- exceptions

EXC_PARENTS = {n: c.__mro__[1].__name__ for n, c in vars(builtins).items() if isinstance(c, type) and issubclass(c, BaseException) and c is not BaseException}
EXC_PARENTS["UserError"] = "Exception"


def exc_isa(I, c, t):
    if isinstance(t, Cls) or isinstance(c, Cls):
        if isinstance(c, Cls) and isinstance(t, Cls):
            return c.issub(t)
        if isinstance(c, Cls):
            ext = [x for x in c.mro() if isinstance(x, Ext)]
            return any(exc_isa(I, x, t) for x in ext)
        return False
    n, m = c.path.split(".")[-1], t.path.split(".")[-1]
    while n is not None:
        if n == m:
            return True
        n = EXC_PARENTS.get(n)
    return False


def exc_value(I, e):
    return e


def enter(I, v):
    v = I.res(v)
    if isinstance(v, Struct) and ("enter", v.kind) in STRUCT_ATTR:
        return STRUCT_ATTR[("enter", v.kind)](I, v)
    return v


def leave(I, v):
    v = I.res(v)
    if isinstance(v, Struct) and ("exit", v.kind) in STRUCT_ATTR:
        STRUCT_ATTR[("exit", v.kind)](I, v)


# ---------------------------------------------------------------- builtins and external functions

EXTVALS = {
    "builtins.True": True,
    "builtins.False": False,
    "builtins.None": None,
    "numpy.nan": NAN,
    "numpy.NaN": NAN,
    "math.nan": NAN,
}


def ext_value(I, e):
    if e.path in EXTVALS:
        return EXTVALS[e.path]
    return e


EXT = {}


def ext(*paths):
    def deco(f):
        for p in paths:
            EXT[p] = f
        return f

    return deco


def call_ext(I, path, args, kwargs):
    h = I.ctx.ext_override.get(path) if getattr(I.ctx, "ext_override", None) else None
    h = h or EXT.get(path)
    if h:
        return h(I, args, kwargs)
    n = path.split(".")[-1]
    if n in EXC_PARENTS:
        return PyRaise(Ext(path), tuple(args))
    raise Unsupported(f"external function {path}")


@ext("builtins.isinstance")
def _(I, a, k):
    return isinst(I, a[0], a[1])


@ext("builtins.len")
def _(I, a, k):
    v = I.res(a[0])
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, (Ref, VRef, Frozen)):
        return rec_len(I, I.ctx.rec(v))
    if is_view(v):
        return list_len(I, v["rec"])
    if isinstance(v, Struct) and ("len", v.kind) in STRUCT_ATTR:
        return STRUCT_ATTR[("len", v.kind)](I, v)
    if isinstance(v, Opaque):
        f = z3.Function("len_of_object", U, IntS)
        I.ctx.axiom(f(v.t) >= 0)
        return f(v.t)
    raise Unsupported(f"len of {v!r}")


@ext("builtins.range", "numpy.arange")
def _(I, a, k):
    a = [I.res(x) for x in a]
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if isinstance(lo, int) and isinstance(hi, int) and isinstance(st, int):
        return Struct("view", rec=LRec([single(i) for i in range(lo, hi, st)]), range=(lo, hi, st))
    if st == 1:
        l, h = num_term(lo), num_term(hi)
        n = z3.simplify(z3.If(h > l, h - l, z3.IntVal(0)))
        if I.ctx.valid(h >= l, to=1000):
            n = z3.simplify(h - l)
        return Struct("view", rec=fn_list(n, lambda i: (l + i if not (isinstance(lo, int) and lo == 0) else i)), range=(lo, hi, st))
    if st == -1:
        l, h = num_term(lo), num_term(hi)
        n = z3.simplify(z3.If(l > h, l - h, z3.IntVal(0)))
        return Struct("view", rec=fn_list(n, lambda i: l - i), range=(lo, hi, st))
    raise Unsupported("range step")


@ext("builtins.list")
def _(I, a, k):
    if not a:
        return I.ctx.alloc(LRec([]))
    return I.ctx.alloc(LRec(as_list(I, a[0]).parts))


@ext("builtins.tuple")
def _(I, a, k):
    if not a:
        return ()
    r = as_list(I, a[0])
    if all(p.dom is None for p in r.parts):
        return tuple(p.elem([]) for p in r.parts)
    return Frozen(LRec(r.parts, "tuple"))


@ext("builtins.set", "builtins.frozenset")
def _(I, a, k):
    if not a:
        return I.ctx.alloc(SRec())
    r = to_set_rec(I, a[0])
    return I.ctx.alloc(SRec(r.items, r.shape, r.has, r.size))


@ext("builtins.dict")
def _(I, a, k):
    ref = I.ctx.alloc(MRec())
    if a:
        v = I.res(a[0])
        if isinstance(v, (Ref, Frozen)) and isinstance(I.ctx.rec(v), MRec):
            r = I.ctx.rec(v)
            I.ctx.heap[ref.id] = MRec(r.items, r.amap)
        else:
            from . import loops

            def body(x):
                kk, vv = unpack(I, x, 2)
                setitem(I, ref, kk, vv)

            cell = {}
            loops.run_for(I, v, lambda x: cell.__setitem__("x", x), lambda: body(cell["x"]), None, None, "dict()")
    for kk, vv in k.items():
        setitem(I, ref, kk, vv)
    return ref


@ext("builtins.bool")
def _(I, a, k):
    return truthy(I, a[0]) if a else False


@ext("builtins.float")
def _(I, a, k):
    v = I.res(a[0])
    if isinstance(v, int) and not isinstance(v, bool):
        return Fraction(v)
    if is_num(v):
        return real(v) if is_z3(v) else v
    if isinstance(v, Struct) and v.kind == "Timestamp":
        return v["t"]
    if isinstance(v, Opaque):
        return z3.Function("float_of", U, RealS)(v.t)
    raise Unsupported("float()")


TRUNC = z3.Function("trunc", RealS, IntS)


@ext("builtins.int", "numpy.int64", "numpy.int32")
def _(I, a, k):
    v = I.res(a[0])
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, (float, Fraction)):
        return int(frac(v))
    if is_z3(v) and z3.is_arith(v):
        if v.sort() == IntS:
            return v
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    raise Unsupported("int()")


@ext("builtins.str", "builtins.repr")
def _(I, a, k):
    p = str_piece(I, a[0])
    return p if is_strv(p) else LazyStr([p])


@ext("builtins.abs")
def _(I, a, k):
    v = I.res(a[0])
    return abs(v) if not is_z3(v) else z3.If(v >= 0, v, -v)


@ext("builtins.enumerate")
def _(I, a, k):
    v = as_list(I, a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if start != 0:
        raise Unsupported("enumerate start")
    parts = []
    off = 0
    for j, p in enumerate(v.parts):
        if p.dom is None:
            parts.append(single((off if isinstance(off, int) else off, p.elem([]))))
        elif p.dom.ordered:
            o = off
            parts.append(Part(p.dom, lambda vs, p=p, o=o: ((vs[0] if isinstance(o, int) and o == 0 else vs[0] + num_term(o)), p.elem(vs))))
        else:
            o = off
            sel, rank = enum_fns(I, p)
            parts.append(Part(p.dom, lambda vs, p=p, o=o, rank=rank: ((rank(vs) if isinstance(o, int) and o == 0 else rank(vs) + num_term(o)), p.elem(vs))))
        off = add_nums(off, part_size(I, p))
    return Struct("view", rec=LRec(parts), src=src_of(a[0]))


def src_of(v):
    if isinstance(v, Ref):
        return (v.id,)
    if isinstance(v, Struct):
        return v.parts.get("src", ())
    return ()



def get_witness_inj(ctx, dom, kappa):
    w = get_witness(ctx, dom.sorts, dom.pred, kappa)
    vs = canon_vars(dom.sorts)
    ctx.axiom(mk_forall(vs, z3.Implies(zb(dom.pred(vs)), z3.And(*[a == b for a, b in zip(w(kappa(vs)), vs)]))))
    return w


@ext("builtins.reversed")
def _(I, a, k):
    return Struct("view", rec=reverse_rec(I, as_list(I, a[0])))


def sort_rec(I, r, key=None):
    """sorted(): a list of the same elements (every element of every part has a position, every position an element) in
    ascending order (of the keys)."""
    ctx = I.ctx
    if not r.parts:
        return LRec([])
    n = num_term(list_len(I, r))
    e0 = r.parts[0].elem([] if r.parts[0].dom is None else canon_vars(r.parts[0].dom.sorts))
    sh = shape_of(e0)
    parts = [(p, [] if p.dom is None else list(p.dom.sorts)) for p in r.parts]
    fs = [ctx.det_fn("srt", IntS, s) for s in sh.sorts]
    at = lambda k: sh.mk([f(k) for f in fs])
    tag = ctx.det_fn("srt_tag", IntS, IntS)
    k, l = z3.Const("sk~", IntS), z3.Const("sl~", IntS)
    cases = []
    for i, (p, sorts) in enumerate(parts):
        pos = ctx.det_fn("srt_pos", *sorts, IntS) if sorts else ctx.det("srt_pos", IntS)
        back = [ctx.det_fn("srt_src", IntS, s) for s in sorts]
        vs = canon_vars(sorts, "sv")
        dom = zb(p.dom.pred(vs)) if sorts else z3.BoolVal(True)
        t = pos(*vs) if sorts else pos
        es = sh.of(p.elem(vs))
        if es is None:
            raise Unsupported("sorting a list of mixed elements")
        body = z3.Implies(dom, z3.And(t >= 0, t < n, tag(t) == i, *[b(t) == v for b, v in zip(back, vs)], *[f(t) == e for f, e in zip(fs, es)]))
        trig = find_patterns(vs, z3.And(*[z3.Const("dummy~" + str(e.sort()), e.sort()) == e for e in es], dom)) if sorts else None
        pats = [t] + (list(trig) if trig else []) if sorts else None
        ctx.assume(z3.ForAll(vs, body, patterns=pats) if sorts else body)
        bk = [b(k) for b in back]
        db = zb(p.dom.pred(bk)) if sorts else z3.BoolVal(True)
        cases.append(z3.And(tag(k) == i, db, (pos(*bk) if sorts else pos) == k, *[f(k) == e for f, e in zip(fs, sh.of(p.elem(bk)))]))
    inr = lambda x: z3.And(x >= 0, x < n)
    ctx.assume(z3.ForAll([k], z3.Implies(inr(k), z3.Or(*cases)), patterns=[f(k) for f in fs]))
    a, b = at(k), at(l)
    if key is not None:
        a, b = key(a), key(b)
    le = zb(tuple_less(I, ast.LtE(), (a,), (b,)))
    ctx.assume(z3.ForAll([k, l], z3.Implies(z3.And(inr(k), inr(l), k < l), le), patterns=[z3.MultiPattern(fs[0](k), fs[0](l))]))
    p = Part(dom_int(n), lambda vs: at(vs[0]))
    p.mem = lambda x: bor(*[part_member(I, q, x)[0] for q in r.parts])
    return LRec([p])


def _sort_key(I, k):
    if I.res(k.get("reverse", False)) is not False:
        raise Unsupported("sorted(reverse=)")
    f = k.get("key")
    if f is None:
        return None

    def key(x):
        n0 = len(I.ctx.pc)
        h = dict(I.ctx.heap)
        v = I.call(f, [x])
        if len(I.ctx.pc) != n0 or any(I.ctx.heap.get(i) is not rec for i, rec in h.items()):
            raise Unsupported("a sort key with cases or effects")
        return v

    return key


@ext("builtins.sorted")
def _(I, a, k):
    return I.ctx.alloc(sort_rec(I, as_list(I, a[0]), _sort_key(I, k)))


@method("list", "sort")
def _(I, o, r, a, k):
    I.ctx.log(Op("replace", ("h", o.id)))
    put(I, o, sort_rec(I, r, _sort_key(I, k)))


@ext("builtins.zip")
def _(I, a, k):
    rs = [as_list(I, x) for x in a]
    if all(all(p.dom is None for p in r.parts) for r in rs):
        n = min(len(r.parts) for r in rs)
        return Struct("view", rec=LRec([single(tuple(r.parts[i].elem([]) for r in rs)) for i in range(n)]))
    ns = [num_term(list_len(I, r)) for r in rs]
    n = ns[0]
    for m in ns[1:]:
        if not n.eq(m):
            n = m if I.ctx.valid(m <= n, to=2000) else (n if I.ctx.valid(n <= m, to=2000) else z3.If(n <= m, n, m))
    return Struct("view", rec=fn_list(n, lambda i: tuple(list_at(I, r, i) for r in rs)))


@ext("builtins.map")
def _(I, a, k):
    from . import loops

    f = a[0]
    if len(a) == 2:
        src = a[1]
        wrap = lambda x: [x]
    else:
        src = call_ext(I, "builtins.zip", a[1:], {})
        wrap = lambda x: list(x)
    out = I.ctx.alloc(LRec([]))
    cell = {}
    loops.run_for(I, src, lambda x: cell.__setitem__("x", x), lambda: list_append(I, out, I.call(f, wrap(cell["x"]))), None, None, "map()")
    return out


@ext("builtins.filter")
def _(I, a, k):
    from . import loops

    f = a[0]
    out = I.ctx.alloc(LRec([]))
    cell = {}

    def body():
        x = cell["x"]
        if I.ctx.decide(truthy(I, I.call(f, [x]) if f is not None else x)):
            list_append(I, out, x)

    loops.run_for(I, a[1], lambda x: cell.__setitem__("x", x), body, None, None, "filter()")
    return out


def _opfn(name, op):
    @ext("operator." + name)
    def _(I, a, k):
        return binop(I, op, a[0], a[1])


for _nm, _op in (("add", ast.Add()), ("sub", ast.Sub()), ("mul", ast.Mult())):
    _opfn(_nm, _op)


@ext("builtins.sum")
def _(I, a, k):
    from . import sums

    r = as_list(I, a[0])
    acc = a[1] if len(a) > 1 else 0
    for p in r.parts:
        if p.dom is None:
            acc = binop(I, ast.Add(), acc, p.elem([]))
        else:
            vs = canon_vars(p.dom.sorts)
            e = p.elem(vs)
            if not is_num(e):
                raise Unsupported("sum of non-numbers")
            acc = binop(I, ast.Add(), acc, sums.mk_sum(I.ctx, p.dom.sorts, lambda v, p=p: z3.If(zb(p.dom.pred(v)), num_term(p.elem(v)), 0)))
    return acc


def _minmax(name, ge):
    @ext("builtins." + name)
    def _(I, a, k):
        ctx = I.ctx
        if len(a) > 1:
            v = I.res(a[0])
            for x in a[1:]:
                x = I.res(x)
                c = compare(I, ast.Lt() if ge else ast.Gt(), v, x)
                v = ite(c if is_z3(c) else bool(c), x, v)
            return v
        r = as_list(I, a[0])
        if set(k) - {"default"}:
            raise Unsupported(name + "() with a key")
        if not ctx.decide(truthy_len(I, r)):
            if "default" in k:
                return k["default"]
            I.raise_("ValueError", "empty")
        m = ctx.det(name, RealS)
        hit = False
        for p in r.parts:
            if p.dom is None:
                e = p.elem([])
                if not is_num(e):
                    raise Unsupported("min/max of non-numbers")
                ctx.assume(real(e) <= m if ge else real(e) >= m)
                hit = bor(hit, real(e) == m)
            else:
                vs = canon_vars(p.dom.sorts)
                e = p.elem(vs)
                if not is_num(e):
                    raise Unsupported("min/max of non-numbers")
                ctx.assume(mk_forall(vs, z3.Implies(zb(p.dom.pred(vs)), real(e) <= m if ge else real(e) >= m)))
                ws = [ctx.det("arg" + name, s) for s in p.dom.sorts]
                hit = bor(hit, z3.And(zb(p.dom.pred(ws)), real(p.elem(ws)) == m))
        ctx.assume(hit)
        return m


_minmax("max", True)
_minmax("min", False)


def truthy_len(I, r):
    n = list_len(I, r)
    return n > 0


@ext("builtins.any")
def _(I, a, k):
    r = as_list(I, a[0])
    acc = False
    for p in r.parts:
        if p.dom is None:
            acc = bor(acc, truthy(I, p.elem([])))
        else:
            vs = [I.ctx.fresh_plain("any", s) for s in p.dom.sorts]
            acc = bor(acc, z3.Exists(vs, z3.And(zb(p.dom.pred(vs)), zb(pure_truth(I, p.elem(vs))))))
    return acc


@ext("builtins.all")
def _(I, a, k):
    r = as_list(I, a[0])
    acc = True
    for p in r.parts:
        if p.dom is None:
            acc = band(acc, truthy(I, p.elem([])))
        else:
            vs = [I.ctx.fresh_plain("all", s) for s in p.dom.sorts]
            acc = band(acc, z3.ForAll(vs, z3.Implies(zb(p.dom.pred(vs)), zb(pure_truth(I, p.elem(vs))))))
    return acc


def pure_truth(I, v):
    if isinstance(v, GU):
        return bor(*[band(c, pure_truth(I, x)) for c, x in v.alts])
    return truthy(I, v)


@ext("builtins.next")
def _(I, a, k):
    r = as_list(I, a[0])
    if r.parts and r.parts[0].dom is None:
        return r.parts[0].elem([])
    raise Unsupported("next")


@ext("builtins.iter")
def _(I, a, k):
    return a[0]


@ext("builtins.print", "warnings.warn", "logging.info")
def _(I, a, k):
    return None


@ext("builtins.id")
def _(I, a, k):
    v = I.res(a[0])
    if isinstance(v, Ref):
        return z3.Const(f"id_{v.id}", IntS)
    raise Unsupported("id()")


@ext("builtins.type")
def _(I, a, k):
    v = I.res(a[0])
    if isinstance(v, Ref) and isinstance(I.ctx.rec(v), ORec):
        return I.ctx.rec(v).cls
    raise Unsupported("type()")


@ext("builtins.callable")
def _(I, a, k):
    v = I.res(a[0])
    return isinstance(v, (Func, Bound, PyFn, Cls, BMethod))


@ext("builtins.hasattr")
def _(I, a, k):
    v = I.res(a[0])
    if isinstance(v, Ref) and isinstance(I.ctx.rec(v), ORec) and isinstance(a[1], str):
        r = I.ctx.rec(v)
        return a[1] in r.fields or (isinstance(r.cls, Cls) and r.cls.lookup(a[1])[0] is not None)
    raise Unsupported("hasattr")


@ext("builtins.getattr")
def _(I, a, k):
    if isinstance(a[1], str):
        return I.getattr(a[0], a[1])
    raise Unsupported("getattr")


@ext("builtins.setattr")
def _(I, a, k):
    if isinstance(a[1], str):
        return I.setattr(a[0], a[1], a[2])
    raise Unsupported("setattr")


@ext("builtins.hash")
def _(I, a, k):
    raise Unsupported("hash")


@ext("copy.deepcopy")
def _(I, a, k):
    return deep(I, a[0], {})


@ext("copy.copy")
def _(I, a, k):
    v = I.res(a[0])
    return I.ctx.alloc(I.ctx.rec(v)) if isinstance(v, (Ref, VRef)) else v


def deep(I, v, memo):
    ctx = I.ctx
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        r = ctx.rec(v)
        n = ctx.alloc(r)
        memo[v.id] = n
        if isinstance(r, LRec):
            ctx.heap[n.id] = LRec([Part(None, lambda vs, x=deep(I, p.elem([]), memo): x) if p.dom is None else p for p in r.parts], r.kind)
        elif isinstance(r, MRec):
            ctx.heap[n.id] = MRec({kk: deep(I, x, memo) for kk, x in r.items.items()}, r.amap, r.kind)
        elif isinstance(r, ORec):
            ctx.heap[n.id] = ORec(r.cls, {kk: deep(I, x, memo) for kk, x in r.fields.items()})
        return n
    if isinstance(v, VRef):
        return ctx.alloc(ctx.rec(v))
    if isinstance(v, tuple):
        return tuple(deep(I, x, memo) for x in v)
    return v


@ext("functools.wraps")
def _(I, a, k):
    def deco(J, b, kk):
        f = b[0]
        if isinstance(f, Func):
            f.wrapped = a[0]
        return f

    return PyFn(deco, "wraps")


@ext("time.time")
def _(I, a, k):
    I.ctx.assumptions.add("time.time() returns some real number (the clock)")
    t = I.ctx.det("time", RealS)
    if I.ctx.now0 is not None:
        lv = list(I.ctx.loopvars)
        I.ctx.gaxiom(z3.ForAll(lv, t >= I.ctx.now0, patterns=[t]) if lv else t >= I.ctx.now0)
    if not I.ctx.deftime:
        I.ctx.clock.append(t)
    return t


@ext("time.perf_counter")
def _(I, a, k):
    t = I.ctx.det("perf_counter", RealS)
    I.ctx.clock.append(t)
    return t


def _npmm(name, ge):
    @ext("numpy." + name)
    def _(I, a, k):
        I.ctx.assumptions.add(f"numpy.{name}(a, b) is the element-wise {name} of two equally long sequences")
        ra, rb = as_list(I, a[0]), as_list(I, a[1])
        if all(p.dom is None for p in ra.parts + rb.parts):
            if len(ra.parts) != len(rb.parts):
                raise Unsupported("numpy broadcasting")
            out = [single(_mm(p.elem([]), q.elem([]), ge)) for p, q in zip(ra.parts, rb.parts)]
            return Struct("view", rec=LRec(out))
        na, nb = num_term(list_len(I, ra)), num_term(list_len(I, rb))
        if not I.ctx.valid(na == nb, to=2000):
            if I.ctx.decide(na == nb):
                pass
            else:
                I.raise_("ValueError", "broadcast")
        return Struct("view", rec=fn_list(na, lambda i: _mm(list_at(I, ra, i), list_at(I, rb, i), ge)))


def _mm(x, y, ge):
    if not is_z3(x) and not is_z3(y):
        return max(x, y) if ge else min(x, y)
    a, b = num_term(x), num_term(y)
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    return z3.If(a >= b, a, b) if ge else z3.If(a <= b, a, b)


_npmm("maximum", True)
_npmm("minimum", False)


@ext("pyqubo.Spin")
def _(I, a, k):
    return PV(I.res(a[0] if a else k["label"]), True)


@ext("pyqubo.Binary")
def _(I, a, k):
    return PV(I.res(a[0] if a else k["label"]), False)


LOGF = z3.Function("LOGF", RealS, RealS)
EXPI = z3.Function("EXPI", RealS, IntS)
EXPR = z3.Function("EXPR", RealS, RealS)


def product(ctx, sorts, D, f, sort):
    from . import sums

    """Product of positive factors f(v) over the domain D, written exp(sum of logs) with uninterpreted exp and log."""
    s = sums.mk_sum(ctx, sorts, lambda vs: z3.If(zb(D(vs)), LOGF(real(f(vs))), z3.RealVal(0)))
    e = (EXPI if sort == IntS else EXPR)(s)
    ctx.axiom(e > 0)
    return e


def _prod(I, a, k):
    v = I.res(a[0])
    r = as_list(I, v)
    acc = a[1] if len(a) > 1 else k.get("start", 1)
    for p in r.parts:
        if p.dom is None:
            acc = binop(I, ast.Mult(), acc, p.elem([]))
        else:
            vs = canon_vars(p.dom.sorts)
            e = num_term(p.elem(vs))
            if not I.ctx.valid(z3.ForAll(vs, z3.Implies(zb(p.dom.pred(vs)), e > 0))):
                raise Unsupported("product of factors that may not be positive")
            acc = binop(I, ast.Mult(), acc, product(I.ctx, p.dom.sorts, p.dom.pred, lambda v, p=p: num_term(p.elem(v)), e.sort()))
    return acc


ext("math.prod")(_prod)
ext("numpy.prod")(_prod)


# prefixes of symbolic strings: the position of the first occurrence and the prefix of a given length
STR_PRE = z3.Function("str_prefix", RealS, IntS, RealS)
STR_FIND = z3.Function("str_find", RealS, RealS, IntS)
STR_HAS = z3.Function("str_has", RealS, RealS, BoolS)


def _find(I, o, a):
    s, t = str_term(o, I.ctx), str_term(to_sstr(I.res(a[0]), I.ctx), I.ctx)
    p = STR_FIND(s, t)
    I.ctx.axiom(z3.Implies(STR_HAS(s, t), p >= 0))
    return STR_HAS(s, t), p, s


@method("str", "index")
def _(I, o, r, a, k):
    h, p, s = _find(I, o, a)
    if not I.ctx.decide(h):
        I.raise_("ValueError")
    return p


@method("str", "find")
def _(I, o, r, a, k):
    h, p, s = _find(I, o, a)
    return p if I.ctx.decide(h) else -1
