"""Finite sums over loop domains as opaque terms with registered definitions, and a prover for
equalities between them.

A sum symbol S(p) denotes  sum over v of K(v; p)  (finite support).  The rules used:
  linearity; pointwise: K = 0 everywhere  =>  sum = 0;
  pair sums: sum_{u,v} K(u,v) = sum_{u,v} (K(u,v)+K(v,u))/2, diagonal split off;
  collapse: K(v) = 0 for v != t  =>  sum = K(t).
"""
import hashlib
import z3
from .values import *
from .values import Dom
from . import lib


def bindable(ctx, terms):
    """Constants that later substitutions or quantifiers may replace."""
    out, seen = [], set()
    stack = list(terms)
    vis = set()
    lv = {v.get_id() for v in ctx.loopvars}
    while stack:
        e = stack.pop()
        if e.get_id() in vis:
            continue
        vis.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_const(e) and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
            if ("~" in n or "@" in n or n.startswith("sv#") or e.get_id() in lv) and e.get_id() not in seen:
                seen.add(e.get_id())
                out.append(e)
        stack += list(e.children())
    out.sort(key=lambda e: e.decl().name())
    return out


COMM = (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ)


def acnorm(t):
    """A name of a term that does not depend on the order of commutative arguments."""
    memo = {}

    def go(x):
        i = x.get_id()
        if i not in memo:
            if z3.is_quantifier(x):
                memo[i] = f"(Q{x.is_forall()}{x.is_lambda()} {[x.var_sort(k).sexpr() for k in range(x.num_vars())]} {go(x.body())})"
            elif z3.is_var(x) or x.num_args() == 0:
                memo[i] = x.sexpr()
            else:
                cs = [go(c) for c in x.children()]
                if x.decl().kind() in COMM:
                    cs.sort()
                memo[i] = f"({x.decl().name()} {x.decl().params()} {' '.join(cs)})"
            if len(memo[i]) > 400:
                memo[i] = "#" + hashlib.sha256(memo[i].encode()).hexdigest()
        return memo[i]

    return go(t)


_depth = 0


def mk_sum(ctx, sorts, kernel, isint=None):
    global _depth
    vs = [z3.Const(f"s#{i}#{s}", s) for i, s in enumerate(sorts)]
    # a kernel may build sums itself: its variables are then parameters of the inner sum
    own = [z3.Const(f"sv#{_depth}#{i}#{s}", s) for i, s in enumerate(sorts)]
    _depth += 1
    try:
        K = num_term(kernel(own))
    finally:
        _depth -= 1
    K = z3.simplify(z3.substitute(K, *zip(own, vs)) if own else K)
    if z3.is_rational_value(K) or z3.is_int_value(K):
        if K.as_fraction() == 0 if z3.is_rational_value(K) else K.as_long() == 0:
            return z3.IntVal(0) if K.sort() == IntS else z3.RealVal(0)
    ps = bindable(ctx, [K])
    qs = [z3.Const(f"p#{i}#{p.sort()}", p.sort()) for i, p in enumerate(ps)]
    K2 = z3.substitute(K, *zip(ps, qs)) if ps else K
    key = (tuple(str(s) for s in sorts), acnorm(K2))
    if key not in ctx.sumcache:
        name = f"sum{len(ctx.sumcache)}"
        if ps:
            f = z3.Function(name, *[p.sort() for p in ps], K.sort())
        else:
            f = z3.Function(name, K.sort()) if False else None
        ctx.sumcache[key] = (name, f)
        ctx.sumdefs[name] = (qs, vs, K2)
    name, f = ctx.sumcache[key]
    return f(*ps) if ps else z3.Const(name, K.sort())


def count(ctx, dom):
    """Number of elements of a domain, an Int term."""
    if not dom.sorts:
        return z3.If(zb(dom.pred([])), z3.IntVal(1), z3.IntVal(0))
    t = mk_sum(ctx, dom.sorts, lambda vs: z3.If(zb(dom.pred(vs)), z3.IntVal(1), z3.IntVal(0)))
    if z3.is_int_value(t):
        return t
    count_axioms(ctx, t, dom)
    return t


def count_axioms(ctx, t, dom):
    ctx.axiom(t >= 0)
    vs = lib.canon_vars(dom.sorts, "c")
    p = zb(dom.pred(vs))
    ps = bindable(ctx, [p])
    ps = [x for x in ps if not any(x.eq(v) for v in vs)]
    n = t.decl().name()
    ws = []
    for i, s in enumerate(dom.sorts):
        if ps:
            f = z3.Function(f"any_{n}_{i}", *[x.sort() for x in ps], s)
            ws.append(f(*ps))
        else:
            ws.append(z3.Const(f"any_{n}_{i}", s))
    ctx.axiom(z3.Implies(t > 0, zb(dom.pred(ws))))
    pats = lib.find_patterns(vs, p)
    body = z3.Implies(p, t > 0)
    if vs:
        ctx.axiom(z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body))


def support(ctx, t):
    """Some position at which the summand is not zero, if the sum is not zero."""
    t = z3.simplify(t)
    if not is_sum(ctx, t):
        raise Unsupported("support of something that is not one sum")
    qs, vs, K = ctx.sumdefs[t.decl().name()]
    ws = [ctx.fresh_plain("nonzero_at", v.sort()) for v in vs]
    K = z3.substitute(K, *zip(list(qs) + list(vs), list(t.children()) + ws))
    ctx.axiom(z3.Or(t == 0, K != 0))
    return ws


# ---------------------------------------------------------------- proving


def is_sum(ctx, e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in ctx.sumdefs


_hs = {}


def has_sum(ctx, e):
    k = e.get_id()
    if k in _hs:
        return _hs[k][0]
    if is_sum(ctx, e):
        r = True
    elif z3.is_quantifier(e):
        r = has_sum(ctx, e.body())
    else:
        r = any(has_sum(ctx, c) for c in e.children())
    _hs[k] = (r, e)
    return r


def prove(ctx, goal, extra=()):
    goal = simp(goal)
    if goal is True:
        return True, "simplifier"
    if ctx.valid(goal, extra):
        return True, "z3"
    if isinstance(goal, bool):
        return False, "none"
    if has_sum(ctx, goal) or any(has_sum(ctx, e) for e in ctx.pc):
        if prove_sum(ctx, goal, list(extra)):
            return True, "sum-normaliser+z3"
    if ctx.valid(goal, extra, to=ctx.timeout * 2, cvc5=True):
        return True, ctx.last_by
    return False, "none"


def prove_sum(ctx, goal, extra, depth=0):
    if depth > 12:
        return False
    if isinstance(goal, bool):
        return goal
    if z3.is_and(goal):
        return all(prove_sum(ctx, g, extra, depth + 1) for g in goal.children())
    if z3.is_implies(goal):
        return prove_sum(ctx, goal.arg(1), extra + [goal.arg(0)], depth + 1)
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [ctx.fresh_plain("sk@", goal.var_sort(i)) for i in range(goal.num_vars())]
        body = z3.substitute_vars(goal.body(), *reversed(vs))
        return prove_sum(ctx, body, extra, depth + 1)
    if not has_sum(ctx, goal):
        return ctx.valid(goal, extra)
    if z3.is_or(goal):
        # all but one disjunct negated into the context
        for i, g in enumerate(goal.children()):
            rest = [z3.Not(h) for j, h in enumerate(goal.children()) if j != i]
            if prove_sum(ctx, g, extra + rest, depth + 1):
                return True
        return False
    if z3.is_not(goal):
        g = goal.arg(0)
        if z3.is_or(g):
            return all(prove_sum(ctx, z3.Not(h), extra, depth + 1) for h in g.children())
        if z3.is_and(g):
            return prove_sum(ctx, z3.Or(*[z3.Not(h) for h in g.children()]), extra, depth + 1)
        if z3.is_not(g):
            return prove_sum(ctx, g.arg(0), extra, depth + 1)
        # goal: not (a == b) etc.: use sum facts as lemmas
        return refute_with_sum_eqs(ctx, extra + [g])
    if z3.is_eq(goal) and z3.is_arith(goal.arg(0)):
        if prove_zero(ctx, real(goal.arg(0)) - real(goal.arg(1)), extra, 0):
            return True
        return refute_with_sum_eqs(ctx, extra + [z3.Not(goal)])
    if z3.is_eq(goal) and z3.is_bool(goal.arg(0)):
        a, b = goal.arg(0), goal.arg(1)
        return prove_sum(ctx, b, extra + [a], depth + 1) and prove_sum(ctx, a, extra + [b], depth + 1)
    return refute_with_sum_eqs(ctx, extra + [z3.Not(goal)])


def refute_with_sum_eqs(ctx, hyps):
    """Derive sum facts (this sum is zero / equals that one) as lemmas, then ask the solver again."""
    apps = []
    vis = set()

    def go(e):
        if e.get_id() in vis:
            return
        vis.add(e.get_id())
        if is_sum(ctx, e):
            apps.append(e)
        if z3.is_quantifier(e):
            return
        for c in e.children():
            go(c)

    for h in hyps + list(ctx.pc):
        go(zb(h))
    lem = []
    for a in apps:
        if prove_zero(ctx, real(a), hyps, 0, quick=True):
            lem.append(a == 0)
    for i, a in enumerate(apps):
        for b in apps[i + 1:]:
            if a.sort() == b.sort() and len(apps) <= 10:
                if prove_zero(ctx, real(a) - real(b), hyps, 0, quick=True):
                    lem.append(a == b)
    if not lem:
        return False
    return ctx.check(list(hyps) + lem) == z3.unsat


def decompose(ctx, e, c, acc):
    """acc: list of (coefficient term, sum app or None).  e is Real.  Returns an If-condition to split on, or None."""
    if not has_sum(ctx, e):
        acc.append((c * e, None))
        return None
    if is_sum(ctx, e):
        acc.append((c, e))
        return None
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return decompose_int(ctx, e.arg(0), c, acc)
    if k == z3.Z3_OP_ADD:
        for x in e.children():
            r = decompose(ctx, x, c, acc)
            if r is not None:
                return r
        return None
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        r = decompose(ctx, ch[0], c, acc)
        if r is not None:
            return r
        for x in ch[1:]:
            r = decompose(ctx, x, -c, acc)
            if r is not None:
                return r
        return None
    if k == z3.Z3_OP_UMINUS:
        return decompose(ctx, e.arg(0), -c, acc)
    if k == z3.Z3_OP_MUL:
        free = [x for x in e.children() if not has_sum(ctx, x)]
        dep = [x for x in e.children() if has_sum(ctx, x)]
        if len(dep) == 1:
            cc = c
            for x in free:
                cc = cc * real(x)
            return decompose(ctx, real(dep[0]), cc, acc)
        raise NotLinear()
    if k == z3.Z3_OP_DIV:
        if not has_sum(ctx, e.arg(1)):
            return decompose(ctx, e.arg(0), c / e.arg(1), acc)
        raise NotLinear()
    if k == z3.Z3_OP_ITE:
        return e.arg(0)
    raise NotLinear()


def decompose_int(ctx, e, c, acc):
    if not has_sum(ctx, e):
        acc.append((c * z3.ToReal(e), None))
        return None
    if is_sum(ctx, e):
        acc.append((c, e))
        return None
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        for x in e.children():
            r = decompose_int(ctx, x, c, acc)
            if r is not None:
                return r
        return None
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        r = decompose_int(ctx, ch[0], c, acc)
        for x in ch[1:]:
            r = r if r is not None else decompose_int(ctx, x, -c, acc)
        return r
    if k == z3.Z3_OP_UMINUS:
        return decompose_int(ctx, e.arg(0), -c, acc)
    if k == z3.Z3_OP_MUL:
        free = [x for x in e.children() if not has_sum(ctx, x)]
        dep = [x for x in e.children() if has_sum(ctx, x)]
        if len(dep) == 1:
            cc = c
            for x in free:
                cc = cc * z3.ToReal(x)
            return decompose_int(ctx, dep[0], cc, acc)
        raise NotLinear()
    if k == z3.Z3_OP_ITE:
        return e.arg(0)
    raise NotLinear()


class NotLinear(Exception):
    pass


def replace_cond(e, cond, val):
    return z3.simplify(z3.substitute(e, (cond, z3.BoolVal(val))))


def kernel_of(ctx, app, vs):
    qs, bs, K = ctx.sumdefs[app.decl().name()]
    sub = list(zip(qs, app.children())) + list(zip(bs, vs))
    return real(z3.substitute(K, *sub)) if sub else real(K)


def prove_zero(ctx, e, extra, depth, quick=False):
    """e == 0 (Real) under pc and extra."""
    if depth > 8:
        return False
    acc = []
    try:
        cond = decompose(ctx, e, z3.RealVal(1), acc)
    except NotLinear:
        e2 = z3.simplify(e, som=True)
        acc = []
        try:
            cond = decompose(ctx, e2, z3.RealVal(1), acc)
            e = e2
        except NotLinear:
            return False
    if cond is not None:
        a = ctx.check(extra + [cond], 2000) == z3.unsat or prove_zero(ctx, replace_cond(e, cond, True), extra + [cond], depth + 1, quick)
        if not a:
            return False
        return ctx.check(extra + [z3.Not(cond)], 2000) == z3.unsat or prove_zero(ctx, replace_cond(e, cond, False), extra + [z3.Not(cond)], depth + 1, quick)
    rest = z3.RealVal(0)
    groups = {}  # sorts -> list of kernels (closures)
    todo = [(c, app, [], []) for c, app in acc if app is not None]
    for c, app in acc:
        if app is None:
            rest = rest + c
    # flatten nested sums inside kernels
    flat = []
    guard = 0
    while todo:
        guard += 1
        if guard > 60:
            return False
        c, app, vs0, _ = todo.pop()
        bs = [ctx.fresh_plain("v@", b.sort()) for b in ctx.sumdefs[app.decl().name()][1]]
        K = kernel_of(ctx, app, bs)
        vs = vs0 + bs
        body = z3.simplify(c * K) if False else c * K
        if has_sum(ctx, K):
            parts = push_ite(ctx, body)
            ok = True
            for g, t in parts:
                sub = []
                try:
                    cnd = decompose(ctx, t, z3.If(g, z3.RealVal(1), z3.RealVal(0)), sub)
                except NotLinear:
                    return False
                if cnd is not None:
                    return False
                for c2, a2 in sub:
                    if a2 is None:
                        flat.append((vs, c2))
                    else:
                        todo.append((c2, a2, vs, None))
        else:
            flat.append((vs, body))
    for vs, body in flat:
        order = sorted(range(len(vs)), key=lambda i: str(vs[i].sort()))
        key = tuple(str(vs[i].sort()) for i in order)
        groups.setdefault(key, []).append(([vs[i] for i in order], body))
    singles_extra = {}
    keys = sorted(groups, key=lambda k: -len(k))
    for key in keys:
        terms = groups[key]
        can = [ctx.fresh_plain("u@", terms[0][0][i].sort()) for i in range(len(key))]
        tot = z3.RealVal(0)
        for vs, body in terms:
            tot = tot + z3.substitute(body, *zip(vs, can))
        if zero_at(ctx, tot, extra):
            continue
        if quick and len(key) > 1:
            return False
        if len(key) == 2 and key[0] == key[1]:
            u, v = can
            sw = z3.substitute(tot, (u, z3.Const("tmp@", u.sort())), (v, u))
            sw = z3.substitute(sw, (z3.Const("tmp@", u.sort()), v))
            if zero_at(ctx, tot + sw, extra + [u != v]):
                w = ctx.fresh_plain("d@", u.sort())
                groups.setdefault((key[0],), []).append(([w], z3.substitute(tot, (u, w), (v, w))))
                if (key[0],) not in keys[keys.index(key):]:
                    keys.append((key[0],))
                continue
        if len(key) == 4 and key[0] == key[1] and key[2] == key[3]:
            # pairs of (Bool, Real)-encoded variables: sorts sorted as B,B,R,R
            b1, b2, r1, r2 = can
            t1, t2 = z3.Const("tb@", b1.sort()), z3.Const("tr@", r1.sort())
            done = False
            # pairing of booleans with reals is by the original order of variables
            for vs, body in terms:
                pass
            sw = z3.substitute(tot, (b1, t1), (r1, t2))
            sw = z3.substitute(sw, (b2, b1), (r2, r1))
            sw = z3.substitute(sw, (t1, b2), (t2, r2))
            if zero_at(ctx, tot + sw, extra + [z3.Or(b1 != b2, r1 != r2)]):
                wb, wr = ctx.fresh_plain("d@", b1.sort()), ctx.fresh_plain("d@", r1.sort())
                k1 = (key[0], key[2])
                groups.setdefault(k1, []).append(([wb, wr], z3.substitute(tot, (b1, wb), (b2, wb), (r1, wr), (r2, wr))))
                if k1 not in keys[keys.index(key):]:
                    keys.append(k1)
                continue
        # collapse
        c = collapse(ctx, can, tot, extra)
        if c is None:
            return False
        nvs, nbody = c
        if not nvs:
            rest = rest + nbody
        else:
            k1 = tuple(str(x.sort()) for x in nvs)
            groups.setdefault(k1, []).append((nvs, nbody))
            if k1 not in keys[keys.index(key) + 1:]:
                keys.append(k1)
    if has_sum(ctx, rest):
        return prove_zero(ctx, rest, extra, depth + 1)
    r = simp(rest == 0)
    if r is True:
        return True
    return ctx.valid(r, extra) if r is not False else False


def push_ite(ctx, body):
    """Write body as a sum of guarded ite-free (with respect to sums) terms."""
    cond = find_ite(ctx, body)
    if cond is None:
        return [(z3.BoolVal(True), body)]
    out = []
    for val in (True, False):
        b = z3.simplify(z3.substitute(body, (cond, z3.BoolVal(val))))
        for g, t in push_ite(ctx, b):
            out.append((z3.And(cond if val else z3.Not(cond), g), t))
    return out


def find_ite(ctx, e):
    if not has_sum(ctx, e) or is_sum(ctx, e):
        return None
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return e.arg(0)
    for c in e.children():
        r = find_ite(ctx, c)
        if r is not None:
            return r
    return None


def zero_at(ctx, t, extra):
    s = z3.simplify(t)
    if z3.is_rational_value(s):
        return s.as_fraction() == 0
    if ctx.valid(t == 0, extra, to=5000):
        return True
    return split_zero(ctx, t, extra, 0)


def split_zero(ctx, t, extra, depth):
    """Case-split on conditions so that the polynomial identity becomes visible."""
    if depth > 7:
        return False
    s = z3.simplify(t, som=True)
    if z3.is_rational_value(s):
        return s.as_fraction() == 0
    c = any_ite(s)
    if c is None:
        return ctx.valid(s == 0, extra, to=3000)
    for val in (True, False):
        h = c if val else z3.Not(c)
        if ctx.check(extra + [h], 1500) == z3.unsat:
            continue
        if not split_zero(ctx, z3.substitute(s, (c, z3.BoolVal(val))), extra + [h], depth + 1):
            return False
    return True


def any_ite(e):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            c = x.arg(0)
            while z3.is_not(c):
                c = c.arg(0)
            if z3.is_and(c) or z3.is_or(c):
                return c
            return c
        stack += list(x.children())
    return None


def eq_candidates(e, v):
    """Terms t for which e mentions v == t (or bounds on v), t free of v."""
    out, seen = [], set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 2 and x.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = x.children()
            for p, q in ((a, b), (b, a)):
                if p.eq(v) and not lib.contains_term(q, v) and q.sort() == v.sort():
                    out.append(q)
                    if q.sort() == IntS:
                        out += [q - 1, q + 1]
        stack += list(x.children())
    res = []
    for q in out:
        if not any(q.eq(r) for r in res):
            res.append(q)
    return res[:12]


def collapse(ctx, vs, tot, extra):
    """Find a variable whose kernel is supported at one point."""
    base = z3.simplify(tot)
    for i, v in enumerate(vs):
        cands = eq_candidates(tot, v) + eq_candidates(base, v)
        for t in cands:
            if any(lib.contains_term(t, w) for w in vs[:i] + vs[i + 1:]):
                pass
            if zero_at(ctx, tot, extra + [v != t]):
                nv = vs[:i] + vs[i + 1:]
                return nv, z3.substitute(tot, (v, t))
    return None
