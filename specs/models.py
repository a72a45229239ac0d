"""dimod / physical model: assumed library contracts and C11."""
from .common import *

PM = "sawatabi.model.physical_model.PhysicalModel"


@ext("dimod.BinaryQuadraticModel")
def _bqm(I, a, k):
    I.ctx.assumptions.add("dimod.BinaryQuadraticModel(linear, quadratic, offset, vartype) represents exactly the given coefficients (keys of quadratic are pairs of distinct labels, each unordered pair once)")
    names = ["linear", "quadratic", "offset", "vartype"]
    d = dict(zip(names, a))
    d.update(k)
    lin, quad = I.res(d["linear"]), I.res(d["quadratic"])
    return Struct("bqm", linear=Frozen(I.ctx.rec(lin)), quadratic=Frozen(I.ctx.rec(quad)), offset=d["offset"], vartype=d["vartype"])


def physical(I, mt, name="p"):
    """A PhysicalModel with arbitrary interactions, offset and index maps."""
    ctx = I.ctx
    p = I.call(get(I, PM), [], {"mtype": mt})
    lin, quad = new_map(I, SH_STR, name + "lin"), new_map(I, SH_PAIR, name + "quad")
    L1, Q2 = const(I, "INTERACTION_LINEAR"), const(I, "INTERACTION_QUADRATIC")
    raw = ctx.alloc(MRec({L1: ctx.alloc(lin), Q2: ctx.alloc(quad)}))
    off = ctx.fresh(name + "off", R)
    setf(I, p, _raw_interactions=raw, _offset=off)
    return p, lin, quad, off


@spec("C11", PM + ".to_bqm")
def to_bqm(I):
    ctx = I.ctx
    mt = mtype(I)
    p, lin, quad, off = physical(I, mt)
    pre = dict(ctx.heap)
    out = run(I, I.getattr(p, "to_bqm"), [])
    b = must_return(I, "to_bqm", out)
    ctx.ensure("to_bqm: a BQM", isinstance(b, Struct) and b.kind == "bqm")
    ks, k = arb(I, SH_STR, "k")
    h, v = mlookup(I, b["linear"], k)
    ctx.ensure("to_bqm: linear keys", zb(h) == lin.amap.has(ks))
    if v is not None:
        ctx.ensure("to_bqm: linear sign", z3.Implies(lin.amap.has(ks), real(v) == -lin.amap.get(ks)))
    ks, k = arb(I, SH_PAIR, "kk")
    h, v = mlookup(I, b["quadratic"], k)
    ctx.ensure("to_bqm: quadratic keys", zb(h) == quad.amap.has(ks))
    if v is not None:
        ctx.ensure("to_bqm: quadratic sign", z3.Implies(quad.amap.has(ks), real(v) == -quad.amap.get(ks)))
    ctx.ensure("to_bqm: offset", real(b["offset"]) == off)
    vt = b["vartype"]
    want = "dimod.SPIN" if mt == const(I, "MODEL_ISING") else "dimod.BINARY"
    ctx.ensure("to_bqm: vartype", isinstance(vt, Ext) and vt.path == want)
    ctx.ensure("to_bqm: model unchanged", all(ctx.heap[i] is r for i, r in pre.items()))


@spec("C11", PM + ".to_polynomial")
def to_polynomial(I):
    ctx = I.ctx
    mt = mtype(I)
    p, lin, quad, off = physical(I, mt)
    l2i = new_map(I, SH_STR, "l2i", IntS)
    setf(I, p, _label_to_index=ctx.alloc(l2i))
    # well-formed physical model: every label that occurs has an index, different labels different ones
    a, b, c = z3.Const("a", R), z3.Const("b", R), z3.Const("c", R)
    LH, LG = lambda x: l2i.amap.has([x]), lambda x: l2i.amap.get([x])
    ctx.assume(z3.ForAll([a], z3.Implies(lin.amap.has([a]), LH(a)), patterns=[lin.amap.has([a])]))
    ctx.assume(z3.ForAll([a, b], z3.Implies(quad.amap.has([a, b]), z3.And(LH(a), LH(b))), patterns=[quad.amap.has([a, b])]))
    out = run(I, I.getattr(p, "to_polynomial"), [])
    v = must_return(I, "to_polynomial", out)
    r = ctx.rec(v)
    # energy of the polynomial, sum of Q_ij x_i x_j with x_i in {0,1} indexed by integers
    x = ctx.fresh_fn("x", Z, R)
    tot = real(0)

    def term(e):
        e = ctx.rec(e) if isinstance(e, (Ref, Frozen)) else None
        ps = [q.elem([]) for q in e.parts]
        if len(ps) != 3:
            raise Unsupported("polynomial term")
        return real(ps[2]) * x(num_term(ps[0])) * x(num_term(ps[1]))

    for q in r.parts:
        if q.dom is None:
            tot = tot + term(q.elem([]))
        else:
            tot = tot + sums.mk_sum(ctx, q.dom.sorts, lambda vs: z3.If(zb(q.dom.pred(vs)), term(q.elem(vs)), real(0)))
    s1 = sums.mk_sum(ctx, [R], lambda u: z3.If(lin.amap.has(u), -lin.amap.get(u) * x(LG(u[0])) * x(LG(u[0])), real(0)))
    s2 = sums.mk_sum(ctx, [R, R], lambda u: z3.If(quad.amap.has(u), -quad.amap.get(u) * x(LG(u[0])) * x(LG(u[1])), real(0)))
    ctx.ensure("to_polynomial: energy", tot == s1 + s2)
