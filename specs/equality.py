"""C22: equality of models and constraints."""
from .common import *
from .arrays import *
from .logical import LM, store, variable_map
from .constraints import NH, ZH, EQ

PM = "sawatabi.model.physical_model.PhysicalModel"


def other_kind(I):
    """Values that are not of the compared class."""
    ctx = I.ctx
    k = ctx.choose(7)
    if k == 6:
        return ctx.alloc(MRec({}, None))
    return [None, 1, "model", z3.RealVal("1.5"), True, (1, 2)][k]


def judge(I, W, x, y, comps):
    """x == y and x != y against the conjunction of the component equalities."""
    ctx = I.ctx
    pre = dict(ctx.heap)
    op = ctx.choose(2)
    out = run(I, I.getattr(x, "__eq__" if op == 0 else "__ne__"), [y])
    v = must_return(I, W, out)
    same = []
    for k in comps:
        same.append((k, lib.veq(I, fields_at(pre, x)[k], fields_at(pre, y)[k], True)))
    r = zb(lib.truthy(I, v))
    if op:
        r = z3.Not(r)
    for k, e in same:
        ctx.ensure(f"{W}: equal models have equal {k}", z3.Implies(r, zb(e)))
    ctx.ensure(W + ": models with equal components are equal", z3.Implies(z3.And(*[zb(e) for _, e in same]), r))
    ctx.ensure(W + ": changes nothing", all(ctx.heap.get(i) is q for i, q in pre.items()))


def fields_at(heap, ref):
    return heap[ref.id].fields


def foreign(I, W, x):
    ctx = I.ctx
    y = other_kind(I)
    op = ctx.choose(2)
    out = run(I, I.getattr(x, "__eq__" if op == 0 else "__ne__"), [y])
    v = must_return(I, W, out)
    ctx.ensure(W + ": differs from an object of another kind", zb(lib.truthy(I, v)) == (op == 1))


LOGICAL = ["_mtype", "_variables", "_interactions_array", "_interactions_attrs", "_interactions_length", "_constraints", "_deleted", "_fixed", "_offset"]


def dress(I, s, name):
    ctx = I.ctx
    variable_map(I, s.ref, s.mt == const(I, "MODEL_ISING"), name + "_vars")
    f = fields(I, s.ref)
    ctx.heap[f["_constraints"].id] = new_map(I, SH_STR, name + "_con", U)
    # the order of the attribute list is part of the model's value
    n = ctx.fresh(name + "_na", Z)
    ctx.assume(n >= 0)
    an = ctx.fresh_fn(name + "_an", Z, R)
    ctx.heap[f["_interactions_attrs"].id] = lib.fn_list(n, lambda i: SStr(an(i)))


@spec("C22", LM + ".__eq__", LM + ".__ne__", max_paths=200)
def logical_eq(I):
    ctx = I.ctx
    W = "LogicalModel equality"
    s = store(I, name="a")
    dress(I, s, "a")
    c = ctx.choose(3)
    if c == 0:
        return foreign(I, W, s.ref)
    if c == 1:
        p = I.call(get(I, PM), [], {"mtype": s.mt})
        out = run(I, I.getattr(s.ref, "__eq__"), [p])
        ctx.ensure(W + ": a physical model is something else", zb(lib.truthy(I, must_return(I, W, out))) == False)
        return
    t = store(I, name="b")
    dress(I, t, "b")
    judge(I, W, s.ref, t.ref, LOGICAL)


@spec("C22", PM + ".__eq__", PM + ".__ne__")
def physical_eq(I):
    ctx = I.ctx
    W = "PhysicalModel equality"

    def mk(n):
        m = I.call(get(I, PM), [], {"mtype": mtype(I)})
        f = fields(I, m)
        raw = ctx.rec(f["_raw_interactions"])
        if not isinstance(raw, MRec) or len(raw.items) != 2:
            raise Unsupported("another representation of the interactions")
        ks = list(raw.items)
        ctx.heap[raw.items[ks[0]].id] = new_map(I, SH_STR, n + "_lin")
        ctx.heap[raw.items[ks[1]].id] = new_map(I, SH_PAIR, n + "_quad")
        ctx.heap[f["_label_to_index"].id] = new_map(I, SH_STR, n + "_l2i", IntS)
        g = ctx.fresh_fn(n + "_lab", Z, R)
        ctx.heap[f["_index_to_label"].id] = new_map(I, SH_INT, n + "_i2l", lambda ks: SStr(g(*ks)))
        setf(I, m, _offset=ctx.fresh(n + "_off", R))
        return m

    a = mk("a")
    if ctx.choose(2) == 0:
        return foreign(I, W, a)
    judge(I, W, a, mk("b"), ["_mtype", "_raw_interactions", "_offset", "_label_to_index", "_index_to_label"])


def _con(kind):
    cname = kind.split(".")[-1]
    SETS = ["_variables_1", "_variables_2"] if kind == EQ else ["_variables"]
    NUMS = ["_strength"] + (["_n"] if kind == NH else [])

    @spec("C22", kind + ".__eq__", kind + ".__ne__", name=cname + "_eq")
    def check(I):
        ctx = I.ctx
        W = cname + " equality"

        def mk(n, cls=kind):
            m = I.call(get(I, cls), [], {})
            kw = {"_label": SStr(ctx.fresh(n + "_label", R))}
            for k in ["_variables_1", "_variables_2"] if cls == EQ else ["_variables"]:
                kw[k] = ctx.alloc(new_set(I, SH_PV, n + k))
            for k in ["_strength"] + (["_n"] if cls == NH else []):
                kw[k] = ctx.fresh(n + k, R if k == "_strength" else Z)
            setf(I, m, **kw)
            return m

        a = mk("a")
        c = ctx.choose(3)
        if c == 0:
            return foreign(I, W, a)
        if c == 1:
            o = [k for k in (NH, ZH, EQ) if k != kind][ctx.choose(2)]
            b = mk("b", o)
            if get(I, o).issub(get(I, kind)):
                raise Infeasible()
            out = run(I, I.getattr(a, "__eq__"), [b])
            ctx.ensure(W + ": another kind of constraint is something else", zb(lib.truthy(I, must_return(I, W, out))) == False)
            return
        judge(I, W, a, mk("b"), SETS + NUMS + ["_label", "_constraint_class"])

    return check


for _k in (NH, ZH, EQ):
    _con(_k)
