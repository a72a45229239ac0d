"""C21: variable arrays and size accounting."""
from .common import *
from .arrays import *
from .logical import store, snapshot, frame, obj_frame, LM, fields
from .constraints import flatten_contract, FL


def shape_arg(I, name, least):
    """A tuple of integers, any length, each at least `least`."""
    ctx = I.ctx
    n = ctx.fresh(name + "_rank", Z)
    d = ctx.fresh_fn(name + "_dim", Z, Z)
    i = z3.Const("shi", Z)
    ctx.assume(n >= 1)
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), d(i) >= least), patterns=[d(i)]))
    return n, d, Frozen(lib.fn_list(n, lambda j: d(j), "tuple"))


def is_array(I, what, v, name, rank, dim, spin):
    """Obligation: v is the array of that name, shape and variable type."""
    ctx = I.ctx
    v = I.res(v)
    ctx.ensure(what + ": an array", isinstance(v, Struct) and v.kind == "array" and v["rank"] is not None)
    ctx.ensure(what + ": name", lib.veq(I, v["name"], name))
    ctx.ensure(what + ": number of dimensions", num_term(v["rank"]) == rank)
    i = ctx.fresh_plain("i", Z)
    ctx.ensure(what + ": each dimension", z3.Implies(z3.And(i >= 0, i < rank), dim_of(v)(i) == dim(i)))
    ctx.ensure(what + ": variable type", lib.veq(I, v["spin"], spin))


def others_kept(I, what, s, vm, name):
    """Obligation: every other declared array is as before, and nothing else is declared."""
    ctx = I.ctx
    ks, k = arb(I, SH_STR, "other")
    h, v = mlookup(I, fields(I, s.ref)["_variables"], k)
    nt = str_term(name, ctx)
    ctx.ensure(what + ": declared names", zb(h) == z3.Or(vm["has"](ks[0]), ks[0] == nt))
    old = vm["get"](ks)
    ctx.ensure(what + ": other arrays", bimp(band(zb(h), ks[0] != nt), array_eq(I, I.res(v), old)))


def model(I):
    s = store(I)
    spin = s.mt == const(I, "MODEL_ISING")
    vm = variable_map(I, s.ref, spin)
    return s, spin, vm


@spec("C21", LM + ".variables")
def variables(I):
    ctx = I.ctx
    s, spin, vm = model(I)
    name = SStr(ctx.fresh("name", R))
    n, d, sh = shape_arg(I, "shape", 1)
    pre = snapshot(I)
    v = must_return(I, "variables", run(I, I.getattr(s.ref, "variables"), [name], {"shape": sh}))
    is_array(I, "variables returns", v, name, n, d, spin)
    h, w = mlookup(I, fields(I, s.ref)["_variables"], name)
    ctx.ensure("variables: declared", zb(h))
    is_array(I, "variables registers", w, name, n, d, spin)
    others_kept(I, "variables", s, vm, name)
    frame(I, "variables", pre, {s.ref.id, pre[s.ref.id].fields["_variables"].id})
    obj_frame(I, "variables", s.ref, pre, {"_variables"})


@spec("C21", LM + ".append")
def append(I):
    ctx = I.ctx
    s, spin, vm = model(I)
    name = SStr(ctx.fresh("name", R))
    known = ctx.choose(2) == 0
    nt = str_term(name, ctx)
    ctx.assume(vm["has"](nt) if known else z3.Not(vm["has"](nt)))
    n, d, sh = shape_arg(I, "shape", 0 if known else 1)
    if known:
        ctx.assume(n == vm["rank"](nt))
    pre = snapshot(I)
    v = must_return(I, "append", run(I, I.getattr(s.ref, "append"), [name], {"shape": sh}))
    dim = (lambda i: vm["dim"](nt, i) + d(i)) if known else d
    is_array(I, "append returns", v, name, n, dim, spin)
    h, w = mlookup(I, fields(I, s.ref)["_variables"], name)
    ctx.ensure("append: declared", zb(h))
    is_array(I, "append registers", w, name, n, dim, spin)
    others_kept(I, "append", s, vm, name)
    frame(I, "append", pre, {s.ref.id, pre[s.ref.id].fields["_variables"].id})
    obj_frame(I, "append", s.ref, pre, {"_variables"})


@spec("C21", LM + ".variables", name="variables_from_array")
def variables_from_array(I):
    """An existing pyqubo array: registered under the name its labels carry, or refused when of the other variable type."""
    ctx = I.ctx
    s, spin, vm = model(I)
    name = SStr(ctx.fresh("name", R))
    nt = str_term(name, ctx)
    n = ctx.fresh("count", Z)
    ctx.assume(n >= 1)
    lf = ctx.fresh_fn("label", Z, R)
    asp = ctx.choose(2) == 0
    br = str_code("[")
    ctx.assume(z3.And(lib.STR_HAS(lf(0), br), lib.STR_PRE(lf(0), lib.STR_FIND(lf(0), br)) == nt))
    ctx.assumptions.add("labels of a pyqubo array are its (bracket-free) name followed by '[': the prefix before the first bracket is the name")
    rank = ctx.fresh("rank", Z)
    ctx.assume(rank >= 1)
    df = ctx.fresh_fn("dim", Z, Z)
    a = mk_array(name, rank, lambda i: df(i), asp, n=n, fn=Frozen(lib.fn_list(n, lambda i: PV(SStr(lf(i)), z3.BoolVal(asp)))))
    ctx.contracts[FL] = flatten_contract
    pre = snapshot(I)
    out = run(I, I.getattr(s.ref, "variables"), [a])
    if asp != spin:
        must_raise(I, "array of the other type", out, "TypeError")
        frame(I, "refused array", pre, set())
        obj_frame(I, "refused array", s.ref, pre)
        return
    v = must_return(I, "variables", out)
    is_array(I, "variables returns", v, name, rank, df, spin)
    h, w = mlookup(I, fields(I, s.ref)["_variables"], name)
    ctx.ensure("variables: declared", zb(h))
    is_array(I, "variables registers", w, name, rank, df, spin)
    others_kept(I, "variables", s, vm, name)
    frame(I, "variables", pre, {s.ref.id, pre[s.ref.id].fields["_variables"].id})
    obj_frame(I, "variables", s.ref, pre, {"_variables"})


@spec("C21", LM + ".get_size", LM + ".get_all_size", LM + ".get_deleted_size", LM + ".get_fixed_size")
def sizes(I):
    ctx = I.ctx
    s, spin, vm = model(I)
    pre = snapshot(I)
    tot = sums.mk_sum(ctx, [R], lambda k: z3.If(vm["has"](k[0]), lib.product(ctx, [Z], lambda i: z3.And(i[0] >= 0, i[0] < vm["rank"](k[0])), lambda i: vm["dim"](k[0], i[0]), Z), z3.IntVal(0)))
    cnt = lambda m: sums.count(ctx, Dom([R], lambda vs: m.amap.has(vs)))
    dl, fx = cnt(s.deleted), cnt(s.fixed)
    for fn, want in (("get_all_size", tot), ("get_deleted_size", dl), ("get_fixed_size", fx), ("get_size", tot - dl - fx)):
        v = must_return(I, fn, run(I, I.getattr(s.ref, fn), []))
        ctx.ensure(fn + ": value", num_term(v) == want)
    frame(I, "sizes", pre, {s.ref.id})
    obj_frame(I, "sizes", s.ref, pre)


@spec("C21", LM + ".get_deleted_array", LM + ".get_fixed_array")
def listings(I):
    """The listings of deleted and fixed variables are exactly the keys, each once."""
    ctx = I.ctx
    s, spin, vm = model(I)
    for fn, m in (("get_deleted_array", s.deleted), ("get_fixed_array", s.fixed)):
        v = must_return(I, fn, run(I, I.getattr(s.ref, fn), []))
        r = ctx.rec(v)
        ks, k = arb(I, SH_STR, "k")
        ctx.ensure(fn + ": members", zb(lib.contains(I, v, k)) == zb(m.amap.has(ks)))
        ctx.ensure(fn + ": count", num_term(lib.list_len(I, r)) == sums.count(ctx, Dom([R], lambda vs: m.amap.has(vs))))
