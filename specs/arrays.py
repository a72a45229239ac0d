"""pyqubo variable arrays: assumed contracts and arbitrary arrays."""
from .common import *
from pyvc import values

NOTE = "pyqubo.Array.create(name, shape, vartype) makes an array of that shape whose elements are Spin/Binary variables labelled by name and position; equality is shape and element equality"


DIMI = z3.Const("dim@i", Z)


def dim_of(a):
    """Dimension function of an array value (stored as a term over DIMI, so that substitution reaches it)."""
    t = a["dimt"]
    return lambda i: z3.substitute(t, (DIMI, num_term(i)))


def ashape(I, o):
    """The shape of an array value (a tuple)."""
    if o["tup"] is not None:
        return o["tup"]
    return Frozen(lib.fn_list(o["rank"], dim_of(o), "tuple"))


def mk_array(name, rank, dim, spin, tup=None, n=None, fn=None):
    return Struct("array", name=name, rank=rank, dimt=None if dim is None else num_term(dim(DIMI)), spin=spin, tup=tup, n=n, fn=fn)


def dims_of(I, shape):
    """(rank, dim function, concrete tuple or None) of a shape argument."""
    shape = I.res(shape)
    if isinstance(shape, tuple):
        ts = [num_term(x) for x in shape]

        def dim(i):
            t = z3.IntVal(1)
            for k in reversed(range(len(ts))):
                t = z3.If(i == k, ts[k], t)
            return t

        return z3.IntVal(len(ts)), dim, shape
    r = lib.as_list(I, shape)
    return num_term(lib.list_len(I, r)), (lambda i: num_term(lib.list_at(I, r, i))), None


@ext("pyqubo.Array.create")
def _create(I, a, k):
    I.ctx.assumptions.add(NOTE)
    name, shape, vt = (list(a) + [None] * 3)[:3]
    name, shape, vt = I.res(k.get("name", name)), k.get("shape", shape), I.res(k.get("vartype", vt))
    if vt not in ("SPIN", "BINARY"):
        raise Unsupported(f"vartype {vt!r}")
    rank, dim, tup = dims_of(I, shape)
    return mk_array(name, rank, dim, vt == "SPIN", tup)


def _array_attr(I, o, name):
    if name == "bit_list":
        return Struct("nested", arr=o)
    if name == "shape" and o["rank"] is not None:
        return ashape(I, o)
    return NotImplemented


lib.STRUCT_ATTR["array"] = _array_attr


def _array_isinst(I, v, p):
    if isinstance(v, Struct) and v.kind == "array":
        return p in ("pyqubo.Array", "builtins.object")
    if isinstance(v, Struct) and v.kind == "nested":
        return p in ("builtins.list", "builtins.object")
    return NotImplemented


lib.ISINST_HOOK.append(_array_isinst)


def _array_ite(c, a, b):
    if a["rank"] is None or b["rank"] is None:
        raise Unsupported("merging arrays")
    return mk_array(ite(c, a["name"], b["name"]), ite(c, a["rank"], b["rank"]), lambda i: ite(c, dim_of(a)(i), dim_of(b)(i)), ite(c, a["spin"], b["spin"]))


values.STRUCT_ITE["array"] = _array_ite


def array_eq(I, a, b):
    """Equality of arrays: name, shape and element type (the labels follow from name and shape)."""
    i = I.ctx.fresh_plain("dimi", Z)
    q = lib.quant_eq(I.ctx, [i], z3.And(i >= 0, i < num_term(a["rank"])), simp(dim_of(a)(i) == dim_of(b)(i)), simp(num_term(a["rank"]) == num_term(b["rank"])))
    return band(lib.veq(I, a["name"], b["name"]), lib.veq(I, a["spin"], b["spin"]), q)


lib.EQH["array"] = array_eq


def array(I, name="arr", label=None, spin=None):
    """A pyqubo.Array of any shape: its elements in row-major order."""
    ctx = I.ctx
    n = ctx.fresh(name + "_n", Z)
    ctx.assume(n >= 0)
    lf = label or ctx.fresh_fn(name + "_label", Z, R)
    sf = spin or ctx.fresh_fn(name + "_spin", Z, B)
    at = lambda i: PV(SStr(lf(i)), sf(i))
    return mk_array(None, None, None, None, n=n, fn=Frozen(lib.fn_list(n, at)))


def variable_map(I, ref, spin, name="vars"):
    """An arbitrary dict of declared arrays of one variable type, each of rank at least one with positive dimensions."""
    ctx = I.ctx
    has = ctx.fresh_fn(name + "_has", R, B)
    rank = ctx.fresh_fn(name + "_rank", R, Z)
    dim = ctx.fresh_fn(name + "_dim", R, Z, Z)
    k, i = z3.Const("vk", R), z3.Const("vi", Z)
    ctx.assume(z3.ForAll([k], z3.Implies(has(k), rank(k) >= 1), patterns=[rank(k)]))
    ctx.assume(z3.ForAll([k, i], z3.Implies(z3.And(has(k), i >= 0, i < rank(k)), dim(k, i) >= 1), patterns=[dim(k, i)]))
    getf = lambda ks: mk_array(SStr(ks[0]), rank(ks[0]), lambda i: dim(ks[0], i), spin)
    ctx.heap[fields(I, ref)["_variables"].id] = MRec({}, AbsMap(SH_STR, lambda ks: has(*ks), getf))
    return Struct("vmap", has=has, rank=rank, dim=dim, get=getf)
