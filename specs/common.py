"""Shared pieces of the specifications: arbitrary pre-states and obligation helpers."""
import ast
import z3
from pyvc.values import *
from pyvc.values import Dom, Part, LRec, MRec, SRec, ORec, AbsMap, Shape
from pyvc.engine import PyRaise, Bound, PyFn, Outcome, run, single, Infeasible, Op
from pyvc.repo import Ext, Cls, Func
from pyvc import lib, sums, frames
from pyvc.lib import SH_STR, SH_INT, SH_NUM, SH_PV, SH_U, SH_PAIR, ext, method

R, Z, B = RealS, IntS, BoolS

SPECS = {}


class Spec:
    def __init__(self, pid, name, fn, functions, max_paths=400, timeout=None):
        self.pid, self.name, self.fn, self.functions = pid, name, fn, functions
        self.max_paths, self.timeout = max_paths, timeout


def spec(pid, *functions, name=None, max_paths=400, timeout=None):
    def deco(f):
        for p in pid.split(","):
            SPECS.setdefault(p, []).append(Spec(p, name or f.__name__, f, list(functions), max_paths, timeout))
        return f

    return deco


def get(I, dotted):
    return I.static_value(I.ctx.repo.get(dotted))


def const(I, name):
    return get(I, "sawatabi.constants." + name)


def new_map(I, shape, name, val=RealS, total=False):
    """An arbitrary dict: uninterpreted domain predicate and value function."""
    ctx = I.ctx
    has = ctx.fresh_fn(name + "_has", *shape.sorts, BoolS)
    if val is U:
        g = ctx.fresh_fn(name, *shape.sorts, U)
        getf = lambda ks: Opaque(g(*ks))
    elif val is RealS or val is IntS or val is BoolS:
        g = ctx.fresh_fn(name, *shape.sorts, val)
        getf = lambda ks: g(*ks)
    else:
        getf = val
    return MRec({}, AbsMap(shape, lambda ks: has(*ks), getf))


def new_set(I, shape, name):
    has = I.ctx.fresh_fn(name + "_in", *shape.sorts, BoolS)
    return SRec((), shape, lambda ks: has(*ks))


def arb(I, shape, name):
    """Arbitrary value of a shape (a skolem constant: used to state 'for all')."""
    vs = [I.ctx.fresh_plain(name, s) for s in shape.sorts]
    return vs, shape.mk(vs)


def fields(I, ref):
    return I.ctx.heap[ref.id].fields


def setf(I, ref, **kw):
    r = I.ctx.heap[ref.id]
    f = dict(r.fields)
    f.update(kw)
    I.ctx.heap[ref.id] = ORec(r.cls, f)


def mtype(I):
    return const(I, "MODEL_ISING") if I.ctx.choose(2) == 0 else const(I, "MODEL_QUBO")


def mlookup(I, m, key):
    """(has, value) of a dict value at a key, without forking."""
    r = I.ctx.rec(m) if not isinstance(m, MRec) else m
    h = lib.map_has(I, r, key)
    hk = lib.hkey(key)
    if hk is not None and hk in r.items:
        return h, r.items[hk]
    v = None
    if r.amap is not None:
        t = lib.map_key_terms(I, r, key)
        v = r.amap.get(t) if t is not None else None
    for k, x in r.items.items():
        c = lib.veq(I, k, key)
        if c is True:
            return h, x
        if c is not False:
            v = x if v is None else ite(c, x, v)
    return h, v


def same_map(I, name, a, b, shape):
    """Obligation: two dicts have the same keys and equal values."""
    ks, k = arb(I, shape, "k")
    ha, va = mlookup(I, a, k)
    hb, vb = mlookup(I, b, k)
    I.ctx.ensure(name + ": same keys", zb(ha) == zb(hb))
    if va is not None and vb is not None:
        I.ctx.ensure(name + ": same values", bimp(ha, lib.veq(I, va, vb, True)))


def must_return(I, name, out):
    I.ctx.ensure(name + ": returns", bool(out.ok))
    if not out.ok:
        raise Infeasible()
    return out.value


def must_raise(I, name, out, *kinds):
    ok = (not out.ok) and (not kinds or any(lib.exc_isa(I, out.exc.cls, Ext("builtins." + k)) for k in kinds))
    I.ctx.ensure(name + ": raises " + "/".join(kinds), bool(ok))
    return ok
