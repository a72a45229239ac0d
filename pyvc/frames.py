"""Assumed contracts of the part of pandas that kotarot/sawatabi uses (DataFrame built from columns, filters, row iteration)."""
import ast
import z3
from .values import *
from .values import Dom, Part, LRec, MRec, SRec, ORec, AbsMap
from .engine import single
from . import lib
from .lib import ext, method

NOTE = "pandas: DataFrame(dict of equally long lists) holds the rows in order; query/boolean masks select exactly the rows satisfying the condition, in order; iterrows yields (position label, row)"


class DF:
    """Immutable: columns (list records of one structure) and a row filter."""

    def __init__(self, cols, amap, filt):
        self.cols, self.amap, self.filt = cols, amap, filt


def aligned(cols):
    recs = list(cols.values())
    if not recs:
        return
    ks = [tuple("1" if p.dom is None else p.dom.key for p in r.parts) for r in recs]
    if any(k != ks[0] for k in ks[1:]):
        raise Unsupported("DataFrame of columns of different structure")


@ext("pandas.DataFrame")
def _(I, a, k):
    I.ctx.assumptions.add(NOTE)
    if k or len(a) != 1:
        raise Unsupported("DataFrame arguments")
    d = I.ctx.rec(I.res(a[0]))
    if not isinstance(d, MRec):
        raise Unsupported("DataFrame of something else")
    cols = {}
    for n, v in d.items.items():
        cols[n] = I.ctx.rec(v)
    aligned(cols)
    return Struct("df", data=DF(cols, d.amap, lambda pi, vs: True))


def rows(df):
    return next(iter(df.cols.values())).parts


def fpart(df, pi, elem):
    """The selected rows of one segment."""
    p = rows(df)[pi]
    f = df.filt
    if p.dom is None:
        c = f(pi, [])
        if c is True:
            return Part(None, lambda vs: elem([]))
        return Part(Dom([], lambda vs: zb(c)), lambda vs: elem([]))
    d = p.dom
    vs = lib.canon_vars(d.sorts)
    if f(pi, vs) is True:
        return Part(d, elem)
    return Part(Dom(d.sorts, lambda v: z3.And(zb(d.pred(v)), zb(f(pi, v))), mono=d.mono, inter=d.inter), elem)


def index_of(I, df, pi, vs):
    """The position label of a row (a number for lists whose positions are numbers, else a symbolic position)."""
    p = rows(df)[pi]
    if p.dom is not None and not p.dom.ordered:
        return PosVal(pi, vs)
    off = 0
    for q in rows(df)[:pi]:
        off = lib.add_nums(off, lib.part_size(I, q))
    if p.dom is None:
        return off
    return vs[0] if isinstance(off, int) and off == 0 else z3.simplify(vs[0] + num_term(off))


def get_col(I, df, name):
    if not isinstance(name, str):
        raise Unsupported("a column with a symbolic name")
    if name not in df.cols:
        if df.amap is not None:
            raise Unsupported("an attribute column of a DataFrame")
        I.raise_("KeyError", name)
    return df.cols[name]


def df_get(I, o, k):
    df = o["data"]
    k = I.res(k)
    if isinstance(k, Struct) and k.kind == "mask":
        m = k["pred"]
        f = df.filt
        return Struct("df", data=DF(df.cols, df.amap, lambda pi, vs: band(f(pi, vs), m(pi, vs))))
    rec = get_col(I, df, k)
    return Struct("series", data=df, val=lambda pi, vs: rec.parts[pi].elem(vs))


lib.STRUCT_GET["df"] = df_get


def row_get(I, o, k):
    k = I.res(k)
    if not isinstance(k, str) or k not in o.parts:
        raise Unsupported(f"row[{k!r}]")
    return o.parts[k]


lib.STRUCT_GET["row"] = row_get


def series_list(I, s):
    df = s["data"]
    return I.ctx.alloc(LRec([fpart(df, pi, lambda vs, pi=pi: s["val"](pi, vs)) for pi in range(len(rows(df)))]))


def df_attr(I, o, name):
    df = o["data"]
    if o.kind == "series":
        if name == "values":
            return series_list(I, o)
        return NotImplemented
    if name == "empty":
        n = lib.list_len(I, I.ctx.rec(series_list(I, Struct("series", data=df, val=lambda pi, vs: 0))))
        return n == 0 if not is_z3(n) else simp(n == 0)
    if isinstance(name, str) and name in df.cols and name not in ("name", "index", "values", "query", "empty"):
        return df_get(I, o, name)
    return NotImplemented


lib.STRUCT_ATTR["df"] = df_attr
lib.STRUCT_ATTR["series"] = df_attr


@method("series", "tolist")
def _(I, o, r, a, k):
    return series_list(I, o)


@method("series", "to_list")
def _(I, o, r, a, k):
    return series_list(I, o)


@method("df", "iterrows")
def _(I, o, r, a, k):
    df = o["data"]
    parts = []
    for pi in range(len(rows(df))):
        parts.append(fpart(df, pi, lambda vs, pi=pi: (index_of(I, df, pi, vs), Struct("row", **{c: rec.parts[pi].elem(vs) for c, rec in df.cols.items()}))))
    return I.ctx.alloc(LRec(parts))


def cond(I, df, e, pi, vs):
    """A query expression at one row."""
    if isinstance(e, ast.BoolOp):
        xs = [cond(I, df, x, pi, vs) for x in e.values]
        return band(*xs) if isinstance(e.op, ast.And) else bor(*xs)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
        xs = [cond(I, df, x, pi, vs) for x in (e.left, e.right)]
        return band(*xs) if isinstance(e.op, ast.BitAnd) else bor(*xs)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Not, ast.Invert)):
        return bnot(cond(I, df, e.operand, pi, vs))
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
        l, r = term(I, df, e.left, pi, vs), term(I, df, e.comparators[0], pi, vs)
        return lib.compare(I, e.ops[0], l, r)
    if isinstance(e, ast.Name):
        return term(I, df, e, pi, vs)
    raise Unsupported("query expression")


def term(I, df, e, pi, vs):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        if e.id in ("True", "False"):
            return e.id == "True"
        return get_col(I, df, e.id).parts[pi].elem(vs)
    raise Unsupported("query expression")


@method("df", "query")
def _(I, o, r, a, k):
    q = I.res(a[0] if a else k.get("expr"))
    q = to_sstr(q, I.ctx) if isinstance(q, LazyStr) else q
    if not isinstance(q, str) or (a and k) or len(a) > 1:
        raise Unsupported("query")
    try:
        e = ast.parse(q, mode="eval").body
    except SyntaxError:
        raise Unsupported("query syntax")
    df = o["data"]
    f = df.filt
    return Struct("df", data=DF(df.cols, df.amap, lambda pi, vs: band(f(pi, vs), cond(I, df, e, pi, vs))))


def series_cmp(I, op, a, b):
    s, x = (a, b) if isinstance(a, Struct) and a.kind == "series" else (b, a)
    if s is b or isinstance(x, Struct) or not isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
        raise Unsupported("comparison of series")
    x = I.res(x)
    return Struct("mask", pred=lambda pi, vs: lib.compare(I, op, s["val"](pi, vs), x))


lib.STRUCT_CMP["series"] = series_cmp


def as_mask(m):
    if m.kind == "mask":
        return m["pred"]
    return m["val"]


def masks(I, op, a, b):
    ok = lambda m: isinstance(m, Struct) and m.kind in ("mask", "series")
    if ok(a) and ok(b) and isinstance(op, (ast.BitAnd, ast.BitOr)):
        f = band if isinstance(op, ast.BitAnd) else bor
        p, q = as_mask(a), as_mask(b)
        return Struct("mask", pred=lambda pi, vs: f(p(pi, vs), q(pi, vs)))
    return NotImplemented


lib.BIN_HOOK.append((None, masks))


def invert(I, v):
    p = as_mask(v)
    return Struct("mask", pred=lambda pi, vs: bnot(p(pi, vs)))


lib.STRUCT_INV["mask"] = invert
lib.STRUCT_INV["series"] = invert
