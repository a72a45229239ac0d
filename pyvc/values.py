"""Symbolic value domain of the verifier.

Everything is either a concrete Python value, a z3 term (Int / Real / Bool) or one of the
immutable classes below.  Mutable Python objects live in the heap (engine.Ctx.heap) as
immutable records that are replaced on every write, so a state can be saved by copying one dict.
"""
from fractions import Fraction
import itertools
import z3

RealS, IntS, BoolS = z3.RealSort(), z3.IntSort(), z3.BoolSort()
U = z3.DeclareSort("U")

# z3's Python binding may free a pattern that a quantifier still uses: patterns are kept alive for the whole run
_KEEP = {}
_forall = z3.ForAll


def _kept_forall(vs, body, weight=1, qid="", skid="", patterns=(), no_patterns=()):
    ps = []
    for p in patterns:
        if not isinstance(p, z3.PatternRef):
            p = z3.MultiPattern(p)
        _KEEP[id(p)] = p
        ps.append(p)
    q = _forall(vs, body, weight, qid, skid, ps, no_patterns)
    _KEEP[id(q)] = q
    return q


z3.ForAll = _kept_forall


class Unsupported(Exception):
    """A construct outside the verified subset: undecided, never a pass and never a violation."""


class NaNT:
    def __repr__(self):
        return "nan"


NAN = NaNT()


class Poison:
    def __init__(self, why):
        self.why = why

    def exc(self, name):
        return Unsupported(f"read of {name}: {self.why}")

    def __repr__(self):
        return f"Poison({self.why})"


class SStr:
    """A symbolic string.  t: Real code (an order embedding of strings); pieces: flat concatenation."""

    __slots__ = ("t", "pieces")

    def __init__(self, t, pieces=None):
        self.t = t
        self.pieces = pieces

    def __repr__(self):
        return f"SStr({self.t})"


class LazyStr:
    """A string nobody has looked at yet (messages)."""

    def __init__(self, pieces):
        self.pieces = pieces  # list of str | values

    def __repr__(self):
        return f"LazyStr({self.pieces})"


class PV:
    """pyqubo.Spin / pyqubo.Binary: immutable, equal iff same class and same label."""

    def __init__(self, label, spin):
        self.label = label
        self.spin = spin  # python bool or BoolRef

    def __repr__(self):
        return f"PV({self.label},{self.spin})"


class Opaque:
    """An arbitrary Python value about which nothing is known but identity/equality."""

    def __init__(self, t, tag="any"):
        self.t = t
        self.tag = tag

    def __repr__(self):
        return f"Opaque({self.t})"


class Struct:
    """A library value with named immutable parts (e.g. a BQM)."""

    def __init__(self, kind, **parts):
        self.kind = kind
        self.parts = parts

    def __getitem__(self, k):
        return self.parts[k]

    def __repr__(self):
        return f"Struct({self.kind},{list(self.parts)})"


class GU:
    """Guarded union: alternatives with mutually exclusive guards."""

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return f"GU({self.alts})"


class Ref:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return f"Ref({self.id})"


class VRef:
    """The container stored in dict `d` at (symbolic) key `key`."""

    __slots__ = ("d", "key")

    def __init__(self, d, key):
        self.d = d
        self.key = key

    def __repr__(self):
        return f"VRef({self.d},{self.key})"


class Frozen:
    """A container by value (read only)."""

    def __init__(self, rec):
        self.rec = rec

    def __repr__(self):
        return f"Frozen({self.rec})"


class PosVal:
    """A position in a list made of parts: part number and the part's variables."""

    def __init__(self, part, vars):
        self.part = part
        self.vars = tuple(vars)

    def __repr__(self):
        return f"PosVal({self.part},{self.vars})"


# ---------------------------------------------------------------- records


class Dom:
    """A domain of loop variables: sorts, predicate; ordered domains are 0..size-1 in that order."""

    def __init__(self, sorts, pred, size=None, ordered=False, mono=False, inter=False):
        self.inter = inter  # interleaved with other parts of its list: positions are not known
        self.mono = mono  # iteration order is the order of the single Int variable
        self.sorts = tuple(sorts)
        self.pred = pred
        self.size = size
        self.ordered = ordered
        self._key = None

    @property
    def key(self):
        if self._key is None:
            vs = [z3.Const(f"dk~{i}~{s}", s) for i, s in enumerate(self.sorts)]
            self._key = (tuple(str(s) for s in self.sorts), z3.simplify(zb(self.pred(vs))).sexpr(), self.ordered)
        return self._key


class Part:
    mem = None  # membership, where it is known otherwise

    def __init__(self, dom, elem):
        self.dom = dom  # None: a single element
        self.elem = elem  # closure: list of variable terms -> value

    def __repr__(self):
        return f"Part({'1' if self.dom is None else self.dom.key})"


class LRec:
    def __init__(self, parts, kind="list", seqkey=None):
        self.parts = tuple(parts)
        self.kind = kind
        self.seqkey = seqkey

    def __repr__(self):
        return f"LRec{self.parts}"


class Shape:
    """How a key/element of an abstract map/set is encoded by z3 variables."""

    def __init__(self, name, sorts, mk, of):
        self.name, self.sorts, self.mk, self.of = name, tuple(sorts), mk, of


class AbsMap:
    def __init__(self, shape, has, get, size=None, seq=None):
        self.seq = seq  # not None: the keys are 0..seq-1, inserted in that order; (n, key): the keys are key(0), ..., key(n-1) in that order
        self.shape = shape
        self.has = has  # list of key terms -> BoolRef
        self.get = get  # list of key terms -> value
        self.size = size


class MRec:
    def __init__(self, items=None, amap=None, kind="dict"):
        self.items = dict(items or {})
        self.amap = amap
        self.kind = kind

    def __repr__(self):
        return f"MRec({list(self.items)},{'abs' if self.amap else ''})"


class SRec:
    """items: concrete elements (values); has: abstract members by shape."""

    def __init__(self, items=(), shape=None, has=None, size=None):
        self.items = tuple(items)
        self.shape = shape
        self.has = has
        self.size = size


class ORec:
    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = dict(fields)

    def __repr__(self):
        return f"ORec({getattr(self.cls, 'name', self.cls)})"


# ---------------------------------------------------------------- helpers


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return (isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)) or (is_z3(v) and z3.is_arith(v))


def is_strv(v):
    return isinstance(v, (str, SStr, LazyStr))


def frac(v):
    if isinstance(v, float):
        return Fraction(repr(v)) if v == v and v not in (float("inf"), float("-inf")) else None
    return Fraction(v)


def real(v):
    """z3 Real term of a number."""
    if is_z3(v):
        if z3.is_bool(v):
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        if v.sort() == IntS:
            return z3.ToReal(v)
        return v
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, (int, Fraction)):
        return z3.RealVal(str(Fraction(v)))
    if isinstance(v, float):
        f = frac(v)
        if f is None:
            raise Unsupported("infinite float")
        return z3.RealVal(str(f))
    raise Unsupported(f"real() of {v!r}")


def num_term(v):
    if is_z3(v):
        return v
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    return real(v)


_lit_cache = {}
_BASE = 1114113


def str_code(s):
    """Exact order embedding of concrete strings into the rationals (0,1]."""
    if s not in _lit_cache:
        v, d = Fraction(0), Fraction(1)
        for ch in s:
            d /= _BASE
            v += (ord(ch) + 1) * d
        _lit_cache[s] = v
    return z3.RealVal(str(_lit_cache[s]))


CAT = z3.Function("cat", RealS, RealS, RealS)
CANL = z3.Function("cancel_right_part", RealS, RealS, RealS)
CANR = z3.Function("cancel_left_part", RealS, RealS, RealS)
STAR = z3.Function("has_star", RealS, BoolS)
SPL = z3.Function("split_star_left", RealS, RealS)
SPR = z3.Function("split_star_right", RealS, RealS)
STRNUM = z3.Function("str_of_number", RealS, RealS)
NUMSTR = z3.Function("number_of_str", RealS, RealS)
STRU = z3.Function("str_of_object", U, RealS)


def string_axioms():
    a, b = z3.Reals("sa sb")
    star = str_code("*")
    ca = CAT(a, b)
    cs = CAT(CAT(a, star), b)
    return [
        z3.ForAll([a, b], z3.And(CANL(ca, b) == a, CANR(ca, a) == b, STAR(ca) == z3.Or(STAR(a), STAR(b)), (ca == str_code("")) == z3.And(a == str_code(""), b == str_code(""))), patterns=[ca]),
        z3.ForAll([a, b], z3.And(z3.Implies(z3.Not(STAR(a)), SPL(cs) == a), z3.Implies(z3.Not(STAR(b)), SPR(cs) == b)), patterns=[cs]),
        z3.ForAll([a], z3.And(NUMSTR(STRNUM(a)) == a, z3.Not(STAR(STRNUM(a)))), patterns=[STRNUM(a)]),
        STAR(star),
    ]


def piece_term(p, ctx=None):
    if isinstance(p, str):
        t = str_code(p)
        if ctx is not None:
            ctx.note_literal(p, t)
        return t
    if isinstance(p, SStr):
        return p.t
    if isinstance(p, LazyStr):
        return str_term(p, ctx)
    if isinstance(p, bool) or p is None:
        return str_code(str(p))
    if is_num(p):
        if isinstance(p, int):
            return str_code(str(p))
        return STRNUM(real(p))
    if isinstance(p, Opaque):
        return STRU(p.t)
    raise Unsupported(f"string of {p!r}")


def flat_pieces(v):
    if isinstance(v, str):
        return [v] if v else []
    if isinstance(v, SStr):
        return list(v.pieces) if v.pieces else [v]
    if isinstance(v, LazyStr):
        out = []
        for p in v.pieces:
            out += flat_pieces(p) if is_strv(p) else [p]
        return out
    return [v]


def merge_pieces(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return out


def str_term(v, ctx=None):
    if isinstance(v, str):
        return piece_term(v, ctx)
    if isinstance(v, SStr):
        return v.t
    if isinstance(v, LazyStr):
        ps = merge_pieces(flat_pieces(v))
        if not ps:
            return str_code("")
        t = piece_term(ps[0], ctx)
        for p in ps[1:]:
            t = CAT(t, piece_term(p, ctx))
        return t
    raise Unsupported(f"str_term {v!r}")


def to_sstr(v, ctx=None):
    if isinstance(v, (str, SStr)):
        return v
    ps = merge_pieces(flat_pieces(v))
    if all(isinstance(p, str) for p in ps):
        return "".join(ps)
    return SStr(str_term(v, ctx), ps)


def simp(b):
    """BoolRef -> python bool when trivially so."""
    if isinstance(b, bool):
        return b
    s = z3.simplify(b)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def band(*xs):
    ys = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def bor(*xs):
    ys = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def bnot(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def bimp(a, b):
    return bor(bnot(a), b)


def vmap(v, f):
    """Apply f to every z3 term inside a value."""
    if is_z3(v):
        return f(v)
    if isinstance(v, SStr):
        return SStr(f(v.t), [vmap(p, f) for p in v.pieces] if v.pieces else None) if not (v.pieces and len(v.pieces) == 1 and v.pieces[0] is v) else SStr(f(v.t))
    if isinstance(v, LazyStr):
        return LazyStr([vmap(p, f) for p in v.pieces])
    if isinstance(v, PV):
        return PV(vmap(v.label, f), vmap(v.spin, f))
    if isinstance(v, Opaque):
        return Opaque(f(v.t), v.tag)
    if isinstance(v, tuple):
        return tuple(vmap(x, f) for x in v)
    if isinstance(v, GU):
        return GU([(vmap(c, f) if is_z3(c) else c, vmap(x, f)) for c, x in v.alts])
    if isinstance(v, PosVal):
        return PosVal(v.part, [vmap(x, f) for x in v.vars])
    if isinstance(v, VRef):
        return VRef(v.d, vmap(v.key, f))
    if isinstance(v, Frozen):
        return Frozen(rmap(v.rec, f))
    if isinstance(v, Struct):
        return Struct(v.kind, **{k: vmap(x, f) for k, x in v.parts.items()})
    if isinstance(v, (LRec, MRec, SRec)):
        return rmap(v, f)
    return v


def rmap(r, f):
    if isinstance(r, LRec):
        return LRec([Part(None if p.dom is None else dmap(p.dom, f), (lambda vs, p=p: vmap(p.elem(vs), f))) for p in r.parts], r.kind)
    if isinstance(r, MRec):
        am = r.amap
        if am is not None:
            am = AbsMap(am.shape, (lambda k, a=am: vmap(a.has(k), f)), (lambda k, a=am: vmap(a.get(k), f)), None if am.size is None else vmap(am.size, f))
        return MRec({k: vmap(x, f) for k, x in r.items.items()}, am, r.kind)
    if isinstance(r, SRec):
        return SRec([vmap(x, f) for x in r.items], r.shape, None if r.has is None else (lambda k: vmap(r.has(k), f)), None if r.size is None else vmap(r.size, f))
    raise Unsupported(f"rmap {r!r}")


_dcache = {}


def dmap(d, f):
    size = None if d.size is None else vmap(d.size, f)
    return Dom(d.sorts, (lambda vs: vmap(d.pred(vs), f)), size, d.ordered, mono=d.mono, inter=d.inter)


def subst_fn(pairs):
    pairs = [(a, b) for a, b in pairs]
    return lambda t: z3.substitute(t, *pairs)


def vsubst(v, pairs):
    if not pairs:
        return v
    return vmap(v, subst_fn(pairs))


def terms_of(v, acc=None):
    acc = [] if acc is None else acc
    vmap(v, lambda t: (acc.append(t), t)[1])
    return acc


STRUCT_ITE = {}


def ite(c, a, b):
    """Merge two values under a condition."""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool) and a == b:
        return a
    if (isinstance(a, bool) or (is_z3(a) and z3.is_bool(a))) and (isinstance(b, bool) or (is_z3(b) and z3.is_bool(b))):
        return z3.If(c, zb(a), zb(b))
    if is_num(a) and is_num(b):
        if not is_z3(a) and not is_z3(b) and type(a) is type(b) and a == b:
            return a
        ta, tb = num_term(a), num_term(b)
        if ta.sort() != tb.sort():
            ta, tb = real(ta), real(tb)
        if ta.eq(tb):
            return a
        return z3.If(c, ta, tb)
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, SStr) and isinstance(b, SStr):
        if a.t.eq(b.t):
            return a
        return SStr(z3.If(c, a.t, b.t))
    if is_strv(a) and is_strv(b):
        try:
            ta, tb = str_term(a), str_term(b)
            if ta.eq(tb):
                return a
            if not isinstance(a, str) and not isinstance(b, str):
                return SStr(z3.If(c, ta, tb))
        except Unsupported:
            pass
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return Opaque(z3.If(c, a.t, b.t), a.tag)
    if isinstance(a, PV) and isinstance(b, PV):
        return PV(ite(c, a.label, b.label), ite(c, a.spin, b.spin))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Struct) and isinstance(b, Struct) and a.kind == b.kind and a.kind in STRUCT_ITE:
        return STRUCT_ITE[a.kind](c, a, b)
    alts = []
    for cond, v in ((c, a), (z3.Not(c), b)):
        if isinstance(v, GU):
            alts += [(band(cond, g), x) for g, x in v.alts]
        else:
            alts.append((cond, v))
    return GU(alts)


def fmt(v, depth=0):
    return repr(v)[:200]
