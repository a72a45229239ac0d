"""Loop summarisation.

A loop over an unbounded collection is summarised by its effects: a guess is read off one arbitrary
iteration, and then *verified* to be an inductive invariant by re-running the body from the state in
which an arbitrary set V of other iterations (a prefix, for ordered collections) has already taken
effect: in that state the body must have exactly the guessed effect, whatever V is.  The state after
the loop is the one with V = the whole domain.  Nothing is unrolled (single elements of partly
concrete lists are executed one by one, completely).
"""
import ast
import z3
from .values import *
from .values import Dom, Part, LRec, MRec, SRec, ORec, AbsMap, Shape
from .engine import PyRaise, BreakX, ContinueX, ReturnX, Infeasible, Op, single
from . import lib, sums


class Carried(Unsupported):
    def __init__(self, slot):
        super().__init__(f"loop-carried {slot}")
        self.slot = slot


class EntryVal(Poison):
    """Placeholder: reading it means the value is carried over from the previous iteration."""

    def __init__(self, slot):
        super().__init__("value from a previous iteration")
        self.slot = slot

    def exc(self, name):
        return Carried(self.slot)


class PathRes:
    pass


class LastWrite(Poison):
    """A variable assigned in a loop: the value written by the last iteration that writes it (resolved when read)."""

    def __init__(self, some, ws, facts, val, entry):
        super().__init__("assigned in a loop")
        self.some, self.ws, self.facts, self.val, self.entry = some, ws, facts, val, entry

    def force(self, ctx, name):
        for f in self.facts:
            if not any(f.eq(x) for x in ctx.pc):
                ctx.assume(f)
        if self.entry is MISSING or isinstance(self.entry, Poison):
            if self.some is True or ctx.valid(self.some, to=3000):
                return self.val
            raise self.exc(name)
        return ite(self.some, self.val, self.entry)


def run_for(I, iterable, bind, body, orelse, fr, node):
    ctx = I.ctx
    it = I.res(iterable)
    src = lib.src_of(it)
    rec = lib.as_list(I, it)
    broke = False
    off = 0
    for p in rec.parts:
        at, off = off, (lib.add_nums(off, lib.part_size(I, p)) if src and len(rec.parts) > 1 else 0)
        if p.dom is None:
            try:
                bind(p.elem([]))
                body()
            except ContinueX:
                continue
            except BreakX:
                broke = True
                break
        else:
            if summarise(I, p, bind, body, node, src, at):
                broke = True
                break
    if orelse and not broke:
        orelse()


# ---------------------------------------------------------------- body exploration


def explore_body(I, st, setup, body, maxp=120, dn0=0):
    ctx = I.ctx
    dmax = max(ctx.dn, dn0)
    outer = (ctx.prefix, ctx.trace, ctx.alts, ctx.branches, I.depth, ctx.assumed)
    n0, nid0 = ctx.n, ctx.nid
    nmax, nidmax = n0, nid0
    res, todo = [], [[]]
    try:
        while todo:
            if len(res) > maxp:
                raise Unsupported("too many paths in a loop body")
            ctx.restore(st)
            ctx.n, ctx.nid, ctx.dn = n0, nid0, dn0
            ctx.prefix, ctx.trace, ctx.alts, ctx.branches, ctx.assumed = todo.pop(), [], [], [], []
            I.depth = outer[4]
            out = None
            try:
                setup()
                ctx.logs.append([])
                pre = dict(ctx.heap)
                ctx.branches, ctx.assumed = [], []
                try:
                    body()
                    out = ("normal", None)
                except ContinueX:
                    out = ("normal", None)
                except BreakX:
                    out = ("break", None)
                except PyRaise as e:
                    out = ("raise", e)
                except ReturnX as e:
                    out = ("return", e.v)
            except Infeasible:
                todo += ctx.alts
                nmax, nidmax, dmax = max(nmax, ctx.n), max(nidmax, ctx.nid), max(dmax, ctx.dn)
                continue
            except Unsupported:
                if ctx.check([]) == z3.unsat:
                    todo += ctx.alts
                    continue
                raise
            todo += ctx.alts
            if out[0] != "normal" and ctx.check([]) == z3.unsat:
                continue
            r = PathRes()
            r.out = out
            r.pre = pre
            r.guard = band(*ctx.branches)
            r.facts = list(ctx.assumed)
            r.ops = ctx.logs[-1]
            r.post = ctx.save()
            logged = {op.loc[1] for op in r.ops}
            for i, r0 in pre.items():
                if ctx.heap.get(i) is not r0 and not isinstance(r0, ORec) and i not in logged:
                    raise Unsupported("a write in a loop that is not tracked")
            r.axioms = list(ctx.axioms)
            r.lits = dict(ctx.lits)
            nmax, nidmax, dmax = max(nmax, ctx.n), max(nidmax, ctx.nid), max(dmax, ctx.dn)
            res.append(r)
    finally:
        ctx.restore(st)
        ctx.prefix, ctx.trace, ctx.alts, ctx.branches, I.depth, ctx.assumed = outer
        ctx.n, ctx.nid, ctx.dn = nmax, nidmax, dmax
    for r in res:
        for a in r.axioms:
            ctx.axiom(a)
        ctx.lits.update(r.lits)
    return res


def same(a, b):
    """Syntactically the same value."""
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (str, int, float, bool, Fraction)) or a is None:
        return a == b
    if isinstance(a, Ref):
        return a.id == b.id
    if isinstance(a, VRef):
        return a.d == b.d and same(a.key, b.key)
    if isinstance(a, SStr):
        return a.t.eq(b.t)
    if isinstance(a, PV):
        return same(a.label, b.label) and same(a.spin, b.spin)
    if isinstance(a, Opaque):
        return a.t.eq(b.t)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


class FoldPoison(Poison):
    """A field that a contract applied in the loop changes: not readable inside the loop."""


def diff_slots(st, post):
    """Scalar slots (locals of live frames, fields of existing objects) whose value changed, and written containers."""
    heap0, frames0 = st[0], st[1]
    heap1, frames1 = post[0], post[1]
    slots, locs = {}, set()
    env1 = {id(f): e for f, e in frames1}
    for k, (f, e0) in enumerate(frames0):
        e1 = env1.get(id(f), {})
        for n in set(e0) | set(e1):
            if n.startswith("__"):
                continue
            a, b = e0.get(n, MISSING), e1.get(n, MISSING)
            if not same(a, b):
                slots[("env", k, n)] = b
    for i, r0 in heap0.items():
        r1 = heap1.get(i)
        if r1 is r0:
            continue
        if isinstance(r0, ORec):
            for n in set(r0.fields) | set(r1.fields):
                a, b = r0.fields.get(n, MISSING), r1.fields.get(n, MISSING)
                if not same(a, b) and not isinstance(b, FoldPoison):
                    slots[("fld", i, n)] = b
        else:
            locs.add(("h", i))
    return slots, locs


class _Missing:
    def __repr__(self):
        return "missing"


MISSING = _Missing()


def get_slot(st_or_ctx, slot):
    ctx = st_or_ctx
    if slot[0] == "env":
        return ctx.frames[slot[1]].env.get(slot[2], MISSING)
    return ctx.heap[slot[1]].fields.get(slot[2], MISSING)


def set_slot(ctx, slot, v):
    if slot[0] == "env":
        if v is MISSING:
            ctx.frames[slot[1]].env.pop(slot[2], None)
        else:
            ctx.frames[slot[1]].env[slot[2]] = v
    else:
        r = ctx.heap[slot[1]]
        f = dict(r.fields)
        if v is MISSING:
            f.pop(slot[2], None)
        else:
            f[slot[2]] = v
        ctx.heap[slot[1]] = ORec(r.cls, f)


def freeze(I, v, nid0, depth=0):
    """Objects created inside one iteration escape by value (read only afterwards)."""
    ctx = I.ctx
    if isinstance(v, Ref) and v.id > nid0:
        r = ctx.heap[v.id]
        if isinstance(r, ORec):
            return Struct("objval", cls=r.cls, **{k: freeze(I, x, nid0, depth + 1) for k, x in r.fields.items()})
        return Frozen(freeze_rec(I, r, nid0))
    if isinstance(v, VRef) and v.d > nid0:
        return Frozen(ctx.rec(v))
    if isinstance(v, tuple):
        return tuple(freeze(I, x, nid0) for x in v)
    if isinstance(v, GU):
        return GU([(c, freeze(I, x, nid0)) for c, x in v.alts])
    return v


def freeze_rec(I, r, nid0):
    if isinstance(r, LRec):
        ps = []
        for p in r.parts:
            if p.dom is None:
                e = freeze(I, p.elem([]), nid0)
                ps.append(single(e))
            else:
                ps.append(p)
        return LRec(ps, r.kind)
    if isinstance(r, MRec):
        return MRec({k: freeze(I, x, nid0) for k, x in r.items.items()}, r.amap, r.kind)
    return r


# ---------------------------------------------------------------- op normalisation


def op_same_key(ctx, a, b):
    return same(a, b)


def normalise(I, r, nid0):
    """Ops of one path: only those on objects that existed before, values frozen, writes to one place merged."""
    ctx = I.ctx
    out = []
    save = ctx.heap
    ctx.heap = r.post[0]
    try:
        for op in r.ops:
            if op.loc[1] > nid0:
                continue
            a = {}
            for k, v in op.a.items():
                if k == "rec":
                    a[k] = freeze_rec(I, v, nid0)
                elif k in ("value", "key", "idx"):
                    a[k] = freeze(I, v, nid0)
                else:
                    a[k] = v
            op = Op(op.kind, op.loc, op.vars, op.guard, **a)
            merged = False
            if not op.vars:
                for i in range(len(out) - 1, -1, -1):
                    o = out[i]
                    if o.loc != op.loc:
                        continue
                    if o.vars:
                        break
                    if op.kind == o.kind and op.kind in ("mset", "lset", "vset") and same(op.a.get("key"), o.a.get("key")) and same_idx(op.a.get("idx"), o.a.get("idx")):
                        out[i] = op
                        merged = True
                    elif op.kind == "sadd" and o.kind == "sadd" and same(op.a["value"], o.a["value"]):
                        merged = True
                    elif op.kind == "vset" and o.kind == "vnew" and same(op.a["key"], o.a["key"]):
                        rec = set_abs(I, o.a["rec"], op.a["idx"], op.a["value"])
                        out[i] = Op("vnew", o.loc, (), o.guard, key=o.a["key"], rec=rec)
                        merged = True
                    elif op.kind == "vappend" and o.kind == "vnew" and same(op.a["key"], o.a["key"]):
                        out[i] = Op("vnew", o.loc, (), o.guard, key=o.a["key"], rec=LRec(o.a["rec"].parts + (single(op.a["value"]),), o.a["rec"].kind))
                        merged = True
                    elif op.kind == "vset" and o.kind == "vappend" and same(op.a["key"], o.a["key"]) and op.a.get("last"):
                        out[i] = Op("vappend", o.loc, (), o.guard, key=o.a["key"], value=op.a["value"])
                        merged = True
                    else:
                        continue
                    break
            if not merged:
                out.append(op)
    finally:
        ctx.heap = save
    return out


def same_idx(a, b):
    if a is None and b is None:
        return True
    if isinstance(a, PosVal) and isinstance(b, PosVal):
        return a.part == b.part and len(a.vars) == len(b.vars) and all(x.eq(y) for x, y in zip(a.vars, b.vars))
    return same(a, b)


def set_abs(I, rec, idx, v):
    new, _ = lib.set_list_nofork(I, rec, idx, v)
    return new


# ---------------------------------------------------------------- bulk application


def op_terms(op):
    acc = []
    for k, v in op.a.items():
        if k in ("value", "key", "idx", "delta"):
            terms_of(v, acc)
    if is_z3(op.guard):
        acc.append(op.guard)
    return acc


def apply_ops(I, ops, loop, V):
    """Write the effect of the iterations in V (a predicate over the loop variables) into the state.

    ops: list of Op whose vars start with the loop variables.  V: closure (list of loop variable terms) -> bool term;
    loop.full tells that V is the whole domain (or the prefix of an ordered one)."""
    ctx = I.ctx
    byloc = {}
    order = []
    for op in ops:
        if op.loc not in byloc:
            byloc[op.loc] = []
            order.append(op.loc)
        byloc[op.loc].append(op)
    for loc in order:
        group = byloc[loc]
        # appends after writes: writes refer to the entry positions
        rank = {"vnew": 0, "mset": 0, "macc": 0, "vset": 1, "lset": 1}
        for op in sorted(group, key=lambda o: rank.get(o.kind, 2)):
            apply_one(I, op, loop, V, group)


def inst(op, name, vs):
    return vsubst(op.a[name], list(zip(op.vars, vs)))


def guard_at(op, loop, V, vs):
    g = op.guard if isinstance(op.guard, bool) else z3.substitute(op.guard, *zip(op.vars, vs))
    return band(V(vs[: len(loop.vars)]), g)


def preimage(I, op, loop, V, kappa, xs):
    """(condition that some iteration of V has kappa = xs, the iteration's variables)."""
    ctx = I.ctx
    vs = list(op.vars)
    kv = kappa(vs)
    if len(kv) == len(vs) and all(a.eq(b) for a, b in zip(kv, vs)):
        return guard_at(op, loop, V, xs), xs
    # permutation of the variables
    if len(kv) == len(vs) and sorted(a.get_id() for a in kv) == sorted(b.get_id() for b in vs):
        m = {a.get_id(): x for a, x in zip(kv, xs)}
        ws = [m[v.get_id()] for v in vs]
        return guard_at(op, loop, V, ws), ws
    if ctx.mem_preds:
        return lib.member_pred(ctx, [v.sort() for v in vs], lambda u: zb(guard_at(op, loop, V, u)), kappa, xs)
    w = lib.get_witness(ctx, [v.sort() for v in vs], lambda u: zb(guard_at(op, loop, V, u)), kappa, tag=loop.wtag)
    ws = w(xs)
    return band(guard_at(op, loop, V, ws), *[simp(a == b) for a, b in zip(kappa(ws), xs)]), ws


def key_terms(sh, k, ctx):
    t = sh.of(k)
    if t is None:
        raise Unsupported(f"key {k!r} for shape {sh.name}")
    return [str_term(k, ctx)] if is_strv(k) else t


def apply_one(I, op, loop, V, group):
    ctx = I.ctx
    i = op.loc[1]
    r = ctx.heap[i]
    k = op.kind
    if k == "fold":
        # a contract applied once per iteration to one object
        fd = ctx.folds[op.a["tag"]]
        if loop.full:
            fd.after(I, op, loop, V)
        else:
            ctx.heap[i] = ORec(r.cls, dict(r.fields, **{f: FoldPoison("changed by a contract in the loop") for f in fd.fields}))
        return
    if k == "append":
        sorts = [v.sort() for v in op.vars]
        pred = lambda vs: zb(guard_at(op, loop, V, vs))
        n_app = sum(1 for o in group if o.kind == "append")
        if loop.ordered and len(op.vars) == 1 and op.guard is True and n_app == 1:
            dom = lib.dom_int(loop.vsize)
        else:
            dom = Dom(sorts, pred, mono=(loop.ordered and len(op.vars) == 1 and n_app == 1), inter=n_app > 1)
        ctx.heap[i] = LRec(r.parts + (Part(dom, lambda vs: inst(op, "value", vs)),), r.kind)
        return
    if k == "prepend":
        if not (loop.ordered and len(op.vars) == 1 and op.guard is True and len(group) == 1):
            raise Unsupported("insertion at the front")
        n = num_term(loop.vsize)
        ctx.heap[i] = LRec((Part(lib.dom_int(loop.vsize), lambda vs: inst(op, "value", [n - 1 - vs[0]])),) + r.parts, r.kind)
        return
    if k == "sadd":
        v0 = op.a["value"]
        sh = r.shape or (lib.shape_of(r.items[0]) if r.items else lib.shape_of(v0))
        old = r.has
        items = r.items

        def has(xs):
            c, _ = preimage(I, op, loop, V, lambda u: key_terms(sh, inst(op, "value", u), ctx), xs)
            return zb(bor(False if old is None else old(xs), c))

        ctx.heap[i] = SRec(items, sh, has)
        return
    if k == "sdel":
        if any(o.kind != "sdel" for o in group):
            raise Unsupported("a set both grown and shrunk in a loop")
        sh0, has0 = lib.set_norm(I, r)
        if sh0 is None:
            return

        def has(xs):
            c, _ = preimage(I, op, loop, V, lambda u: key_terms(sh0, inst(op, "value", u), ctx), xs)
            return zb(band(has0(xs), bnot(c)))

        ctx.heap[i] = SRec((), sh0, has)
        return
    if k in ("mset", "macc", "mdel", "vnew", "vset", "vappend"):
        key0 = op.a["key"]
        hk = lib.hkey(key0)
        if hk is not None and hk in r.items:
            raise Unsupported("loop writes one fixed dictionary entry")
        sh = r.amap.shape if r.amap is not None else lib.shape_of(key0)
        am = r.amap
        has0 = am.has if am is not None else (lambda ks: False)
        get0 = am.get if am is not None else None
        cache = {}

        def pre(ks):
            kk = tuple(x.get_id() for x in ks)
            if kk not in cache:
                cache[kk] = preimage(I, op, loop, V, lambda u: key_terms(sh, inst(op, "key", u), ctx), ks) + (list(ks),)
            return cache[kk][:2]

        if k == "mset" or k == "vnew":

            def has(ks):
                return simp(zb(bor(has0(ks), pre(ks)[0])))

            def get(ks):
                c, ws = pre(ks)
                v = inst(op, "value", ws) if k == "mset" else Frozen(lib_rec_subst(op.a["rec"], list(zip(op.vars, ws))))
                return v if get0 is None else lib.mite(simp(c), v, get0(ks))

            ctx.heap[i] = MRec(r.items, AbsMap(sh, has, get), r.kind)
            return
        if k == "macc":

            def has(ks):
                return simp(zb(bor(has0(ks), pre(ks)[0])))

            def get(ks):
                base = real(0) if get0 is None else z3.If(zb(has0(ks)), real(get0(ks)), real(0))
                s = sums.mk_sum(ctx, [v.sort() for v in op.vars], lambda u: z3.If(zb(band(guard_at(op, loop, V, u), *[a == b for a, b in zip(key_terms(sh, inst(op, "key", u), ctx), ks)])), real(inst(op, "delta", u)), real(0)))
                return base + s

            ctx.heap[i] = MRec(r.items, AbsMap(sh, has, get), r.kind)
            return
        if k == "mdel":
            ctx.heap[i] = MRec(r.items, AbsMap(sh, lambda ks: simp(zb(band(has0(ks), bnot(pre(ks)[0])))), get0), r.kind)
            return
        if k == "vappend":
            kt = key_terms(sh, op.a["key"], ctx)
            ids = [v.get_id() for v in op.vars]
            direct = all(t.get_id() in ids for t in kt) and len({t.get_id() for t in kt}) == len(kt)
            rest = [v for v in op.vars if v.get_id() not in {t.get_id() for t in kt}] if direct else list(op.vars)
            if rest or not direct:
                # several iterations may append to one list: a family of appended elements

                def get(ks):
                    rec0 = get0(ks).rec

                    def full(vs):
                        m = {v.get_id(): x for v, x in zip(rest, vs)}
                        if direct:
                            m.update({t.get_id(): x for t, x in zip(kt, ks)})
                        return [m[v.get_id()] for v in op.vars]

                    def pred(vs):
                        u = full(vs)
                        return zb(band(guard_at(op, loop, V, u), *([] if direct else [a == b for a, b in zip(key_terms(sh, inst(op, "key", u), ctx), ks)])))

                    part = Part(Dom([v.sort() for v in rest], pred, mono=loop.mono and len(rest) == 1, inter=sum(1 for o in group if o.kind == "vappend") > 1), lambda vs: inst(op, "value", full(vs)))
                    return Frozen(LRec(rec0.parts + (part,), rec0.kind))

                ctx.heap[i] = MRec(r.items, AbsMap(sh, has0, get), r.kind)
                return

            def get(ks):
                c, ws = pre(ks)
                rec0 = get0(ks).rec
                el = inst(op, "value", ws)
                if loop.full and always(ctx, sh, has0, pre):
                    return Frozen(LRec(rec0.parts + (single(el),), rec0.kind))
                g = zb(simp(c))
                return Frozen(LRec(rec0.parts + (Part(Dom([], lambda vs: g), lambda vs: el),), rec0.kind))

            ctx.heap[i] = MRec(r.items, AbsMap(sh, has0, get), r.kind)
            return
        if k == "vset":

            def get(ks):
                c, ws = pre(ks)
                rec0 = get0(ks).rec
                idx = inst(op, "idx", ws)
                el = inst(op, "value", ws)
                new, _ = lib.set_list_nofork(I, rec0, idx, el, simp(c))
                return Frozen(new)

            ctx.heap[i] = MRec(r.items, AbsMap(sh, has0, get), r.kind)
            return
    if k == "lset":
        idx = op.a["idx"]
        parts = list(r.parts)
        off = 0
        done = False
        for q, p in enumerate(parts):
            n = lib.part_size(I, p) if not isinstance(idx, PosVal) else None
            if isinstance(idx, PosVal):
                if idx.part == q:
                    parts[q] = pointwise(I, p, op, loop, V, lambda u, vs: list(vsubst(idx, list(zip(op.vars, u))).vars))
                    done = True
            else:
                o = off
                if p.dom is not None and len(p.dom.sorts) == 1 and p.dom.ordered:
                    parts[q] = pointwise(I, p, op, loop, V, lambda u, vs, o=o: [lib.sub_off(num_term(inst(op, "idx", u)), o)])
                elif p.dom is not None:
                    # position through the enumeration of a filtered segment
                    sel, rank = lib.enum_fns(I, p)
                    parts[q] = pointwise(I, p, op, loop, V, lambda u, vs, o=o: sel(lib.sub_off(num_term(inst(op, "idx", u)), o)))
                else:
                    c, ws = preimage(I, op, loop, V, lambda u: [num_term(inst(op, "idx", u))], [num_term(o)])
                    if c is not False:
                        e = p.elem([])
                        parts[q] = single(ite(simp(c), inst(op, "value", ws), e))
                off = lib.add_nums(off, n)
        ctx.heap[i] = LRec(parts, r.kind)
        return
    raise Unsupported(f"loop effect {k}")


def lib_rec_subst(rec, pairs):
    return rmap(rec, subst_fn(pairs)) if pairs else rec


def always(ctx, sh, has0, pre):
    ks = [z3.Const(f"al~{i}", s) for i, s in enumerate(sh.sorts)]
    return ctx.valid(bimp(has0(ks), pre(ks)[0]), to=1500)


def pointwise(I, p, op, loop, V, kappa):
    """Part with the writes of the loop applied."""

    def elem(vs):
        c, ws = preimage(I, op, loop, V, lambda u: kappa(u, vs), list(vs)) if vs else (None, None)
        c = simp(c)
        if c is False:
            return p.elem(vs)
        return ite(c, inst(op, "value", ws), p.elem(vs))

    return Part(p.dom, elem)


# ---------------------------------------------------------------- the summary


class Loop:
    pass


_tags = {}


def summarise(I, part, bind, body, node, src=(), off=0):
    """Returns True if the loop was left by break."""
    ctx = I.ctx
    ctx.n += 1
    tag = ctx.n
    depth = len(ctx.loopvars)
    jv = [z3.Const(f"j@{depth}.{tag}.{i}", s) for i, s in enumerate(part.dom.sorts)]
    D = lambda vs: zb(part.dom.pred(vs))
    entry = ctx.save()
    nid0 = ctx.nid
    loop = Loop()
    loop.vars, loop.tag = jv, tag
    loop.dn0, loop.n0 = ctx.dn, ctx.n
    loop.ordered = part.dom.ordered
    loop.inter = part.dom.inter
    loop.mono = part.dom.mono
    ctx.loops_done.add((getattr(node, "lineno", str(node)[:20])))

    if ctx.feasible(z3.And(*[D(jv)]), to=1500) is False or ctx.check([D(jv)], 1500) == z3.unsat:
        return False

    def setup_from(prepare):
        def setup():
            prepare()
            ctx.loopvars = list(ctx.loopvars) + jv
            ctx.assume(D(jv))
            bind(part.elem(jv))

        return setup

    # discover written slots
    carried, local = {}, set()
    # first run: every local as at entry
    paths = explore_body(I, entry, setup_from(lambda: None), body, dn0=loop.dn0)
    slots, locs = {}, set()

    def scan(ps):
        new = False
        for r in ps:
            s, l = diff_slots(entry, r.post)
            for x in s:
                if x not in slots:
                    slots[x] = True
                    new = True
            for x in l:
                if x not in locs:
                    locs.add(x)
                    new = True
        return new

    scan(paths)
    rounds = 0
    guess = None
    status = "guess"
    while True:
        rounds += 1
        if rounds > 14:
            raise Unsupported("loop summary did not stabilise")
        # state with carried slots symbolic and loop-local slots unreadable
        syms = {}

        def prep_syms():
            for s in slots:
                if s in carried:
                    set_slot(ctx, s, carried[s].sym(s, tag))
                else:
                    set_slot(ctx, s, EntryVal(s))

        try:
            if guess is None:
                paths = explore_body(I, entry, setup_from(prep_syms), body, dn0=loop.dn0)
                if scan(paths):
                    continue
                guess = make_guess(I, entry, loop, paths, slots, carried, nid0, D, jv, None)
            # verify from S(V)
            ok, why, paths2 = verify_guess(I, entry, loop, guess, slots, carried, nid0, D, jv, setup_from, body, scan)
        except Carried as e:
            if isinstance(e, Carried2):
                guess = None
                continue
            if e.slot not in slots:
                raise Unsupported(f"unexpected carried slot {e.slot}")
            if e.slot in carried:
                raise Unsupported(f"loop-carried {e.slot} of an unsupported kind")
            carried[e.slot] = CarriedSlot(I, entry, e.slot)
            guess = None
            continue
        if ok:
            own = lambda fs: [f for f in fs if own_symbols(f, loop.n0) or chosen_symbols(f)]
            if any(own(fs) for _, fs in guess.facts):
                # facts about symbols of the body: as established in the general state (after the iterations before);
                # the others were proved there
                keep = ctx.save()
                g2 = make_guess(I, entry, loop, paths2, slots, carried, nid0, D, jv, None)
                ctx.restore(keep)
                guess.facts = [(g, [f for f in fs if not own_symbols(f, loop.n0)]) for g, fs in guess.facts] + [(g, own(fs)) for g, fs in g2.facts]
            break
        if why == "rescan":
            guess = None
            continue
        if rounds > 6:
            raise Unsupported(f"loop summary not inductive: {why}")
        # refine: read the guess off the general state
        for s in carried.values():
            s.refine()
        guess = make_guess(I, entry, loop, paths2, slots, carried, nid0, D, jv, why)
    check_ops(I, entry, guess, D, jv)
    # the collection iterated over may only be changed at the element of the iteration itself
    for op in guess.ops:
        if op.loc[1] in src:
            ks = [] if op.kind not in ("mset", "vset", "vnew", "lset") else (terms_of(op.a["key"]) if "key" in op.a else terms_of(op.a["idx"]))
            here = list(jv)
            if op.kind == "lset" and loop.ordered:
                here = [jv[0] + num_term(off)]
            if len(ks) != len(jv) or not all(a.eq(b) or a.sort() == b.sort() and z3.is_true(z3.simplify(a == b)) for a, b in zip(ks, here)):
                raise Unsupported("loop changes the collection it iterates over")
    return finish(I, entry, loop, guess, slots, carried, nid0, D, jv, part, bind, body)


WRITES = ("mset", "vnew", "vset", "lset", "mdel", "vappend", "macc")


def place(I, op):
    """(key terms, position terms) of the place a write addresses."""
    ks, ps = [], []
    if "key" in op.a:
        ks = key_terms(lib.shape_of(op.a["key"]), op.a["key"], I.ctx)
    if "idx" in op.a:
        x = op.a["idx"]
        ps = [z3.IntVal(x.part)] + list(x.vars) if isinstance(x, PosVal) else [num_term(x)]
    return ks, ps


def check_ops(I, entry, guess, D, jv):
    """The effects are applied in bulk, one after the other: that is exact only if no two iterations (or two effects)
    write different values to one place."""
    ctx = I.ctx
    n = len(jv)
    byloc = {}
    for op in guess.ops:
        byloc.setdefault(op.loc, []).append(op)
    for loc, group in byloc.items():
        rec = entry[0].get(loc[1])
        for i, a in enumerate(group):
            if a.kind in ("append", "sadd", "sdel") or a.kind not in WRITES:
                if a.kind == "append" and any(b.kind == "lset" for b in group):
                    for b in group:
                        if b.kind == "lset" and not old_position(I, rec, b, D, jv):
                            raise Unsupported("a loop writes to positions it has appended")
                continue
            for b in group[i:]:
                if b.kind not in WRITES or (a.kind == "macc" and b.kind == "macc") or (a.kind == "mdel" and b.kind == "mdel"):
                    continue
                if a is b and a.kind == "vappend":
                    continue  # appended as a family of elements
                if {a.kind, b.kind} == {"vset", "vappend"}:
                    v = a if a.kind == "vset" else b
                    if old_column(I, rec, v, D, jv):
                        continue
                b2 = rename(b, "'")
                ka, pa = place(I, a)
                kb, pb = place(I, b2)
                hyp = [D(list(a.vars[:n])), D(list(b2.vars[:n])), zb(a.guard), zb(b2.guard)]
                if len(ka) != len(kb) or any(x.sort() != y.sort() for x, y in zip(ka, kb)):
                    continue  # keys of different kinds differ
                hyp += [x == y for x, y in zip(ka, kb)]
                if len(pa) == len(pb) and a.kind == b.kind:
                    hyp += [x == y for x, y in zip(pa, pb)]
                goal = z3.And(*[x == y for x, y in zip(a.vars, b2.vars)]) if a is b else z3.BoolVal(False)
                if {a.kind, b.kind} == {"vnew", "vset"} and a.kind == "vnew" and len(a.vars) == len(b2.vars) == n:
                    goal = z3.And(*[x == y for x, y in zip(a.vars, b2.vars)])  # in one iteration, created and then written
                if a is b and not a.vars:
                    continue
                if ctx.valid(goal, extra=hyp, to=3000):
                    continue
                if a.kind == b.kind and "value" in a.a and "value" in b2.a:
                    try:
                        sv = lib.veq(I, a.a["value"], b2.a["value"], True)
                    except Unsupported:
                        sv = False
                    if ctx.valid(zb(bor(goal, sv)), extra=hyp, to=3000):
                        continue
                if a.kind == b.kind == "mdel":
                    continue
                raise Unsupported(f"iterations may write to the same place ({a.kind}, {b.kind})")


def old_position(I, rec, op, D, jv):
    """A list write addresses a position that existed before the loop."""
    x = op.a["idx"]
    if isinstance(x, PosVal):
        return x.part < len(rec.parts)
    t = num_term(x)
    m = num_term(lib.list_len(I, rec))
    return I.ctx.valid(z3.And(t >= 0, t < m), extra=[D(list(op.vars[: len(jv)])), zb(op.guard)], to=3000)


def old_column(I, rec, op, D, jv):
    if rec is None or rec.amap is None:
        return False
    k = key_terms(rec.amap.shape, op.a["key"], I.ctx)
    v = rec.amap.get(k)
    if not isinstance(v, Frozen):
        return False
    return old_position(I, v.rec, op, D, jv)


class CarriedSlot:
    """A scalar that flows from one iteration to the next."""

    def __init__(self, I, entry, slot):
        ctx = I.ctx
        self.slot = slot
        self.base = get_slot(ctx, slot)
        self.mode = "add"
        b = self.base
        if isinstance(b, bool) or (is_z3(b) and z3.is_bool(b)):
            self.kind = "bool"
        elif isinstance(b, int) or (is_z3(b) and b.sort() == IntS):
            self.kind = "int"
        elif is_num(b):
            self.kind = "real"
        elif b is None or isinstance(b, (str, SStr)):
            self.kind = "const"
        elif isinstance(b, Ref) and isinstance(ctx.heap.get(b.id), (LRec, SRec, MRec)):
            self.kind = "cont"
        else:
            raise Unsupported(f"loop-carried {slot} = {b!r}")
        self.delta = None
        self.used = False
        self.widen = 0

    def sym(self, slot, tag):
        n = f"c@{tag}.{slot[2]}.{slot[1]}"
        if self.kind == "int":
            self.s = z3.Const(n, IntS)
        elif self.kind == "real":
            self.s = z3.Const(n, RealS)
        elif self.kind == "bool":
            self.s = z3.Const(n, BoolS)
        else:
            raise Unsupported(f"loop-carried {slot} = {self.base!r}")
        return self.s

    def refine(self):
        self.widen += 1


def mentions(t, cs):
    ids = {c.get_id() for c in cs if z3.is_const(c)}
    if ids and lib.consts_in(t) & ids:
        return True
    return any(lib.contains_term(t, c) for c in cs if not z3.is_const(c))


class Guess:
    pass


def simp_guard(ctx, g):
    return simp(g) if not isinstance(g, bool) else g


def conjuncts(g):
    if is_z3(g) and z3.is_and(g):
        return [x for c in g.children() for x in conjuncts(c)]
    return [g]


def join_guards(ctx, gs, extra):
    """The disjunction of path conditions; their common part when the rest covers every case."""
    if any(g is True for g in gs):
        return True
    gs = [z3.simplify(g) for g in gs if g is not False]
    cs = [{c.get_id(): c for c in conjuncts(g)} for g in gs]
    common = [c for k, c in cs[0].items() if all(k in d for d in cs[1:])]
    whole = bor(*gs)
    if ctx.valid(z3.Implies(zb(band(*common)), whole), extra=extra, to=2500):
        return simp_guard(ctx, band(*common))
    return simp_guard(ctx, whole)


def make_guess(I, entry, loop, paths, slots, carried, nid0, D, jv, why):
    """Effects per iteration, read off the given paths."""
    ctx = I.ctx
    g = Guess()
    g.paths = paths
    g.ops = []
    g.exits = []
    g.facts = []
    # the state the paths start from: symbolic carried values at first, the previous guess's prefix values when refining
    for c in carried.values():
        refining = why is not None and c.kind in ("int", "real")
        c.cur = c.pre if refining else getattr(c, "s", None)
        c.atom = c.rel if refining else c.cur  # the opaque part of the value carried in
    csyms = [c.atom for c in carried.values() if c.atom is not None]
    # scalar deltas
    norm = [r for r in paths if r.out[0] == "normal"]
    for s, c in carried.items():
        c.deltas = []
        for r in norm:
            new = slot_value(entry, r.post, s)
            if c.kind in ("int", "real"):
                if new is MISSING or not is_num(new):
                    raise Unsupported(f"loop-carried {s} becomes {new!r}")
                t = num_term(new)
                if c.kind == "int" and t.sort() != IntS:
                    c.kind = "real"
                    raise Carried2(s)
                d = z3.simplify((t if c.kind == "int" else real(t)) - c.cur)
                if mentions(d, csyms):
                    d2 = z3.simplify(d, som=True)
                    d = d2
                if mentions(d, [c.atom]) or c.mode == "mul":
                    m = z3.simplify(z3.substitute(t, (c.cur, z3.IntVal(1) if c.kind == "int" else z3.RealVal(1))))
                    if mentions(m, csyms) or not ctx.valid(num_eq(t, c.cur * m), to=2500):
                        raise Unsupported(f"loop-carried {s} is neither additive nor multiplicative")
                    if not ctx.valid(m > 0, extra=[D(jv), zb(r.guard)], to=2500):
                        raise Unsupported(f"loop-carried {s}: a factor may not be positive")
                    c.mode = "mul"
                    d = m
                c.deltas.append((r.guard, d))
            elif c.kind == "bool":
                if new is MISSING:
                    raise Unsupported("unbound")
                c.deltas.append((r.guard, zb(new) if not is_z3(new) else new))
    for s, c in carried.items():
        if c.mode == "mul":
            # a path that leaves it alone was read off as "plus 0" before the factor was seen
            c.deltas = [(gd, z3.IntVal(1) if (z3.is_int_value(d) or z3.is_rational_value(d)) and str(d) in ('0', '0.0') else d) for gd, d in c.deltas]
            if c.kind == "real":
                c.deltas = [(gd, real(d)) for gd, d in c.deltas]
    g.slotw = {}
    for s in slots:
        if s not in carried:
            w = []
            for r in norm:
                v = slot_value(entry, r.post, s)
                if isinstance(v, EntryVal):
                    continue
                if v is MISSING or isinstance(v, Poison):
                    w = None
                    break
                h = ctx.heap
                ctx.heap = r.post[0]
                try:
                    w.append((r.guard, freeze(I, v, nid0)))
                except Unsupported:
                    w = None
                    break
                finally:
                    ctx.heap = h
            if w:
                g.slotw[s] = w
    # prefix functions for carried counters used in guards or effects
    subs = []
    for s, c in carried.items():
        if c.kind in ("int", "real"):
            old = c.atom
            c.pre = prefix_fn(I, loop, c, D, jv, csyms, s)
            subs.append((old, c.pre if old is c.cur else c.rel))
        elif c.kind == "bool":
            c.pre = None
            for gd, nv in c.deltas:
                nv = z3.simplify(nv)
                if not (nv.eq(c.s) or z3.is_true(nv) or z3.is_false(nv)):
                    raise Unsupported(f"loop-carried flag {s}")
    g.subs = subs
    if subs:
        f = subst_fn(subs)
        g.slotw = {s: [(vmap(gd, f) if is_z3(gd) else gd, vmap(v, f)) for gd, v in w] for s, w in g.slotw.items()}
    groups = {}
    for r in paths:
        gd = r.guard
        if r.out[0] == "normal" or r.out[0] == "break":
            ops = normalise(I, r, nid0)
            for op in ops:
                gg = band(gd, op.guard)
                gg = simp_guard(ctx, gg)
                nop = Op(op.kind, op.loc, tuple(jv) + tuple(op.vars), gg, **op.a)
                if subs:
                    nop = op_subst(nop, subs)
                if r.out[0] == "break":
                    continue
                groups.setdefault(op.loc, []).append((nop, r))
        if r.out[0] != "normal":
            ge = gd if isinstance(gd, bool) or not subs else z3.substitute(gd, *subs)
            g.exits.append((ge, r.out))
        if r.facts:
            fs = [z3.substitute(f, *subs) if subs else f for f in r.facts]
            gf = gd if isinstance(gd, bool) or not subs else z3.substitute(gd, *subs)
            g.facts.append((gf, fs))
    # merge equal ops of different paths, choose accumulation where keys may repeat
    for loc, lst in groups.items():
        merged = []
        seen = {}
        for op, r in lst:
            nth = seen[id(r)] = seen.get(id(r), -1) + (op.kind in ("append", "vappend"))
            for m in merged:
                if m.kind in ("append", "vappend") and m.nth != nth:
                    continue  # only the n-th append of each path is the same element
                if m.kind == op.kind and len(m.vars) == len(op.vars) and [v.sort() for v in m.vars] == [v.sort() for v in op.vars]:
                    o2 = op_subst(op, list(zip(op.vars[len(jv):], m.vars[len(jv):])), True)
                    if same_op_data(m, o2):
                        m.guard = simp_guard(ctx, bor(m.guard, o2.guard))
                        m.gs.append(o2.guard)
                        break
                    mm = merge_ite(m, o2)
                    if mm is not None:
                        m.a = mm.a
                        m.guard = simp_guard(ctx, mm.guard)
                        m.gs.append(o2.guard)
                        break
            else:
                merged.append(Op(op.kind, op.loc, op.vars, op.guard, **op.a))
                merged[-1].nth = nth
                merged[-1].gs = [op.guard]
        for m in merged:
            if len(m.gs) > 2:
                m.guard = join_guards(ctx, m.gs, [D(jv)])
            if m.kind == "mset" and is_num(m.a["value"]) and not injective(I, m, D, jv):
                m = to_acc(I, m, entry, paths, carried)
            if m.guard is not True and not any(v.get_id() not in {x.get_id() for x in jv} for v in m.vars):
                # (iterations that leave the loop apply no effects of this kind: see finish)
                if ctx.valid(m.guard, extra=[D(jv)] + [z3.Not(zb(e)) for e, _ in g.exits], to=1500):
                    m.guard = True
            g.ops.append(m)
    return g


class Carried2(Carried):
    pass


def slot_value(entry, post, slot):
    if slot[0] == "env":
        f = entry[1][slot[1]][0]
        for ff, e in post[1]:
            if ff is f:
                return e.get(slot[2], MISSING)
        return MISSING
    return post[0][slot[1]].fields.get(slot[2], MISSING)


def op_subst(op, pairs, with_vars=False):
    if not pairs:
        return op
    a = {}
    for k, v in op.a.items():
        if k in ("value", "key", "idx", "delta"):
            a[k] = vsubst(v, pairs)
        elif k == "rec":
            a[k] = rmap(v, subst_fn(pairs))
        else:
            a[k] = v
    vs = op.vars
    if with_vars:
        m = {x.get_id(): y for x, y in pairs}
        vs = tuple(m.get(v.get_id(), v) for v in vs)
    return Op(op.kind, op.loc, vs, op.guard if isinstance(op.guard, bool) else z3.substitute(op.guard, *pairs), **a)


def same_op_data(m, o):
    if set(m.a) != set(o.a):
        return False
    for k in m.a:
        if k in ("value", "key", "delta"):
            if not same(m.a[k], o.a[k]):
                return False
        elif k == "idx":
            if not same_idx(m.a[k], o.a[k]):
                return False
        elif k == "rec":
            if m.a[k] is not o.a[k]:
                return False
    return True


def merge_ite(m, o):
    """Two paths writing different values to the same place."""
    if m.kind not in ("mset", "lset", "vset", "append", "vappend"):
        return None
    if "key" in m.a and not same(m.a["key"], o.a["key"]):
        return None
    if "idx" in m.a and not same_idx(m.a["idx"], o.a["idx"]):
        return None
    if isinstance(m.guard, bool) or isinstance(o.guard, bool):
        return None
    if m.kind in ("append", "vappend") and len(m.vars) == 0:
        return None
    a = dict(m.a)
    a["value"] = ite(m.guard, m.a["value"], o.a["value"])
    return Op(m.kind, m.loc, m.vars, bor(m.guard, o.guard), **a)


def rename(op, suffix):
    vs = [z3.Const(str(v) + suffix, v.sort()) for v in op.vars]
    return op_subst(op, list(zip(op.vars, vs)), True)


def injective(I, op, D, jv):
    """Different iterations write different keys, or the same value."""
    ctx = I.ctx
    k = op.a["key"]
    sh = lib.shape_of(k)
    ks = key_terms(sh, k, ctx)
    if len(ks) == len(op.vars) and all(a.eq(b) for a, b in zip(ks, op.vars)):
        return True
    o2 = rename(op, "'")
    k2 = key_terms(sh, o2.a["key"], ctx)
    n = len(jv)
    hyp = [D(list(op.vars[:n])), D(list(o2.vars[:n])), zb(op.guard), zb(o2.guard)] + [a == b for a, b in zip(ks, k2)]
    samev = lib.veq(I, op.a["value"], o2.a["value"], True)
    goal = bor(z3.And(*[a == b for a, b in zip(op.vars, o2.vars)]), samev)
    return ctx.valid(goal, extra=hyp, to=2500)


def to_acc(I, op, entry, paths, carried):
    """Accumulating dictionary write: the new value minus the old view is the iteration's contribution."""
    ctx = I.ctx
    a = dict(op.a)
    r = entry[0][op.loc[1]]
    if r.items:
        raise Unsupported("accumulation into a partly concrete dict")
    k = op.a["key"]
    view = old_view(I, r, k)
    d = z3.simplify(real(op.a["value"]) - view)
    a.pop("value")
    a["delta"] = d
    return Op("macc", op.loc, op.vars, op.guard, **a)


def old_view(I, r, k):
    if r.amap is None:
        return real(0)
    t = key_terms(r.amap.shape, k, I.ctx)
    return z3.If(zb(r.amap.has(t)), real(r.amap.get(t)), real(0))


def prefix_fn(I, loop, c, D, jv, csyms, slot):
    """The value of an additive counter before iteration j."""
    ctx = I.ctx
    sort = IntS if c.kind == "int" else RealS
    ds = [z3.simplify(d) for _, d in c.deltas]
    if any(mentions(d, csyms) for d in ds):
        raise Unsupported(f"counters {slot} depend on one another")
    c.usable = True
    base = num_term(c.base) if sort == IntS else real(c.base)
    if any(not isinstance(g, bool) and mentions(g, csyms) for g, _ in c.deltas):
        c.cond_dep = True
        raise Unsupported(f"counter {slot} depends on itself through a condition")
    delta = None
    for gd, d in c.deltas:
        delta = d if delta is None else z3.If(zb(gd), d, delta)
    if c.mode == "mul":
        c.delta = z3.IntVal(1) if delta is None else delta
        c.final = z3.simplify(base * lib.product(ctx, [v.sort() for v in jv], D, lambda vs: z3.substitute(c.delta, *zip(jv, vs)), sort))
        outer = list(ctx.loopvars)
        c.version = getattr(c, "version", -1) + 1  # a later guess gets symbols of its own
        f = z3.Function(f"pre!{loop.tag}.{slot[2]}.{slot[1]}.{c.version}", *[v.sort() for v in outer + jv], sort)
        c.rel = f(*outer, *jv)
        return c.rel
    delta = z3.IntVal(0) if delta is None else delta
    if sort == RealS:
        delta = real(delta)
    c.delta = delta
    c.deltaf = lambda vs: z3.substitute(delta, *zip(jv, vs))
    c.total = sums.mk_sum(ctx, [v.sort() for v in jv], lambda vs: z3.If(D(vs), c.deltaf(vs), z3.IntVal(0) if sort == IntS else real(0)))
    c.final = z3.simplify(base + c.total)
    zo = sort == IntS and all(z3.is_int_value(d) and d.as_long() in (0, 1) for d in ds)
    # the amount added before an iteration: a symbol named by what is added (and, where the order is unknown, by the loop)
    vs = lib.canon_vars([v.sort() for v in jv], "q")
    ws = lib.canon_vars([v.sort() for v in jv], "r")
    K = z3.simplify(z3.If(D(vs), c.deltaf(vs), z3.IntVal(0) if sort == IntS else real(0)))
    own = {v.get_id() for v in vs}
    ps = [x for x in sums.bindable(ctx, [K]) if x.get_id() not in own]
    qs = [z3.Const(f"rp~{i}~{x.sort()}", x.sort()) for i, x in enumerate(ps)]
    G = lambda t: z3.substitute(t, *zip(ps, qs)) if ps else t
    key = (tuple(str(v.sort()) for v in jv), sums.acnorm(z3.simplify(G(K))), None if loop.ordered else loop.tag)
    if key not in ctx.relcache:
        ctx.relcache[key] = len(ctx.relcache)
    n = ctx.relcache[key]
    f = z3.Function(f"rel{n}", *[x.sort() for x in ps + jv], sort)
    c.rel = f(*ps, *jv)
    rel = lambda us: f(*qs, *us)
    total = G(c.total)
    DD = lambda us: G(D(us))
    dl = lambda us: G(c.deltaf(us))
    fa = lambda us, body, pats: ctx.gaxiom(z3.ForAll(qs + us, body, patterns=pats) if qs + us else body)
    P, Q = rel(vs), rel(ws)
    info = ctx.relinfo.setdefault(f"rel{n}", dict(params=len(ps), inv=None, blk=None))
    if zo:
        # every counted iteration has its own number in [0, total)
        cnt = lambda u: z3.And(DD(u), dl(u) == 1)
        inv = [z3.Function(f"relinv{n}.{i}", *[x.sort() for x in ps], IntS, v.sort()) for i, v in enumerate(jv)]
        invf = lambda t: [g(*qs, t) for g in inv]
        info["inv"] = inv
        fa(vs, z3.Implies(cnt(vs), z3.And(P >= 0, P < total, *[a == b for a, b in zip(invf(P), vs)])), [P])
        t = z3.Const("t~i", IntS)
        iv = invf(t)
        fa([t], z3.Implies(z3.And(t >= 0, t < total), z3.And(cnt(iv), rel(iv) == t)), [iv[0]])
        if not z3.is_int_value(c.total):
            ctx.gaxiom(c.total >= 0)
            if qs:
                fa([], total >= 0, [total])
        if loop.ordered and all(d.as_long() == 1 for d in ds) and all(g is True for g, _ in c.deltas):
            fa(vs, z3.Implies(DD(vs), P == vs[0]), [P])
        elif loop.ordered:
            fa(vs + ws, z3.Implies(z3.And(cnt(vs), DD(ws), vs[0] < ws[0]), P < Q), [z3.MultiPattern(P, Q)])
            fa(vs, z3.Implies(DD(vs), z3.And(P >= 0, P <= vs[0])), [P])
    elif loop.ordered and sort == IntS:
        if ctx.valid(c.delta >= 0, extra=[D(jv)], to=2000):
            # blocks: iteration q adds [rel(q), rel(q) + delta(q)), the blocks follow each other
            fa(vs, z3.Implies(DD(vs), z3.And(P >= 0, P + dl(vs) <= total)), [P])
            fa(vs + ws, z3.Implies(z3.And(DD(vs), DD(ws), vs[0] < ws[0]), P + dl(vs) <= Q), [z3.MultiPattern(P, Q)])
            blk = z3.Function(f"relblk{n}", *[x.sort() for x in ps], IntS, jv[0].sort())
            info["blk"] = blk
            t = z3.Const("t~i", IntS)
            b = [blk(*qs, t)]
            fa([t], z3.Implies(z3.And(t >= 0, t < total), z3.And(DD(b), rel(b) <= t, t < rel(b) + dl(b))), [b[0]])
        ctx.gaxiom(z3.substitute(c.rel, (jv[0], z3.IntVal(0))) == 0)
    return z3.simplify(base + c.rel)


def verify_guess(I, entry, loop, guess, slots, carried, nid0, D, jv, setup_from, body, scan):
    """Re-run the body after an arbitrary set of other iterations."""
    ctx = I.ctx
    n_keep = ctx.n
    if loop.ordered:
        V = lambda vs: z3.And(vs[0] >= 0, vs[0] < jv[0])
        loop.vsize, loop.vtag, loop.full = jv[0], "prefix", False
        vax = None
    else:
        outer = list(ctx.loopvars)
        Vf = z3.Function(f"V!{loop.tag}", *[v.sort() for v in outer + jv], BoolS)
        V = lambda vs: z3.And(Vf(*outer, *vs), D(vs))
        loop.vsize, loop.vtag, loop.full = None, "visited", False
        vax = z3.Not(Vf(*outer, *jv))
    loop.wtag = f"{loop.tag}v"

    def prepare():
        for s in slots:
            if s in carried:
                c = carried[s]
                if c.kind in ("int", "real"):
                    set_slot(ctx, s, c.pre)
                else:
                    set_slot(ctx, s, c.s)
            else:
                set_slot(ctx, s, EntryVal(s))
        if vax is not None:
            ctx.assume(vax)
        ctx.loopvars = list(ctx.loopvars) + jv
        ctx.assume(D(jv))
        apply_ops(I, guess.ops, loop, V)
        exits = [e for e, o in guess.exits]
        if exits:
            us = lib.canon_vars([v.sort() for v in jv], "x")
            ctx.assume(lib.mk_forall(us, z3.Implies(zb(V(us)), z3.Not(zb(z3.substitute(zb(bor(*exits)), *zip(jv, us)))))))
        ctx.loopvars = ctx.loopvars[: -len(jv)] if jv else ctx.loopvars

    base_state = entry
    paths = explore_body(I, base_state, setup_from(prepare), body, dn0=loop.dn0)
    # slots compared against the prepared state would show the prepared values; rescan against entry is an over-approximation
    found_new = False
    for r in paths:
        s, l = diff_slots_from(entry, r.post, slots, guess)
        for x in s:
            if x not in slots:
                slots[x] = True
                found_new = True
    if found_new:
        return False, "rescan", paths
    ok, why = compare(I, entry, loop, guess, slots, carried, nid0, D, jv, paths)
    return ok, why, paths


def diff_slots_from(entry, post, slots, guess):
    s, l = diff_slots(entry, post)
    return s, l


def compare(I, entry, loop, guess, slots, carried, nid0, D, jv, paths):
    ctx = I.ctx
    keep = ctx.save()
    outer_n = ctx.n
    try:
        for r in paths:
            ctx.restore(r.post)
            ctx.loop_before = r.pre
            # the path's own state: pc includes its branch conditions
            for gf, fs in guess.facts:
                for f in fs:
                    if not own_symbols(f, loop.n0) and not ctx.valid(z3.Implies(zb(gf), f), to=2500):
                        return False, f"a fact of the body: {f}"
            if r.out[0] == "normal":
                for s, c in carried.items():
                    new = slot_value(entry, r.post, s)
                    if c.kind in ("int", "real"):
                        if not is_num(new):
                            return False, f"{s} becomes {new!r}"
                        want = c.pre * c.delta if c.mode == "mul" else c.pre + c.delta
                        if not ctx.valid(num_eq(num_term(new), want), to=3000):
                            return False, f"increment of {s[2]}"
                    elif c.kind == "bool":
                        want = c.s
                        for gd, nv in c.deltas:
                            want = z3.If(zb(gd), nv, want)
                        if not ctx.valid(zb(new) == want if not is_z3(new) else new == want, to=3000):
                            return False, f"flag {s[2]}"
                ops = normalise(I, r, nid0)
                ok, why = match_ops(I, guess.ops, ops, jv)
                if not ok:
                    return False, why
                for s in list(guess.slotw):
                    if not same_write(I, guess.slotw[s], slot_value(entry, r.post, s), nid0):
                        del guess.slotw[s]
                for e, o in guess.exits:
                    if not ctx.valid(bnot(zb(e)), to=3000):
                        return False, "an exit condition differs"
            else:
                cand = [e for e, o in guess.exits if o[0] == r.out[0]]
                if not cand or not ctx.valid(bor(*cand), to=3000):
                    return False, f"a new way to leave the loop: {r.out}"
        return True, None
    finally:
        ctx.restore(keep)
        ctx.n = max(ctx.n, outer_n)


def own_symbols(f, n0):
    """Does the formula mention a symbol created (under a number of its own) inside the explored body?"""
    seen, todo = set(), [f]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_app(e):
            nm = e.decl().name()
            if "!" in nm:
                t = nm.split("!")[1].split(".")[0]
                if t.isdigit() and int(t) > n0:
                    return True
            todo += e.children()
    return False


def chosen_symbols(f):
    return any(z3.is_app(e) and "^" in e.decl().name() and e.num_args() for e in lib.subterms(f))


def same_write(I, w, v, nid0):
    """The value written on this path is the one the guess predicts."""
    ctx = I.ctx
    if isinstance(v, EntryVal):
        return all(ctx.valid(bnot(gd), to=2500) for gd, _ in w)
    if v is MISSING or isinstance(v, Poison):
        return False
    try:
        v = freeze(I, v, nid0)
        for gd, x in w:
            if ctx.valid(gd, to=2500):
                if same(x, v):
                    return True
                e = lib.veq(I, x, v, True)
                return e is True or (not isinstance(e, bool) and ctx.valid(e, to=2500))
    except Unsupported:
        return False
    return False


def last_write(I, loop, guess, V, s, full):
    ctx = I.ctx
    w = guess.slotw.get(s)
    if w is None or loop.inter:
        return Poison("assigned in a loop")
    jv = loop.vars
    base = get_slot(ctx, s)
    G = zb(bor(*[g for g, _ in w]))
    val = w[-1][1]
    try:
        for g, x in reversed(w[:-1]):
            if same(x, val):
                continue
            val = ite(zb(g), x, val) if not isinstance(g, bool) else (x if g else val)
    except Unsupported:
        return Poison("assigned in a loop")
    us = lib.canon_vars([v.sort() for v in jv], "f")
    ws = [ctx.det("jl", v.sort()) for v in jv]
    some = ctx.det("some", BoolS)
    Gu, Gw = z3.substitute(G, *zip(jv, us)), z3.substitute(G, *zip(jv, ws))
    last = us[0] <= ws[0] if loop.ordered else z3.BoolVal(True)
    facts = [lib.mk_forall(us, z3.Implies(z3.And(zb(V(us)), Gu), z3.And(some, last))), z3.Implies(some, z3.And(zb(V(ws)), Gw))]
    return LastWrite(some, ws, facts, vsubst(val, list(zip(jv, ws))), base)


def num_eq(a, b):
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    return a == b


def match_ops(I, gops, ops, jv):
    ctx = I.ctx
    used = set()
    nj = len(jv)
    for g in gops:
        if len(g.vars) == nj:
            inner = []
            gt = zb(g.guard)
            if ctx.valid(gt, to=2500):
                need = True
            elif ctx.valid(z3.Not(gt), to=2500):
                continue
            else:
                return False, f"guard of {g.kind} undecided: {g.guard}"
            hit = False
            for i, o in enumerate(ops):
                if i in used or o.loc != g.loc:
                    continue
                if g.kind == "append" and o.kind == "append" and o.vars:
                    break  # appends are matched in order
                if o.vars:
                    continue
                if op_equal(I, g, o):
                    used.add(i)
                    hit = True
                    break
                if g.kind == o.kind == "append":
                    break
            if not hit:
                return False, f"effect {g} not reproduced by {[o for o in ops if o.loc == g.loc]}"
        else:
            hit = False
            gi = list(g.vars[nj:])
            for i, o in enumerate(ops):
                if i in used or o.loc != g.loc or [v.sort() for v in o.vars] != [v.sort() for v in gi]:
                    continue
                o2 = op_subst(o, list(zip(o.vars, gi)), True)
                if not ctx.valid(zb(o2.guard) == zb(g.guard), to=3000):
                    continue
                if op_equal(I, g, o2, extra=[zb(g.guard)]):
                    used.add(i)
                    hit = True
                    break
            if not hit and not ctx.valid(z3.Not(zb(g.guard)), to=2500):
                return False, f"nested effect {g} not reproduced"
    for i, o in enumerate(ops):
        if i not in used:
            if o.vars and ctx.valid(z3.Not(zb(o.guard)), to=2500):
                continue
            return False, f"extra effect {o}"
    return True, None


def op_equal(I, g, o, extra=()):
    ctx = I.ctx

    def eq(a, b):
        if same(a, b):
            return True
        e = lib.veq(I, a, b, True)
        return sums.prove(ctx, e, list(extra))[0] if not isinstance(e, bool) else e

    if g.kind == "macc":
        if o.kind == "macc":
            return eq(g.a["key"], o.a["key"]) and eq(g.a["delta"], o.a["delta"])
        if o.kind != "mset" or not eq(g.a["key"], o.a["key"]):
            return False
        # value after = view before + delta; the state before this iteration's write is rebuilt from the current one
        r = ctx.heap[g.loc[1]]
        before = ctx.loop_before.get(g.loc[1])
        new = real(o.a["value"])
        if before is None:
            return False
        old = old_view(I, before, g.a["key"])
        return sums.prove(ctx, new == old + real(g.a["delta"]), list(extra))[0]
    if g.kind != o.kind:
        return False
    for k in ("key", "value", "delta"):
        if k in g.a:
            if k not in o.a:
                return False
            x, y = g.a[k], o.a[k]
            if isinstance(x, Frozen) and isinstance(y, Frozen):
                if x.rec is not y.rec and not frozen_same(I, x.rec, y.rec, extra):
                    return False
                continue
            if isinstance(x, Struct) and isinstance(y, Struct) and x is not y and x.kind not in lib.EQH:
                if not struct_same(I, x, y, extra):
                    return False
                continue
            if not eq(x, y):
                return False
    if "idx" in g.a:
        if not same_idx(g.a["idx"], o.a["idx"]):
            a, b = g.a["idx"], o.a["idx"]
            if isinstance(a, PosVal) != isinstance(b, PosVal):
                return False
            e = lib.veq(I, a, b)
            if not (e if isinstance(e, bool) else ctx.valid(e, list(extra), to=3000)):
                return False
    if "rec" in g.a:
        if not frozen_same(I, g.a["rec"], o.a["rec"], extra):
            return False
    return True


def struct_same(I, x, y, extra):
    if x.kind != y.kind or set(x.parts) != set(y.parts):
        return False
    for k in x.parts:
        a, b = x.parts[k], y.parts[k]
        if a is b or same(a, b):
            continue
        try:
            e = lib.veq(I, a, b, True)
        except Unsupported:
            return False
        if not (e if isinstance(e, bool) else I.ctx.valid(e, list(extra), to=3000)):
            return False
    return True


def frozen_same(I, a, b, extra=()):
    e = lib.rec_eq(I, a, b)
    if isinstance(e, bool):
        return e
    return sums.prove(I.ctx, e, list(extra))[0]


def finish(I, entry, loop, guess, slots, carried, nid0, D, jv, part, bind, body):
    ctx = I.ctx
    ctx.restore(entry)
    ctx.nid = max(ctx.nid, entry[8])
    exits = [(e, o) for e, o in guess.exits]
    if exits and part.dom.inter:
        raise Unsupported("leaving a loop over a list of unknown order")
    E = zb(bor(*[e for e, _ in exits])) if exits else None

    def Eat(us):
        return z3.substitute(E, *zip(jv, us))

    # the facts established by the iterations
    us = lib.canon_vars([v.sort() for v in jv], "f")

    def assume_facts(V):
        for gd, fs in guess.facts:
            for f in fs:
                b = z3.substitute(z3.Implies(zb(gd), f), *zip(jv, us))
                ctx.assume(lib.mk_forall(us, z3.Implies(zb(V(us)), b)))

    if exits:
        b = ctx.det("leaves", BoolS)
        if ctx.decide_spec(b):
            js = [ctx.det("jx", v.sort()) for v in jv]
            ctx.assume(D(js))
            ctx.assume(Eat(js))
            if loop.ordered:
                V = lambda vs: z3.And(vs[0] >= 0, vs[0] < js[0])
                loop.vsize, loop.vtag = js[0], "before"
            else:
                Vf = ctx.det_fn("VX", *[v.sort() for v in jv], BoolS)
                V = lambda vs: z3.And(Vf(*vs), D(vs), z3.Not(z3.And(*[a == c for a, c in zip(vs, js)])))
                loop.vsize, loop.vtag = None, "before"
            loop.full = False
            loop.wtag = f"{loop.tag}x"
            ctx.assume(lib.mk_forall(us, z3.Implies(zb(V(us)), z3.Not(Eat(us)))))
            if ctx.check([]) == z3.unsat:
                raise Infeasible()
            commit(I, loop, guess, V, slots, carried, js)
            assume_facts(V)
            try:
                bind(part.elem(js))
                body()
            except ContinueX:
                pass
            except BreakX:
                return True
            raise Infeasible()
        ctx.assume(lib.mk_forall(us, z3.Implies(D(us), z3.Not(Eat(us)))))
    V = D
    loop.vsize, loop.vtag, loop.full = part.dom.size, "all", True
    loop.wtag = f"{loop.tag}a"
    commit(I, loop, guess, V, slots, carried, None)
    assume_facts(V)
    return False


def commit(I, loop, guess, V, slots, carried, at):
    ctx = I.ctx
    jv = loop.vars
    full = at is None
    apply_ops(I, guess.ops, loop, V)
    for s in slots:
        if s not in carried:
            set_slot(ctx, s, last_write(I, loop, guess, V, s, full))
        else:
            c = carried[s]
            if c.kind in ("int", "real"):
                v = c.final if full else z3.substitute(c.pre, *zip(jv, at))
                set_slot(ctx, s, v)
            else:
                # true/false assigned by some iteration, else the entry value
                tr = [g for g, nv in c.deltas if z3.is_true(z3.simplify(nv))]
                fa = [g for g, nv in c.deltas if z3.is_false(z3.simplify(nv))]
                if tr and fa:
                    raise Unsupported("flag set both ways in a loop")
                us = lib.canon_vars([v.sort() for v in jv], "f")
                G = zb(bor(*(tr or fa)))
                Gu = z3.substitute(G, *zip(jv, us))
                ws = [ctx.det("jf", v.sort()) for v in jv]
                some = ctx.det("some", BoolS)
                ctx.assume(lib.mk_forall(us, z3.Implies(z3.And(zb(V(us)), Gu), some)))
                ctx.assume(z3.Implies(some, z3.And(zb(V(ws)), z3.substitute(G, *zip(jv, ws)))))
                set_slot(ctx, s, z3.If(some, z3.BoolVal(bool(tr)), zb(c.base) if isinstance(c.base, bool) else c.base))
    # tell an enclosing loop
    if ctx.logs:
        for op in guess.ops:
            g = guard_at(op, loop, V, list(op.vars))
            ctx.logs[-1].append(Op(op.kind, op.loc, op.vars, g, **op.a))


def run_while(I, st, fr):
    ctx = I.ctx
    # a loop that ends after concretely many steps is executed; otherwise it is cut by its exit condition
    for _ in range(200):
        t = lib.truthy(I, I.eval(st.test, fr))
        if not isinstance(t, bool):
            return cut_while(I, st, fr)
        if not t:
            if st.orelse:
                I.exec_block(st.orelse, fr)
            return
        try:
            I.exec_block(st.body, fr)
        except ContinueX:
            continue
        except BreakX:
            return
    raise Unsupported("while loop")


def havoc_like(ctx, name, v):
    if lib.is_strv(v):
        return SStr(ctx.det("w_" + name, RealS))
    if isinstance(v, bool) or is_z3(v) and z3.is_bool(v):
        return ctx.det("w_" + name, BoolS)
    if is_num(v):
        t = num_term(v)
        return ctx.det("w_" + name, t.sort())
    raise Unsupported(f"while loop changes {name}")


def cut_while(I, st, fr):
    """A loop that changes only local names: after it they are arbitrary values at which the condition fails
    (termination is not shown)."""
    ctx = I.ctx
    if st.orelse or any(isinstance(n, (ast.Break, ast.Return)) for b in st.body for n in ast.walk(b)):
        raise Unsupported("while loop with another exit")
    ctx.assumptions.add("while loops are left eventually (termination is not shown)")
    names = sorted({n.id for b in st.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for b in st.body for n in ast.walk(b)):
        raise Unsupported("while loop with inner scopes")
    fresh = {}
    for n in names:
        if n in fr.env:
            fresh[n] = havoc_like(ctx, n, fr.env[n])
        else:
            fresh[n] = Poison(f"{n} of a while loop")
    for n, v in fresh.items():
        fr.env[n] = v
    test = zb(lib.truthy(I, I.eval(st.test, fr)))
    if ctx.choose(2) == 0:
        # some iteration: it may raise, and it must change nothing but these names
        ctx.assume(test)
        if ctx.check([]) == z3.unsat:
            raise Infeasible()
        heap = dict(ctx.heap)
        try:
            I.exec_block(st.body, fr)
        except ContinueX:
            pass
        except PyRaise:
            if ctx.check([]) == z3.unsat:
                raise Infeasible()
            raise Unsupported("a while loop that may raise")
        if any(ctx.heap.get(i) is not r for i, r in heap.items()):
            raise Unsupported("while loop that changes objects")
        for n, v in fresh.items():
            if not isinstance(v, Poison):
                w = fr.env[n]
                if type(havoc_like(ctx, n, w)) is not type(v):
                    raise Unsupported("while loop changes the type of a name")
        raise Infeasible()
    ctx.assume(z3.Not(test))
