"""Symbolic execution of the repository's real Python source, producing verification conditions.

A specification (a Python function in /verif/specs) builds an arbitrary pre-state, calls the real
function through Interp.call and states obligations on the post-state; Explorer runs it once per
feasible path (re-execution with a decision prefix).  Loops over unbounded collections are
summarised in loops.py; nothing is unrolled to a bound.
"""
import os
import ast
import itertools
import time
import z3
from .values import *
from .values import Dom, Part, LRec, MRec, SRec, ORec, AbsMap, Shape
from .repo import Ext, Mod, Func, Cls, Repo


class PyRaise(Exception):
    def __init__(self, cls, args=(), info=None):
        self.cls = cls  # Ext or Cls
        self.pargs = args
        self.info = info

    def name(self):
        return self.cls.path.split(".")[-1] if isinstance(self.cls, Ext) else self.cls.name

    def __str__(self):
        return f"{self.name()}{self.pargs!r}"


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class Infeasible(Exception):
    """The current path condition is contradictory."""


class PathLimit(Unsupported):
    pass


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func

    def __repr__(self):
        return f"Bound({self.func})"


class BMethod:
    """A library method on a value."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class PyFn:
    """A function implemented by the engine or by a specification: fn(interp, args, kwargs)."""

    def __init__(self, fn, name="<pyfn>"):
        self.fn, self.name = fn, name


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Frame:
    def __init__(self, mod, func=None, env=None, closure=None, cls=None):
        self.mod, self.func, self.env, self.closure, self.cls = mod, func, env if env is not None else {}, closure, cls
        self.yields = None


class Op:
    def __init__(self, kind, loc, vars=(), guard=True, **a):
        self.kind, self.loc, self.vars, self.guard, self.a = kind, loc, tuple(vars), guard, a

    def __repr__(self):
        return f"Op({self.kind},{self.loc},{self.vars},{self.guard},{self.a})"


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {"z3": 0, "cvc5": 0, "sum-normaliser+z3": 0, "simplifier": 0}


_HASREC = {}


def _has_recfun(e):
    k = e.get_id()
    if k in _HASREC:
        return _HASREC[k][0]
    r = False
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_RECURSIVE:
        r = True
    else:
        r = any(_has_recfun(c) for c in e.children())
    _HASREC[k] = (r, e)
    return r


class Ctx:
    def __init__(self, repo, stats=None, timeout=6000):
        self.repo = repo
        self.stats = stats or Stats()
        self.timeout = timeout
        self.contracts = {}
        self.folds = {}
        self.verifying = set()
        self.obligs = []
        self.sumdefs = {}  # decl name -> (params, vars, kernel)
        self.sumcache = {}
        self.witcache = {}
        self.assumptions = set()
        self.functions = set()
        self.inlined = set()
        self.loops_done = set()
        self.max_paths = 400
        self.reset([])

    # ------------------------------------------------ path management
    def reset(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.alts = []
        self.branches = []
        self.assumed = []
        self.moved = set()
        self.loop_before = {}
        self.pc = []
        self.axioms = []
        self.axset = set()
        self.heap = {}
        self.nid = 0
        self.n = 0
        self.dn = 0
        self.frames = []
        self.loopvars = []
        self.logs = []
        self.lits = {}
        self.facts_from = {}
        self.poscache = {}
        self.seqidx = {}
        self.defaults = {}
        self.deftime = 0
        self.clock = []
        self.now0 = None
        self.gax = {}
        self.inverses = []
        self.relcache = {}
        self.relinfo = {}
        self.mem_preds = False
        self.enuminv = {}
        for a in string_axioms():
            self.axiom(a)

    def note_literal(self, s, t):
        if s not in self.lits:
            self.lits[s] = t
            if s != "*":
                self.axiom(STAR(t) if "*" in s else z3.Not(STAR(t)))

    def axiom(self, f):
        if isinstance(f, bool):
            assert f
            return
        k = f.get_id()
        if k not in self.axset:
            self.axset.add(k)
            self.axioms.append(f)

    def gaxiom(self, f):
        """An axiom about symbols named by position: stays for the whole path."""
        self.gax[f.sexpr()] = f

    def assume(self, c):
        c = simp(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.pc.append(c)
        self.assumed.append(c)

    def fresh_plain(self, name, sort):
        self.n += 1
        return z3.Const(f"{name}!{self.n}", sort)

    def fresh(self, name, sort):
        """An unknown value; inside loop bodies a different one per iteration."""
        if self.loopvars:
            self.n += 1
            f = z3.Function(f"{name}!{self.n}", *[v.sort() for v in self.loopvars], sort)
            return f(*self.loopvars)
        return self.fresh_plain(name, sort)

    def det(self, name, sort):
        """A fresh value named by the position in the path: the same step of a loop body gets the same name in every
        exploration of that body.  Its defining facts go through assume, never through axiom."""
        self.dn += 1
        if self.loopvars:
            f = z3.Function(f"{name}^{self.dn}", *[v.sort() for v in self.loopvars], sort)
            return f(*self.loopvars)
        return z3.Const(f"{name}^{self.dn}", sort)

    def det_fn(self, name, *sorts):
        self.dn += 1
        f = z3.Function(f"{name}^{self.dn}", *[v.sort() for v in self.loopvars], *sorts)
        lv = list(self.loopvars)
        return lambda *a: f(*lv, *a)

    def fresh_fn(self, name, *sorts):
        self.n += 1
        pre = [v.sort() for v in self.loopvars]
        f = z3.Function(f"{name}!{self.n}", *pre, *sorts)
        lv = list(self.loopvars)
        return lambda *a: f(*lv, *a)

    # ------------------------------------------------ solving
    def _solver(self, to):
        s = z3.Solver()
        s.set("timeout", to)
        s.set("smt.auto_config", False)
        s.set("smt.mbqi", False)
        s.set("smt.random_seed", 1)
        return s

    def check(self, extra, to=None, want_model=False):
        self.stats.queries += 1
        t0 = time.time()
        s = self._solver(to or self.timeout)
        for a in self.axioms:
            s.add(a)
        for a in self.gax.values():
            s.add(a)
        for a in self.pc:
            s.add(a)
        for a in extra:
            s.add(zb(a))
        r = s.check()
        self.stats.time += time.time() - t0
        if want_model:
            return r, s
        return r

    def mbqi(self, extra, to=3000):
        """Second attempt with model-based quantifier instantiation."""
        self.stats.queries += 1
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", to)
        for a in self.axioms + list(self.gax.values()) + self.pc + [zb(x) for x in extra]:
            s.add(a)
        r = s.check()
        self.stats.time += time.time() - t0
        return r == z3.unsat

    def feasible(self, c, to=2000):
        c = simp(c)
        if isinstance(c, bool):
            return c
        return self.check([c], to) != z3.unsat

    def valid(self, goal, extra=(), to=None, cvc5=False):
        goal = simp(goal)
        if goal is True:
            return True
        r, s = self.check(list(extra) + [bnot(goal)], to, want_model=True)
        self.last_by = "z3"
        if r == z3.unsat:
            return True
        if cvc5 and r == z3.unknown:
            if self._cvc5(s):
                self.last_by = "cvc5"
                return True
        return False

    def _cvc5(self, s):
        import subprocess, tempfile, os

        t0 = time.time()
        txt = "(set-logic ALL)\n" + s.to_smt2()
        fd, p = tempfile.mkstemp(suffix=".smt2")
        try:
            os.write(fd, txt.encode())
            os.close(fd)
            r = subprocess.run(["cvc5", "--tlimit=8000", "--quiet", p], capture_output=True, text=True, timeout=20)
            return r.stdout.strip().startswith("unsat")
        except Exception:
            return False
        finally:
            self.stats.time += time.time() - t0
            os.unlink(p)

    def decide(self, c):
        """Truth of c on this path, forking when both outcomes are feasible."""
        c = simp(c)
        if isinstance(c, bool):
            return c
        i = len(self.trace)
        if i < len(self.prefix):
            e = self.prefix[i]
            b = bool(e & 1)
            self.trace.append(e)
            f = c if b else simp_not(c)
            self.pc.append(f)
            if e < 2:
                self.branches.append(f)
            return b
        ft = self.feasible(c)
        ff = self.feasible(z3.Not(c)) if ft else True
        if ft and ff:
            self.alts.append(self.trace + [0])
            self.trace.append(1)
            self.pc.append(c)
            self.branches.append(c)
            return True
        b = bool(ft)
        # forced: no alternative, but keep the fact
        self.trace.append(2 + int(b))
        self.pc.append(c if b else simp_not(c))
        if not ft and not self.feasible(z3.Not(c)):
            raise Infeasible()
        return b

    def decide_spec(self, c):
        """Fork on a fresh condition without asking the solver."""
        i = len(self.trace)
        if i < len(self.prefix):
            b = bool(self.prefix[i] & 1)
            self.trace.append(self.prefix[i])
        else:
            self.alts.append(self.trace + [0])
            self.trace.append(1)
            b = True
        f = c if b else simp_not(c)
        self.pc.append(f)
        self.branches.append(f)
        return b

    def choose(self, n):
        """An n-way case split of a specification."""
        for k in range(n - 1):
            i = len(self.trace)
            if i < len(self.prefix):
                b = self.prefix[i]
                self.trace.append(b)
            else:
                self.alts.append(self.trace + [0])
                self.trace.append(1)
                b = 1
            if b:
                return k
        return n - 1

    # ------------------------------------------------ heap
    def alloc(self, rec):
        self.nid += 1
        self.heap[self.nid] = rec
        return Ref(self.nid)

    def rec(self, v):
        if isinstance(v, Ref):
            return self.heap[v.id]
        if isinstance(v, Frozen):
            return v.rec
        if isinstance(v, VRef):
            m = self.heap[v.d]
            return self.fam_list(m, v.key)
        raise Unsupported(f"not a container: {v!r}")

    def fam_list(self, m, key):
        kv = m.amap.shape.of(key)
        x = m.amap.get(kv)
        return x.rec if isinstance(x, Frozen) else x

    def log(self, op):
        if self.logs:
            self.logs[-1].append(op)

    def save(self):
        return (dict(self.heap), [(f, dict(f.env)) for f in self.frames], list(self.pc), list(self.axioms), set(self.axset), list(self.loopvars), [list(l) for l in self.logs], dict(self.lits), self.nid)

    def restore(self, s):
        heap, frames, pc, axioms, axset, lv, logs, lits, nid = s
        self.heap = dict(heap)
        self.frames = [f for f, _ in frames]
        for f, e in frames:
            f.env.clear()
            f.env.update(e)
        self.pc = list(pc)
        self.axioms = list(axioms)
        self.axset = set(axset)
        self.loopvars = list(lv)
        self.logs = [list(l) for l in logs]
        self.lits = dict(lits)

    # ------------------------------------------------ obligations
    def ensure(self, name, goal, extra=()):
        from . import sums

        if isinstance(goal, bool):
            ok, by = goal, "simplifier"
            if not ok:
                ok = self.check(list(extra)) == z3.unsat  # unreachable path?
                by = "z3"
        else:
            ok, by = sums.prove(self, goal, extra)
            if not ok and self.mbqi([bnot(goal)] + list(extra)):
                ok, by = True, "z3"
        self.record(name, ok, by, goal)
        return ok

    def record(self, name, ok, by, goal=None):
        self.obligs.append({"name": name, "ok": bool(ok), "by": by, "goal": None if ok else str(goal)[:1500], "pc": None if ok else [str(x)[:300] for x in self.pc[-30:]]})
        if ok:
            self.stats.by[by] = self.stats.by.get(by, 0) + 1


def simp_not(c):
    return z3.Not(c)


class Interp:
    def __init__(self, ctx):
        self.ctx = ctx
        from . import lib

        self.lib = lib
        self.depth = 0

    # ------------------------------------------------ names
    def lookup(self, name, fr):
        if name in fr.env:
            v = fr.env[name]
            return self.unpoison(v, name)
        c = fr.closure
        while c is not None:
            if name in c.env:
                return self.unpoison(c.env[name], name)
            c = c.closure
        r = self.ctx.repo.attr(fr.mod, name)
        if r is not None:
            return self.static_value(r)
        return self.static_value(Ext("builtins." + name))

    def static_value(self, r):
        if isinstance(r, tuple) and r[0] == "expr":
            return self.immut(self.eval(r[1], Frame(r[2])), "module-level")
        if isinstance(r, tuple) and r[0] == "item":
            return self.eval(r[1], Frame(r[3]))[r[2]]
        if isinstance(r, Ext):
            return self.lib.ext_value(self, r)
        return r

    def unpoison(self, v, name):
        if isinstance(v, Poison):
            if hasattr(v, "force"):
                return v.force(self.ctx, name)
            raise v.exc(name)
        return v

    def immut(self, v, what):
        """Values shared between calls: a mutable one may have been changed by anybody."""
        if isinstance(v, Ref):
            raise Unsupported(f"{what} mutable value")
        return v

    # ------------------------------------------------ calls
    def raise_(self, name, *args):
        raise PyRaise(Ext("builtins." + name), args)

    def res(self, v):
        """Resolve a guarded union by forking."""
        while isinstance(v, GU):
            for c, x in v.alts[:-1]:
                if self.ctx.decide(c):
                    v = x
                    break
            else:
                c, x = v.alts[-1]
                self.ctx.assume(c)
                v = x
        if isinstance(v, Poison):
            raise v.exc("value")
        return v

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        f = self.res(f)
        args = list(args)
        if isinstance(f, PyFn):
            return f.fn(self, args, kwargs)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.obj] + args, kwargs)
        if isinstance(f, BMethod):
            return self.lib.call_method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f.path, args, kwargs)
        raise Unsupported(f"call of {f!r}")

    def instantiate(self, cls, args, kwargs):
        for c in cls.mro():
            if isinstance(c, Ext) and c.path.split(".")[-1] in ("Exception", "ValueError", "TypeError", "BaseException"):
                return self.ctx.alloc(ORec(cls, {"args": tuple(args)}))
        q = cls.qual + ".__init__"
        if q in self.ctx.contracts and q not in self.ctx.verifying:
            return self.ctx.contracts[q](self, [None] + list(args), kwargs)
        obj = self.ctx.alloc(ORec(cls, {}))
        init, _ = cls.lookup("__init__")
        if init is not None:
            self.call_func(init, [obj] + list(args), kwargs)
        return obj

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_("TypeError", "too many positional arguments")
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[: len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        kwn = [x.arg for x in a.kwonlyargs]
        for n, d in zip(kwn, a.kw_defaults):
            if d is not None:
                dfl[n] = d
        star = kwargs.pop("**", None)
        for k in list(kwargs):
            if k in names or k in kwn:
                if k in env:
                    self.raise_("TypeError", "multiple values")
                env[k] = kwargs.pop(k)
        if a.kwarg is not None:
            env[a.kwarg.arg] = star if (star is not None and not kwargs) else self.ctx.alloc(MRec(kwargs))
            if star is not None and kwargs:
                raise Unsupported("mixed symbolic ** arguments")
        elif kwargs or star is not None:
            if star is not None:
                raise Unsupported("symbolic ** into fixed parameters")
            self.raise_("TypeError", f"unexpected keyword {list(kwargs)}")
        for n in names + kwn:
            if n not in env:
                if n in dfl:
                    env[n] = self.eval_default(dfl[n], f)
                else:
                    self.raise_("TypeError", f"missing argument {n}")
        return env

    def eval_default(self, node, f):
        """Defaults are evaluated once, when the function is defined, and shared by all calls."""
        k = (f.qual, ast.dump(node))
        if k in self.ctx.defaults:
            return self.ctx.defaults[k]
        fr = Frame(f.mod)
        fr.cls = f.cls
        fr.closure = f.closure
        self.ctx.deftime += 1
        try:
            v = self.eval(node, fr)
            if isinstance(v, Ref):
                v = Poison("mutable default argument")
        except Unsupported:
            # class-body names (e.g. Beam state specs) are irrelevant unless used
            v = Poison("default argument outside the subset")
        finally:
            self.ctx.deftime -= 1
        self.ctx.defaults[k] = v
        return v

    def call_func(self, f, args, kwargs):
        if f.static and args and isinstance(args[0], (Ref, Cls)) and getattr(f, "_bound_static", False):
            pass
        q = f.qual
        if q in self.ctx.contracts and q not in self.ctx.verifying:
            return self.ctx.contracts[q](self, args, kwargs)
        return self.run_body(f, args, kwargs)

    def run_body(self, f, args, kwargs):
        if f.decos and not getattr(f, "decorated", False):
            raise Unsupported("decorated function " + f.qual)
        if isinstance(f.node, ast.Lambda):
            env = self.bind_args(f, args, kwargs)
            fr = Frame(f.mod, f, env, f.closure, f.cls)
            self.ctx.frames.append(fr)
            try:
                return self.eval(f.node.body, fr)
            finally:
                if fr in self.ctx.frames:
                    self.ctx.frames.remove(fr)
        self.depth += 1
        if self.depth > 40:
            self.depth = 0
            raise Unsupported("recursion too deep to inline: " + f.qual)
        env = self.bind_args(f, args, kwargs)
        fr = Frame(f.mod, f, env, f.closure, f.cls)
        self.ctx.inlined.add(f.qual)
        gen = is_generator(f.node)
        if gen:
            fr.yields = self.ctx.alloc(LRec([]))
        self.ctx.frames.append(fr)
        try:
            self.exec_block(f.node.body, fr)
            r = None
        except ReturnX as e:
            r = e.v
        finally:
            self.depth -= 1
            if fr in self.ctx.frames:
                self.ctx.frames.remove(fr)
        if gen:
            return fr.yields
        return r

    # ------------------------------------------------ statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__} line {getattr(st, 'lineno', '?')}")
        m(st, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        import copy

        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.lib.binop(self, st.op, cur, self.eval(st.value, fr), inplace=True)
            self.assign(t, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.lib.binop(self, st.op, cur, self.eval(st.value, fr), inplace=True)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            cur = self.lib.getitem(self, o, k)
            v = self.lib.binop(self, st.op, cur, self.eval(st.value, fr), inplace=True)
            self.lib.setitem(self, o, k, v)
        else:
            raise Unsupported("augassign target")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if fr.func is not None and t.id in nonlocal_names(fr.func.node):
                c = fr.closure
                while c is not None:
                    if t.id in c.env:
                        c.env[t.id] = v
                        return
                    c = c.closure
            fr.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            self.lib.setitem(self, o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.lib.unpack(self, v, len(t.elts))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        else:
            raise Unsupported("assignment target")

    def s_Nonlocal(self, st, fr):
        pass

    def s_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def s_Return(self, st, fr):
        raise ReturnX(None if st.value is None else self.eval(st.value, fr))

    def s_Raise(self, st, fr):
        if st.exc is None:
            if fr.env.get("__exc__") is not None:
                raise fr.env["__exc__"]
            raise Unsupported("bare raise")
        e = st.exc
        if isinstance(e, ast.Call):
            c = self.eval(e.func, fr)
            args = [self.lazy(a, fr) for a in e.args]
        else:
            c = self.eval(e, fr)
            args = []
            if isinstance(c, PyRaise):
                raise c
        if not isinstance(c, (Ext, Cls)):
            raise Unsupported("raise of a computed value")
        raise PyRaise(c, tuple(args))

    def lazy(self, node, fr):
        """Exception messages: evaluated only as far as they are values we know."""
        try:
            return self.eval(node, fr)
        except Unsupported:
            return LazyStr(["<message>"])

    def s_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            self.raise_("AssertionError")

    def s_Break(self, st, fr):
        raise BreakX()

    def s_Continue(self, st, fr):
        raise ContinueX()

    def s_FunctionDef(self, st, fr):
        f = Func(st, fr.mod, None, closure=fr, qual=(fr.func.qual if fr.func else fr.mod.name) + ".<locals>." + st.name)
        v = f
        f.decorated = True
        for d in reversed(f.decos):
            dv = self.eval(d, fr)
            v = self.call(dv, [v])
        fr.env[st.name] = v

    def s_Import(self, st, fr):
        for a in st.names:
            if a.asname:
                fr.env[a.asname] = self.static_value(self.ctx.repo.module(a.name))
            else:
                fr.env[a.name.split(".")[0]] = self.static_value(self.ctx.repo.module(a.name.split(".")[0]))

    def s_ImportFrom(self, st, fr):
        for a in st.names:
            base = self.ctx.repo.module(st.module)
            fr.env[a.asname or a.name] = self.static_value(self.ctx.repo.attr(base, a.name) or self.ctx.repo.module(st.module + "." + a.name))

    def s_Try(self, st, fr):
        try:
            try:
                self.exec_block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if self.exc_matches(e, h.type, fr):
                        if h.name:
                            fr.env[h.name] = self.lib.exc_value(self, e)
                        old = fr.env.get("__exc__")
                        fr.env["__exc__"] = e
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            fr.env["__exc__"] = old
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, fr)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, fr)

    def exc_matches(self, e, tnode, fr):
        if tnode is None:
            return True
        t = self.eval(tnode, fr)
        ts = t if isinstance(t, tuple) else (t,)
        return any(self.lib.exc_isa(self, e.cls, x) for x in ts)

    def s_With(self, st, fr):
        vs = []
        for it in st.items:
            v = self.eval(it.context_expr, fr)
            vs.append(v)
            v2 = self.lib.enter(self, v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v2, fr)
        try:
            self.exec_block(st.body, fr)
        finally:
            for v in reversed(vs):
                self.lib.leave(self, v)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.lib.delitem(self, self.eval(t.value, fr), self.eval_index(t.slice, fr))
            else:
                raise Unsupported("del")

    def s_For(self, st, fr):
        from . import loops

        it = self.eval(st.iter, fr)
        loops.run_for(self, it, lambda v: self.assign(st.target, v, fr), lambda: self.exec_block(st.body, fr), (lambda: self.exec_block(st.orelse, fr)) if st.orelse else None, fr, st)

    def s_While(self, st, fr):
        from . import loops

        loops.run_while(self, st, fr)

    # ------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def getattr(self, o, name):
        o = self.res(o)
        if isinstance(o, (Mod, Ext)):
            if isinstance(o, Ext):
                return self.static_value(Ext(o.path + "." + name))
            r = self.ctx.repo.attr(o, name)
            if r is None:
                raise Unsupported(f"module attribute {o.name}.{name}")
            return self.static_value(r)
        if isinstance(o, Cls):
            m, owner = o.lookup(name)
            if m is None:
                if name == "__name__":
                    return o.name
                raise Unsupported(f"class attribute {o.name}.{name}")
            return self.class_member(m, owner, o, None)
        if isinstance(o, SuperV):
            mro = o.obj_cls.mro() if hasattr(o, "obj_cls") else self.ctx.rec(o.obj).cls.mro()
            i = [c for c in mro].index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, Cls) and name in c.members:
                    return self.class_member(c.members[name], c, c, o.obj)
            if name == "__init__":
                return PyFn(lambda I, a, k: None, "object.__init__")
            raise Unsupported(f"super().{name}")
        if isinstance(o, Ref) and isinstance(self.ctx.heap[o.id], ORec):
            rec = self.ctx.heap[o.id]
            if name in rec.fields:
                return self.unpoison(rec.fields[name], name)
            if name == "__class__":
                return rec.cls
            if isinstance(rec.cls, Cls):
                m, owner = rec.cls.lookup(name)
                if m is not None:
                    return self.class_member(m, owner, rec.cls, o)
            return self.lib.obj_attr(self, o, rec, name)
        return self.lib.attr(self, o, name)

    def class_member(self, m, owner, cls, obj):
        if isinstance(m, Func):
            if m.static:
                return m
            if m.classm:
                return Bound(cls, m)
            if m.prop and obj is not None:
                return self.call_func(m, [obj], {})
            if obj is None:
                return m
            return Bound(obj, m)
        if isinstance(m, Cls):
            return m
        if isinstance(m, tuple) and m[0] == "expr":
            fr = Frame(owner.mod)
            fr.cls = owner
            return self.immut(self.eval(m[1], fr), "class-level")
        raise Unsupported(f"class member {m!r}")

    def setattr(self, o, name, v):
        o = self.res(o)
        if isinstance(o, Ref) and isinstance(self.ctx.heap[o.id], ORec):
            rec = self.ctx.heap[o.id]
            f = dict(rec.fields)
            f[name] = v
            self.ctx.heap[o.id] = ORec(rec.cls, f)
            return
        raise Unsupported(f"attribute assignment on {o!r}")

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, fr)
            return ("slice", f(s.lower), f(s.upper), f(s.step))
        return self.eval(s, fr)

    def e_Subscript(self, e, fr):
        return self.lib.getitem(self, self.eval(e.value, fr), self.eval_index(e.slice, fr))

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            slf = fr.env[fr.func.node.args.args[0].arg]
            return SuperV(fr.cls, slf)
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                if isinstance(v, tuple):
                    args += list(v)
                else:
                    args += self.lib.concrete_list(self, v)
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.res(self.eval(k.value, fr))
                r = self.ctx.rec(v)
                if r.amap is None:
                    kw.update(r.items)
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = self.eval(k.value, fr)
        self.cur_frame = fr
        return self.call(f, args, kw)

    def truth(self, v):
        return self.ctx.decide(self.lib.truthy(self, v))

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values[:-1]:
            v = self.eval(x, fr)
            t = self.lib.truthy(self, v)
            # keep pure boolean structure when the rest is cheap
            b = self.ctx.decide(t)
            if isand and not b:
                return v if not (is_z3(v) and z3.is_bool(v)) else False
            if not isand and b:
                return v if not (is_z3(v) and z3.is_bool(v)) else True
        return self.eval(e.values[-1], fr)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return bnot(self.lib.truthy(self, v))
        return self.lib.unop(self, e.op, v)

    def e_BinOp(self, e, fr):
        return self.lib.binop(self, e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        acc = True
        for op, r in zip(e.ops, e.comparators):
            rv = self.eval(r, fr)
            c = self.lib.compare(self, op, left, rv)
            if len(e.ops) == 1:
                return c
            acc = band(acc, self.lib.truthy(self, c))
            if acc is False:
                return False
            left = rv
        return acc

    def e_IfExp(self, e, fr):
        if self.truth(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_JoinedStr(self, e, fr):
        ps = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                ps.append(v.value)
            else:
                x = self.eval(v.value, fr)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    x = LazyStr(["<formatted>"])
                    ps.append(x)
                    continue
                ps.append(self.lib.str_piece(self, x))
        ps = [p for p in ps if not (isinstance(p, str) and p == "")]
        if all(isinstance(p, str) for p in ps):
            return "".join(ps)
        return LazyStr(ps)

    def e_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.lib.concrete_list(self, self.eval(x.value, fr))
            else:
                out.append(self.eval(x, fr))
        return tuple(out)

    def e_List(self, e, fr):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.res(self.eval(x.value, fr))
                parts += list(self.lib.as_list(self, v).parts)
            else:
                parts.append(single(self.eval(x, fr)))
        return self.ctx.alloc(LRec(parts))

    def e_Set(self, e, fr):
        r = self.ctx.alloc(SRec())
        for x in e.elts:
            self.lib.set_add(self, r, self.eval(x, fr))
        return r

    def e_Dict(self, e, fr):
        r = self.ctx.alloc(MRec())
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.dict_update(self, r, self.eval(v, fr))
            else:
                kv = self.eval(k, fr)
                self.lib.setitem(self, r, kv, self.eval(v, fr))
        return r

    def e_Lambda(self, e, fr):
        return Func(e, fr.mod, None, closure=fr, qual="<lambda>")

    def _comp(self, e, fr, out, emit):
        from . import loops

        cfr = Frame(fr.mod, fr.func, {}, fr, fr.cls)
        self.ctx.frames.append(cfr)

        def go(i):
            if i == len(e.generators):
                emit(cfr)
                return
            g = e.generators[i]
            it = self.eval(g.iter, cfr if i else fr)

            def body():
                for c in g.ifs:
                    if not self.truth(self.eval(c, cfr)):
                        return
                go(i + 1)

            loops.run_for(self, it, lambda v: self.assign(g.target, v, cfr), body, None, cfr, e)

        try:
            go(0)
        finally:
            if cfr in self.ctx.frames:
                self.ctx.frames.remove(cfr)
        return out

    def e_ListComp(self, e, fr):
        out = self.ctx.alloc(LRec([]))
        return self._comp(e, fr, out, lambda c: self.lib.list_append(self, out, self.eval(e.elt, c)))

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def e_SetComp(self, e, fr):
        out = self.ctx.alloc(SRec())
        return self._comp(e, fr, out, lambda c: self.lib.set_add(self, out, self.eval(e.elt, c)))

    def e_DictComp(self, e, fr):
        out = self.ctx.alloc(MRec())

        def emit(c):
            k = self.eval(e.key, c)
            self.lib.setitem(self, out, k, self.eval(e.value, c))

        return self._comp(e, fr, out, emit)

    def e_Yield(self, e, fr):
        f = fr
        while f.yields is None:
            f = f.closure
        self.lib.list_append(self, f.yields, None if e.value is None else self.eval(e.value, fr))
        return None

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        self.lib.list_extend(self, fr.yields, v)
        return None

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        raise Unsupported("starred")


def single(v):
    return Part(None, lambda vs, v=v: v)


def is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False


_nl = {}


def nonlocal_names(node):
    if node not in _nl:
        s = set()
        if isinstance(node, ast.FunctionDef):
            for n in ast.walk(node):
                if isinstance(n, ast.Nonlocal):
                    s |= set(n.names)
        _nl[node] = s
    return _nl[node]


class Outcome:
    def __init__(self, kind, value=None, exc=None):
        self.kind, self.value, self.exc = kind, value, exc

    @property
    def ok(self):
        return self.kind == "return"

    def __repr__(self):
        return f"Outcome({self.kind},{self.value if self.ok else self.exc})"


def run(I, f, args, kwargs=None):
    """Call and turn exceptions of the program into an Outcome."""
    try:
        return Outcome("return", I.call(f, args, kwargs or {}))
    except PyRaise as e:
        return Outcome("raise", exc=e)


class SpecResult:
    def __init__(self):
        self.paths = 0
        self.normal = 0
        self.infeasible = 0
        self.unsupported = None
        self.obligs = []


def explore(ctx, spec, max_paths=None, deadline=None):
    """Run a specification over all paths."""
    res = SpecResult()
    todo = [[]]
    nuns = 0
    while todo:
        if sum(1 for o in res.obligs if not o["ok"]) >= int(os.environ.get("MAXBAD", "4")):
            res.stopped = True  # refuted: the remaining paths are not explored
            break
        prefix = todo.pop()
        if res.paths >= (max_paths or ctx.max_paths):
            res.unsupported = "path limit"
            break
        if deadline and time.time() > deadline:
            res.unsupported = "time limit"
            break
        ctx.reset(prefix)
        ctx.obligs = []
        I = Interp(ctx)
        res.paths += 1
        try:
            spec(I)
            if ctx.check([]) == z3.unsat:
                res.infeasible += 1
            else:
                res.normal += 1
        except Infeasible:
            res.infeasible += 1
        except Unsupported as e:
            import traceback

            # an infeasible path cannot be outside the subset
            if ctx.check([]) == z3.unsat:
                res.infeasible += 1
            else:
                nuns += 1
                if res.unsupported is None:
                    res.unsupported = str(e)
                    res.where = traceback.format_exc()
                    res.pc = [str(x)[:300] for x in ctx.pc]
                if nuns >= 4:
                    res.obligs += ctx.obligs
                    break
        res.obligs += ctx.obligs
        todo += ctx.alts
    return res
