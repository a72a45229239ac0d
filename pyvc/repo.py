"""Mechanical extraction: parses /repo's current source on every run (ast), nothing is rewritten."""
import ast
import os
from .values import Unsupported


class Ext:
    """Something outside the repository, by dotted path."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"Ext({self.path})"


class Mod:
    def __init__(self, repo, name, path, is_pkg):
        self.repo, self.name, self.path, self.is_pkg = repo, name, path, is_pkg
        src = open(path, encoding="utf-8").read()
        self.src = src
        self.tree = ast.parse(src, path)
        self.defs = {}
        self.odd = []  # module-level statements that are not definitions: what they do is not known
        for st in self.tree.body:
            self._scan(st)
        self.cache = {}

    def _scan(self, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            self.defs[st.name] = st
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    self.defs[a.asname] = ("mod", a.name)
                else:
                    self.defs[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            base = st.module or ""
            if st.level:
                pk = self.name.split(".") if self.is_pkg else self.name.split(".")[:-1]
                pk = pk[: len(pk) - (st.level - 1)]
                base = ".".join(pk + ([st.module] if st.module else []))
            for a in st.names:
                self.defs[a.asname or a.name] = ("from", base, a.name)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.defs[t.id] = ("expr", st.value)
                elif isinstance(t, ast.Tuple):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name):
                            self.defs[e.id] = ("item", st.value, i)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.defs[st.target.id] = ("expr", st.value)
        elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            pass
        elif isinstance(st, ast.Pass):
            pass
        elif isinstance(st, ast.If) and ast.unparse(st.test) in ("__name__ == '__main__'", "TYPE_CHECKING"):
            pass
        else:
            self.odd.append(st.lineno)


class Func:
    def __init__(self, node, mod, cls=None, closure=None, qual=None):
        self.node, self.mod, self.cls, self.closure = node, mod, cls, closure
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual or self.name
        self.static = self.classm = self.prop = False
        self.decos = []
        for d in getattr(node, "decorator_list", []):
            if isinstance(d, ast.Name) and d.id == "staticmethod":
                self.static = True
            elif isinstance(d, ast.Name) and d.id == "classmethod":
                self.classm = True
            elif isinstance(d, ast.Name) and d.id == "property":
                self.prop = True
            else:
                self.decos.append(d)

    def __repr__(self):
        return f"Func({self.qual})"


class Cls:
    def __init__(self, node, mod, outer=None):
        self.node, self.mod = node, mod
        self.name = node.name
        self.qual = (outer.qual + "." if outer else mod.name + ".") + node.name
        self.members = {}
        self.odd = bool(node.decorator_list or node.keywords)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                self.members[st.name] = Func(st, mod, self, qual=self.qual + "." + st.name)
            elif isinstance(st, ast.ClassDef):
                self.members[st.name] = Cls(st, mod, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.members[t.id] = ("expr", st.value)
                    else:
                        self.odd = True
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.members[st.target.id] = ("expr", st.value)
            elif isinstance(st, ast.Pass) or (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                pass
            else:
                self.odd = True
        self._bases = None

    def __repr__(self):
        return f"Cls({self.qual})"

    def bases(self):
        if self._bases is None:
            self._bases = [self.mod.repo.eval_static(self.mod, b) for b in self.node.bases]
        return self._bases

    def mro(self):
        out = [self]
        for b in self.bases():
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            else:
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, Cls) and c.odd:
                raise Unsupported(f"class {c.qual}: class body outside the subset")
            if isinstance(c, Cls) and name in c.members:
                return c.members[name], c
        return None, None

    def issub(self, other):
        return any(c is other or (isinstance(c, Ext) and isinstance(other, Ext) and c.path == other.path) for c in self.mro())


class Repo:
    def __init__(self, root):
        self.root = root
        self.mods = {}

    def find(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, None

    def module(self, name):
        if name not in self.mods:
            path, pkg = self.find(name)
            if path is None or name.split(".")[0] != "sawatabi":
                self.mods[name] = Ext(name)
            else:
                self.mods[name] = Mod(self, name, path, pkg)
        return self.mods[name]

    def attr(self, mod, name):
        """Static attribute of a module: returns Func/Cls/Mod/Ext/('expr', node, mod)."""
        if isinstance(mod, Ext):
            return Ext(mod.path + "." + name)
        if name in mod.cache:
            return mod.cache[name]
        if mod.odd:
            raise Unsupported(f"module {mod.name} line {mod.odd[0]}: statement with unknown effect")
        d = mod.defs.get(name)
        r = None
        if isinstance(d, ast.FunctionDef):
            r = Func(d, mod, qual=mod.name + "." + d.name)
        elif isinstance(d, ast.ClassDef):
            r = Cls(d, mod)
        elif isinstance(d, tuple):
            if d[0] == "mod":
                r = self.module(d[1])
            elif d[0] == "from":
                sub, _ = self.find(d[1] + "." + d[2]) if d[1].split(".")[0] == "sawatabi" else (None, None)
                base = self.module(d[1])
                if isinstance(base, Mod) and d[2] in base.defs and base is not mod:
                    r = self.attr(base, d[2])
                elif sub:
                    r = self.module(d[1] + "." + d[2])
                else:
                    r = self.attr(base, d[2])
            elif d[0] == "expr":
                r = ("expr", d[1], mod)
            elif d[0] == "item":
                r = ("item", d[1], d[2], mod)
        elif mod.is_pkg and self.find(mod.name + "." + name)[0]:
            r = self.module(mod.name + "." + name)
        if r is None:
            return None
        mod.cache[name] = r
        return r

    def eval_static(self, mod, node):
        if isinstance(node, ast.Name):
            r = self.attr(mod, node.id)
            if r is None:
                return Ext("builtins." + node.id)
            return r
        if isinstance(node, ast.Attribute):
            b = self.eval_static(mod, node.value)
            if isinstance(b, (Mod, Ext)):
                return self.attr(b, node.attr)
            if isinstance(b, Cls):
                return b.lookup(node.attr)[0]
        raise Unsupported(f"static {ast.dump(node)}")

    def get(self, dotted):
        """sawatabi.model.logical_model.LogicalModel.add_interaction -> (Func, Cls)"""
        parts = dotted.split(".")
        for k in range(len(parts), 0, -1):
            name = ".".join(parts[:k])
            if self.find(name)[0]:
                cur = self.module(name)
                for p in parts[k:]:
                    if isinstance(cur, Cls):
                        cur = cur.lookup(p)[0]
                    else:
                        cur = self.attr(cur, p)
                    if cur is None:
                        raise Unsupported(f"{dotted}: {p} not found in the source")
                return cur
        raise Unsupported(f"{dotted} not found in the source")
