"""Loading of the package under verification.

The source files are read and parsed with `ast` on every run.  Nothing is copied or
translated by hand: the AST nodes executed by the symbolic interpreter are the ones
parsed here from /repo's working tree.  What is dropped: comments, docstrings (bare
constant expressions), type annotations (used only as type information), `if
TYPE_CHECKING` blocks.
"""
from __future__ import annotations

import ast
import builtins
import os

PKG = "frequenz.channels"


class Unsupported(Exception):
    """A construct outside of the verifier's subset."""

    def __init__(self, msg, node=None, mod=None):
        where = ""
        if node is not None and hasattr(node, "lineno"):
            where = f" (line {node.lineno})"
        super().__init__(msg + where)


class Ext:
    """Something that lives outside of the package (dotted name)."""

    _cache: dict = {}

    def __new__(cls, name):
        if name not in cls._cache:
            o = object.__new__(cls)
            o.name = name
            cls._cache[name] = o
        return cls._cache[name]

    def __repr__(self):
        return f"Ext({self.name})"


class Native:
    """A unique opaque native object (sentinels, enum members, opaque results)."""

    def __init__(self, name, kind="obj", payload=None):
        self.name, self.kind, self.payload = name, kind, payload

    def __repr__(self):
        return f"Native({self.name})"


class EnumMember(Native):
    def __init__(self, cls, name, value):
        super().__init__(f"{getattr(cls,'name',cls)}.{name}", "enum")
        self.cls, self.mname, self.value = cls, name, value


class PyModule:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.env = {}
        self.short = name[len(PKG) + 1:] if name.startswith(PKG + ".") else name

    def __repr__(self):
        return f"Module({self.name})"


class PyFunc:
    def __init__(self, module, cls, node, closure=None):
        self.module, self.cls, self.node, self.closure = module, cls, node, closure
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        q = module.short + "."
        if cls is not None:
            q += cls.name + "."
        self.qual = q + self.name
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.is_gen = _has_yield(node)
        self.decos = set()
        self.deco_nodes = getattr(node, "decorator_list", [])
        for d in self.deco_nodes:
            n = d
            if isinstance(n, ast.Call):
                n = n.func
            if isinstance(n, ast.Attribute):
                self.decos.add(n.attr)
            elif isinstance(n, ast.Name):
                self.decos.add(n.id)
        self.is_property = bool(self.decos & {"property", "cached_property"})
        self.is_abstract = "abstractmethod" in self.decos
        self.is_static = "staticmethod" in self.decos
        self.is_classmethod = "classmethod" in self.decos

    def __repr__(self):
        return f"PyFunc({self.qual})"


def _has_yield(node):
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class PyClass:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.qual = f"{module.short}.{node.name}"
        self.bases = []
        self.methods = {}
        self.class_attrs = {}       # name -> ast expr
        self.class_annots = []      # [(name, annotation node, default)]
        self.field_annots = {}      # self.x: T
        self.field_assigns = {}     # attr -> set of functions assigning it on self
        self.field_nodes = {}
        self.decos = set()
        for d in node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            self.decos.add(n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", "?"))
        self.is_dataclass = "dataclass" in self.decos
        self.enum_members = None
        self._static_cache = {}

    def __repr__(self):
        return f"PyClass({self.qual})"

    def mro(self):
        out, seen = [], set()

        def lin(c):
            if isinstance(c, PyClass):
                seqs = [lin(b) for b in c.bases] + [list(c.bases)]
                res = [c]
                seqs = [s[:] for s in seqs if s]
                while seqs:
                    for s in seqs:
                        cand = s[0]
                        if not any(cand in t[1:] for t in seqs):
                            break
                    else:
                        cand = seqs[0][0]
                    res.append(cand)
                    seqs = [[x for x in s if x is not cand] for s in seqs]
                    seqs = [s for s in seqs if s]
                return res
            return [c]

        for c in lin(self):
            if id(c) not in seen:
                seen.add(id(c))
                out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, PyClass) and name in c.methods:
                return c.methods[name]
        return None

    def lookup_after(self, after, name):
        mro = self.mro()
        i = mro.index(after)
        for c in mro[i + 1:]:
            if isinstance(c, PyClass) and name in c.methods:
                return c.methods[name]
        return None

    def field_owner(self, name):
        for c in self.mro():
            if isinstance(c, PyClass) and (name in c.field_annots or name in c.field_assigns
                                           or any(n == name for n, _, _ in c.class_annots)):
                return c
        return None

    def is_sub(self, other):
        return other in self.mro()

    def is_enum(self):
        return any(isinstance(b, Ext) and b.name in ("enum.Enum", "enum.IntEnum", "enum.Flag")
                   for b in self.mro())


class Package:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.src_root = os.path.join(root, "src", "frequenz", "channels")
        for dp, dn, fn in os.walk(self.src_root):
            dn[:] = [d for d in dn if d != "__pycache__"]
            for f in sorted(fn):
                if not f.endswith(".py") or f == "conftest.py":
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.src_root)[:-3].replace(os.sep, ".")
                name = PKG if rel == "__init__" else PKG + "." + rel
                if name.endswith(".__init__"):
                    name = name[:-9]
                src = open(path, encoding="utf-8").read()
                self.modules[name] = PyModule(name, path, ast.parse(src), src)
        for m in self.modules.values():
            self._declare(m)
        for m in self.modules.values():
            for c in m.env.values():
                if isinstance(c, PyClass) and c.module is m:
                    self._bases(m, c)

    # -- declarations ---------------------------------------------------------
    def _declare(self, m):
        self._declare_body(m, m.tree.body)

    def _declare_body(self, m, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.env[a.asname] = ("import", a.name)
                    else:
                        m.env[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = m.name.split(".")
                    if not m.path.endswith("__init__.py"):
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([base] if base else []))
                for a in st.names:
                    m.env[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.env[st.name] = PyFunc(m, None, st)
            elif isinstance(st, ast.ClassDef):
                m.env[st.name] = self._class(m, st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.env[t.id] = ("lazy", st.value)
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    m.env[st.target.id] = ("lazy", st.value)
            elif isinstance(st, ast.If):
                # only `if TYPE_CHECKING:` and version switches are expected here
                self._declare_body(m, st.body)
                self._declare_body(m, st.orelse)
            elif isinstance(st, ast.Try):
                self._declare_body(m, st.body)
            elif isinstance(st, getattr(ast, "TypeAlias", ())):
                m.env[st.name.id] = ("lazy", st.value)

    def _class(self, m, node):
        c = PyClass(m, node)
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = PyFunc(m, c, st)
                if f.decos & {"setter", "deleter", "overload"}:
                    if "overload" in f.decos:
                        continue
                    c.methods[st.name + "." + ("setter" if "setter" in f.decos else "deleter")] = f
                    continue
                c.methods[st.name] = f
                self._fields(c, f)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.class_attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.class_annots.append((st.target.id, st.annotation, st.value))
                if st.value is not None:
                    c.class_attrs[st.target.id] = st.value
        return c

    def _fields(self, c, f):
        if not f.node.args.args and not f.node.args.posonlyargs:
            return
        selfn = (f.node.args.posonlyargs + f.node.args.args)[0].arg

        def targets(t):
            if isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    yield from targets(e)
            elif isinstance(t, ast.Starred):
                yield from targets(t.value)
            else:
                yield t

        for n in ast.walk(f.node):
            if isinstance(n, ast.AnnAssign):
                t = n.target
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == selfn:
                    c.field_annots.setdefault(t.attr, n.annotation)
                    if n.value is not None:
                        c.field_assigns.setdefault(t.attr, set()).add(f.name)
                        c.field_nodes.setdefault(t.attr, []).append((f, n.value))
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, ast.AugAssign):
                tg = [n.target]
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                tg = [n.target]
            for t0 in tg:
                for t in targets(t0):
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == selfn:
                        c.field_assigns.setdefault(t.attr, set()).add(f.name)
                        v = n.value if isinstance(n, ast.Assign) and t is t0 else None
                        c.field_nodes.setdefault(t.attr, []).append((f, v))

    def _bases(self, m, c):
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            v = self.static_ref(m, b)
            if v is not None:
                c.bases.append(v)
        for k in c.node.keywords:
            pass

    # -- names ---------------------------------------------------------------
    def static_ref(self, m, node):
        if isinstance(node, ast.Name):
            return self.lookup(m, node.id)
        if isinstance(node, ast.Attribute):
            b = self.static_ref(m, node.value)
            return self.attr_of(b, node.attr)
        if isinstance(node, ast.Subscript):
            return self.static_ref(m, node.value)
        return None

    def attr_of(self, b, attr):
        if isinstance(b, Ext):
            return self.ext(b.name + "." + attr)
        if isinstance(b, PyModule):
            return self.lookup(b, attr)
        return None

    def ext(self, dotted):
        if dotted in self.modules:
            return self.modules[dotted]
        if dotted.startswith(PKG + "."):
            parts = dotted.split(".")
            for i in range(len(parts) - 1, 1, -1):
                mn = ".".join(parts[:i])
                if mn in self.modules:
                    v = self.modules[mn]
                    for p in parts[i:]:
                        v = self.attr_of(v, p)
                    return v
        return Ext(_canon(dotted))

    def lookup(self, m, name):
        """Resolve a module global; lazily evaluated assignments are returned as
        ("lazy", node) tuples."""
        if name in m.env:
            v = m.env[name]
            if isinstance(v, tuple) and v[0] == "import":
                v = self.ext(v[1])
                m.env[name] = v
            elif isinstance(v, tuple) and v[0] == "from":
                base, nm = v[1], v[2]
                if base in self.modules:
                    bm = self.modules[base]
                    if nm in bm.env:
                        v = self.lookup(bm, nm)
                        if isinstance(v, tuple) and v and v[0] == "lazy":
                            return ("lazymod", bm, nm)
                    elif base + "." + nm in self.modules:
                        v = self.modules[base + "." + nm]
                    else:
                        v = Ext(base + "." + nm)
                else:
                    v = self.ext(base + "." + nm)
                m.env[name] = v
            return v
        if hasattr(builtins, name):
            return Ext("builtins." + name)
        return None

    def cls(self, qual):
        mod, _, cn = qual.rpartition(".")
        m = self.modules.get(PKG + "." + mod) or self.modules.get(mod)
        if m is None:
            return None
        v = self.lookup(m, cn)
        return v if isinstance(v, PyClass) else None

    def func(self, qual):
        """Find a function by `module.[Class.]name`."""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get(PKG + "." + ".".join(parts[:i]))
            if m is not None:
                rest = parts[i:]
                if len(rest) == 1:
                    v = self.lookup(m, rest[0])
                    return v if isinstance(v, PyFunc) else None
                c = self.lookup(m, rest[0])
                if isinstance(c, PyClass):
                    return c.methods.get(rest[1])
                return None
        return None

    def all_funcs(self, short):
        """All the functions defined in a module (short name), in order."""
        m = self.modules[PKG + "." + short] if short else self.modules[PKG]
        out = []
        for v in m.env.values():
            if isinstance(v, PyFunc) and v.module is m:
                out.append(v)
            elif isinstance(v, PyClass) and v.module is m:
                out.extend(v.methods.values())
        return out


_ALIASES = {
    "asyncio.locks.Condition": "asyncio.Condition",
    "asyncio.locks.Event": "asyncio.Event",
    "asyncio.tasks.Task": "asyncio.Task",
    "asyncio.tasks.wait": "asyncio.wait",
    "asyncio.exceptions.CancelledError": "asyncio.CancelledError",
    "typing.Deque": "collections.deque",
    "weakref.ReferenceType": "weakref.ref",
    "collections.abc.AsyncGenerator": "typing.AsyncGenerator",
}


def _canon(n):
    return _ALIASES.get(n, n)
