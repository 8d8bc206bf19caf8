"""The symbolic interpreter for the real function bodies (one path at a time)."""
from __future__ import annotations

import ast
import builtins as _bi
import asyncio as _aio

import z3

from . import core
from .core import (B, HASH, ISA, OWNER, ROLE, STRI, T_ANY, T_BOOL, T_FLOAT, T_INT, T_NONE,
                   T_STR, T_TD, T_USER, MAYBE, UNBOUND, BreakSig, ContinueSig, Cut, PyRaise, Restart,
                   ReturnSig, Sig, St, Ty, V, Val, View, nat_id, role_id, sort_of, str_id,
                   tup_funcs)
from .loader import EnumMember, Ext, Native, PyClass, PyFunc, PyModule, Unsupported


class BoundMethod:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class BoundExt:
    def __init__(self, self_, name):
        self.self_, self.name = self_, name


class Coro:
    """A coroutine object (a call to an async function that was not awaited yet)."""

    def __init__(self, run, desc=None, **info):
        self.run, self.desc, self.info = run, desc, info


class AsyncGen:
    def __init__(self, fn, args):
        self.fn, self.args = fn, args


class SuperObj:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class GenExpr:
    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class DictView:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind


class Frame:
    def __init__(self, fn, module, cls=None, parent=None):
        self.fn, self.module, self.cls, self.parent = fn, module, cls, parent
        self.locals = {}
        self.self_ = None
        self.cells = set()      # names declared nonlocal
        self.exc_stack = []

    def find(self, name):
        f = self
        while f is not None:
            if name in f.locals:
                return f
            f = f.parent
        return None


SEQ = {"collections.deque", "builtins.list", "tuple*"}
SETS = {"builtins.set", "builtins.frozenset"}
DICTS = {"builtins.dict"}
SYNC = {"asyncio.Condition", "asyncio.Event", "asyncio.Lock"}
OWNABLE = SEQ | SETS | DICTS | SYNC


def is_ext(cls, *names):
    return isinstance(cls, str) and cls in names


_exc_cache = {}


def ext_exc(name):
    """The real exception class behind an external name, or None."""
    if name in _exc_cache:
        return _exc_cache[name]
    c = None
    if name.startswith("builtins."):
        c = getattr(_bi, name[9:], None)
    elif name.startswith("asyncio."):
        c = getattr(_aio, name[8:], None)
    if not (isinstance(c, type) and issubclass(c, BaseException)):
        c = None
    _exc_cache[name] = c
    return c


class Interp:
    """Executes code on one path; created anew for each path."""

    def __init__(self, eng, prefix):
        self.eng = eng
        self.pkg = eng.pkg
        self.st = St(eng)
        self.st.final_keys = eng.final_keys
        self.prefix = prefix
        self.decisions = []
        self.depth = 0
        self.callstack = []
        self.spec = None
        self.loop_body = None
        self.cur_frame = None
        self.no_suspend = 0
        self.trace = []
        self.suspensions = 0
        self.cur_node = None
        self.modpath = {}
        self.exc_handling = []
        self.frames = []              # frames being executed
        self.foreign_containers = False   # a container was read from a field, or became reachable by others

    # ------------------------------------------------------------------ decisions
    @property
    def replaying(self):
        return len(self.decisions) < len(self.prefix)

    def _decide(self, n, formulas):
        """Choose one of n alternatives; formulas[i] is assumed on the i-th."""
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self.st.add(formulas[d])
            return d
        feas = []
        for k, f in enumerate(formulas):
            if f is True:
                feas.append(k)
                continue
            r, _, _ = self.st.check(f, self.eng.branch_timeout)
            if r != z3.unsat:
                feas.append(k)
        if not feas:
            raise Cut()
        for k in reversed(feas[1:]):
            self.eng.worklist.append(self.decisions + [k])
        d = feas[0]
        self.decisions.append(d)
        self.st.add(formulas[d])
        self.eng.npaths_guard(len(self.decisions))
        return d

    def branch(self, z):
        if isinstance(z, bool):
            return z
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return self._decide(2, [z, z3.Not(z)]) == 0

    def choose(self, n, names=None):
        return self._decide(n, [True] * n)

    # ------------------------------------------------------------------ obligations
    def prove(self, z, name, props=(), info=""):
        self.eng.obligation(self, z, name, props, info)

    def unsupported(self, msg, node=None):
        raise Unsupported(msg, node or self.cur_node)

    # ------------------------------------------------------------------ values
    def fresh(self, ty, hint="v", user_facts=True):
        """A fresh symbolic value of the given type."""
        k = ty.k
        if k == "none":
            return None
        if k in ("int", "bool", "float", "str", "td"):
            kind = {"float": "real"}.get(k, k)
            return V(kind, self.st.const(hint, sort_of(ty)), ty)
        if k == "ref":
            z = self.st.const(hint, "I")
            self.st.add(z > 0)
            self.st.bound(z, 1)
            return self.mkref(z, ty)
        z = self.st.const(hint, "V")
        self.st.add(self.type_fact(z, ty))
        self.alloc_fact_val(z)
        return V("any", z, ty)

    def mkref(self, z, ty, exact=False):
        v = V("ref", z, ty, exact)
        self.note_known(v)
        return v

    def note_known(self, v):
        i = (v.z.get_id(), repr(v.ty.cls))
        if i not in self.st.known_ids:
            self.st.known_ids.add(i)
            self.st.known.append(v)

    def type_fact(self, z, ty):
        k = ty.k
        if k == "user" or k == "callable":
            fs = [z3.Or(z3.Not(Val.is_N(z)), Val.n(z) < 0)]
            for c in self.eng.sentinel_classes:
                fs.append(z3.Not(z3.And(Val.is_R(z), ISA(c.qual)(Val.a(z)))))
            return z3.And(*fs)
        if k == "int":
            return Val.is_I(z)
        if k == "bool":
            return Val.is_B(z)
        if k == "float":
            return z3.Or(Val.is_F(z), Val.is_I(z))
        if k == "str":
            return Val.is_S(z)
        if k == "td":
            return Val.is_T(z)
        if k == "none":
            return Val.is_none(z)
        if k == "ref":
            f = Val.is_R(z)
            if isinstance(ty.cls, PyClass) and ty.cls in self.eng.sentinel_classes:
                f = z3.And(f, ISA(ty.cls.qual)(Val.a(z)))
            return f
        if k == "type":
            return z == Val.N(nat_id(ty.cls)) if isinstance(ty.cls, PyClass) else Val.is_N(z)
        if k == "enum":
            return z3.Or(*[z == self.to_val(m) for m in self.eng.enum_members(ty.cls)])
        if k == "tuple":
            return Val.is_Tup(z)
        if k == "union":
            return z3.Or(*[self.type_fact(z, a) for a in ty.args])
        return z3.BoolVal(True)

    def alloc_fact_val(self, z):
        self.st.add(z3.Implies(Val.is_R(z), z3.And(Val.a(z) >= -self.st.alloc, Val.a(z) != 0)))

    def to_val(self, v):
        if v is None:
            return Val.none
        if v is True or v is False:
            return Val.B(z3.BoolVal(v))
        if isinstance(v, int):
            return Val.I(z3.IntVal(v))
        if isinstance(v, float):
            return Val.F(z3.RealVal(repr(v)))
        if isinstance(v, str):
            return Val.S(z3.IntVal(str_id(v)))
        if isinstance(v, tuple):
            vs = [self.to_val(x) for x in v]
            mk, pr = tup_funcs(len(vs))
            t = mk(*vs) if vs else z3.IntVal(-99)
            if vs:
                self.st.add(z3.And(*[p(t) == x for p, x in zip(pr, vs)]))
            return Val.Tup(t)
        if isinstance(v, V):
            if v.k == "any":
                return v.z
            c = {"int": Val.I, "bool": Val.B, "real": Val.F, "str": Val.S, "td": Val.T,
                 "ref": Val.R}[v.k]
            return c(v.z)
        if isinstance(v, DictView):
            return Val.N(nat_id(v))
        self._keep(v)
        return Val.N(z3.IntVal(nat_id(v)))

    def _keep(self, v):
        self.eng.keepalive.append(v)

    def from_val(self, z, ty):
        """A Val term known to be of type ty -> engine value."""
        z = z3.simplify(z)
        k = ty.k
        if k == "none":
            return None
        acc = {"int": (Val.i, "int"), "bool": (Val.b, "bool"), "float": (Val.f, "real"),
               "str": (Val.s, "str"), "td": (Val.t, "td")}
        if k in acc:
            f, kk = acc[k]
            return V(kk, z3.simplify(f(z)), ty)
        if k == "ref":
            a = z3.simplify(Val.a(z))
            self.st.add(z3.And(a >= -self.st.alloc, a != 0))
            self.st.bound(a, -self.st.alloc)
            return self.mkref(a, ty)
        # literals
        if z3.is_app(z):
            d = z.decl().name()
            if d == "none":
                return None
            if d == "N" and z3.is_int_value(z.arg(0)):
                n = z.arg(0).as_long()
                if 0 <= n < len(core._nat_objs):
                    return core._nat_objs[n]
            if d == "B":
                return V("bool", z.arg(0), T_BOOL)
            if d == "I":
                return V("int", z.arg(0), T_INT)
            if d == "S":
                return V("str", z.arg(0), T_STR)
            if d == "T":
                return V("td", z.arg(0), T_TD)
            if d == "R" and ty.k == "union":
                refs = [a for a in ty.args if a.k == "ref"]
                if len(refs) == 1 and not any(a.k in ("user", "any") for a in ty.args):
                    return self.mkref(z.arg(0), refs[0])
        return V("any", z, ty)

    def typed(self, z, ty):
        """Value of heap sort for ty -> engine value."""
        k = ty.k
        if k in ("int", "bool", "float", "str", "td"):
            return V({"float": "real"}.get(k, k), z, ty)
        if k == "ref":
            return self.mkref(z, ty)
        return self.from_val(z, ty)

    def coerce(self, v, ty):
        """Engine value -> z3 term of the heap sort of ty (checks the kind)."""
        k = ty.k
        if k == "int":
            return self.zint(v, strict=True)
        if k == "bool":
            return self.zbool_strict(v)
        if k == "float":
            return self.zreal(v)
        if k == "str":
            return self.zstr(v)
        if k == "td":
            return self.ztd(v)
        if k == "ref":
            if isinstance(v, V) and v.k == "ref":
                return v.z
            if isinstance(v, V) and v.k == "any":
                if self.st.must(Val.is_R(v.z)):
                    return Val.a(v.z)
            self.unsupported(f"value of another kind stored where {ty} is declared")
        z = self.to_val(v)
        if k in ("user", "union", "enum", "callable", "type", "tuple", "none"):
            if isinstance(v, V) and v.ty == ty:
                return z
            if k == "user" and isinstance(v, V) and v.k == "ref" and not any(
                    self.sub_static(v.cls, c) or self.sub_static(c, v.cls) for c in self.eng.sentinel_classes):
                self.st.add(self.type_fact(z, ty))
                return z
            f = self.type_fact(z, ty)
            if not self.st.must(f):
                self.unsupported(f"value stored is not of the declared type {ty}")
        return z

    # numeric/boolean views
    def zint(self, v, strict=False):
        if v is True or v is False:
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, V):
            if v.k == "int":
                return v.z
            if v.k == "bool":
                return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
            if v.k == "any":
                if self.branch(Val.is_I(v.z)):
                    return Val.i(v.z)
                self.raise_exc("builtins.TypeError")
        if v is None:
            self.raise_exc("builtins.TypeError")
        self.unsupported(f"not an int: {v!r}")

    def zbool_strict(self, v):
        if v is True or v is False:
            return z3.BoolVal(v)
        if isinstance(v, V) and v.k == "bool":
            return v.z
        if isinstance(v, V) and v.k == "any" and self.st.must(Val.is_B(v.z)):
            return Val.b(v.z)
        self.unsupported(f"not a bool: {v!r}")

    def zreal(self, v):
        if isinstance(v, bool):
            return z3.RealVal(int(v))
        if isinstance(v, (int, float)):
            return z3.RealVal(repr(v))
        if isinstance(v, V):
            if v.k == "real":
                return v.z
            if v.k == "int":
                return z3.ToReal(v.z)
            if v.k == "any":
                if self.branch(Val.is_F(v.z)):
                    return Val.f(v.z)
                if self.branch(Val.is_I(v.z)):
                    return z3.ToReal(Val.i(v.z))
        if v is None:
            self.raise_exc("builtins.TypeError")
        self.unsupported(f"not a float: {v!r}")

    def zstr(self, v):
        if isinstance(v, str):
            return z3.IntVal(str_id(v))
        if isinstance(v, V) and v.k == "str":
            return v.z
        if isinstance(v, V) and v.k == "any" and self.st.must(Val.is_S(v.z)):
            return Val.s(v.z)
        self.unsupported(f"not a str: {v!r}")

    def ztd(self, v):
        if isinstance(v, V) and v.k == "td":
            return v.z
        if isinstance(v, V) and v.k == "any":
            if self.branch(Val.is_T(v.z)):
                return Val.t(v.z)
            self.raise_exc("builtins.TypeError")
        if v is None:
            self.raise_exc("builtins.TypeError")
        self.unsupported(f"not a timedelta: {v!r}")

    def mkint(self, z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        return V("int", z, T_INT)

    def mkbool(self, z):
        if isinstance(z, bool):
            return z
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return V("bool", z, T_BOOL)

    # ------------------------------------------------------------------ truth, eq, is
    def truth_z(self, v):
        """Truth value as bool or z3 Bool (no branching)."""
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, tuple)):
            return bool(v)
        if isinstance(v, V):
            if v.k == "bool":
                return v.z
            if v.k == "int" or v.k == "td":
                return v.z != 0
            if v.k == "real":
                return v.z != 0
            if v.k == "str":
                return v.z != z3.IntVal(str_id(""))
            if v.k == "ref":
                return self.truth_ref(v)
            z = v.z
            opts = v.ty.args if v.ty.k == "union" else ()
            refs = [a for a in opts if a.k == "ref"]
            rest = TRUTHY_V(z)
            if refs and not any(a.k in ("user", "any") for a in opts) and len(refs) == 1:
                if self.branch(Val.is_R(z)):
                    return self.truth_ref(self.mkref(Val.a(z), refs[0]))
            return z3.If(Val.is_none(z), False,
                         z3.If(Val.is_B(z), Val.b(z),
                               z3.If(Val.is_I(z), Val.i(z) != 0,
                                     z3.If(Val.is_T(z), Val.t(z) != 0,
                                           z3.If(Val.is_S(z), Val.s(z) != str_id(""), rest)))))
        if isinstance(v, DictView):
            return self.len_of(v.d) != 0
        return True

    def truth_ref(self, v):
        c = v.cls
        if isinstance(c, PyClass):
            m = c.lookup("__bool__")
            if m is not None:
                return self.truth_z(self.call_pyfunc(m, [v], {}))
            m = c.lookup("__len__")
            if m is not None:
                r = self.call_pyfunc(m, [v], {})
                return self.truth_z(r)
            return True
        if is_ext(c, *SEQ, *SETS, *DICTS):
            return self.len_of(v) != 0
        return True

    def truth(self, v):
        return self.branch(self.truth_z(v))

    def is_same(self, a, b):
        """`a is b` as bool / z3 Bool."""
        if not isinstance(a, V) and not isinstance(b, V):
            if isinstance(a, (int, str, bool, float, tuple)) and type(a) is type(b):
                return a == b
            return a is b
        if isinstance(a, V) and isinstance(b, V) and a.k == b.k:
            return a.z == b.z
        if (isinstance(a, V) and a.k != "any") and (isinstance(b, V) and b.k != "any"):
            return False
        if isinstance(a, V) and a.k != "any" and not isinstance(b, V):
            if a.k == "ref":
                return False
            if b is None or isinstance(b, (Native, PyClass, Ext)):
                return False
        if isinstance(b, V) and b.k != "any" and not isinstance(a, V):
            return self.is_same(b, a)
        return self.to_val(a) == self.to_val(b)

    def eq(self, a, b, node=None):
        """`a == b` as bool / z3 Bool."""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, V) and x.k == "ref" and isinstance(x.cls, PyClass):
                m = x.cls.lookup("__eq__")
                if m is not None:
                    return self.truth_z(self.call_pyfunc(m, [x, y], {}))
                if x.cls.is_dataclass:
                    self.unsupported("equality of dataclass instances")
        num = lambda x: isinstance(x, (int, float)) or (isinstance(x, V) and x.k in ("int", "bool", "real"))
        if not isinstance(a, V) and not isinstance(b, V):
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    return False
                zs = [self.eq(x, y) for x, y in zip(a, b)]
                if all(isinstance(x, bool) for x in zs):
                    return all(zs)
                return z3.And(*zs)
            if isinstance(a, (int, float, str, bool, type(None))) and \
                    isinstance(b, (int, float, str, bool, type(None))):
                return a == b
            return a is b
        if num(a) and num(b):
            real = any(isinstance(x, float) or (isinstance(x, V) and x.k == "real") for x in (a, b))
            if real:
                return self.zreal(a) == self.zreal(b)
            return self.zint(a) == self.zint(b)
        ka = a.k if isinstance(a, V) else None
        kb = b.k if isinstance(b, V) else None
        if ka and ka == kb and ka in ("str", "td"):
            return a.z == b.z
        if ka == "str" and isinstance(b, str):
            return a.z == str_id(b)
        if kb == "str" and isinstance(a, str):
            return b.z == str_id(a)
        if ka == "ref" and kb == "ref":
            if is_ext(a.cls, *SEQ, *SETS, *DICTS):
                self.unsupported("equality of containers")
            return a.z == b.z
        if ka == "any" or kb == "any":
            za, zb = self.to_val(a), self.to_val(b)
            ty = a.ty if ka == "any" else b.ty
            if ty.k in ("user", "any", "callable") or (ty.k == "union" and any(
                    t.k in ("user", "any", "callable") for t in ty.args)):
                o = b if ka == "any" else a
                if o is None or isinstance(o, (PyClass, Native)):
                    # == of an opaque user value: could be anything its class says,
                    # identical unless it is an object
                    return z3.If(za == zb, True, z3.And(Val.is_R(za if ka == "any" else zb),
                                                        core.VEQ(za, zb)))
                return core.VEQ(za, zb)
            return za == zb
        return False

    # ------------------------------------------------------------------ exceptions
    def exc_class(self, c):
        """Normalise an exception class value: PyClass or real ext class name."""
        if isinstance(c, PyClass):
            return c
        if isinstance(c, Ext):
            if ext_exc(c.name) is not None:
                return c.name
        if isinstance(c, str):
            return c
        return None

    def new_exc(self, clsname):
        v = self.alloc(Ty("ref", clsname), exact=True)
        self.st.wr(("exc", "__cause__"), v.z, Val.none, "V")
        self.st.wr(("exc", "__context__"), v.z, Val.none, "V")
        return v

    def raise_exc(self, clsname, origin=None):
        raise PyRaise(self.new_exc(clsname), origin)

    def unknown_exc(self, base="builtins.Exception", hint="exc"):
        z = self.st.const(hint, "I")
        self.st.add(z > 0)
        self.st.bound(z, 1)
        v = V("ref", z, Ty("ref", base), False)
        self.note_known(v)
        return v

    def sub_static(self, c, d):
        """Is class c (PyClass/ext name) statically a subclass of d?"""
        if c == d:
            return True
        if isinstance(c, PyClass):
            for m in c.mro():
                if m is d:
                    return True
                if isinstance(m, Ext):
                    if isinstance(d, str) and (m.name == d or self.sub_static(m.name, d)):
                        return True
            return d == "builtins.object"
        if isinstance(d, PyClass):
            return False
        ec, ed = ext_exc(c), ext_exc(d)
        if ec is not None and ed is not None:
            return issubclass(ec, ed)
        if d == "builtins.object":
            return True
        if isinstance(c, str) and c == "builtins.bool" and d == "builtins.int":
            return True
        return False

    def isa(self, v, d):
        """isinstance(v, d) as bool / z3 Bool; v any engine value."""
        if isinstance(d, Ext):
            d = d.name
        if d == "builtins.object":
            return True
        if isinstance(v, V) and v.k == "any":
            simple = {"builtins.int": lambda z: z3.Or(Val.is_I(z), Val.is_B(z)),
                      "builtins.bool": Val.is_B, "builtins.str": Val.is_S,
                      "builtins.float": Val.is_F, "datetime.timedelta": Val.is_T,
                      "builtins.tuple": Val.is_Tup}
            if d in simple:
                return simple[d](v.z)
            if isinstance(d, PyClass) and d.is_enum():
                return z3.Or(*[v.z == self.to_val(m) for m in self.eng.enum_members(d)])
            refs = [a for a in (v.ty.args if v.ty.k == "union" else [v.ty]) if a.k == "ref"]
            ctys = [a.cls for a in refs]
            if not self.branch(Val.is_R(v.z)):
                return False
            if len(refs) == 1 and not any(a.k in ("user", "any") for a in
                                          (v.ty.args if v.ty.k == "union" else [v.ty])):
                return self.isa(self.mkref(Val.a(v.z), refs[0]), d)
            self.isa_facts(Val.a(v.z), d)
            return ISA(d.qual if isinstance(d, PyClass) else d)(Val.a(v.z))
        if isinstance(v, V):
            m = {"int": "builtins.int", "bool": "builtins.bool", "str": "builtins.str",
                 "real": "builtins.float", "td": "datetime.timedelta"}
            if v.k in m:
                return d == m[v.k] or (v.k == "bool" and d == "builtins.int")
            c = v.cls
            if self.sub_static(c, d):
                return True
            if v.exact:
                return False
            if self.sub_static(d, c) or (isinstance(c, str) and ext_exc(c) is not None and
                                         (isinstance(d, PyClass) or ext_exc(d) is not None)):
                self.isa_facts(v.z, d)
                return ISA(d.qual if isinstance(d, PyClass) else d)(v.z)
            return False
        if isinstance(v, EnumMember):
            return v.cls is d
        if isinstance(v, bool):
            return d in ("builtins.bool", "builtins.int")
        for t, n in ((int, "builtins.int"), (str, "builtins.str"), (float, "builtins.float"),
                     (tuple, "builtins.tuple")):
            if isinstance(v, t):
                return d == n
        if v is None:
            return False
        if isinstance(v, (PyClass,)):
            return d in ("builtins.type",)
        if isinstance(v, Coro):
            return False
        return False

    def isa_facts(self, z, d):
        """Hierarchy facts for the type predicates tested on this object."""
        key = z.get_id()
        seen = self.st.isa_seen.setdefault(key, (z, []))[1]
        if any(s == d for s in seen):
            return
        nm = lambda c: c.qual if isinstance(c, PyClass) else c
        for s in seen:
            if self.sub_static(s, d):
                self.st.add(z3.Implies(ISA(nm(s))(z), ISA(nm(d))(z)))
            elif self.sub_static(d, s):
                self.st.add(z3.Implies(ISA(nm(d))(z), ISA(nm(s))(z)))
            else:
                self.st.add(z3.Not(z3.And(ISA(nm(d))(z), ISA(nm(s))(z))))
        seen.append(d)

    def matches(self, exc, d):
        return self.branch(self.isa(exc, d))

    # ------------------------------------------------------------------ allocation
    def alloc(self, ty, exact=True):
        self.st.alloc += 1
        z = z3.IntVal(-self.st.alloc)
        v = V("ref", z, ty, exact)
        self.st.unescaped[-self.st.alloc] = v
        self.note_known(v)
        return v

    def escape(self, v):
        """The object becomes reachable by others."""
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, V) and x.k == "ref":
                n = x.z
            elif isinstance(x, V) and x.k == "any":
                n = z3.simplify(x.z)
                if z3.is_app(n) and n.decl().name() == "R":
                    n = n.arg(0)
                else:
                    continue
            elif isinstance(x, tuple):
                todo.extend(x)
                continue
            elif isinstance(x, BoundMethod):
                todo.append(x.self_)
                continue
            elif isinstance(x, Coro):
                todo.extend(x.info.get("args", ()))
                continue
            else:
                continue
            if z3.is_int_value(n) and n.as_long() in self.st.unescaped:
                num = n.as_long()
                if is_ext(self.st.unescaped[num].cls, *SEQ, *SETS, *DICTS):
                    self.foreign_containers = True
                del self.st.unescaped[num]
                todo.extend(self.st.children.pop(num, ()))

    def store_into(self, holder_z, v):
        """v was stored into the object at holder_z."""
        if z3.is_int_value(holder_z) and holder_z.as_long() in self.st.unescaped:
            self.st.children.setdefault(holder_z.as_long(), []).append(v)
        else:
            self.escape(v)

    # ------------------------------------------------------------------ fields
    def field_key(self, cls, attr):
        o = cls.field_owner(attr)
        if o is None:
            return None
        return (o.qual, attr)

    def field_ty(self, cls, attr):
        return self.eng.field_ty(cls, attr)

    def get_field(self, v, attr):
        cls = v.cls
        key = self.field_key(cls, attr)
        ty = self.field_ty(cls, attr)
        st = self.st
        if z3.is_int_value(v.z) and v.z.as_long() in st.unescaped and \
                (key, v.z.as_long()) not in st.written:
            self.raise_exc("builtins.AttributeError", origin=f"{cls.name}.{attr} unset")
        z = st.rd(key, v.z, sort_of(ty))
        self.field_facts(v, key, attr, z, ty)
        return self.typed(z, ty)

    def field_facts(self, v, key, attr, z, ty):
        st = self.st
        if z3.is_int_value(z) or z3.is_true(z) or z3.is_false(z):
            return
        if ty.k == "ref":
            if is_ext(ty.cls, *SEQ, *SETS, *DICTS):
                self.foreign_containers = True
            e = st.keyepoch.get(key, st.epoch)
            if key in st.final_keys:
                e = 0
            st.add(z != 0)
            st.add(z >= -st.alloc)
            st.bound(z, -st.alloc)
            if ty.cls in OWNABLE if isinstance(ty.cls, str) else False:
                st.add(z3.And(OWNER(z) == v.z, ROLE(z) == role_id(attr)))
            for num in st.unescaped:
                pass
            n0 = self.eng_alloc_at(key)
            bz = z3.simplify(z3.Select(st.base(key, "I", e), v.z)) if key not in st.heap or True else z
            st.add(z3.And(bz >= -n0[0], bz != 0, *[bz != z3.IntVal(u) for u in n0[1]]))
            st.bound(bz, -n0[0])
            if not z3.is_int_value(z) and z3.eq(z, bz) and key in st.final_keys:
                pass
        elif sort_of(ty) == "V":
            st.add(self.type_fact(z, ty))
            self.alloc_fact_val(z)

    def eng_alloc_at(self, key):
        e = 0 if key in self.st.final_keys else self.st.keyepoch.get(key, self.st.epoch)
        return self.st.epoch_info.get(e, (0, ()))

    def set_field(self, v, attr, val):
        cls = v.cls
        key = self.field_key(cls, attr)
        if key is None:
            self.unsupported(f"assignment to undeclared attribute {attr} of {cls.name}")
        ty = self.field_ty(cls, attr)
        st = self.st
        if key in st.final_keys and not (z3.is_int_value(v.z) and v.z.as_long() < 0):
            self.unsupported(f"assignment to final field {attr}")
        val = self.adapt(val, ty)
        z = self.coerce(val, ty)
        if ty.k == "ref" and isinstance(ty.cls, str) and ty.cls in OWNABLE:
            self.own(v, attr, val)
        self.spec_event("setattr", obj=v, attr=attr, value=val, z=z)
        st.wr(key, v.z, z, sort_of(ty))
        self.store_into(v.z, val)

    def adapt(self, val, ty):
        """Adopt declared element types for freshly created containers."""
        if ty.k == "ref" and isinstance(val, V) and val.k == "ref" and ty.args and \
                isinstance(ty.cls, str) and (val.cls == ty.cls):
            if val.ty.args != ty.args:
                nv = V("ref", val.z, ty, val.exact)
                return nv
        return val

    def own(self, v, attr, val):
        st = self.st
        if z3.is_int_value(val.z) and val.z.as_long() < 0 and val.z.as_long() not in st.owned:
            st.owned[val.z.as_long()] = (v.z, attr)
            st.add(z3.And(OWNER(val.z) == v.z, ROLE(val.z) == role_id(attr)))
            return
        if not st.must(z3.And(OWNER(val.z) == v.z, ROLE(val.z) == role_id(attr))):
            self.unsupported(f"owned field {attr} is assigned an object shared with others")

    # ------------------------------------------------------------------ attributes
    def getattr(self, v, attr, node=None):
        if isinstance(v, V):
            if v.k == "any":
                v = self.narrow_ref(v, attr)
                if not (isinstance(v, V) and v.k == "ref"):
                    return self.getattr(v, attr, node)
            if v.k == "ref":
                c = v.cls
                if isinstance(c, PyClass):
                    return self.getattr_py(v, c, attr)
                return self.ext_getattr(v, attr)
            if v.k in ("td", "int", "str", "real", "bool"):
                return self.ext_getattr(v, attr)
        if isinstance(v, PyModule):
            return self.load_global(v, attr)
        if isinstance(v, Ext):
            return self.pkg.ext(v.name + "." + attr)
        if isinstance(v, PyClass):
            if attr in ("__name__", "__qualname__", "__module__"):
                return v.name
            if v.is_enum() and attr in v.class_attrs:
                return self.eng.enum_member(v, attr)
            m = v.lookup(attr)
            if m is not None:
                if m.is_classmethod:
                    return BoundMethod(v, m)
                return m
            for c in v.mro():
                if isinstance(c, PyClass) and attr in c.class_attrs:
                    return self.class_attr(c, attr)
            self.unsupported(f"class attribute {v.name}.{attr}")
        if isinstance(v, EnumMember):
            if attr == "value":
                return v.value
            if attr == "name":
                return v.mname
        if isinstance(v, SuperObj):
            cls = v.self_.cls
            m = cls.lookup_after(v.cls, attr)
            if m is not None:
                return BoundMethod(v.self_, m)
            return BoundExt(v, attr)
        if v is None:
            self.raise_exc("builtins.AttributeError", origin=f"None.{attr}")
        if isinstance(v, (Native, PyFunc, BoundMethod, BoundExt)):
            if attr in ("__name__", "__qualname__"):
                return self.fresh(T_STR, "nm")
            return BoundExt(v, attr)
        if isinstance(v, (DictView, str, int, float, tuple, Coro, AsyncGen, GenExpr)):
            return BoundExt(v, attr)
        self.unsupported(f"attribute {attr} of {v!r}", node)

    def getattr_py(self, v, c, attr):
        m = c.lookup(attr)
        if m is not None:
            if m.is_property:
                return self.call_pyfunc(m, [v], {})
            if m.is_static:
                return m
            if m.is_classmethod:
                return BoundMethod(c, m)
            return BoundMethod(v, m)
        if c.field_owner(attr) is not None:
            return self.get_field(v, attr)
        for k in c.mro():
            if isinstance(k, PyClass) and attr in k.class_attrs:
                return self.class_attr(k, attr)
        if attr == "__class__":
            return c
        if attr in ("__cause__", "__context__") and self.sub_static(c, "builtins.BaseException"):
            return self.ext_getattr(v, attr)
        if attr in ("args", "with_traceback", "add_note", "__traceback__") and \
                self.sub_static(c, "builtins.BaseException"):
            return self.ext_getattr(v, attr)
        if attr == "__dict__":
            self.unsupported("__dict__")
        if attr.startswith("__") and attr.endswith("__"):
            return BoundExt(v, attr)
        self.raise_exc("builtins.AttributeError", origin=f"{c.name}.{attr}")

    def class_attr(self, c, attr):
        key = (c.qual, attr)
        if attr not in c._static_cache:
            c._static_cache[attr] = self.static_eval(c.module, c.class_attrs[attr], f"{c.qual}.{attr}")
        return c._static_cache[attr]

    def narrow_ref(self, v, attr=None):
        """An `any` value used as an object."""
        opts = v.ty.args if v.ty.k == "union" else (v.ty,)
        refs = [a for a in opts if a.k == "ref"]
        if v.ty.k == "enum" or (len(opts) == 1 and opts[0].k == "enum"):
            e = v.ty if v.ty.k == "enum" else opts[0]
            for m in self.eng.enum_members(e.cls):
                if self.branch(v.z == self.to_val(m)):
                    return m
            raise Cut()
        if any(a.k == "none" for a in opts) or v.ty.k in ("any",):
            if self.branch(Val.is_none(v.z)):
                return None
        for k, t in (("td", Val.is_T), ("str", Val.is_S), ("int", Val.is_I)):
            if any(a.k == k for a in opts) and self.branch(t(v.z)):
                return self.from_val(v.z, {"td": T_TD, "str": T_STR, "int": T_INT}[k])
        if refs:
            cands = refs
            if attr is not None and len(refs) > 1:
                cands = [r for r in refs if isinstance(r.cls, PyClass) and
                         (r.cls.lookup(attr) or r.cls.field_owner(attr))] or refs
            if len(refs) > 1:
                for r in refs[:-1]:
                    nm = r.cls.qual if isinstance(r.cls, PyClass) else r.cls
                    if self.branch(ISA(nm)(Val.a(v.z))):
                        return self.from_val(v.z, r)
                return self.from_val(v.z, refs[-1])
            if not self.branch(Val.is_R(v.z)):
                self.unsupported(f"attribute {attr} of an opaque value")
            return self.from_val(v.z, refs[0])
        # known through isinstance tests?
        for key, (z, seen) in self.st.isa_seen.items():
            if self.st.must(Val.a(v.z) == z):
                for d in seen:
                    nm = d.qual if isinstance(d, PyClass) else d
                    if self.st.must(ISA(nm)(z)):
                        return self.from_val(v.z, Ty("ref", d))
        t = self.eng.ref_hint(self, v)
        if t is not None:
            return self.from_val(v.z, t)
        self.unsupported(f"attribute {attr} of an opaque user value")

    # ------------------------------------------------------------------ names
    def load_name(self, name, frame):
        f = frame.find(name)
        if f is not None:
            v = f.locals[name]
            if v is UNBOUND:
                self.raise_exc("builtins.UnboundLocalError", origin=name)
            if v is MAYBE:
                self.unsupported(f"variable {name} which only the iterations of a loop assign")
            return v
        return self.load_global(frame.module, name)

    def load_global(self, mod, name):
        v = self.pkg.lookup(mod, name)
        if v is None:
            if name in ("__name__",):
                return mod.name
            if name == "__debug__":
                return True
            if name in ("reveal_type",):
                return Ext("builtins.id")
            self.unsupported(f"unknown name {name}")
        if isinstance(v, tuple) and v and v[0] == "lazy":
            return self.eng.lazy_global(self, mod, name, v[1])
        if isinstance(v, tuple) and v and v[0] == "lazymod":
            return self.eng.lazy_global(self, v[1], v[2], v[1].env[v[2]][1])
        return v

    def static_eval(self, mod, node, label):
        """Evaluate a module/class level constant expression."""
        if isinstance(node, ast.Constant):
            return node.value
        if isinstance(node, (ast.Name, ast.Attribute)):
            v = self.pkg.static_ref(mod, node)
            if isinstance(v, tuple) and v and v[0] == "lazy":
                return self.eng.lazy_global(self, mod, node.id, v[1])
            if v is not None:
                return v
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            x = self.static_eval(mod, node.operand, label)
            if isinstance(x, (int, float)):
                return -x
        if isinstance(node, ast.BinOp):
            a = self.static_eval(mod, node.left, label + ".l")
            b = self.static_eval(mod, node.right, label + ".r")
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                import operator as op
                ops = {ast.Add: op.add, ast.Sub: op.sub, ast.Mult: op.mul, ast.Pow: op.pow,
                       ast.FloorDiv: op.floordiv, ast.Div: op.truediv, ast.Mod: op.mod}
                if type(node.op) in ops:
                    return ops[type(node.op)](a, b)
        if isinstance(node, ast.Tuple):
            return tuple(self.static_eval(mod, e, f"{label}[{i}]") for i, e in enumerate(node.elts))
        if isinstance(node, ast.Call):
            f = self.pkg.static_ref(mod, node.func)
            if isinstance(f, Ext) and f.name == "datetime.timedelta":
                import datetime
                try:
                    kw = {k.arg: self.static_eval(mod, k.value, label) for k in node.keywords}
                    ar = [self.static_eval(mod, a, label) for a in node.args]
                    td = datetime.timedelta(*ar, **kw)
                    us = (td.days * 86400 + td.seconds) * 10**6 + td.microseconds
                    return V("td", z3.IntVal(us), T_TD)
                except Exception:
                    pass
            nm = f.name if isinstance(f, Ext) else getattr(f, "qual", "?")
            if isinstance(f, Ext) and f.name.split(".")[0] in ("logging",):
                return Native(f"logger:{label}", "logger")
            return Native(f"static:{label}={nm}", "static", f)
        if isinstance(node, ast.Lambda):
            fr = Frame(None, mod)
            return PyFunc(mod, None, node, closure=fr)
        return Native(f"static:{label}", "static")

    # ------------------------------------------------------------------ spec hooks
    def spec_event(self, kind, **kw):
        if self.spec is not None:
            self.spec.event(self, kind, **kw)

    def suspend(self, kind, cancellable=True, env=True, **info):
        """A suspension point: the segment ends, others run, we are resumed."""
        if self.no_suspend:
            self.unsupported("suspension inside of a section assumed not to suspend")
        self.suspensions += 1
        self.eng.suspend(self, kind, info)
        # now resumed
        if cancellable and self.choose(2) == 1:
            self.eng.cancelled(self, kind, info)
            self.raise_exc("asyncio.CancelledError", origin=kind)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        if isinstance(f, BoundMethod):
            return self.call_pyfunc(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, PyFunc):
            return self.call_pyfunc(f, list(args), kwargs)
        if isinstance(f, PyClass):
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, (Ext, BoundExt)):
            return self.ext_call(f, list(args), kwargs, node)
        if isinstance(f, V):
            if f.k == "ref" and isinstance(f.cls, PyClass):
                m = f.cls.lookup("__call__")
                if m is not None:
                    return self.call_pyfunc(m, [f] + list(args), kwargs)
            return self.ext_call(f, list(args), kwargs, node)
        if isinstance(f, Native):
            return self.ext_call(f, list(args), kwargs, node)
        if f is None:
            self.raise_exc("builtins.TypeError")
        self.unsupported(f"call of {f!r}", node)

    def instantiate(self, c, args, kwargs):
        if c.is_enum():
            return self.enum_lookup(c, args[0])
        exc = self.sub_static(c, "builtins.BaseException")
        v = self.alloc(Ty("ref", c))
        if c in self.eng.sentinel_classes:
            self.st.add(ISA(c.qual)(v.z))
        if exc:
            self.st.wr(("exc", "__cause__"), v.z, Val.none, "V")
            self.st.wr(("exc", "__context__"), v.z, Val.none, "V")
        new = c.lookup("__new__")
        if new is not None:
            self.unsupported("__new__")
        init = c.lookup("__init__")
        if init is not None:
            self.call_pyfunc(init, [v] + args, kwargs)
        else:
            dcs = [k for k in c.mro() if isinstance(k, PyClass) and k.is_dataclass]
            if dcs:
                names = []
                for k in reversed(dcs):
                    for n, a, d in k.class_annots:
                        names.append((k, n, d))
                vals = dict(kwargs)
                for (k, n, d), a in zip(names, args):
                    vals[n] = a
                for k, n, d in names:
                    if n not in vals:
                        if d is None:
                            self.raise_exc("builtins.TypeError")
                        vals[n] = self.static_eval(k.module, d, f"{k.qual}.{n}")
                    self.set_field(v, n, vals[n])
                pi = c.lookup("__post_init__")
                if pi is not None:
                    self.call_pyfunc(pi, [v], {})
        return v

    def enum_lookup(self, c, x):
        if isinstance(x, EnumMember) and x.cls is c:
            return x
        for m in self.eng.enum_members(c):
            e = self.eq(x, m.value)
            if self.branch(e):
                return m
        self.raise_exc("builtins.ValueError", origin=f"{c.name}(value)")

    def bind_args(self, fn, args, kwargs):
        a = fn.node.args
        pos = a.posonlyargs + a.args
        out = {}
        rest = list(args)
        for p in pos:
            if rest:
                out[p.arg] = rest.pop(0)
        if a.vararg:
            sp = [x for x in rest if isinstance(x, StarArg)]
            if sp:
                if len(rest) != 1:
                    self.unsupported("mixed star arguments")
                out[a.vararg.arg] = sp[0].v
            else:
                out[a.vararg.arg] = tuple(rest)
            rest = []
        elif rest:
            if any(isinstance(x, StarArg) for x in rest):
                self.unsupported("star arguments of unknown length")
            self.raise_exc("builtins.TypeError", origin=f"too many arguments for {fn.qual}")
        kw = dict(kwargs)
        for p in a.args + a.kwonlyargs:
            if p.arg in kw:
                out[p.arg] = kw.pop(p.arg)
        if a.kwarg:
            self.unsupported("**kwargs parameter")
        if kw:
            self.raise_exc("builtins.TypeError", origin=f"unexpected keyword for {fn.qual}")
        fr = Frame(fn, fn.module, fn.cls, parent=fn.closure)
        nd = len(a.defaults)
        defs = dict(zip([p.arg for p in pos[len(pos) - nd:]], a.defaults)) if nd else {}
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[p.arg] = d
        for p in pos + a.kwonlyargs:
            if p.arg not in out:
                if p.arg in defs:
                    out[p.arg] = self.default_value(fn, p.arg, defs[p.arg])
                else:
                    self.raise_exc("builtins.TypeError", origin=f"missing argument {p.arg} of {fn.qual}")
        fr.locals.update(out)
        if pos and fn.cls is not None and not fn.is_static:
            fr.self_ = out[pos[0].arg]
        return fr

    def default_value(self, fn, arg, node):
        fr = Frame(fn, fn.module, fn.cls, parent=fn.closure)
        if isinstance(node, ast.Name) and fn.cls is not None and node.id in fn.cls.class_attrs:
            return self.class_attr(fn.cls, node.id)
        return self.eval(node, fr)

    def call_pyfunc(self, fn, args, kwargs):
        h = self.eng.apply_contract(self, fn, args, kwargs)
        if h is not None:
            return h[0]
        if fn.is_abstract:
            body = [s for s in fn.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if not body or all(isinstance(s, (ast.Pass, ast.Raise)) for s in body):
                self.unsupported(f"call of abstract method {fn.qual} without a contract")
        other = fn.decos - {"property", "staticmethod", "classmethod", "override", "abstractmethod",
                            "final", "cached_property"}
        if other:
            self.unsupported(f"decorated function {fn.qual}")
        frame = self.bind_args(fn, args, kwargs)
        if isinstance(fn.node, ast.Lambda):
            return self.eval(fn.node.body, frame)
        if fn.is_async and fn.is_gen:
            return AsyncGen(fn, frame)
        if fn.is_gen:
            self.unsupported(f"generator function {fn.qual}")
        if fn.is_async:
            return Coro(lambda: self.run_body(fn, frame), desc=fn.qual, fn=fn, args=args)
        return self.run_body(fn, frame)

    def run_body(self, fn, frame):
        if self.depth > 25:
            self.unsupported("recursion too deep")
        if len([1 for f in self.callstack if f is fn]) > 1:
            self.unsupported(f"recursive call of {fn.qual}")
        self.depth += 1
        self.callstack.append(fn)
        self.eng.inlined.add(fn.qual)
        saved = self.cur_frame
        self.cur_frame = frame
        self.frames.append(frame)
        try:
            self.exec_block(fn.node.body, frame)
            return None
        except ReturnSig as r:
            return r.v
        finally:
            self.frames.pop()
            self.cur_frame = saved
            self.callstack.pop()
            self.depth -= 1

    def await_value(self, v, node=None):
        if isinstance(v, Coro):
            return v.run()
        if isinstance(v, V) and v.k == "ref" and is_ext(v.cls, "asyncio.Task", "asyncio.Future"):
            return self.await_task(v)
        if isinstance(v, V) and v.k == "any":
            n = self.narrow_ref(v, "__await__")
            return self.await_value(n, node)
        self.unsupported("await of " + repr(v), node)

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, frame):
        for s in body:
            self.exec(s, frame)

    def exec(self, s, frame):
        self.cur_node = s
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.unsupported(f"statement {type(s).__name__}", s)
        return m(s, frame)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is None:
            return
        v = self.eval(s.value, fr)
        if isinstance(v, V) and v.k == "ref" and isinstance(s.target, ast.Name):
            try:
                ty = self.eng.parse_ty(fr.module, s.annotation, fr)
            except Unsupported:
                ty = None
            if ty is not None and ty.k == "ref":
                v = self.adapt(v, ty)
        self.assign(s.target, v, fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, t.attr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            ix = self.eval(t.slice, fr)
            old = self.getitem(o, ix)
        else:
            self.unsupported("augmented assignment", s)
        rhs = self.eval(s.value, fr)
        if isinstance(old, V) and old.k == "ref" and is_ext(old.cls, *SEQ, *SETS, *DICTS):
            new = self.ext_inplace(old, s.op, rhs)
        else:
            new = self.binop(s.op, old, rhs)
        if isinstance(t, ast.Name):
            self.assign(t, new, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, new)
        else:
            self.setitem(o, ix, new)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            name = t.id
            f = fr
            if name in fr.cells:
                f = fr.parent.find(name) or fr
            elif name not in fr.locals and isinstance(fr.fn, CompFrame):
                # walrus inside a comprehension binds in the enclosing function
                pass
            f.locals[name] = v
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.setattr(o, t.attr, v)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
            return
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                self.unsupported("slice assignment", t)
            self.setitem(o, self.eval(t.slice, fr), v)
            return
        self.unsupported("assignment target", t)

    def setattr(self, o, attr, v):
        if isinstance(o, V) and o.k == "any":
            o = self.narrow_ref(o, attr)
        if isinstance(o, V) and o.k == "ref" and isinstance(o.cls, PyClass):
            m = o.cls.lookup(attr + ".setter")
            if m is not None:
                self.call_pyfunc(m, [o, v], {})
                return
            self.set_field(o, attr, v)
            return
        if isinstance(o, V) and o.k == "ref" and attr in ("__cause__", "__context__", "__suppress_context__",
                                                         "__traceback__"):
            if attr == "__cause__":
                self.st.wr(("exc", attr), o.z, self.to_val(v), "V")
            return
        if o is None:
            self.raise_exc("builtins.AttributeError")
        self.unsupported(f"assignment to attribute {attr} of {o!r}")

    def unpack(self, v, elts):
        n = len(elts)
        if any(isinstance(e, ast.Starred) for e in elts):
            if isinstance(v, tuple):
                i = [isinstance(e, ast.Starred) for e in elts].index(True)
                after = n - i - 1
                mid = v[i:len(v) - after]
                return list(v[:i]) + [self.new_list(list(mid))] + list(v[len(v) - after:])
            self.unsupported("starred unpacking")
        if isinstance(v, tuple):
            if len(v) != n:
                self.raise_exc("builtins.ValueError")
            return v
        if isinstance(v, V) and v.k == "any":
            tys = v.ty.args if v.ty.k == "tuple" and len(v.ty.args) == n else [T_ANY] * n
            if not self.branch(Val.is_Tup(v.z)):
                self.unsupported("unpacking of a non-tuple")
            mk, pr = tup_funcs(n)
            out = []
            k = Val.k(v.z)
            self.st.add(mk(*[p(k) for p in pr]) == k)
            for p, ty in zip(pr, tys):
                z = p(Val.k(v.z))
                self.st.add(self.type_fact(z, ty))
                out.append(self.from_val(z, ty))
            return out
        if isinstance(v, V) and v.k == "ref" and is_ext(v.cls, *SEQ):
            ln = self.len_of(v)
            if not self.branch(ln == n):
                self.raise_exc("builtins.ValueError")
            return [self.seq_get(v, i) for i in range(n)]
        self.unsupported("unpacking of " + repr(v))

    def x_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_Return(self, s, fr):
        raise ReturnSig(self.eval(s.value, fr) if s.value is not None else None)

    def x_Break(self, s, fr):
        raise BreakSig()

    def x_Continue(self, s, fr):
        raise ContinueSig()

    def x_Global(self, s, fr):
        self.unsupported("global statement", s)

    def x_Nonlocal(self, s, fr):
        fr.cells.update(s.names)

    def x_Import(self, s, fr):
        for a in s.names:
            fr.locals[a.asname or a.name.split(".")[0]] = self.pkg.ext(a.name)

    def x_ImportFrom(self, s, fr):
        base = s.module or ""
        if s.level:
            parts = fr.module.name.split(".")[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        for a in s.names:
            m = self.pkg.modules.get(base)
            fr.locals[a.asname or a.name] = self.load_global(m, a.name) if m else self.pkg.ext(base + "." + a.name)

    def x_FunctionDef(self, s, fr):
        if s.decorator_list:
            self.unsupported("decorated nested function", s)
        fr.locals[s.name] = PyFunc(fr.module, None, s, closure=fr)

    x_AsyncFunctionDef = x_FunctionDef

    def x_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            if s.msg is not None:
                self.eval(s.msg, fr)
            self.raise_exc("builtins.AssertionError", origin="assert")

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals[t.id] = UNBOUND
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval(t.slice, fr))
            else:
                self.unsupported("del of attribute", s)

    def x_Raise(self, s, fr):
        if s.exc is None:
            if not self.exc_handling:
                self.raise_exc("builtins.RuntimeError")
            raise PyRaise(self.exc_handling[-1])
        e = self.eval(s.exc, fr)
        e = self.as_exc(e)
        if s.cause is not None:
            c = self.eval(s.cause, fr)
            if isinstance(c, (PyClass, Ext)):
                c = self.as_exc(c)
            self.st.wr(("exc", "__cause__"), e.z, self.to_val(c), "V")
        raise PyRaise(e)

    def as_exc(self, e):
        if isinstance(e, PyClass):
            return self.instantiate(e, [], {})
        if isinstance(e, Ext) and ext_exc(e.name) is not None:
            return self.new_exc(e.name)
        if isinstance(e, V) and e.k == "any":
            opts = [a for a in (e.ty.args if e.ty.k == "union" else (e.ty,)) if a.k != "none"]
            if e.ty.k in ("union",) and self.branch(Val.is_none(e.z)):
                self.raise_exc("builtins.TypeError")
            refs = [a for a in opts if a.k == "ref"]
            if refs:
                return self.from_val(e.z, refs[0])
            e2 = self.narrow_ref(e)
            if isinstance(e2, V) and e2.k == "ref":
                return e2
        if isinstance(e, V) and e.k == "ref":
            return e
        if e is None:
            self.raise_exc("builtins.TypeError")
        self.unsupported(f"raise of {e!r}")

    def x_Try(self, s, fr):
        def inner():
            try:
                self.exec_block(s.body, fr)
            except PyRaise as p:
                for h in s.handlers:
                    if h.type is None or self.match_handler(p.exc, self.eval(h.type, fr)):
                        if h.name:
                            fr.locals[h.name] = self.refine_exc(p.exc, h, fr)
                        self.exc_handling.append(p.exc)
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.exc_handling.pop()
                            if h.name:
                                fr.locals[h.name] = UNBOUND
                        return
                raise
            else:
                self.exec_block(s.orelse, fr)

        if not s.finalbody:
            inner()
            return
        try:
            inner()
        except (PyRaise, ReturnSig, BreakSig, ContinueSig) as sig:
            if isinstance(sig, PyRaise):
                self.exc_handling.append(sig.exc)
            try:
                self.exec_block(s.finalbody, fr)
            finally:
                if isinstance(sig, PyRaise):
                    self.exc_handling.pop()
            raise
        else:
            self.exec_block(s.finalbody, fr)

    def refine_exc(self, exc, h, fr):
        """Static class of a caught exception."""
        if h.type is None:
            return exc
        t = self.eval(h.type, fr)
        if isinstance(t, (PyClass, Ext)) and not exc.exact:
            d = self.exc_class(t)
            if d is not None and not self.sub_static(exc.cls, d):
                return V("ref", exc.z, Ty("ref", d), False)
        return exc

    def match_handler(self, exc, t):
        if isinstance(t, tuple):
            return any(self.match_handler(exc, x) for x in t)
        d = self.exc_class(t)
        if d is None:
            self.unsupported(f"except clause {t!r}")
        return self.matches(exc, d)

    def x_With(self, s, fr):
        self._with(s.items, s.body, fr, False)

    def x_AsyncWith(self, s, fr):
        self._with(s.items, s.body, fr, True)

    def _with(self, items, body, fr, is_async):
        if not items:
            self.exec_block(body, fr)
            return
        it = items[0]
        cm = self.eval(it.context_expr, fr)
        en, ex = ("__aenter__", "__aexit__") if is_async else ("__enter__", "__exit__")
        if isinstance(cm, Native) and cm.kind == "suppress":
            try:
                self._with(items[1:], body, fr, is_async)
            except PyRaise as p:
                if not any(self.match_handler(p.exc, t) for t in cm.payload):
                    raise
            return
        r = self.call(self.getattr(cm, en), [], {})
        if is_async:
            r = self.await_value(r)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, r, fr)

        def leave(exc):
            args = [None, None, None] if exc is None else [exc.cls if isinstance(exc.cls, PyClass) else Ext(exc.cls), exc, None]
            x = self.call(self.getattr(cm, ex), args, {})
            if is_async:
                x = self.await_value(x)
            return x

        try:
            self._with(items[1:], body, fr, is_async)
        except PyRaise as p:
            if self.truth(leave(p.exc)):
                return
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            leave(None)
            raise
        else:
            leave(None)

    def x_Match(self, s, fr):
        subj = self.eval(s.subject, fr)
        for c in s.cases:
            ok, binds = self.match_pat(c.pattern, subj, fr)
            if ok:
                fr.locals.update(binds)
                if c.guard is not None and not self.truth(self.eval(c.guard, fr)):
                    continue
                self.exec_block(c.body, fr)
                return

    def match_pat(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.branch(self.eq(v, self.eval(p.value, fr))), {}
        if isinstance(p, ast.MatchSingleton):
            return self.branch(self.is_same(v, p.value)), {}
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return True, ({p.name: v} if p.name else {})
            ok, b = self.match_pat(p.pattern, v, fr)
            if ok and p.name:
                b[p.name] = v
            return ok, b
        if isinstance(p, ast.MatchOr):
            for q in p.patterns:
                ok, b = self.match_pat(q, v, fr)
                if ok:
                    return ok, b
            return False, {}
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, fr)
            if not self.branch(self.isinstance_(v, c)):
                return False, {}
            if p.patterns:
                self.unsupported("positional class pattern", p)
            b = {}
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                ok, bb = self.match_pat(q, self.getattr(v, a), fr)
                if not ok:
                    return False, {}
                b.update(bb)
            return True, b
        if isinstance(p, ast.MatchSequence) and isinstance(v, tuple):
            if len(p.patterns) != len(v):
                return False, {}
            b = {}
            for q, x in zip(p.patterns, v):
                ok, bb = self.match_pat(q, x, fr)
                if not ok:
                    return False, {}
                b.update(bb)
            return True, b
        self.unsupported("pattern", p)

    def isinstance_(self, v, c):
        if isinstance(c, tuple):
            zs = [self.isinstance_(v, x) for x in c]
            if any(z is True for z in zs):
                return True
            zs = [z for z in zs if z is not False]
            if not zs:
                return False
            return z3.Or(*zs)
        if isinstance(c, Native) and c.kind == "union":
            return self.isinstance_(v, tuple(c.payload))
        if isinstance(c, (PyClass, Ext)):
            if c == Ext("typing.Any"):
                self.unsupported("isinstance Any")
            return self.isa(v, c if isinstance(c, PyClass) else c.name)
        self.unsupported("isinstance with " + repr(c))

    # loops -------------------------------------------------------------------
    def x_While(self, s, fr):
        self.while_loop(s, fr)

    def x_For(self, s, fr):
        src = self.eval(s.iter, fr)

        def bind(v):
            self.assign(s.target, v, fr)

        def body():
            self.exec_block(s.body, fr)

        self.for_loop(s, src, bind, body, fr, assigned(s.body) | assigned_t(s.target))
        # for_loop raises BreakSig out when the loop was left by break

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unsupported(f"expression {type(e).__name__}", e)
        return m(e, fr)

    def e_Constant(self, e, fr):
        if isinstance(e.value, (bytes, complex)) or e.value is Ellipsis:
            return Native(repr(e.value), "const")
        return e.value

    def e_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr, e)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while isinstance(f.fn, CompFrame):
            f = f.parent
        f.locals[e.target.id] = v
        return v

    def e_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_items(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return tuple(out)

    def e_List(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_items(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return self.new_list(out, site=e)

    def e_Set(self, e, fr):
        s = self.new_set(site=e)
        for x in e.elts:
            self.set_add(s, self.eval(x, fr))
        return s

    def e_Dict(self, e, fr):
        d = self.new_dict(site=e)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.unsupported("dict unpacking", e)
            self.setitem(d, self.eval(k, fr), self.eval(v, fr))
        return d

    def e_IfExp(self, e, fr):
        if self.truth(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not (isinstance(v, V) and v.k == "bool") else False
            if isinstance(e.op, ast.Or) and t:
                return v if not (isinstance(v, V) and v.k == "bool") else True
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth_z(v)
            if isinstance(t, bool):
                return not t
            return self.mkbool(z3.Not(t))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            if isinstance(v, V) and v.k == "td":
                return V("td", z3.simplify(-v.z), T_TD)
            if isinstance(v, V) and v.k == "real":
                return V("real", -v.z, T_FLOAT)
            return self.mkint(-self.zint(v))
        if isinstance(e.op, ast.UAdd):
            return v
        self.unsupported("unary operator", e)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = []
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            z = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                res.append(z)
                break
            if not self.branch(z if not isinstance(z, bool) else z):
                return False
            left = right
        return self.mkbool(res[-1])

    def e_JoinedStr(self, e, fr):
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                self.eval(p.value, fr)
                if p.format_spec is not None:
                    self.eval(p.format_spec, fr)
        if all(isinstance(p, ast.Constant) for p in e.values):
            return "".join(p.value for p in e.values)
        if len(e.values) == 1 and isinstance(e.values[0], ast.FormattedValue) and e.values[0].format_spec is None:
            v = self.eval(e.values[0].value, fr)
            return self.str_of(v)
        return self.fresh(T_STR, "fstr")

    def e_Lambda(self, e, fr):
        return PyFunc(fr.module, None, e, closure=fr)

    def e_Await(self, e, fr):
        v = self.eval(e.value, fr)
        return self.await_value(v, e)

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        self.eng.do_yield(self, v)
        return None

    def e_Starred(self, e, fr):
        self.unsupported("starred expression", e)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, fr) if e.slice.lower else None
            hi = self.eval(e.slice.upper, fr) if e.slice.upper else None
            return self.getslice(o, lo, hi, e.slice.step)
        if isinstance(o, (Ext, PyClass)):
            return o       # generic alias
        return self.getitem(o, self.eval(e.slice, fr))

    def e_Call(self, e, fr):
        f = self.eval_func(e.func, fr)
        if isinstance(f, Ext) and f.name == "builtins.super" and not e.args:
            c = fr
            while c.cls is None and c.parent is not None:
                c = c.parent
            return SuperObj(c.cls, c.self_)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                ci = self.concrete_items(v, soft=True)
                if ci is None:
                    args.append(StarArg(v))
                else:
                    args.extend(ci)
            else:
                args.append(self.eval_arg(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                self.unsupported("** argument", e)
            kwargs[k.arg] = self.eval_arg(k.value, fr)
        self.cur_node = e
        r = self.call(f, args, kwargs, e)
        return r

    def eval_func(self, n, fr):
        return self.eval(n, fr)

    def eval_arg(self, a, fr):
        return self.eval(a, fr)

    def e_GeneratorExp(self, e, fr):
        return GenExpr(e, fr)

    def e_ListComp(self, e, fr):
        out = self.new_list([], site=e)

        def emit(f2):
            self.seq_append(out, self.eval(e.elt, f2))
        self.comprehend(e, e.generators, fr, emit)
        return out

    def e_SetComp(self, e, fr):
        out = self.new_set(site=e)

        def emit(f2):
            self.set_add(out, self.eval(e.elt, f2))
        self.comprehend(e, e.generators, fr, emit)
        return out

    def e_DictComp(self, e, fr):
        out = self.new_dict(site=e)

        def emit(f2):
            k = self.eval(e.key, f2)
            self.setitem(out, k, self.eval(e.value, f2))
        self.comprehend(e, e.generators, fr, emit)
        return out

    def comprehend(self, node, gens, fr, emit):
        f2 = Frame(CompFrame(), fr.module, fr.cls, parent=fr)
        f2.self_ = fr.self_

        def rec(i):
            g = gens[i]
            if g.is_async:
                self.unsupported("async comprehension", node)
            src = self.eval(g.iter, f2 if i else fr)

            def bind(v):
                self.assign(g.target, v, f2)

            def body():
                for c in g.ifs:
                    if not self.truth(self.eval(c, f2)):
                        return
                if i + 1 < len(gens):
                    rec(i + 1)
                else:
                    emit(f2)

            names = assigned_t(g.target)
            for c in g.ifs:
                names |= assigned_expr(c)
            for x in ("elt", "key", "value"):
                if hasattr(node, x):
                    names |= assigned_expr(getattr(node, x))
            self.for_loop(g, src, bind, body, f2, names)

        rec(0)


class CompFrame:
    qual = "<comp>"


class StarArg:
    def __init__(self, v):
        self.v = v


def TRUTHY_V(z):
    return core.TRUTHY(z)


def assigned_t(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        out = set()
        for e in t.elts:
            out |= assigned_t(e)
        return out
    if isinstance(t, ast.Starred):
        return assigned_t(t.value)
    return set()


def assigned_expr(e):
    return {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}


def assigned(body):
    """Names (re)bound by a block, not entering nested functions."""
    out = set()
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            # nested functions with nonlocal
            for x in ast.walk(n):
                if isinstance(x, ast.Nonlocal):
                    out.update(x.names)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.Assign,)):
            for t in n.targets:
                out |= assigned_t(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.AsyncFor)):
            out |= assigned_t(n.target)
        elif isinstance(n, ast.NamedExpr):
            out.add(n.target.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    out |= assigned_t(i.optional_vars)
        elif isinstance(n, ast.Import):
            out.update(a.asname or a.name.split(".")[0] for a in n.names)
        elif isinstance(n, ast.ImportFrom):
            out.update(a.asname or a.name for a in n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                out |= assigned_t(t)
        todo.extend(ast.iter_child_nodes(n))
    return out
