"""Assumed contracts of the built-in functions and library objects (dispatch)."""
from __future__ import annotations

import ast

import z3

from . import core
from .core import (B, HASH, I, ISA, R, STRI, T_ANY, T_BOOL, T_FLOAT, T_INT, T_NONE, T_STR, T_TD,
                   T_USER, UNBOUND, UNHASH, UNSTRI, BreakSig, Cut, PyRaise, ReturnSig, Ty, V, Val, nat_id, str_id,
                   tup_funcs)
from .ext import (EPS, IDOF, K_ARR, K_CARD, K_CEP, K_CPEND, K_CUN, K_DONE, K_ESET, K_ESETS, K_EUN, K_HAS,
                  K_HI, K_LO, K_MAP, K_MAX, K_MEM, K_WTGT, T_EXC, T_OPT_EXC, T_TASK, TCANC, TEXC, TNAME,
                  TRES, TSRC, TKIND, UNID, Exec, IterSrc)
from .interp import (DICTS, SEQ, SETS, AsyncGen, BoundExt, BoundMethod, Coro, DictView, Frame, GenExpr, StarArg,
                     SuperObj, ext_exc, is_ext)
from .loader import EnumMember, Ext, Native, PyClass, PyFunc, PyModule, Unsupported

PATHADDR = z3.Function("PATHADDR", Val, I)


class Lib(Exec):
    # ================================================================ attributes
    def ext_getattr(self, v, attr):
        st = self.st
        if v.k == "td":
            if attr in ("days", "seconds", "microseconds"):
                d, r = self.pymod(v.z, z3.IntVal(86400 * 10**6))
                s, u = self.pymod(r, z3.IntVal(10**6))
                return self.mkint({"days": d, "seconds": s, "microseconds": u}[attr])
            return BoundExt(v, attr)
        if v.k != "ref":
            return BoundExt(v, attr)
        c = v.cls
        if attr == "__class__":
            return Ext(c) if isinstance(c, str) else c
        if (isinstance(c, PyClass) or ext_exc(c) is not None):
            if attr in ("__cause__", "__context__"):
                z = st.rd(("exc", attr), v.z, "V")
                st.add(self.type_fact(z, T_OPT_EXC))
                self.alloc_fact_val(z)
                st.add(z3.Implies(Val.is_R(z), Val.a(z) != v.z))
                return self.from_val(z, T_OPT_EXC)
            if attr == "args":
                return self.fresh(Ty("tuple"), "args")
            if attr == "__traceback__":
                return None
            # attributes of package exceptions (statically not known to be one)
            for ec in self.eng.exc_classes:
                if ec.field_owner(attr) is not None:
                    if self.branch(self.isa(v, ec)):
                        return self.getattr_py(V("ref", v.z, Ty("ref", ec)), ec, attr)
            if attr in ("value",) :
                return self.fresh(T_USER, "stopvalue")
            return BoundExt(v, attr)
        if c == "collections.deque" and attr == "maxlen":
            mx = st.rd(K_MAX, v.z, "I")
            self.seq(v)
            if self.branch(mx >= 0):
                return self.mkint(mx)
            return None
        if attr == "_waiters" or attr == "_lock":
            self.unsupported(f"private attribute {attr}")
        return BoundExt(v, attr)

    # ================================================================ calls
    def ext_call(self, f, args, kw, node):
        if isinstance(f, BoundExt):
            return self.method(f.self_, f.name, args, kw, node)
        if isinstance(f, Native):
            if f.kind == "static" and isinstance(f.payload, Ext):
                pass
            self.unsupported(f"call of {f!r}", node)
        if isinstance(f, V):
            return self.call_value(f, args, kw, node)
        name = f.name
        m = getattr(self, "f_" + name.replace(".", "_"), None)
        if m is not None:
            return m(args, kw, node)
        if ext_exc(name) is not None:
            for a in args:
                self.escape(a)
            return self.new_exc(name)
        if name.startswith("logging."):
            return Native("logger", "logger")
        if name.startswith("typing.") or name in ("abc.abstractmethod",):
            if name == "typing.cast":
                return args[1]
            return Native(name, "opaque")
        if name == "warnings.warn":
            return None
        self.unsupported(f"call of {name}", node)

    def call_value(self, f, args, kw, node):
        """Call of a symbolic value: weak reference or opaque user callable."""
        if f.k == "any" and f.ty.k == "union":
            f = self.narrow_ref(f, "__call__") or f
        if isinstance(f, V) and f.k == "ref" and is_ext(f.cls, "weakref.ref"):
            return self.deref(f)
        if isinstance(f, V) and f.k == "any" and f.ty.k in ("callable", "user", "any"):
            return self.user_call(f, args)
        if f is None:
            self.raise_exc("builtins.TypeError")
        self.unsupported(f"call of {f!r}", node)

    def deref(self, w):
        st = self.st
        z = st.rd(K_WTGT, w.z, "I")
        st.add(z3.And(z != 0, z >= -st.alloc))
        st.bound(z, -st.alloc)
        ty = w.ty.args[0] if w.ty.args else T_ANY
        alive = self.eng.alive(self, z)
        if isinstance(alive, z3.ExprRef):
            alive = self.branch(alive)
        if alive or self.choose(2) == 0:
            if ty.k == "ref":
                return self.mkref(z, ty)
            self.unsupported("weak reference to an object of unknown type")
        self.spec_event("deref_dead", target=z)
        return None

    def user_call(self, f, args):
        zs = [self.to_val(a) for a in args]
        for a in args:
            self.escape(a)
        self.spec_event("usercall", fn=f, args=args, zargs=zs)
        self.eng.user_code(self)
        if self.choose(2) == 1:
            e = self.unknown_exc("builtins.Exception", "usererr")
            self.spec_event("usercall_raised", fn=f, exc=e)
            raise PyRaise(e, "user callable")
        uf = z3.Function(f"APPLY{len(zs)}", *([Val] * (len(zs) + 1) + [I, Val]))
        seq = z3.IntVal(self.st.name("call").split("!")[1])
        r = uf(self.to_val(f), *zs, self.st.const("callno", "I"))
        self.st.add(self.type_fact(r, T_USER))
        self.alloc_fact_val(r)
        v = V("any", r, T_USER)
        self.spec_event("usercall_done", fn=f, args=args, result=v)
        return v

    # ------------------------------------------------------------- builtin functions
    def f_builtins_isinstance(self, a, kw, n):
        return self.mkbool(self.isinstance_(a[0], a[1]))

    def f_builtins_issubclass(self, a, kw, n):
        self.unsupported("issubclass", n)

    def f_builtins_callable(self, a, kw, n):
        return True

    def f_builtins_len(self, a, kw, n):
        r = self.len_of(a[0])
        return r if isinstance(r, int) else self.mkint(r)

    def f_builtins_id(self, a, kw, n):
        if isinstance(a[0], V) and a[0].k == "ref":
            z = IDOF(a[0].z)
            self.st.add(UNID(z) == a[0].z)
            return V("int", z, T_INT)
        return self.fresh(T_INT, "id")

    def f_builtins_hash(self, a, kw, n):
        x = a[0]
        if isinstance(x, V) and x.k == "any":
            opts = x.ty.args if x.ty.k == "union" else (x.ty,)
            if any(o.k == "ref" for o in opts):
                x = self.narrow_ref(x)
        if isinstance(x, V) and x.k == "ref":
            if isinstance(x.cls, PyClass):
                m = x.cls.lookup("__hash__")
                if m is not None:
                    return self.call_pyfunc(m, [x], {})
                if x.cls.lookup("__eq__") is not None:
                    self.raise_exc("builtins.TypeError", origin="unhashable")
            z = HASH(x.z)
            self.st.add(UNHASH(z) == x.z)
            return V("int", z, T_INT)
        return self.fresh(T_INT, "hash")

    def str_of(self, v):
        if isinstance(v, str) or (isinstance(v, V) and v.k == "str"):
            return v
        if isinstance(v, bool):
            return str(v)
        if isinstance(v, int) or (isinstance(v, V) and v.k == "int"):
            z = self.zint(v)
            s = STRI(z)
            self.st.add(UNSTRI(s) == z)
            return V("str", s, T_STR)
        return self.fresh(T_STR, "str")

    def f_builtins_str(self, a, kw, n):
        return self.str_of(a[0]) if a else ""

    def f_builtins_repr(self, a, kw, n):
        return self.fresh(T_STR, "repr")

    def f_builtins_format(self, a, kw, n):
        return self.fresh(T_STR, "fmt")

    def f_builtins_print(self, a, kw, n):
        return None

    def f_builtins_type(self, a, kw, n):
        v = a[0]
        if isinstance(v, V) and v.k == "ref":
            return v.cls if isinstance(v.cls, PyClass) else Ext(v.cls)
        m = {"int": "builtins.int", "bool": "builtins.bool", "str": "builtins.str", "real": "builtins.float",
             "td": "datetime.timedelta"}
        k = self.kind_of(v)[0]
        if k in m:
            return Ext(m[k])
        if isinstance(v, V) and v.k == "any":
            # a class object of an opaque value: a fresh native-like value
            return V("any", z3.Function("TYPEOF", Val, Val)(v.z), T_ANY)
        return Native(f"type({v!r})", "type")

    def f_builtins_bool(self, a, kw, n):
        if not a:
            return False
        t = self.truth_z(a[0])
        return t if isinstance(t, bool) else self.mkbool(t)

    def f_builtins_int(self, a, kw, n):
        if not a:
            return 0
        k, v = self.kind_of(a[0])
        if k in ("int", "bool"):
            return v if isinstance(v, int) and not isinstance(v, bool) else self.mkint(self.zint(v))
        if k == "real":
            if isinstance(v, float):
                return int(v)
            fl = z3.ToInt(v.z)
            r = z3.If(v.z >= 0, fl, z3.If(z3.ToReal(fl) == v.z, fl, fl + 1))
            x = self.st.const("trunc", "I")
            self.st.add(x == r)
            return V("int", x, T_INT)
        if k == "str":
            if isinstance(v, V):
                z = UNSTRI(v.z)
                if self.st.must(STRI(z) == v.z):
                    return V("int", z, T_INT)
            if self.choose(2) == 1:
                self.raise_exc("builtins.ValueError")
            return self.fresh(T_INT, "parsed")
        self.unsupported("int()", n)

    def f_builtins_float(self, a, kw, n):
        k, v = self.kind_of(a[0]) if a else ("int", 0)
        if k in ("int", "bool"):
            return self.rounded(z3.ToReal(self.zint(v))) if isinstance(v, V) else float(v)
        if k == "real":
            return v
        self.unsupported("float()", n)

    def f_builtins_round(self, a, kw, n):
        k, v = self.kind_of(a[0])
        if len(a) > 1 and a[1] is not None:
            self.unsupported("round with digits", n)
        if not isinstance(v, V):
            return round(v)
        if k in ("int", "bool"):
            return v
        if k == "real":
            r = self.st.const("rnd", "I")
            x = z3.ToReal(r) * 2 - v.z * 2
            self.st.add(z3.And(x <= 1, x >= -1))
            # ties go to even
            q = self.st.const("even", "I")
            self.st.add(z3.Implies(z3.Or(x == 1, x == -1), r == 2 * q))
            self.spec_event("round", value=v, result=r)
            return V("int", r, T_INT)
        self.unsupported("round()", n)

    def f_math_floor(self, a, kw, n):
        k, v = self.kind_of(a[0])
        if k == "real" and isinstance(v, V):
            x = self.st.const("floor", "I")
            self.st.add(x == z3.ToInt(v.z))
            return V("int", x, T_INT)
        if not isinstance(v, V):
            import math
            return math.floor(v)
        return v

    def f_math_ceil(self, a, kw, n):
        k, v = self.kind_of(a[0])
        if k == "real" and isinstance(v, V):
            x = self.st.const("ceil", "I")
            self.st.add(x == -z3.ToInt(-v.z))
            return V("int", x, T_INT)
        if not isinstance(v, V):
            import math
            return math.ceil(v)
        return v

    def f_builtins_divmod(self, a, kw, n):
        return (self.binop(ast.FloorDiv(), a[0], a[1]), self.binop(ast.Mod(), a[0], a[1]))

    def f_builtins_abs(self, a, kw, n):
        k, v = self.kind_of(a[0])
        if not isinstance(v, V):
            return abs(v)
        z = z3.If(v.z >= 0, v.z, -v.z)
        return V(v.k, z3.simplify(z), v.ty)

    def _minmax(self, a, kw, less):
        if kw and set(kw) - {"default"}:
            self.unsupported("min/max with key")
        if len(a) == 1:
            items = self.concrete_items(a[0], soft=True)
            if items is None:
                self.unsupported("min/max of an iterable of unknown length")
            if not items:
                if "default" in kw:
                    return kw["default"]
                self.raise_exc("builtins.ValueError")
        else:
            items = a
        r = items[0]
        for x in items[1:]:
            c = self.compare(ast.Lt() if less else ast.Gt(), x, r)
            if isinstance(c, bool):
                r = x if c else r
                continue
            kr, r2 = self.kind_of(r)
            kx, x2 = self.kind_of(x)
            if kr in ("int", "bool") and kx in ("int", "bool"):
                r = self.mkint(z3.If(c, self.zint(x2), self.zint(r2)))
            elif kr == kx == "td":
                r = V("td", z3.If(c, x2.z, r2.z), T_TD)
            else:
                r = x if self.branch(c) else r
        return r

    def f_builtins_min(self, a, kw, n):
        return self._minmax(a, kw, True)

    def f_builtins_max(self, a, kw, n):
        return self._minmax(a, kw, False)

    def f_builtins_list(self, a, kw, n):
        if not a:
            return self.new_list([], site=n)
        return self.to_list(a[0], site=n)

    def f_builtins_tuple(self, a, kw, n):
        if not a:
            return ()
        c = self.concrete_items(a[0], soft=True)
        if c is not None:
            return tuple(c)
        l = self.to_list(a[0], site=n)
        return V("ref", l.z, Ty("ref", "tuple*", l.ty.args), True)

    def f_builtins_sorted(self, a, kw, n):
        self.unsupported("sorted", n)

    def f_builtins_set(self, a, kw, n, cls="builtins.set"):
        if not a:
            return self.new_set(site=n, cls=cls)
        v = a[0]
        if isinstance(v, V) and v.k == "any":
            v = self.narrow_ref(v, "__iter__")
        if isinstance(v, V) and v.k == "ref" and is_ext(v.cls, *SETS):
            return self.copy_set(v, cls)
        if isinstance(v, V) and v.k == "ref" and is_ext(v.cls, "typing.Iterable"):
            # an opaque user iterable
            n2 = self.new_set(cls=cls, ty=v.ty.args[:1])
            has, card = self.st.const("itset", "HV"), self.st.const("itcard", "I")
            self.st.wr(K_HAS, n2.z, has, "HV")
            self.st.wr(K_CARD, n2.z, card, "I")
            self.spec_event("iter_to_set", src=v, has=has)
            return n2
        out = self.new_set(site=n, cls=cls)
        self.set_update_from(out, v, n)
        return out

    def set_update_from(self, out, v, n):
        src = self.iter_src(v)
        self.for_loop(("settoset", id(n)), None, lambda x: self.set_add(out, x), lambda: None,
                      self.cur_frame, set(), src=src)

    def f_builtins_frozenset(self, a, kw, n):
        return self.f_builtins_set(a, kw, n, "builtins.frozenset")

    def f_builtins_dict(self, a, kw, n):
        if not a and not kw:
            return self.new_dict(site=n)
        if a and isinstance(a[0], V) and a[0].k == "ref" and is_ext(a[0].cls, *DICTS) and not kw:
            return self.copy_dict(a[0])
        if a and not kw:
            out = self.new_dict(site=n)

            def put(x):
                k, v = self.unpack(x, [None, None]) if not isinstance(x, tuple) else x
                self.setitem(out, k, v)
            self.for_loop(("todict", id(n)), a[0], put, lambda: None, self.cur_frame, set())
            return out
        self.unsupported("dict()", n)

    def f_builtins_enumerate(self, a, kw, n):
        start = a[1] if len(a) > 1 else kw.get("start", 0)
        s = self.iter_src(a[0])
        sz = self.zint(start)
        if s.concrete is not None:
            return IterSrc(concrete=[(self.mkint(sz + i), x) for i, x in enumerate(s.concrete)])
        return IterSrc(s.n, lambda i: (self.mkint(sz + i), s.get(i)),
                       [(p, (self.mkint(sz + p), x)) for p, x in s.focus], check=s.check, kind=s.kind, has=s.has,
                       idx=s.idx)

    def f_builtins_zip(self, a, kw, n):
        ss = [self.iter_src(x) for x in a]
        if all(s.concrete is not None for s in ss):
            return IterSrc(concrete=[tuple(t) for t in zip(*[s.concrete for s in ss])])
        self.unsupported("zip of unknown length", n)

    def f_builtins_reversed(self, a, kw, n):
        s = self.iter_src(a[0])
        if s.concrete is not None:
            return IterSrc(concrete=list(reversed(s.concrete)))
        return IterSrc(s.n, lambda i: s.get(s.n - 1 - i), [(s.n - 1 - p, x) for p, x in s.focus], check=s.check)

    def f_builtins_range(self, a, kw, n):
        if all(isinstance(x, int) for x in a):
            r = range(*a)
            if len(r) <= 12:
                return IterSrc(concrete=list(r))
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) > 2 and a[2] != 1:
            self.unsupported("range with a step", n)
        lo, hi = self.zint(lo), self.zint(hi)
        cnt = z3.simplify(z3.If(hi > lo, hi - lo, 0))
        return IterSrc(cnt, lambda i: self.mkint(lo + i))

    def f_itertools_islice(self, a, kw, n):
        s = self.iter_src(a[0])
        if len(a) != 2:
            self.unsupported("islice", n)
        if s.concrete is not None and isinstance(a[1], int):
            return IterSrc(concrete=s.concrete[:a[1]])
        k = self.zint(a[1])
        cnt = z3.simplify(z3.If(k < s.n, k, s.n)) if s.n is not None else k
        return IterSrc(cnt, s.get, [], check=s.check)

    def f_itertools_chain(self, a, kw, n):
        ss = [self.iter_src(x) for x in a]
        if all(s.concrete is not None for s in ss):
            return IterSrc(concrete=[x for s in ss for x in s.concrete])
        self.unsupported("chain", n)

    def _anyall(self, a, n, is_any):
        src = a[0]
        if isinstance(src, GenExpr):
            g = src

            class Found(Exception):
                pass

            def emit(f2):
                if self.truth(self.eval(g.node.elt, f2)) == is_any:
                    raise _Found()
            try:
                self.comprehend(g.node, g.node.generators, g.frame, emit)
            except _Found:
                return is_any
            return not is_any
        s = self.iter_src(src)
        if s.concrete is not None:
            for x in s.concrete:
                if self.truth(x) == is_any:
                    return is_any
            return not is_any

        def bind(x):
            if self.truth(x) == is_any:
                raise _Found()
        try:
            self.for_loop(("anyall", id(n)), None, bind, lambda: None, self.cur_frame, set(), src=s)
        except _Found:
            return is_any
        return not is_any

    def f_builtins_any(self, a, kw, n):
        return self._anyall(a, n, True)

    def f_builtins_all(self, a, kw, n):
        return self._anyall(a, n, False)

    def f_builtins_sum(self, a, kw, n):
        c = self.concrete_items(a[0], soft=True)
        if c is None:
            self.unsupported("sum of unknown length", n)
        r = a[1] if len(a) > 1 else 0
        for x in c:
            r = self.binop(ast.Add(), r, x)
        return r

    def f_builtins_next(self, a, kw, n):
        if isinstance(a[0], IterSrc) or isinstance(a[0], (GenExpr,)):
            s = self.iter_src(a[0])
            if s.concrete is not None:
                if s.concrete:
                    return s.concrete[0]
                if len(a) > 1:
                    return a[1]
                self.raise_exc("builtins.StopIteration")
            if self.branch(s.n > 0):
                return s.get(z3.IntVal(0))
            if len(a) > 1:
                return a[1]
            self.raise_exc("builtins.StopIteration")
        self.unsupported("next()", n)

    def f_builtins_iter(self, a, kw, n):
        return self.iter_src(a[0])

    def f_builtins_getattr(self, a, kw, n):
        if isinstance(a[1], str):
            return self.getattr(a[0], a[1])
        self.unsupported("getattr", n)

    def f_builtins_hasattr(self, a, kw, n):
        self.unsupported("hasattr", n)

    def f_builtins_setattr(self, a, kw, n):
        if isinstance(a[1], str):
            return self.setattr(a[0], a[1], a[2])
        self.unsupported("setattr", n)

    def f_builtins_object(self, a, kw, n):
        return self.alloc(Ty("ref", "builtins.object"))

    def f_builtins_super(self, a, kw, n):
        if len(a) == 2:
            return SuperObj(a[0], a[1])
        self.unsupported("super()", n)

    def f_builtins_anext(self, a, kw, n):
        v = a[0]
        if isinstance(v, V) and v.k == "any":
            v = self.narrow_ref(v, "__anext__")
        if isinstance(v, V) and v.k == "ref" and isinstance(v.cls, PyClass):
            m = v.cls.lookup("__anext__")
            if m is not None:
                c = self.call_pyfunc(m, [v], {})
                if isinstance(c, Coro):
                    c.info.setdefault("anext", v)
                    return c
        if isinstance(v, V) and v.k == "ref" and is_ext(v.cls, "typing.AsyncGenerator", "typing.AsyncIterator"):
            return Coro(lambda: self.eng.agen_next(self, v), desc="anext", anext=v)
        self.unsupported("anext()", n)

    def f_builtins_aiter(self, a, kw, n):
        return self.call(self.getattr(a[0], "__aiter__"), [], {})

    def f_contextlib_suppress(self, a, kw, n):
        return Native("suppress", "suppress", list(a))

    def f_pathlib_Path(self, a, kw, n):
        x = a[0] if a else "."
        z = self.to_val(x)
        if isinstance(x, V) and x.k == "ref" and is_ext(x.cls, "pathlib.Path"):
            return x
        p = PATHADDR(z)
        self.st.add(p > 0)
        self.st.add(ISA("pathlib.Path")(p))
        return self.mkref(p, Ty("ref", "pathlib.Path"))

    def f_copy_copy(self, a, kw, n):
        return self.method(a[0], "copy", [], {}, n)

    # ------------------------------------------------------------- collections etc
    def f_collections_deque(self, a, kw, n):
        mx = kw.get("maxlen", a[1] if len(a) > 1 else None)
        if mx is None:
            m = -1
        else:
            m = self.zint(mx)
            if self.branch(m < 0):
                self.raise_exc("builtins.ValueError", origin="maxlen must be non-negative")
        v = self.new_list([], cls="collections.deque", maxlen=m if not isinstance(m, int) else m, site=n)
        it = kw.get("iterable", a[0] if a else None)
        if it is not None:
            self.seq_extend(v, it)
        return v

    def f_weakref_ref(self, a, kw, n):
        t = a[0]
        if len(a) > 1:
            self.unsupported("weak reference callback", n)
        if not (isinstance(t, V) and t.k == "ref"):
            self.unsupported("weak reference to a non-object", n)
        w = self.alloc(Ty("ref", "weakref.ref", (t.ty,)))
        self.st.wr(K_WTGT, w.z, t.z, "I")
        return w

    def f_datetime_timedelta(self, a, kw, n):
        names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
        mul = {"days": 86400 * 10**6, "seconds": 10**6, "microseconds": 1, "milliseconds": 1000,
               "minutes": 60 * 10**6, "hours": 3600 * 10**6, "weeks": 7 * 86400 * 10**6}
        vals = dict(zip(names, a))
        vals.update(kw)
        tot = z3.IntVal(0)
        for k, v in vals.items():
            kk, v = self.kind_of(v)
            if kk in ("int", "bool"):
                tot = tot + self.zint(v) * mul[k]
            elif kk == "real":
                x = self.zreal(v) * mul[k]
                r = self.st.const("tdus", "I")
                d = z3.ToReal(r) - x
                ax = z3.If(x >= 0, x, -x)
                tol = z3.Q(1, 2) + (ax * 4 * EPS if k != "microseconds" else z3.RealVal(0))
                self.st.add(z3.And(d <= tol, d >= -tol))
                tot = tot + r
            else:
                self.raise_exc("builtins.TypeError")
        return V("td", z3.simplify(tot), T_TD)

    # ------------------------------------------------------------- asyncio
    def f_asyncio_Condition(self, a, kw, n):
        if a or kw:
            self.unsupported("Condition with a lock", n)
        v = self.alloc(Ty("ref", "asyncio.Condition"))
        for k in (K_CUN, K_CPEND, K_CEP):
            self.st.wr(k, v.z, z3.IntVal(0), "I")
        return v

    def f_asyncio_Event(self, a, kw, n):
        v = self.alloc(Ty("ref", "asyncio.Event"))
        self.st.wr(K_ESET, v.z, z3.BoolVal(False), "B")
        self.st.wr(K_EUN, v.z, z3.IntVal(0), "I")
        self.st.wr(K_ESETS, v.z, z3.IntVal(0), "I")
        return v

    def f_asyncio_get_running_loop(self, a, kw, n):
        z = z3.Int("LOOP")
        self.st.add(z > 0)
        self.st.bound(z, 1)
        return self.mkref(z, Ty("ref", "asyncio.AbstractEventLoop"))

    f_asyncio_get_event_loop = f_asyncio_get_running_loop

    def f_asyncio_sleep(self, a, kw, n):
        d = a[0] if a else kw.get("delay")

        def run():
            self.spec_event("sleep", arg=d)
            self.suspend("sleep", arg=d)
            return a[1] if len(a) > 1 else kw.get("result")
        return Coro(run, desc="sleep")

    def f_asyncio_create_task(self, a, kw, n):
        coro = a[0]
        if not isinstance(coro, Coro):
            self.unsupported("create_task of " + repr(coro), n)
        st = self.st
        t = self.alloc(T_TASK)
        self.escape(t)
        for k in ("args",):
            for x in coro.info.get(k, ()):
                self.escape(x)
        name = kw.get("name")
        if name is not None:
            st.add(TNAME(t.z) == self.zstr(name))
        st.wr(K_DONE, t.z, z3.BoolVal(False), "B")
        src, kind = self.task_src(coro)
        if src is not None:
            st.add(TSRC(t.z) == src.z)
        st.add(TKIND(t.z) == str_id(kind or "?"))
        self.spec_event("create_task", task=t, coro=coro, src=src, tkind=kind)
        return t

    f_asyncio_ensure_future = f_asyncio_create_task

    def task_src(self, coro):
        if "anext" in coro.info:
            return coro.info["anext"], "anext"
        fn = coro.info.get("fn")
        args = coro.info.get("args") or ()
        if fn is not None and args and isinstance(args[0], V) and args[0].k == "ref":
            return args[0], fn.name
        return None, None

    def task(self, v):
        if isinstance(v, V) and v.k == "any":
            v = self.narrow_ref(v, "result")
        return v

    def task_done(self, t):
        return self.st.rd(K_DONE, t.z, "B")

    def task_exc(self, t):
        z = TEXC(t.z)
        self.st.add(self.type_fact(z, T_OPT_EXC))
        self.alloc_fact_val(z)
        # what a task raised is never a cancellation (that is TCANC)
        self.st.add(z3.Implies(Val.is_R(z), z3.Not(ISA("asyncio.CancelledError")(Val.a(z)))))
        self.isa_facts(Val.a(z), "asyncio.CancelledError")
        return z

    def task_result(self, t):
        if not self.branch(self.task_done(t)):
            self.raise_exc("asyncio.InvalidStateError")
        if self.branch(TCANC(t.z)):
            self.raise_exc("asyncio.CancelledError", origin="result of a cancelled task")
        z = self.task_exc(t)
        if self.branch(Val.is_R(z)):
            e = self.mkref(Val.a(z), T_EXC)
            raise PyRaise(e, "task error")
        r = TRES(t.z)
        rt = t.ty.args[0] if t.ty.args else T_USER
        if rt.k == "any":
            rt = T_USER
        self.st.add(self.type_fact(r, rt))
        self.alloc_fact_val(r)
        return self.from_val(r, rt)

    def await_task(self, t):
        self.spec_event("await_tasks", tasks=t)
        self.suspend("await_task", task=t)
        self.st.add(self.task_done(t))
        return self.task_result(t)

    def task_set(self, v, n):
        """A set of tasks from the argument of wait()."""
        if isinstance(v, V) and v.k == "any":
            v = self.narrow_ref(v, "__iter__")
        if isinstance(v, V) and v.k == "ref" and is_ext(v.cls, *SETS):
            return v
        s = self.new_set(ty=(T_TASK,))
        self.set_update_from(s, v, n)
        return s

    def f_asyncio_wait(self, a, kw, n):
        fs = a[0] if a else kw["fs"]
        rw = kw.get("return_when")
        timeout = kw.get("timeout")

        def run():
            st = self.st
            s = self.task_set(fs, n)
            has, card = self.col(s)
            if self.branch(card == 0):
                self.raise_exc("builtins.ValueError", origin="wait() of an empty set")
            all_done = not (isinstance(rw, Ext) and rw.name in ("asyncio.FIRST_COMPLETED",
                                                                "asyncio.FIRST_EXCEPTION"))
            first = isinstance(rw, Ext) and rw.name == "asyncio.FIRST_COMPLETED"
            self.spec_event("await_tasks", tasks=s, has=has, all=all_done, first=first, timeout=timeout)
            self.suspend("wait", has=has, all=all_done)
            et = s.ty.args[:1] or (T_TASK,)
            d, p = self.new_set(ty=et), self.new_set(ty=et)
            hd, hp = st.const("done", "HV"), st.const("pend", "HV")
            cd, cp = st.const("ndone", "I"), st.const("npend", "I")
            done = lambda x: z3.Select(st.cur(K_DONE, "B"), Val.a(x))

            def ax(x):
                return z3.And(z3.Select(has, x) == z3.Or(z3.Select(hd, x), z3.Select(hp, x)),
                              z3.Not(z3.And(z3.Select(hd, x), z3.Select(hp, x))),
                              z3.Implies(z3.Select(hd, x), done(x)),
                              z3.Implies(z3.Select(hp, x), z3.Not(done(x))))
            x = z3.Const("x!q", Val)
            for h in (has, hd, hp):
                st.add(z3.ForAll([x], ax(x), patterns=[z3.Select(h, x)]))
            for f in self.eng.inst_vals(self):
                st.add(ax(f))
            st.add(z3.And(cd >= 0, cp >= 0, cd + cp == card))
            if timeout is None:
                st.add(cd >= 1)
                if all_done:
                    st.add(cp == 0)
            st.wr(K_HAS, d.z, hd, "HV")
            st.wr(K_CARD, d.z, cd, "I")
            st.wr(K_HAS, p.z, hp, "HV")
            st.wr(K_CARD, p.z, cp, "I")
            self.spec_event("waited", has=has, hd=hd, hp=hp)
            return (d, p)
        return Coro(run, desc="wait")

    def f_asyncio_gather(self, a, kw, n):
        def run():
            st = self.st
            if not a:
                return self.new_list([])
            if len(a) == 1 and isinstance(a[0], StarArg):
                s = self.task_set(a[0].v, n)
            else:
                s = self.new_set(ty=(T_TASK,))
                for x in a:
                    if isinstance(x, StarArg):
                        self.unsupported("gather with mixed arguments", n)
                    if isinstance(x, Coro):
                        x = self.f_asyncio_create_task([x], {}, n)
                    self.set_add(s, x)
            has, card = self.col(s)
            out = self.new_list([], ty=(T_ANY,))
            if self.branch(card == 0):
                return out
            self.spec_event("await_tasks", tasks=s, has=has, all=True, gather=True)
            self.suspend("gather", has=has, all=True)
            x = z3.Const("x!q", Val)
            st.add(z3.ForAll([x], z3.Implies(z3.Select(has, x), z3.Select(st.cur(K_DONE, "B"), Val.a(x))),
                             patterns=[z3.Select(has, x)]))
            for f in self.eng.inst_vals(self):
                st.add(z3.Implies(z3.Select(has, f), z3.Select(st.cur(K_DONE, "B"), Val.a(f))))
            if kw.get("return_exceptions") is not True:
                if self.choose(2) == 1:
                    e = self.unknown_exc("builtins.BaseException", "gathered")
                    raise PyRaise(e, "gather")
            self.spec_event("waited", has=has, hd=has, hp=None)
            ln = st.const("gl", "I")
            st.add(ln == card)
            st.wr(K_HI, out.z, ln, "I")
            st.wr(K_ARR, out.z, st.const("garr", "AV"), "AV")
            st.wr(K_MEM, out.z, st.const("gmem", "HV"), "HV")
            return out
        return Coro(run, desc="gather")

    def f_asyncio_current_task(self, a, kw, n):
        return self.mkref(z3.Int("CURTASK"), T_TASK)

    def f_watchfiles_awatch(self, a, kw, n):
        g = self.alloc(Ty("ref", "typing.AsyncGenerator"))
        self.escape(g)
        for x in list(a) + list(kw.values()):
            self.escape(x)
        self.spec_event("awatch", gen=g, args=a, kw=kw)
        return g

    # ================================================================ methods
    def method(self, o, name, a, kw, n):
        st = self.st
        if isinstance(o, V) and o.k == "any":
            o = self.narrow_ref(o, name)
        if isinstance(o, Native):
            if o.kind in ("logger", "static", "opaque") or isinstance(o, EnumMember):
                if o.kind == "static" and isinstance(o.payload, Ext) and not o.payload.name.startswith("logging"):
                    self.unsupported(f"method {name} of {o!r}", n)
                return None
            if o.kind == "suppress":
                return None
        if isinstance(o, SuperObj):
            if name == "__init__":
                return None
            if name in ("__str__", "__repr__"):
                return self.fresh(T_STR, "str")
            self.unsupported(f"super().{name}", n)
        if isinstance(o, DictView):
            self.unsupported(f"method {name} of a dict view", n)
        if isinstance(o, (str,)) or (isinstance(o, V) and o.k == "str"):
            if name == "join":
                self.consume_iter(a[0])
            if name in ("startswith", "endswith", "isdigit"):
                return V("bool", st.const("strb", "B"), T_BOOL)
            if name in ("split",):
                self.unsupported("str.split", n)
            return self.fresh(T_STR, "strm")
        if isinstance(o, V) and o.k == "td":
            if name == "total_seconds":
                return self.rounded(z3.ToReal(o.z) / 1000000)
            self.unsupported(f"timedelta.{name}", n)
        if isinstance(o, V) and o.k in ("int", "real", "bool") or isinstance(o, (int, float)):
            if name == "__str__":
                return self.str_of(o)
            if name == "is_integer":
                return V("bool", st.const("isint", "B"), T_BOOL)
            self.unsupported(f"number method {name}", n)
        if isinstance(o, V) and o.k == "ref":
            c = o.cls
            if isinstance(c, PyClass):
                if name in ("__str__", "__repr__"):
                    return self.fresh(T_STR, "str")
                if name == "__hash__":
                    return self.f_builtins_hash([o], {}, n)
                if name in ("with_traceback",):
                    return o
                if name in ("add_note",):
                    return None
                if name == "__init__":
                    return None
                if name == "__eq__":
                    return self.mkbool(self.eq(o, a[0]))
                self.unsupported(f"method {name} of {c.name}", n)
            grp = None
            if c in SEQ:
                grp = "seq"
            elif c in SETS:
                grp = "set"
            elif c in DICTS:
                grp = "dict"
            elif c == "asyncio.Condition":
                grp = "cv"
            elif c == "asyncio.Event":
                grp = "ev"
            elif c in ("asyncio.Task", "asyncio.Future"):
                grp = "task"
            elif c == "asyncio.AbstractEventLoop":
                grp = "loop"
            elif c in ("typing.AsyncGenerator", "typing.AsyncIterator"):
                grp = "agen"
            elif c == "pathlib.Path":
                if name in ("__str__", "as_posix", "name"):
                    return self.fresh(T_STR, "path")
                self.unsupported(f"Path.{name}", n)
            elif isinstance(c, str) and ext_exc(c) is not None:
                if name == "with_traceback":
                    return o
                return None
            if grp:
                m = getattr(self, f"m_{grp}_{name}", None)
                if m is not None:
                    return m(o, a, kw, n)
            self.unsupported(f"method {name} of {c}", n)
        if isinstance(o, (PyFunc, BoundMethod)):
            self.unsupported(f"method {name} of a function", n)
        if isinstance(o, tuple):
            if name == "index" or name == "count":
                self.unsupported("tuple." + name, n)
        if isinstance(o, Coro) and name == "close":
            return None
        if o is None:
            self.raise_exc("builtins.AttributeError", origin=f"None.{name}")
        self.unsupported(f"method {name} of {o!r}", n)

    def consume_iter(self, x):
        """An iterable is consumed for a result that does not matter."""
        if isinstance(x, GenExpr):
            self.comprehend(x.node, x.node.generators, x.frame, lambda f2: self.eval(x.node.elt, f2))

    # --- sequences
    def m_seq_append(self, o, a, kw, n):
        self.seq_append(o, a[0])

    def m_seq_appendleft(self, o, a, kw, n):
        self.seq_appendleft(o, a[0])

    def m_seq_popleft(self, o, a, kw, n):
        return self.seq_popleft(o)

    def m_seq_pop(self, o, a, kw, n):
        if a and a[0] == 0:
            return self.seq_popleft(o)
        if a and a[0] != -1:
            self.unsupported("pop(i)", n)
        return self.seq_pop(o)

    def m_seq_clear(self, o, a, kw, n):
        self.seq_clear(o)

    def m_seq_extend(self, o, a, kw, n):
        self.seq_extend(o, a[0])

    def m_seq_copy(self, o, a, kw, n):
        return self.copy_seq(o)

    def m_seq___len__(self, o, a, kw, n):
        return self.mkint(self.len_of(o))

    def m_seq___bool__(self, o, a, kw, n):
        return self.mkbool(self.len_of(o) != 0)

    # --- sets
    def m_set_add(self, o, a, kw, n):
        self.set_add(o, a[0])

    def m_set_discard(self, o, a, kw, n):
        self.set_discard(o, a[0])

    def m_set_remove(self, o, a, kw, n):
        self.set_discard(o, a[0], strict=True)

    def m_set_pop(self, o, a, kw, n):
        return self.set_pop(o)

    def m_set_clear(self, o, a, kw, n):
        self.set_clear(o)

    def m_set_copy(self, o, a, kw, n):
        return self.copy_set(o)

    def m_set_update(self, o, a, kw, n):
        for x in a:
            self.set_update(o, x)

    def m_set_union(self, o, a, kw, n):
        r = self.copy_set(o)
        for x in a:
            self.set_update(r, x)
        return r

    def m_set_difference(self, o, a, kw, n):
        return self.set_op(ast.Sub(), o, a[0])

    def m_set_difference_update(self, o, a, kw, n):
        self.ext_inplace(o, ast.Sub(), a[0])

    # --- dicts
    def m_dict_items(self, o, a, kw, n):
        return DictView(o, "items")

    def m_dict_keys(self, o, a, kw, n):
        return DictView(o, "keys")

    def m_dict_values(self, o, a, kw, n):
        return DictView(o, "values")

    def m_dict_get(self, o, a, kw, n):
        has, card = self.col(o)
        z = self.to_val(a[0])
        if self.branch(z3.Select(has, z)):
            return self.elem_out(o, z3.Select(self.st.rd(K_MAP, o.z, "MV"), z), 1)
        return a[1] if len(a) > 1 else None

    def m_dict_pop(self, o, a, kw, n):
        has, card = self.col(o)
        z = self.to_val(a[0])
        if self.branch(z3.Select(has, z)):
            x = self.elem_out(o, z3.Select(self.st.rd(K_MAP, o.z, "MV"), z), 1)
            self.set_discard(o, a[0])
            return x
        if len(a) > 1:
            return a[1]
        self.raise_exc("builtins.KeyError")

    def m_dict_setdefault(self, o, a, kw, n):
        has, card = self.col(o)
        z = self.to_val(a[0])
        if self.branch(z3.Select(has, z)):
            return self.elem_out(o, z3.Select(self.st.rd(K_MAP, o.z, "MV"), z), 1)
        self.setitem(o, a[0], a[1] if len(a) > 1 else None)
        return a[1] if len(a) > 1 else None

    def m_dict_clear(self, o, a, kw, n):
        self.set_clear(o)

    def m_dict_copy(self, o, a, kw, n):
        return self.copy_dict(o)

    # --- condition variables
    def held(self):
        return self.st.__dict__.setdefault("held_locks", [])

    def holds(self, o):
        for h in self.held():
            if z3.eq(h, o.z) or self.st.must(h == o.z):
                return h
        return None

    def m_cv_acquire(self, o, a, kw, n):
        def run():
            h = self.held()
            for x in h:
                if self.branch(x == o.z):
                    self.prove(z3.BoolVal(False), "no-self-deadlock", info="acquiring a lock already held")
                    raise Cut()
            h.append(o.z)
            return True
        return Coro(run, desc="acquire")

    def m_cv___aenter__(self, o, a, kw, n):
        c = self.m_cv_acquire(o, a, kw, n)

        def run():
            c.run()
            return None
        return Coro(run)

    def m_cv_release(self, o, a, kw, n):
        h = self.holds(o)
        if h is None:
            self.raise_exc("builtins.RuntimeError", origin="release of an unacquired lock")
        self.held().remove(h)
        return None

    def m_cv___aexit__(self, o, a, kw, n):
        def run():
            self.m_cv_release(o, [], {}, n)
            return None
        return Coro(run)

    def m_cv_locked(self, o, a, kw, n):
        return self.holds(o) is not None

    def m_cv_wait(self, o, a, kw, n):
        def run():
            st = self.st
            h = self.holds(o)
            if h is None:
                self.raise_exc("builtins.RuntimeError", origin="wait without the lock")
            self.held().remove(h)
            un = st.rd(K_CUN, o.z, "I")
            st.add(un >= 0)
            st.wr(K_CUN, o.z, un + 1, "I")
            self.spec_event("cv_wait", cv=o)
            self.suspensions += 1
            if self.no_suspend:
                self.unsupported("suspension")
            self.eng.suspend(self, "cv_wait", {"cv": o})
            k = self.choose(3)
            self.held().append(o.z)
            pend = st.rd(K_CPEND, o.z, "I")
            if k in (0, 1):
                st.add(pend >= 1)
                st.wr(K_CPEND, o.z, pend - 1, "I")
            self.spec_event("cv_resumed", cv=o, cancelled=k > 0)
            if k:
                self.eng.cancelled(self, "cv_wait", {})
                self.raise_exc("asyncio.CancelledError", origin="cv_wait")
            return True
        return Coro(run, desc="cv.wait")

    def m_cv_wait_for(self, o, a, kw, n):
        pred = a[0]

        def run():
            mod = self.eng.stub_module()
            fn = mod.env["wait_for"]
            fr = self.bind_args(fn, [o, pred], {})
            return self.run_body(fn, fr)
        return Coro(run, desc="cv.wait_for")

    def m_cv_notify(self, o, a, kw, n):
        st = self.st
        k = self.zint(a[0] if a else kw.get("n", 1))
        if self.holds(o) is None:
            self.raise_exc("builtins.RuntimeError", origin="notify without the lock")
        un, pend = st.rd(K_CUN, o.z, "I"), st.rd(K_CPEND, o.z, "I")
        st.add(z3.And(un >= 0, pend >= 0))
        m = st.const("ntf", "I")
        st.add(m == z3.If(k < un, z3.If(k < 0, 0, k), un))
        self.spec_event("notify", cv=o, n=k, un=un)
        st.wr(K_CUN, o.z, z3.simplify(un - m), "I")
        st.wr(K_CPEND, o.z, z3.simplify(pend + m), "I")
        ep = st.rd(K_CEP, o.z, "I")
        # when everybody was woken, all the waiters registered so far are
        st.wr(K_CEP, o.z, z3.simplify(ep + z3.If(k >= un, 1, 0)), "I")
        return None

    def m_cv_notify_all(self, o, a, kw, n):
        st = self.st
        if self.holds(o) is None:
            self.raise_exc("builtins.RuntimeError", origin="notify without the lock")
        un, pend = st.rd(K_CUN, o.z, "I"), st.rd(K_CPEND, o.z, "I")
        st.add(z3.And(un >= 0, pend >= 0))
        self.spec_event("notify", cv=o, n=un, un=un)
        st.wr(K_CUN, o.z, z3.IntVal(0), "I")
        st.wr(K_CPEND, o.z, z3.simplify(pend + un), "I")
        st.wr(K_CEP, o.z, z3.simplify(st.rd(K_CEP, o.z, "I") + 1), "I")
        return None

    # --- asyncio.Event
    def m_ev_set(self, o, a, kw, n):
        st = self.st
        self.spec_event("ev_set", ev=o)
        st.wr(K_ESET, o.z, z3.BoolVal(True), "B")
        st.wr(K_EUN, o.z, z3.IntVal(0), "I")
        st.wr(K_ESETS, o.z, z3.simplify(st.rd(K_ESETS, o.z, "I") + 1), "I")

    def m_ev_clear(self, o, a, kw, n):
        self.st.wr(K_ESET, o.z, z3.BoolVal(False), "B")

    def m_ev_is_set(self, o, a, kw, n):
        return self.mkbool(self.st.rd(K_ESET, o.z, "B"))

    def m_ev_wait(self, o, a, kw, n):
        def run():
            st = self.st
            if self.branch(st.rd(K_ESET, o.z, "B")):
                return True
            un = st.rd(K_EUN, o.z, "I")
            st.add(un >= 0)
            st.wr(K_EUN, o.z, un + 1, "I")
            s0 = st.rd(K_ESETS, o.z, "I")
            self.spec_event("ev_wait", ev=o)
            self.suspensions += 1
            self.eng.suspend(self, "ev_wait", {"ev": o})
            if self.choose(2) == 1:
                self.eng.cancelled(self, "ev_wait", {})
                self.raise_exc("asyncio.CancelledError", origin="ev_wait")
            st.add(st.rd(K_ESETS, o.z, "I") > s0)
            return True
        return Coro(run, desc="event.wait")

    # --- tasks
    def m_task_done(self, o, a, kw, n):
        return self.mkbool(self.task_done(o))

    def m_task_cancelled(self, o, a, kw, n):
        return self.mkbool(z3.And(self.task_done(o), TCANC(o.z)))

    def m_task_cancel(self, o, a, kw, n):
        self.spec_event("task_cancel", task=o)
        return self.mkbool(z3.Not(self.task_done(o)))

    def m_task_result(self, o, a, kw, n):
        return self.task_result(o)

    def m_task_exception(self, o, a, kw, n):
        if not self.branch(self.task_done(o)):
            self.raise_exc("asyncio.InvalidStateError")
        if self.branch(TCANC(o.z)):
            self.raise_exc("asyncio.CancelledError", origin="exception of a cancelled task")
        z = self.task_exc(o)
        return self.from_val(z, T_OPT_EXC)

    def m_task_get_name(self, o, a, kw, n):
        return V("str", TNAME(o.z), T_STR)

    def m_task_get_loop(self, o, a, kw, n):
        return self.f_asyncio_get_running_loop([], {}, n)

    def m_task_uncancel(self, o, a, kw, n):
        return self.fresh(T_INT, "unc")

    # --- loops
    def m_loop_time(self, o, a, kw, n):
        v = self.fresh(T_FLOAT, "time")
        self.spec_event("time", value=v, loop=o)
        return v

    def m_loop_is_running(self, o, a, kw, n):
        return V("bool", self.st.const("running", "B"), T_BOOL)

    def m_loop_is_closed(self, o, a, kw, n):
        return V("bool", self.st.const("closed", "B"), T_BOOL)

    def m_loop_create_task(self, o, a, kw, n):
        return self.f_asyncio_create_task(a, kw, n)

    # --- async generators
    def m_agen___anext__(self, o, a, kw, n):
        return self.f_builtins_anext([o], {}, n)

    def m_agen___aiter__(self, o, a, kw, n):
        return o

    def m_agen_aclose(self, o, a, kw, n):
        def run():
            self.suspend("aclose")
        return Coro(run)


class _Found(Exception):
    pass
