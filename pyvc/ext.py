"""Models (assumed contracts) of the Python built-ins and library objects used, loops."""
from __future__ import annotations

import ast

import z3

from . import core
from .core import (B, HASH, I, ISA, PATHOF, R, STRI, T_ANY, T_BOOL, T_FLOAT, T_INT, T_NONE, T_STR,
                   T_TD, T_USER, MAYBE, UNBOUND, UNHASH, UNSTRI, BreakSig, ContinueSig, Cut, PyRaise, Restart,
                   ReturnSig, Ty, V, Val, View, nat_id, sort_of, str_id, tname, tup_funcs)
from .interp import (DICTS, OWNABLE, SEQ, SETS, SYNC, AsyncGen, BoundExt, BoundMethod, CompFrame, Coro,
                     DictView, Frame, GenExpr, Interp, StarArg, SuperObj, assigned, assigned_expr,
                     assigned_t, ext_exc, is_ext)
from .loader import EnumMember, Ext, Native, PyClass, PyFunc, PyModule, Unsupported

EPS = z3.Q(1, 2**53)
TNAME = z3.Function("TNAME", I, I)
TSRC = z3.Function("TSRC", I, I)
TKIND = z3.Function("TKIND", I, I)
TEXC = z3.Function("TEXC", I, Val)
TRES = z3.Function("TRES", I, Val)
TCANC = z3.Function("TCANC", I, B)
IDOF = z3.Function("IDOF", I, I)
UNID = z3.Function("UNID", I, I)

K_ARR, K_LO, K_HI, K_MAX, K_MEM = [("seq", x) for x in ("$arr", "$lo", "$hi", "$max", "$mem")]
K_HAS, K_MAP, K_CARD = ("col", "$has"), ("col", "$map"), ("col", "$card")
K_CUN, K_CPEND, K_CEP = ("cv", "$un"), ("cv", "$pend"), ("cv", "$epoch")
K_ESET, K_EUN, K_ESETS = ("ev", "$set"), ("ev", "$un"), ("ev", "$sets")
K_DONE = ("task", "$done")
K_WTGT = ("wref", "$target")
EXT_FINAL = {K_MAX, K_WTGT}

T_TASK = Ty("ref", "asyncio.Task")
T_EXC = Ty("ref", "builtins.BaseException")
T_OPT_EXC = Ty("union", None, (T_NONE, T_EXC))


def join_ty(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    if a.k == "ref" and b.k == "ref" and a.cls == b.cls:
        return Ty("ref", a.cls, a.args if a.args == b.args else (a.args or b.args))
    fl = []
    for t in (a, b):
        for x in (t.args if t.k == "union" else (t,)):
            if x not in fl:
                fl.append(x)
    if any(x.k == "any" for x in fl):
        return T_ANY
    return Ty("union", None, fl)


class IterSrc:
    def __init__(self, n=None, get=None, focus=(), concrete=None, check=None, kind=None, has=None, idx=None, same=None):
        self.same = same
        self.n, self.get, self.focus, self.concrete = n, get, list(focus), concrete
        self.check, self.kind, self.has, self.idx = check, kind, has, idx


class LoopInfo:
    def __init__(self, key=None):
        self.key = key
        self.mod = {}          # key -> (sort, set of addr | None for ALL)
        self.addrs = {}
        self.ghosts = set()
        self.kinds = {}
        self.dropped = set()
        self.suspends = False
        self.dirty = {}
        self.writes_any = False


class Exec(Interp):
    # ================================================================ operators
    def ty_of(self, v):
        if isinstance(v, V):
            return v.ty if v.ty is not None else T_ANY
        if v is None:
            return T_NONE
        if isinstance(v, bool):
            return T_BOOL
        if isinstance(v, int):
            return T_INT
        if isinstance(v, float):
            return T_FLOAT
        if isinstance(v, str):
            return T_STR
        if isinstance(v, tuple):
            return Ty("tuple", None, tuple(self.ty_of(x) for x in v))
        if isinstance(v, EnumMember):
            return Ty("enum", v.cls)
        if isinstance(v, PyClass):
            return Ty("type", v)
        return T_ANY

    def kind_of(self, v):
        if isinstance(v, V):
            if v.k == "any":
                opts = v.ty.args if v.ty.k == "union" else (v.ty,)
                for kk, test, ty in (("int", Val.is_I, T_INT), ("td", Val.is_T, T_TD),
                                     ("str", Val.is_S, T_STR), ("real", Val.is_F, T_FLOAT),
                                     ("bool", Val.is_B, T_BOOL)):
                    tk = {"real": "float"}.get(kk, kk)
                    if any(o.k == tk for o in opts) and self.branch(test(v.z)):
                        return kk, self.from_val(v.z, ty)
                if v.ty.k == "any":
                    for kk, test, ty in (("int", Val.is_I, T_INT), ("td", Val.is_T, T_TD), ("real", Val.is_F, T_FLOAT)):
                        if self.st.must(test(v.z)):
                            return kk, self.from_val(v.z, ty)
                if any(o.k == "none" for o in opts) and self.branch(Val.is_none(v.z)):
                    return "none", None
                return "any", v
            return v.k, v
        if v is None:
            return "none", v
        if isinstance(v, bool):
            return "bool", v
        if isinstance(v, int):
            return "int", v
        if isinstance(v, float):
            return "real", v
        if isinstance(v, str):
            return "str", v
        if isinstance(v, tuple):
            return "tuple", v
        return "other", v

    def pymod(self, a, b):
        """Python's // and % on integers (exact)."""
        q, r = core.PYDIV(a, b), core.PYMOD(a, b)
        self.st.add(z3.Implies(b > 0, z3.And(r >= 0, r < b)))
        self.st.add(z3.Implies(b < 0, z3.And(r <= 0, r > b)))
        self.st.add(z3.Implies(b != 0, a == q * b + r))
        return q, r

    def rounded(self, e, hint="fl"):
        """A float within relative error 2^-53 of the exact real e."""
        e = z3.simplify(e)
        r = self.st.const(hint, "R")
        self.st.add(z3.If(e >= 0, z3.And(r >= e * (1 - EPS), r <= e * (1 + EPS)),
                          z3.And(r <= e * (1 - EPS), r >= e * (1 + EPS))))
        return V("real", r, T_FLOAT)

    def binop(self, op, a, b):
        ka, a = self.kind_of(a)
        kb, b = self.kind_of(b)
        num = ("int", "bool", "real")
        if isinstance(op, ast.BitOr) and ka in ("other",) and kb in ("other", "none"):
            opts = []
            for x in (a, b):
                if isinstance(x, Native) and x.kind == "union":
                    opts.extend(x.payload)
                else:
                    opts.append(x)
            return Native("union", "union", opts)
        if not isinstance(a, V) and not isinstance(b, V) and ka in num and kb in num:
            import operator as o
            ops = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.FloorDiv: o.floordiv,
                   ast.Mod: o.mod, ast.Div: o.truediv, ast.Pow: o.pow, ast.BitAnd: o.and_,
                   ast.BitOr: o.or_, ast.LShift: o.lshift, ast.RShift: o.rshift, ast.BitXor: o.xor}
            if type(op) in ops:
                try:
                    return ops[type(op)](a, b)
                except ZeroDivisionError:
                    self.raise_exc("builtins.ZeroDivisionError")
        if ka in num and kb in num:
            if ka != "real" and kb != "real" and not isinstance(op, ast.Div):
                x, y = self.zint(a), self.zint(b)
                if isinstance(op, ast.Add):
                    return self.mkint(x + y)
                if isinstance(op, ast.Sub):
                    return self.mkint(x - y)
                if isinstance(op, ast.Mult):
                    return self.mkint(x * y)
                if isinstance(op, (ast.FloorDiv, ast.Mod)):
                    if self.branch(y == 0):
                        self.raise_exc("builtins.ZeroDivisionError")
                    q, r = self.pymod(x, y)
                    return self.mkint(q if isinstance(op, ast.FloorDiv) else r)
                self.unsupported(f"integer operator {type(op).__name__}")
            x, y = self.zreal(a), self.zreal(b)
            if isinstance(op, ast.Add):
                return self.rounded(x + y)
            if isinstance(op, ast.Sub):
                return self.rounded(x - y)
            if isinstance(op, ast.Mult):
                return self.rounded(x * y)
            if isinstance(op, ast.Div):
                if self.branch(y == 0):
                    self.raise_exc("builtins.ZeroDivisionError")
                return self.rounded(x / y)
            self.unsupported(f"float operator {type(op).__name__}")
        if ka == "td" and kb == "td":
            x, y = self.ztd(a), self.ztd(b)
            if isinstance(op, ast.Add):
                return V("td", z3.simplify(x + y), T_TD)
            if isinstance(op, ast.Sub):
                return V("td", z3.simplify(x - y), T_TD)
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if self.branch(y == 0):
                    self.raise_exc("builtins.ZeroDivisionError")
                q, r = self.pymod(x, y)
                return self.mkint(q) if isinstance(op, ast.FloorDiv) else V("td", r, T_TD)
            if isinstance(op, ast.Div):
                if self.branch(y == 0):
                    self.raise_exc("builtins.ZeroDivisionError")
                return self.rounded(z3.ToReal(x) / z3.ToReal(y))
        if ka == "td" and kb in ("int", "bool"):
            if isinstance(op, ast.Mult):
                return V("td", z3.simplify(self.ztd(a) * self.zint(b)), T_TD)
            if isinstance(op, ast.FloorDiv):
                if self.branch(self.zint(b) == 0):
                    self.raise_exc("builtins.ZeroDivisionError")
                return V("td", self.pymod(self.ztd(a), self.zint(b))[0], T_TD)
        if kb == "td" and ka in ("int", "bool") and isinstance(op, ast.Mult):
            return V("td", z3.simplify(self.ztd(b) * self.zint(a)), T_TD)
        if ka == "str" and (kb == "str" or isinstance(op, ast.Mod)):
            if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
                return a + b
            return self.fresh(T_STR, "strop")
        if ka == "str" and kb == "int" and isinstance(op, ast.Mult):
            return self.fresh(T_STR, "strop")
        if ka == "tuple" and kb == "tuple" and isinstance(op, ast.Add):
            return a + b
        if ka == "ref" and kb == "ref" and is_ext(a.cls, *SETS) and is_ext(b.cls, *SETS, *DICTS):
            return self.set_op(op, a, b)
        if ka == "ref" and kb == "ref" and is_ext(a.cls, *SEQ) and is_ext(b.cls, *SEQ) and isinstance(op, ast.Add):
            r = self.copy_seq(a)
            self.seq_extend(r, b)
            return r
        if "none" in (ka, kb):
            self.raise_exc("builtins.TypeError", origin="operand None")
        self.unsupported(f"operator {type(op).__name__} on {ka},{kb}")

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_same(a, b)
        if isinstance(op, ast.IsNot):
            z = self.is_same(a, b)
            return (not z) if isinstance(z, bool) else z3.Not(z)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            z = self.eq(a, b)
            return (not z) if isinstance(z, bool) else z3.Not(z)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            z = self.contains(b, a)
            return (not z) if isinstance(z, bool) else z3.Not(z)
        ka, a = self.kind_of(a)
        kb, b = self.kind_of(b)
        f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y,
             ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)]
        if not isinstance(a, V) and not isinstance(b, V) and ka == kb and ka in ("int", "str", "bool", "real"):
            return f(a, b)
        if ka in ("int", "bool") and kb in ("int", "bool"):
            return f(self.zint(a), self.zint(b))
        if ka in ("int", "bool", "real") and kb in ("int", "bool", "real"):
            return f(self.zreal(a), self.zreal(b))
        if ka == "td" and kb == "td":
            return f(self.ztd(a), self.ztd(b))
        if "none" in (ka, kb):
            self.raise_exc("builtins.TypeError", origin="comparison with None")
        if ka == "str" and kb == "str":
            return self.st.const("strcmp", "B")
        if ka == "ref" and kb == "ref" and is_ext(a.cls, *SETS):
            self.unsupported("subset comparison")
        self.unsupported(f"comparison {type(op).__name__} on {ka},{kb}")

    # ================================================================ containers
    def site_elem(self, site):
        return self.eng.site_ty.get(id(site)) if site is not None else None

    def new_list(self, items, site=None, cls="builtins.list", maxlen=-1, ty=None):
        et = ty
        if et is None:
            e = self.site_elem(site)
            et = (e,) if e is not None else ()
        v = self.alloc(Ty("ref", cls, et))
        st = self.st
        if site is not None:
            st.elem_ty[v.z.as_long()] = site
        arr = z3.K(I, Val.none)
        mem = z3.K(Val, z3.BoolVal(False))
        st.wr(K_LO, v.z, z3.IntVal(0), "I")
        st.wr(K_HI, v.z, z3.IntVal(0), "I")
        st.wr(K_MAX, v.z, maxlen if isinstance(maxlen, z3.ExprRef) else z3.IntVal(maxlen), "I")
        st.wr(K_ARR, v.z, arr, "AV")
        st.wr(K_MEM, v.z, mem, "HV")
        for x in items:
            self.seq_append(v, x, quiet=True)
        return v

    def new_set(self, site=None, cls="builtins.set", ty=None):
        e = self.site_elem(site)
        v = self.alloc(Ty("ref", cls, ty if ty is not None else ((e,) if e is not None else ())))
        if site is not None:
            self.st.elem_ty[v.z.as_long()] = site
        self.st.wr(K_HAS, v.z, z3.K(Val, z3.BoolVal(False)), "HV")
        self.st.wr(K_CARD, v.z, z3.IntVal(0), "I")
        return v

    def new_dict(self, site=None, ty=None):
        e = self.site_elem(site)
        args = ty if ty is not None else ()
        if ty is None and e is not None and e.k == "tuple" and len(e.args) == 2:
            args = e.args
        v = self.alloc(Ty("ref", "builtins.dict", args))
        if site is not None:
            self.st.elem_ty[v.z.as_long()] = site
        self.st.wr(K_HAS, v.z, z3.K(Val, z3.BoolVal(False)), "HV")
        self.st.wr(K_CARD, v.z, z3.IntVal(0), "I")
        self.st.wr(K_MAP, v.z, z3.K(Val, Val.none), "MV")
        return v

    def note_elem(self, v, val_ty):
        """Track the element types of containers without declared element types."""
        if z3.is_int_value(v.z):
            site = self.st.elem_ty.get(v.z.as_long())
            if site is not None and (not v.ty.args or v.ty.args == (self.site_elem(site),) or
                                     (self.site_elem(site) is not None and
                                      v.ty.args == self.site_elem(site).args)):
                old = self.site_elem(site)
                if old is not None and old.k == "tuple" and val_ty.k == "tuple" and \
                        len(old.args) == len(val_ty.args):
                    new = Ty("tuple", None, [join_ty(a, b) for a, b in zip(old.args, val_ty.args)])
                else:
                    new = join_ty(old, val_ty)
                if new != old:
                    self.eng.site_ty[id(site)] = new
                    self.eng.keepalive.append(site)
                    if old is not None or True:
                        raise Restart()

    def elem(self, v, i=0):
        if i < len(v.ty.args):
            return v.ty.args[i]
        return T_ANY

    # --- sequences
    def seq(self, v):
        st = self.st
        lo, hi = st.rd(K_LO, v.z, "I"), st.rd(K_HI, v.z, "I")
        arr = st.rd(K_ARR, v.z, "AV")
        mx = st.rd(K_MAX, v.z, "I")
        self.seq_facts(v, lo, hi, mx)
        return arr, lo, hi, mx

    def seq_facts(self, v, lo, hi, mx):
        st = self.st
        st.add(lo <= hi)
        st.add(z3.Or(mx == -1, z3.And(mx >= 0, hi - lo <= mx)))

    def elem_out(self, v, z, i=0):
        ty = self.elem(v, i)
        z = z3.simplify(z)
        self.st.add(self.type_fact(z, ty))
        return self.from_val(z, ty)

    def elem_in(self, v, x, i=0):
        ty = self.elem(v, i)
        if ty.k in ("any",):
            return self.to_val(x)
        x = self.adapt(x, ty)
        return self.to_val_checked(x, ty)

    def to_val_checked(self, x, ty):
        z = self.to_val(x)
        if isinstance(x, V) and x.ty == ty:
            return z
        if ty.k == "ref" and isinstance(x, V) and x.k == "ref":
            return z
        if not self.st.must(self.type_fact(z, ty)):
            self.unsupported(f"element is not of the declared type {ty}")
        return z

    def seq_append(self, v, x, quiet=False):
        st = self.st
        self.note_elem(v, self.ty_of(x))
        z = self.elem_in(v, x)
        arr, lo, hi, mx = self.seq(v)
        if not quiet:
            self.spec_event("append", obj=v, value=x, z=z, arr=arr, lo=lo, hi=hi, max=mx)
        if is_ext(v.cls, "collections.deque") and not (z3.is_int_value(mx) and mx.as_long() == -1):
            if self.branch(z3.And(mx >= 0, hi - lo == mx)):
                if self.branch(mx == 0):
                    self.spec_event("drop", obj=v, value=x, new=True, arr=arr, lo=lo, hi=hi)
                    return
                self.spec_event("drop", obj=v, value=None, new=False, arr=arr, lo=lo, hi=hi)
                lo = lo + 1
                st.wr(K_LO, v.z, z3.simplify(lo), "I")
        st.wr(K_ARR, v.z, z3.Store(arr, hi, z), "AV")
        st.wr(K_HI, v.z, z3.simplify(hi + 1), "I")
        mem = st.rd(K_MEM, v.z, "HV")
        st.wr(K_MEM, v.z, z3.Store(mem, z, True), "HV")
        self.store_into(v.z, x)

    def seq_appendleft(self, v, x):
        st = self.st
        self.note_elem(v, self.ty_of(x))
        z = self.elem_in(v, x)
        arr, lo, hi, mx = self.seq(v)
        self.spec_event("appendleft", obj=v, value=x, z=z, arr=arr, lo=lo, hi=hi, max=mx)
        if self.branch(z3.And(mx >= 0, hi - lo == mx)):
            if self.branch(mx == 0):
                return
            self.spec_event("dropright", obj=v, arr=arr, lo=lo, hi=hi)
            st.wr(K_HI, v.z, z3.simplify(hi - 1), "I")
        st.wr(K_ARR, v.z, z3.Store(arr, lo - 1, z), "AV")
        st.wr(K_LO, v.z, z3.simplify(lo - 1), "I")
        mem = st.rd(K_MEM, v.z, "HV")
        st.wr(K_MEM, v.z, z3.Store(mem, z, True), "HV")
        self.store_into(v.z, x)

    def seq_popleft(self, v):
        st = self.st
        arr, lo, hi, mx = self.seq(v)
        if not self.branch(hi - lo > 0):
            self.raise_exc("builtins.IndexError", origin="pop from an empty deque")
        z = z3.simplify(z3.Select(arr, lo))
        x = self.elem_out(v, z)
        self.spec_event("popleft", obj=v, value=x, z=z, arr=arr, lo=lo, hi=hi)
        st.wr(K_LO, v.z, z3.simplify(lo + 1), "I")
        return x

    def seq_pop(self, v):
        st = self.st
        arr, lo, hi, mx = self.seq(v)
        if not self.branch(hi - lo > 0):
            self.raise_exc("builtins.IndexError", origin="pop from an empty sequence")
        z = z3.simplify(z3.Select(arr, hi - 1))
        x = self.elem_out(v, z)
        self.spec_event("popright", obj=v, value=x, z=z, arr=arr, lo=lo, hi=hi)
        st.wr(K_HI, v.z, z3.simplify(hi - 1), "I")
        return x

    def seq_clear(self, v):
        arr, lo, hi, mx = self.seq(v)
        self.spec_event("clear", obj=v, arr=arr, lo=lo, hi=hi)
        self.st.wr(K_LO, v.z, hi, "I")

    def seq_get(self, v, i):
        """v[i] with i >= 0 known in range."""
        arr, lo, hi, mx = self.seq(v)
        return self.elem_out(v, z3.Select(arr, lo + i))

    def seq_extend(self, v, other):
        src = self.iter_src(other)
        if src.concrete is not None:
            for x in src.concrete:
                self.seq_append(v, x)
            return
        node = self.cur_node

        def body_bind(x):
            self.seq_append(v, x)
        self.for_loop(("extend", id(node)), other, body_bind, lambda: None, self.cur_frame, set(), src=src)

    def copy_seq(self, v):
        n = self.new_list([], cls=v.cls if is_ext(v.cls, *SEQ) and v.cls != "tuple*" else "builtins.list", ty=v.ty.args)
        arr, lo, hi, mx = self.seq(v)
        st = self.st
        st.wr(K_ARR, n.z, arr, "AV")
        st.wr(K_LO, n.z, lo, "I")
        st.wr(K_HI, n.z, hi, "I")
        st.wr(K_MEM, n.z, st.rd(K_MEM, v.z, "HV"), "HV")
        return n

    def len_of(self, v):
        """len as z3 Int or int."""
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, DictView):
            return self.len_of(v.d)
        if isinstance(v, V) and v.k == "any":
            v = self.narrow_ref(v, "__len__")
        if isinstance(v, V) and v.k == "ref":
            if is_ext(v.cls, *SEQ):
                arr, lo, hi, mx = self.seq(v)
                return z3.simplify(hi - lo)
            if is_ext(v.cls, *SETS, *DICTS):
                return self.col(v)[1]
            if isinstance(v.cls, PyClass):
                m = v.cls.lookup("__len__")
                if m is not None:
                    return self.zint(self.call_pyfunc(m, [v], {}))
        if isinstance(v, V) and v.k == "str":
            n = self.st.const("slen", "I")
            self.st.add(n >= 0)
            return n
        if isinstance(v, PyClass) and v.is_enum():
            return len(self.eng.enum_members(v))
        self.raise_exc("builtins.TypeError", origin="len()") if v is None else self.unsupported(f"len of {v!r}")

    # --- sets and dicts
    def col(self, v):
        st = self.st
        has, card = st.rd(K_HAS, v.z, "HV"), st.rd(K_CARD, v.z, "I")
        self.col_facts(v, has, card)
        return has, card

    def col_facts(self, v, has, card):
        st = self.st
        key = (has.get_id(), card.get_id())
        seen = st.__dict__.setdefault("col_seen", {})
        if key in seen:
            return
        seen[key] = (has, card)
        st.add(card >= 0)
        if z3.is_app(has) and has.decl().kind() in (z3.Z3_OP_CONST_ARRAY,):
            return
        x = z3.Const("x!q", Val)
        st.add(z3.ForAll([x], z3.Implies(z3.Select(has, x), card > 0), patterns=[z3.Select(has, x)]))
        for f in self.eng.focus_vals(self):
            st.add(z3.Implies(z3.Select(has, f), card > 0))

    def set_add(self, v, x):
        self.note_elem(v, self.ty_of(x))
        z = self.elem_in(v, x)
        has, card = self.col(v)
        self.spec_event("set_add", obj=v, value=x, z=z)
        self.st.wr(K_CARD, v.z, z3.simplify(card + z3.If(z3.Select(has, z), 0, 1)), "I")
        self.st.wr(K_HAS, v.z, z3.Store(has, z, True), "HV")
        self.store_into(v.z, x)

    def set_discard(self, v, x, strict=False):
        z = self.to_val(x)
        has, card = self.col(v)
        if strict and not self.branch(z3.Select(has, z)):
            self.raise_exc("builtins.KeyError", origin="remove/del of a missing key")
        self.spec_event("set_discard", obj=v, value=x, z=z)
        self.st.wr(K_CARD, v.z, z3.simplify(card - z3.If(z3.Select(has, z), 1, 0)), "I")
        self.st.wr(K_HAS, v.z, z3.Store(has, z, False), "HV")

    def set_pop(self, v):
        has, card = self.col(v)
        if not self.branch(card > 0):
            self.raise_exc("builtins.KeyError", origin="pop from an empty set")
        z = self.st.const("popped", "V")
        self.st.add(z3.Select(has, z))
        self.alloc_fact_val(z)
        x = self.elem_out(v, z)
        self.spec_event("set_pop", obj=v, value=x, z=z)
        self.st.wr(K_CARD, v.z, z3.simplify(card - 1), "I")
        self.st.wr(K_HAS, v.z, z3.Store(has, z, False), "HV")
        return x

    def set_clear(self, v):
        self.spec_event("set_clear", obj=v)
        self.st.wr(K_HAS, v.z, z3.K(Val, z3.BoolVal(False)), "HV")
        self.st.wr(K_CARD, v.z, z3.IntVal(0), "I")

    def copy_set(self, v, cls=None):
        n = self.new_set(cls=cls or v.cls, ty=v.ty.args[:1])
        has, card = self.col(v)
        self.st.wr(K_HAS, n.z, has, "HV")
        self.st.wr(K_CARD, n.z, card, "I")
        return n

    def copy_dict(self, v):
        n = self.new_dict(ty=v.ty.args)
        has, card = self.col(v)
        self.st.wr(K_HAS, n.z, has, "HV")
        self.st.wr(K_CARD, n.z, card, "I")
        self.st.wr(K_MAP, n.z, self.st.rd(K_MAP, v.z, "MV"), "MV")
        return n

    def set_op(self, op, a, b):
        ha, ca = self.col(a)
        hb, cb = self.col(b)
        st = self.st
        f = {ast.BitOr: lambda p, q: z3.Or(p, q), ast.BitAnd: lambda p, q: z3.And(p, q),
             ast.Sub: lambda p, q: z3.And(p, z3.Not(q)), ast.BitXor: lambda p, q: z3.Xor(p, q)}.get(type(op))
        if f is None:
            self.unsupported("set operator")
        n = self.new_set(ty=tuple(join_ty(x, y) for x, y in zip(a.ty.args[:1], b.ty.args[:1])) or a.ty.args[:1])
        has, card = st.const("sop", "HV"), st.const("sopc", "I")
        x = z3.Const("x!q", Val)
        d = z3.Select(has, x) == f(z3.Select(ha, x), z3.Select(hb, x))
        st.add(z3.ForAll([x], d, patterns=[z3.Select(has, x)]))
        st.add(z3.ForAll([x], d, patterns=[z3.Select(ha, x)]))
        st.add(z3.ForAll([x], d, patterns=[z3.Select(hb, x)]))
        if isinstance(op, ast.BitOr):
            st.add(z3.And(card <= ca + cb, card >= ca, card >= cb))
        elif isinstance(op, ast.Sub):
            st.add(z3.And(card <= ca, card >= ca - cb))
        elif isinstance(op, ast.BitAnd):
            st.add(z3.And(card <= ca, card <= cb))
        st.add(card >= 0)
        st.wr(K_HAS, n.z, has, "HV")
        st.wr(K_CARD, n.z, card, "I")
        # members witness: non-empty sets have an element
        w = st.const("sopw", "V")
        st.add(z3.Implies(card > 0, z3.Select(has, w)))
        return n

    def contains(self, c, x):
        if isinstance(c, tuple):
            zs = [self.eq_or_is(x, y) for y in c]
            if any(z is True for z in zs):
                return True
            zs = [z for z in zs if z is not False]
            return z3.Or(*zs) if zs else False
        if isinstance(c, V) and c.k == "any":
            c = self.narrow_ref(c, "__contains__")
        if isinstance(c, V) and c.k == "ref":
            if is_ext(c.cls, *SETS, *DICTS):
                has, card = self.col(c)
                return z3.Select(has, self.to_val(x))
            if is_ext(c.cls, *SEQ):
                src = self.iter_src(c)
                if src.concrete is not None:
                    return self.contains(tuple(src.concrete), x)
                arr, lo, hi, mx = self.seq(c)
                z = self.to_val(x)
                st = self.st
                b, p, j = st.const("isin", "B"), st.const("pos", "I"), z3.Const("j!q", I)
                st.add(z3.Implies(b, z3.And(lo <= p, p < hi, z3.Select(arr, p) == z)))
                st.add(z3.Implies(b, z3.Select(st.rd(K_MEM, c.z, "HV"), z)))
                st.add(z3.Implies(z3.Not(b), z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi),
                                                                      z3.Select(arr, j) != z),
                                                       patterns=[z3.Select(arr, j)])))
                return b
            if isinstance(c.cls, PyClass):
                m = c.cls.lookup("__contains__")
                if m is not None:
                    return self.truth_z(self.call_pyfunc(m, [c, x], {}))
        if isinstance(c, DictView):
            if c.kind == "keys":
                return self.contains(c.d, x)
        if isinstance(c, (GenExpr, IterSrc)):
            l = self.to_list(c)
            return self.contains(l, x)
        if isinstance(c, PyClass) and c.is_enum():
            return self.contains(tuple(self.eng.enum_members(c)), x)
        self.unsupported(f"membership in {c!r}")

    def eq_or_is(self, a, b):
        s = self.is_same(a, b)
        if s is True:
            return True
        e = self.eq(a, b)
        if e is True:
            return True
        if s is False:
            return e
        if e is False:
            return s
        return z3.Or(s, e)

    def getitem(self, o, k):
        if isinstance(o, V) and o.k == "any":
            if o.ty.k == "tuple" and isinstance(k, int) and o.ty.args:
                n = len(o.ty.args)
                return self.unpack(o, [ast.Constant(0)] * n)[k]
            o = self.narrow_ref(o, "__getitem__")
        if isinstance(o, tuple):
            if isinstance(k, int):
                if -len(o) <= k < len(o):
                    return o[k]
                self.raise_exc("builtins.IndexError")
            self.unsupported("symbolic tuple index")
        if isinstance(o, V) and o.k == "ref":
            if is_ext(o.cls, *DICTS):
                has, card = self.col(o)
                z = self.to_val(k)
                if not self.branch(z3.Select(has, z)):
                    self.raise_exc("builtins.KeyError", origin="missing dict key")
                m = self.st.rd(K_MAP, o.z, "MV")
                return self.elem_out(o, z3.Select(m, z), 1)
            if is_ext(o.cls, *SEQ):
                arr, lo, hi, mx = self.seq(o)
                i = self.zint(k)
                n = hi - lo
                if self.branch(z3.And(i >= 0, i < n)):
                    return self.elem_out(o, z3.Select(arr, lo + i))
                if self.branch(z3.And(i < 0, i >= -n)):
                    return self.elem_out(o, z3.Select(arr, hi + i))
                self.raise_exc("builtins.IndexError")
            if isinstance(o.cls, PyClass):
                m = o.cls.lookup("__getitem__")
                if m is not None:
                    return self.call_pyfunc(m, [o, k], {})
        if isinstance(o, PyClass) and o.is_enum():
            self.unsupported("enum lookup by name")
        self.unsupported(f"subscript of {o!r}")

    def setitem(self, o, k, v):
        if isinstance(o, V) and o.k == "ref" and is_ext(o.cls, *DICTS):
            self.note_elem(o, Ty("tuple", None, (self.ty_of(k), self.ty_of(v))))
            zk = self.to_val(k)
            zv = self.elem_in(o, v, 1)
            has, card = self.col(o)
            m = self.st.rd(K_MAP, o.z, "MV")
            self.spec_event("setitem", obj=o, key=zk, value=v, z=zv)
            self.st.wr(K_CARD, o.z, z3.simplify(card + z3.If(z3.Select(has, zk), 0, 1)), "I")
            self.st.wr(K_HAS, o.z, z3.Store(has, zk, True), "HV")
            self.st.wr(K_MAP, o.z, z3.Store(m, zk, zv), "MV")
            self.store_into(o.z, v)
            self.store_into(o.z, k)
            return
        if isinstance(o, V) and o.k == "ref" and is_ext(o.cls, *SEQ):
            arr, lo, hi, mx = self.seq(o)
            i = self.zint(k)
            n = hi - lo
            if not self.branch(z3.And(i >= -n, i < n)):
                self.raise_exc("builtins.IndexError")
            p = z3.If(i >= 0, lo + i, hi + i)
            zv = self.elem_in(o, v)
            self.spec_event("seqset", obj=o, pos=p, value=v, arr=arr, lo=lo, hi=hi)
            self.st.wr(K_ARR, o.z, z3.Store(arr, z3.simplify(p), zv), "AV")
            mem = self.st.rd(K_MEM, o.z, "HV")
            self.st.wr(K_MEM, o.z, z3.Store(mem, zv, True), "HV")
            self.store_into(o.z, v)
            return
        self.unsupported(f"item assignment on {o!r}")

    def delitem(self, o, k):
        if isinstance(o, V) and o.k == "ref" and is_ext(o.cls, *DICTS):
            self.set_discard(o, k, strict=True)
            return
        if isinstance(o, V) and o.k == "ref" and is_ext(o.cls, *SEQ) and k == 0:
            self.seq_popleft(o)
            return
        self.unsupported(f"item deletion on {o!r}")

    def getslice(self, o, lo, hi, step):
        if isinstance(o, tuple) and all(x is None or isinstance(x, int) for x in (lo, hi)) and step is None:
            return o[lo:hi]
        if isinstance(o, V) and o.k == "ref" and is_ext(o.cls, *SEQ) and step is None:
            n = self.copy_seq(o)
            arr, l, h, mx = self.seq(o)
            ln = h - l

            def norm(x):
                x = self.zint(x)
                x = z3.If(x < 0, z3.If(ln + x < 0, 0, ln + x), z3.If(x > ln, ln, x))
                return z3.simplify(x)
            a = norm(lo) if lo is not None else z3.IntVal(0)
            b = norm(hi) if hi is not None else ln
            self.st.wr(K_LO, n.z, z3.simplify(l + a), "I")
            self.st.wr(K_HI, n.z, z3.simplify(z3.If(l + b < l + a, l + a, l + b)), "I")
            return n
        if isinstance(o, str) or (isinstance(o, V) and o.k == "str"):
            return self.fresh(T_STR, "slice")
        self.unsupported("slice")

    def ext_inplace(self, old, op, rhs):
        if is_ext(old.cls, *SEQ) and isinstance(op, ast.Add):
            self.seq_extend(old, rhs)
            return old
        if is_ext(old.cls, "builtins.set"):
            if isinstance(op, ast.BitOr):
                self.set_update(old, rhs)
                return old
            r = self.set_op(op, old, rhs)
            has, card = self.col(r)
            self.spec_event("set_replace", obj=old, has=has)
            self.st.wr(K_HAS, old.z, has, "HV")
            self.st.wr(K_CARD, old.z, card, "I")
            return old
        self.unsupported("in-place operator")

    def set_update(self, v, other):
        if isinstance(other, V) and other.k == "ref" and is_ext(other.cls, *SETS):
            r = self.set_op(ast.BitOr(), v, other)
            has, card = self.col(r)
            self.spec_event("set_replace", obj=v, has=has)
            self.st.wr(K_HAS, v.z, has, "HV")
            self.st.wr(K_CARD, v.z, card, "I")
            return
        self.for_loop(("update", id(self.cur_node)), other, lambda x: self.set_add(v, x), lambda: None,
                      self.cur_frame, set())

    # ================================================================ iteration
    def concrete_items(self, v, soft=False):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, StarArg):
            v = v.v
        src = None
        if isinstance(v, (V, DictView, IterSrc)):
            src = self.iter_src(v)
            if src.concrete is not None:
                return src.concrete
        if soft:
            return None
        self.unsupported("unpacking of an iterable of unknown length")

    def iter_src(self, v):
        st = self.st
        if isinstance(v, IterSrc):
            return v
        if isinstance(v, tuple):
            return IterSrc(concrete=list(v))
        if isinstance(v, GenExpr):
            return self.iter_src(self.to_list(v))
        if isinstance(v, PyClass) and v.is_enum():
            return IterSrc(concrete=list(self.eng.enum_members(v)))
        if isinstance(v, Ext) and self.eng.ext_enum(v):
            return IterSrc(concrete=list(self.eng.enum_members(v.name)))
        if isinstance(v, V) and v.k == "any":
            v = self.narrow_ref(v, "__iter__")
        if isinstance(v, DictView):
            return self.col_src(v.d, v.kind)
        if isinstance(v, V) and v.k == "ref":
            if is_ext(v.cls, *SEQ):
                arr, lo, hi, mx = self.seq(v)
                n = z3.simplify(hi - lo)
                if z3.is_int_value(n):
                    k = n.as_long()
                    if k <= 12:
                        return IterSrc(concrete=[self.elem_out(v, z3.Select(arr, lo + i)) for i in range(k)])
                mem = st.rd(K_MEM, v.z, "HV")

                def get(i):
                    z = z3.simplify(z3.Select(arr, lo + i))
                    st.add(z3.Select(mem, z))
                    self.alloc_fact_val(z)
                    return self.elem_out(v, z)

                def check():
                    a2, l2, h2, _ = self.seq(v)
                    if not (z3.eq(a2, arr) and z3.eq(l2, lo) and z3.eq(h2, hi)):
                        if is_ext(v.cls, "collections.deque"):
                            if not st.must(z3.And(l2 == lo, h2 == hi)):
                                self.raise_exc("builtins.RuntimeError", origin="deque mutated during iteration")
                        elif not st.must(z3.And(a2 == arr, l2 == lo, h2 == hi)):
                            self.unsupported("list modified while iterating over it")
                foc = []
                for p in self.eng.focus_pos(self, v):
                    if self.branch(z3.And(p >= 0, p < n)):
                        foc.append((p, get(p)))
                return IterSrc(n, get, foc, check=check, kind="seq", has=(v, arr, lo, hi))
            if is_ext(v.cls, *SETS):
                return self.col_src(v, "keys")
            if is_ext(v.cls, *DICTS):
                return self.col_src(v, "keys")
            if isinstance(v.cls, PyClass) and v.cls.lookup("__iter__"):
                return self.iter_src(self.call_pyfunc(v.cls.lookup("__iter__"), [v], {}))
        if v is None:
            self.raise_exc("builtins.TypeError")
        self.unsupported(f"iteration over {v!r}")

    def col_src(self, d, kind):
        st = self.st
        et = self.elem(d, 0)
        has, card = self.col(d)
        mp = st.rd(K_MAP, d.z, "MV") if is_ext(d.cls, *DICTS) else None

        def pack(z):
            k = self.elem_out(d, z, 0)
            if kind == "keys":
                return k
            x = self.elem_out(d, z3.Select(mp, z), 1)
            return x if kind == "values" else (k, x)

        if et.k == "enum":
            out = []
            for m in self.eng.enum_members(et.cls):
                if self.branch(z3.Select(has, self.to_val(m))):
                    out.append(pack(self.to_val(m)))
            return IterSrc(concrete=out)
        sc = z3.simplify(card)
        if z3.is_int_value(sc) and sc.as_long() == 0:
            return IterSrc(concrete=[])
        en = st.const("enum", "AV")
        idx = z3.Function(st.name("idx"), Val, I)
        foc, fvals = [], []
        for f in self.eng.focus_vals(self):
            if any(z3.eq(f, g) for g in fvals):
                continue
            fvals.append(f)
            if not self.eng.focus_sort_ok(self, f, et):
                continue
            if self.branch(z3.Select(has, f)):
                p = st.const("pos", "I")
                st.add(z3.And(p >= 0, p < card, z3.Select(en, p) == f, idx(f) == p))
                foc.append((p, pack(f)))

        for f in self.eng.only_inst_vals(self):
            st.add(z3.Implies(z3.Select(has, f), z3.And(idx(f) >= 0, idx(f) < card, z3.Select(en, idx(f)) == f)))

        def get(i):
            z = z3.Select(en, i)
            st.add(z3.And(z3.Select(has, z), idx(z) == i))
            self.alloc_fact_val(z)
            return pack(z)

        def check():
            h2, c2 = self.col(d)
            if not z3.eq(c2, card) or not z3.eq(h2, has):
                if not self.branch(c2 == card):
                    self.raise_exc("builtins.RuntimeError", origin="container changed size during iteration")
                if not st.must(z3.ForAll([z3.Const("x!q", Val)], True)) or not st.must(h2 == has):
                    self.unsupported("container modified while iterating over it")
        def same():
            h2, c2 = self.col(d)
            return z3.eq(c2, card) and z3.eq(h2, has)
        return IterSrc(card, get, foc, check=check, kind=("col", kind), has=(d, has), idx=idx, same=same)

    def to_list(self, v, cls="builtins.list", site=None):
        """list(v) / tuple(v)"""
        if isinstance(v, GenExpr):
            out = self.new_list([], site=v.node)
            self.comprehend(v.node, v.node.generators, v.frame,
                            lambda f2: self.seq_append(out, self.eval(v.node.elt, f2)))
            return out
        if isinstance(v, V) and v.k == "ref" and is_ext(v.cls, *SEQ):
            n = self.copy_seq(v)
            if n.cls != cls:
                n = V("ref", n.z, Ty("ref", cls, n.ty.args), True)
            return n
        src = self.iter_src(v)
        if src.concrete is not None:
            return self.new_list(src.concrete, site=site)
        out = self.new_list([], site=site if site is not None else self.cur_node)
        self.for_loop(("tolist", id(self.cur_node)), None, lambda x: self.seq_append(out, x, quiet=True),
                      lambda: None, self.cur_frame, set(), src=src)
        return out

    # ================================================================ loops
    def loop_key(self, node, fr):
        nid = node if isinstance(node, tuple) else id(node)
        if not isinstance(node, tuple):
            self.eng.keepalive.append(node)
        return (nid, tuple(f.qual for f in self.callstack))

    def for_loop(self, node, srcval, bind, body, fr, names, src=None):
        if src is None:
            body0 = getattr(node, "body", None)
            self.loop_body = body0 if isinstance(body0, list) else None
            src = self.iter_src(srcval)
            self.loop_body = None
        key = self.loop_key(node, fr)
        orelse = getattr(node, "orelse", None)
        try:
            if src.concrete is not None:
                for x in src.concrete:
                    try:
                        bind(x)
                        body()
                    except ContinueSig:
                        pass
            else:
                self._for_sym(key, src, bind, body, fr, names)
        except BreakSig:
            return
        if orelse:
            self.exec_block(orelse, fr)

    def _for_sym(self, key, src, bind, body, fr, names):
        st = self.st
        # order the focus positions
        foc = []
        for p, x in src.focus:
            k = 0
            dup = False
            while k < len(foc):
                if self.branch(foc[k][0] == p):
                    dup = True
                    break
                if self.branch(p < foc[k][0]):
                    break
                k += 1
            if not dup:
                foc.insert(k, (p, x))
        cur = z3.IntVal(0)
        for ph, (p, x) in enumerate(foc):
            self._segment(key + (ph,), src, cur, p, bind, body, fr, names, foc)
            try:
                bind(x)
                body()
            except ContinueSig:
                pass
            if src.check and self.branch(p + 1 < src.n):
                src.check()
            cur = p + 1
        self._segment(key + (len(foc),), src, cur, src.n, bind, body, fr, names, foc)

    def _segment(self, key, src, a, b, bind, body, fr, names, foc):
        st = self.st
        fold = self.eng.case.fold
        if not fold and not self.branch(a < b):
            return
        info = self.eng.loopinfo(key)
        pre = self.snap(fr)
        cands = self.loop_cands(info, pre, a, src, names, fr)
        self.check_cands(info, cands, pre, a, "base")
        n0, e0, al0 = st.nfresh, st.epochs, st.alloc
        self.loop_havoc(info, pre, names, fr)
        i = st.const("i", "I")
        st.add(z3.And(a <= i, i <= b if fold else i < b))
        head = self.snap(fr)
        self.assume_cands(info, cands, head, i)
        if fold and not self.branch(i < b):
            st.add(i == b)
            return
        x = src.get(i)
        for p, _ in foc:
            st.add(i != p)
        if foc and src.idx is not None:
            pass
        rec = set()
        st.rec.append(rec)
        s0 = self.suspensions
        try:
            bind(x)
            body()
        except ContinueSig:
            pass
        finally:
            st.rec.pop()
            for r in st.rec:
                r |= rec
        self.merge_info(info, rec, s0, fr, names, n0, e0, al0)
        if fold:
            if src.check and not (src.same and src.same()) and self.branch(i + 1 < src.n):
                src.check()
        elif self.branch(i + 1 == b):
            return
        elif src.check:
            src.check()
        self.check_cands(info, cands, self.snap(fr), i + 1, "step")
        raise Cut()

    def while_loop(self, s, fr):
        st = self.st
        key = self.loop_key(s, fr)
        names = assigned(s.body) | assigned_expr(s.test)
        pre = self.snap(fr)
        fold = self.eng.case.fold
        if not fold and not self.truth(self.eval(s.test, fr)):
            self.exec_block(s.orelse, fr)
            return
        info = self.eng.loopinfo(key)
        cands = self.loop_cands(info, pre, None, None, names, fr)
        self.check_cands(info, cands, pre, None, "base")
        n0, e0, al0 = st.nfresh, st.epochs, st.alloc
        self.loop_havoc(info, pre, names, fr)
        head = self.snap(fr)
        self.assume_cands(info, cands, head, None)
        rec = set()
        st.rec.append(rec)
        s0 = self.suspensions
        try:
            try:
                if not self.truth(self.eval(s.test, fr)):
                    if not fold:
                        raise Cut()
                    self.merge_info(info, rec, s0, fr, names, n0, e0, al0)
                    self.exec_block(s.orelse, fr)
                    return
                self.exec_block(s.body, fr)
            except ContinueSig:
                pass
            except BreakSig:
                return
            self.merge_info(info, rec, s0, fr, names, n0, e0, al0)
            end = self.snap(fr)
            c = True if fold else self.truth(self.eval(s.test, fr))
            if not fold:
                self.merge_info(info, rec, s0, fr, names, n0, e0, al0)
        finally:
            st.rec.remove(rec) if rec in st.rec and False else self._poprec(rec)
        if not c:
            self.exec_block(s.orelse, fr)
            return
        self.check_cands(info, cands, end, None, "step")
        raise Cut()

    def _poprec(self, rec):
        st = self.st
        for k in range(len(st.rec) - 1, -1, -1):
            if st.rec[k] is rec:
                del st.rec[k]
                break
        for r in st.rec:
            r |= rec

    def snap(self, fr):
        v = View(self.st)
        v.locals = dict(fr.locals)
        v.chain = []
        f = fr.parent
        while f is not None:
            v.chain.append((f, dict(f.locals)))
            f = f.parent
        v.dirty = dict(self.st.dirty)
        v.seg = self.st.seg
        v.it = self
        return v

    def is_old(self, z, n0, e0, al0):
        """All the constants in z existed before the loop was entered."""
        todo = [z]
        seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_int_value(x):
                if x.as_long() < -al0:
                    return False
                continue
            if z3.is_quantifier(x):
                return False
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if "!" in nm:
                    try:
                        if int(nm.rsplit("!", 1)[1]) > n0:
                            return False
                    except ValueError:
                        return False
                elif nm.startswith("H") and "_" in nm:
                    try:
                        if int(nm[1:nm.index("_")]) > e0:
                            return False
                    except ValueError:
                        pass
            todo.extend(x.children())
        return True

    def merge_info(self, info, rec, s0, fr, names, n0, e0, al0):
        changed = False
        if self.suspensions > s0 and not info.suspends:
            info.suspends = changed = True
        for key, addr, sort in rec:
            if key[0] == "ghost":
                if key[1] not in info.ghosts:
                    info.ghosts.add(key[1])
                    changed = True
                continue
            if z3.is_expr(addr) and z3.is_int_value(addr) and addr.as_long() < -al0:
                continue
            cur = info.mod.get(key, "none")
            if cur is None:
                continue
            if addr is not None and self.is_old(addr, n0, e0, al0):
                if cur == "none":
                    info.mod[key] = {}
                    info.addrs[key] = sort
                    cur = info.mod[key]
                    changed = True
                nm = tname(addr)
                if nm not in cur:
                    cur[nm] = addr
                    changed = True
            else:
                info.mod[key] = None
                info.addrs[key] = sort
                changed = True
        if self.merge_dirty(info, self.st.dirty, n0, e0, al0):
            changed = True
        f = fr
        for n in names:
            f = fr.find(n)
            if f is None:
                continue
            v = f.locals.get(n, UNBOUND)
            if v is UNBOUND or v is MAYBE:
                continue
            t = self.ty_of(v)
            old = info.kinds.get(n)
            new = join_ty(old, t)
            if new != old:
                info.kinds[n] = new
                changed = True
        if changed:
            # another round is needed; the other paths of this one may tell more
            self.eng.again = True
            raise Cut()

    def merge_dirty(self, info, dirty, n0, e0, al0):
        """Addresses written in the running segment when the loop head is reached."""
        changed = False
        for k, addrs in dirty.items():
            cur = info.dirty.get(k, "none")
            if cur is None:
                continue
            if addrs is None or not all(self.is_old(a, n0, e0, al0) for a in addrs.values()):
                local = addrs is not None and all(
                    self.is_old(a, n0, e0, al0) or (z3.is_int_value(a) and a.as_long() < -al0)
                    for a in addrs.values())
                if not local:
                    info.dirty[k] = None
                    changed = True
                    continue
                addrs = {nm: a for nm, a in addrs.items() if self.is_old(a, n0, e0, al0)}
            if cur == "none":
                cur = info.dirty[k] = {}
                changed = True
            for nm, a in addrs.items():
                if nm not in cur:
                    cur[nm] = a
                    changed = True
        return changed

    def loop_havoc(self, info, pre, names, fr):
        st = self.st
        if info.suspends:
            # the first iteration may belong to a segment that began before the loop
            self.merge_dirty(info, pre.dirty, st.nfresh, st.epochs, st.alloc)
        seg_keep = None
        if info.suspends:
            st.new_epoch()
        else:
            for key, addrs in info.mod.items():
                if key in st.final_keys:
                    continue
                sort = info.addrs[key]
                arr = st.cur(key, sort)
                if addrs is None:
                    st.epochs += 1
                    st.keyepoch[key] = st.epochs
                    st.epoch_info[st.epochs] = (st.alloc, tuple(st.unescaped))
                    st.heap[key] = st.base(key, sort, st.epochs)
                else:
                    for nm, a in addrs.items():
                        arr = z3.Store(arr, a, st.const("hv", sort))
                    st.heap[key] = arr
        if info.suspends:
            # writes to local objects inside of a suspending loop
            for key, addrs in info.mod.items():
                if key in st.final_keys:
                    continue
                sort = info.addrs[key]
                arr = st.cur(key, sort)
                if addrs is None:
                    st.epochs += 1
                    st.keyepoch[key] = st.epochs
                    st.epoch_info[st.epochs] = (st.alloc, tuple(st.unescaped))
                    st.heap[key] = st.base(key, sort, st.epochs)
                else:
                    for nm, a in addrs.items():
                        if z3.is_int_value(a) and a.as_long() in st.unescaped:
                            arr = z3.Store(arr, a, st.const("hv", sort))
                    st.heap[key] = arr
        for g in info.ghosts:
            z = st.ghost[g]
            st.ghost[g] = st.const("g_" + g, z.sort())
        if info.suspends:
            st.dirty = dict(info.dirty)
            seg = View(st)
            for k, addrs in info.dirty.items():
                if k[0] == "ghost":
                    seg.ghost[k[1]] = st.const("sg_" + k[1], seg.ghost[k[1]].sort())
                elif k in st.final_keys:
                    continue
                elif addrs is not None and k in seg.heap:
                    a2 = seg.heap[k]
                    for a in addrs.values():
                        a2 = z3.Store(a2, a, st.const("sg", a2.sort().range()))
                    seg.heap[k] = a2
                elif k in seg.heap:
                    seg.heap[k] = st.const("seg", seg.heap[k].sort())
                else:
                    st.nfresh += 1
                    seg.keyepoch[k] = 10**6 + st.nfresh
            st.seg = seg
        else:
            for k, addrs in info.dirty.items():
                have = st.dirty.get(k, {})
                st.dirty[k] = None if have is None or addrs is None else {**have, **addrs}
        self.eng.seg_havocked(self)
        # local variables
        for n in sorted(names):
            f = fr.find(n)
            if f is None:
                continue
            v0 = self.pre_local(pre, f, n)
            if v0 is UNBOUND or v0 is MAYBE:
                f.locals[n] = MAYBE
                continue
            if ("local", n) not in info.dropped:
                if f.locals.get(n, UNBOUND) is not v0:
                    f.locals[n] = v0
                continue
            t = join_ty(self.ty_of(v0), info.kinds.get(n))
            f.locals[n] = self.fresh_local(t, n)

    @staticmethod
    def pre_local(pre, f, n):
        """Value of a local variable when the loop was reached."""
        if n in pre.locals:
            return pre.locals[n]
        for fr2, d in pre.chain:
            if n in d:
                return d[n]
        return UNBOUND

    def fresh_local(self, t, n):
        if t.k == "ref":
            z = self.st.const(n, "I")
            self.st.add(z3.And(z != 0, z >= -self.st.alloc))
            self.st.bound(z, -self.st.alloc)
            return self.mkref(z, t)
        if t.k == "type":
            return t.cls
        if t.k == "tuple" and t.args:
            return tuple(self.fresh_local(a, n) for a in t.args)
        return self.fresh(t, n)

    def local_eq(self, a, b):
        """Formula for two engine values being the same; None if not comparable."""
        if a is b:
            return z3.BoolVal(True)
        if a is UNBOUND or b is UNBOUND or a is MAYBE or b is MAYBE:
            return None
        if isinstance(a, V) and isinstance(b, V) and a.k == b.k:
            return a.z == b.z
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            zs = [self.local_eq(x, y) for x, y in zip(a, b)]
            return None if any(z is None for z in zs) else z3.And(*zs)
        if not isinstance(a, (V, int, str, float, tuple, type(None))) or \
                not isinstance(b, (V, int, str, float, tuple, type(None))):
            return None
        if type(a) is type(b) and not isinstance(a, V):
            return z3.BoolVal(a == b)
        return self.to_val(a) == self.to_val(b)

    def loop_cands(self, info, pre, i0, src, names, fr):
        """Candidate invariants: (name, f(view, idx) -> formula or None)."""
        out = []
        st = self.st
        for n in sorted(names):
            f = fr.find(n)
            v0 = UNBOUND if f is None else self.pre_local(pre, f, n)
            if v0 is UNBOUND or v0 is MAYBE:
                continue

            def same(v, i, n=n, v0=v0):
                x = v.locals.get(n, UNBOUND)
                for fr2, d in v.chain:
                    if n in d and n not in v.locals:
                        x = d[n]
                return self.local_eq(x, v0)
            out.append((("local", n), same))
            if isinstance(v0, (int, V)) and not isinstance(v0, bool) and (
                    not isinstance(v0, V) or v0.k in ("int", "td")):
                z0 = v0.z if isinstance(v0, V) else z3.IntVal(v0)

                def num(v, i, rel, n=n, z0=z0):
                    x = v.locals.get(n, UNBOUND)
                    if isinstance(x, int):
                        x = z3.IntVal(x)
                    elif isinstance(x, V) and x.k in ("int", "td"):
                        x = x.z
                    else:
                        return None
                    return rel(x, z0, i)
                out.append((("ge", n), lambda v, i, num=num: num(v, i, lambda x, z, k: x >= z)))
                out.append((("le", n), lambda v, i, num=num: num(v, i, lambda x, z, k: x <= z)))
                if i0 is not None:
                    out.append((("cnt", n), lambda v, i, num=num: num(v, i, lambda x, z, k: x - z == k - i0)))
                    out.append((("cntle", n), lambda v, i, num=num: num(v, i, lambda x, z, k: x - z <= k - i0)))
            if isinstance(v0, V) and v0.k == "any":
                pass
        keys = list(info.mod)
        fvals = self.eng.focus_vals(self)
        for key in keys:
            addrs = info.mod[key]
            sort = info.addrs[key]
            if key in st.final_keys:
                continue
            if addrs is None or info.suspends:
                for kv in list(st.known):
                    if not self.key_matches(key, kv):
                        continue
                    nm = (key, "unch", tname(kv.z))
                    out.append((nm, lambda v, i, key=key, z=kv.z, sort=sort:
                                v.rd(key, z, sort) == pre.rd(key, z, sort)))
            terms = []
            if addrs is not None:
                terms = list(addrs.values())
            else:
                terms = [kv.z for kv in st.known if self.key_matches(key, kv)]
            for a in terms:
                nm = tname(a)
                if sort == "I":
                    out.append(((key, ">=", nm), lambda v, i, key=key, a=a: v.rd(key, a, "I") >= pre.rd(key, a, "I")))
                    out.append(((key, "<=", nm), lambda v, i, key=key, a=a: v.rd(key, a, "I") <= pre.rd(key, a, "I")))
                    if i0 is not None and key in (K_HI, K_CARD):
                        out.append(((key, "cnt", nm), lambda v, i, key=key, a=a:
                                    v.rd(key, a, "I") == pre.rd(key, a, "I") + (i - i0)))
                        out.append(((key, "cntle", nm), lambda v, i, key=key, a=a:
                                    v.rd(key, a, "I") <= pre.rd(key, a, "I") + (i - i0)))
                        out.append(((key, "cntge", nm), lambda v, i, key=key, a=a:
                                    v.rd(key, a, "I") >= pre.rd(key, a, "I") - (i - i0)))
                if sort in ("HV", "MV"):
                    for f in fvals:
                        out.append(((key, "f", nm, tname(f)), lambda v, i, key=key, a=a, f=f, sort=sort:
                                    z3.Select(v.rd(key, a, sort), f) == z3.Select(pre.rd(key, a, sort), f)))
                    if sort == "HV":
                        x = z3.Const("x!q", Val)
                        out.append(((key, "grow", nm), lambda v, i, key=key, a=a: z3.ForAll(
                            [x], z3.Implies(z3.Select(pre.rd(key, a, "HV"), x), z3.Select(v.rd(key, a, "HV"), x)),
                            patterns=[z3.Select(pre.rd(key, a, "HV"), x), z3.Select(v.rd(key, a, "HV"), x)])))
                        out.append(((key, "shrink", nm), lambda v, i, key=key, a=a: z3.ForAll(
                            [x], z3.Implies(z3.Select(v.rd(key, a, "HV"), x), z3.Select(pre.rd(key, a, "HV"), x)),
                            patterns=[z3.Select(v.rd(key, a, "HV"), x), z3.Select(pre.rd(key, a, "HV"), x)])))
                    if sort == "HV" and key == K_HAS and src is not None and src.kind == "seq":
                        (lv, larr, llo, lhi) = src.has
                        j = z3.Const("j!q", I)
                        out.append(((key, "rest", nm), lambda v, i, a=a: z3.ForAll(
                            [j], z3.Implies(z3.And(llo + i <= j, j < lhi),
                                            z3.Select(v.rd(K_HAS, a, "HV"), z3.Select(larr, j))),
                            patterns=[z3.Select(larr, j)])))
                if key == K_ARR:
                    j, k = z3.Const("j!q", I), z3.Const("k!q", I)
                    lo0 = pre.rd(K_LO, a, "I")
                    hi0 = pre.rd(K_HI, a, "I")
                    out.append(((key, "prefix", nm), lambda v, i, a=a, hi0=hi0: z3.ForAll(
                        [j], z3.Implies(j < hi0, z3.Select(v.rd(K_ARR, a, "AV"), j) ==
                                        z3.Select(pre.rd(K_ARR, a, "AV"), j)),
                        patterns=[z3.Select(v.rd(K_ARR, a, "AV"), j)])))
                    for f in self.eng.focus_pos_abs(self, a):
                        out.append(((key, "at", nm, tname(f)), lambda v, i, a=a, f=f:
                                    z3.Implies(f < hi0, z3.Select(v.rd(K_ARR, a, "AV"), f) ==
                                               z3.Select(pre.rd(K_ARR, a, "AV"), f))))
                    if src is not None and isinstance(src.kind, tuple) and src.idx is not None:
                        d, has = src.has
                        idx = src.idx

                        def keysof(v, i, a=a):
                            arr, lo, hi = v.rd(K_ARR, a, "AV"), v.rd(K_LO, a, "I"), v.rd(K_HI, a, "I")
                            e = z3.Select(arr, j)
                            return z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), z3.And(
                                z3.Select(has, e), idx(e) < i, idx(e) >= 0)), patterns=[e])

                        def incr(v, i, a=a):
                            arr, lo, hi = v.rd(K_ARR, a, "AV"), v.rd(K_LO, a, "I"), v.rd(K_HI, a, "I")
                            e, e2 = z3.Select(arr, j), z3.Select(arr, k)
                            return z3.ForAll([j, k], z3.Implies(z3.And(lo <= j, j < k, k < hi),
                                                                idx(e) < idx(e2)), patterns=[z3.MultiPattern(e, e2)])
                        out.append(((key, "keysof", nm), keysof))
                        out.append(((key, "incr", nm), incr))
        if info.suspends:
            for key, addrs in info.dirty.items():
                if key[0] == "ghost":
                    out.append((("segghost", key[1]), lambda v, i, g=key[1]: v.ghost[g] == v.seg.ghost[g]))
                    continue
                sort = info.addrs.get(key)
                if key in st.final_keys or sort is None:
                    continue
                terms = list(addrs.values()) if addrs is not None else [
                    kv.z for kv in st.known if self.key_matches(key, kv)]
                for a in terms:
                    out.append(((key, "seg", tname(a)), lambda v, i, key=key, a=a, sort=sort:
                                v.rd(key, a, sort) == v.seg.rd(key, a, sort)))
        for g in info.ghosts:
            z0 = pre.ghost[g]
            out.append((("ghost", g), lambda v, i, g=g, z0=z0: v.ghost[g] == z0))
            if z0.sort() == I:
                out.append((("ghost>=", g), lambda v, i, g=g, z0=z0: v.ghost[g] >= z0))
                if i0 is not None:
                    out.append((("ghostcnt", g), lambda v, i, g=g, z0=z0: v.ghost[g] == z0 + (i - i0)))
        self.loop_src = src
        out.extend(self.eng.spec_cands(self, info, pre, fr))
        return out

    def key_matches(self, key, kv):
        c = kv.ty.cls
        m = {"seq": SEQ, "col": SETS | DICTS, "cv": {"asyncio.Condition"}, "ev": {"asyncio.Event"},
             "task": {"asyncio.Task"}}
        if key[0] in m:
            return isinstance(c, str) and c in m[key[0]]
        if isinstance(c, PyClass):
            return any(isinstance(x, PyClass) and x.qual == key[0] for x in c.mro()) or key[0] == "gh"
        return False

    def check_cands(self, info, cands, view, idx, phase):
        st = self.st
        if self.replaying:
            return
        todo = []
        for nm, f in cands:
            if nm in info.dropped:
                continue
            z = f(view, idx)
            if z is None or (phase == "base" and isinstance(nm, tuple) and nm[0] == "local" and False):
                info.dropped.add(nm)
                self.eng.dropped = True
                continue
            z = z3.simplify(z) if not z3.is_quantifier(z) else z
            if z3.is_true(z):
                continue
            todo.append((nm, z))
        if not todo:
            return
        # one query for all of them first
        if len(todo) > 1 and st.must(z3.And(*[z for _, z in todo]), timeout=2000, full=False):
            return
        own = self.eng.own_cands
        for nm, z in todo:
            if not st.must(z, timeout=self.eng.cand_timeout, full=False) and not (
                    nm in own and st.must_afresh(z, self.eng.cand_timeout)):
                info.dropped.add(nm)
                self.eng.dropped = True
                self.eng.log(f"drop {phase} {nm} {getattr(info, 'key', '')}")

    def assume_cands(self, info, cands, view, idx):
        for nm, f in cands:
            if nm in info.dropped:
                continue
            z = f(view, idx)
            if z is not None:
                self.st.add(z)
