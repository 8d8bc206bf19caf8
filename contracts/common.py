"""Pieces shared by the contracts of the channels."""
from __future__ import annotations

import z3

from pyvc import core
from pyvc.core import I, ISA, T_ANY, T_BOOL, T_INT, T_STR, T_TD, T_USER, Ty, V, Val, View, nat_id
from pyvc.engine import Case, Spec, subclass_of
from pyvc.ext import (K_ARR, K_CARD, K_CEP, K_CPEND, K_CUN, K_DONE, K_ESET, K_ESETS, K_EUN, K_HAS, K_HI, K_LO,
                      K_MAP, K_MAX, K_MEM, K_WTGT, TCANC, TEXC, TKIND, TNAME, TRES, TSRC)
from pyvc.interp import Coro
from pyvc.loader import Ext, Native, PyClass, PyFunc, Unsupported

IMP, AND, OR, NOT = z3.Implies, z3.And, z3.Or, z3.Not


def T(x):
    return z3.BoolVal(bool(x))


def FA(vs, body, *patterns):
    """ForAll with those of the patterns that z3 accepts."""
    ok = [p for p in patterns if not has_ite(p)]
    return z3.ForAll(vs, body, patterns=ok) if ok else z3.ForAll(vs, body)


def has_ite(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ):
            return True
        todo.extend(x.children())
    return False


class ChannelSpec(Spec):
    """Common parts: `self` object, the channel C in focus."""

    def mod(self, short):
        self.module = self.pkg.modules["frequenz.channels." + short]
        return self.module

    def is_cause_closed(self, e, chan_z):
        """The cause of e is a ChannelClosedError of the channel."""
        cce = self.pkg.cls("_exceptions.ChannelClosedError")
        z = z3.simplify(self.cause(e))
        if not (z3.is_app(z) and z.decl().name() == "R"):
            return Val.is_R(z) if False else z3.BoolVal(False)
        a = z.arg(0)
        kv = self.known_obj(a)
        if kv is None:
            return z3.BoolVal(False)
        ok = self.is_exc(kv, cce)
        ch = self.rdf(self.st, cce, "channel", a)
        return AND(ok, ch == Val.R(chan_z))

    def known_obj(self, a):
        for kv in self.st.known:
            if z3.eq(kv.z, a):
                return kv
        return None

    def exc_field(self, e, cls, attr):
        c = self.pkg.cls(cls)
        return self.rdf(self.st, c, attr, e.z)

    def unch(self, a, b, cls, attr, addr):
        return self.rdf(a, cls, attr, addr) == self.rdf(b, cls, attr, addr)

    def same_seq(self, a, b, d):
        return AND(a.rd(K_LO, d, "I") == b.rd(K_LO, d, "I"), a.rd(K_HI, d, "I") == b.rd(K_HI, d, "I"),
                   a.rd(K_ARR, d, "AV") == b.rd(K_ARR, d, "AV"))

    def same_cv(self, a, b, cv):
        return AND(a.rd(K_CUN, cv, "I") == b.rd(K_CUN, cv, "I"), a.rd(K_CPEND, cv, "I") == b.rd(K_CPEND, cv, "I"))

    def call_method(self, obj, name, args=(), kw=None):
        it = self.it
        r = it.call(it.getattr(obj, name), list(args), dict(kw or {}))
        if isinstance(r, Coro):
            r = r.run()
        return r

    def arg_user(self, name="MSG"):
        z = z3.Const(name, Val)
        self.st.add(self.it.type_fact(z, T_USER))
        self.it.alloc_fact_val(z)
        return V("any", z, T_USER)

    def bool_of(self, r):
        """The returned value as a formula (must be a real bool)."""
        if r is True or r is False:
            return z3.BoolVal(r)
        if isinstance(r, V) and r.k == "bool":
            return r.z
        return None

    def raised_only(self, e, *classes, props=None, name="raises-only-the-documented-errors"):
        self.prove(OR(*[self.is_exc(e, c) for c in classes]) if classes else T(False), name, props,
                   f"raised {self.eng.exc_name(e)} {self.exc_origin or ''}")
