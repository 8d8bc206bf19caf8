"""Sorts, values, symbolic state and solver access."""
from __future__ import annotations

import ast
import hashlib
import time

import z3

from . import fastz3  # noqa: F401

from .loader import EnumMember, Ext, Native, PyClass, PyFunc, PyModule, Unsupported

# ---------------------------------------------------------------------------- sorts
_V = z3.Datatype("Val")
_V.declare("none")
_V.declare("B", ("b", z3.BoolSort()))
_V.declare("I", ("i", z3.IntSort()))
_V.declare("F", ("f", z3.RealSort()))
_V.declare("S", ("s", z3.IntSort()))
_V.declare("R", ("a", z3.IntSort()))
_V.declare("T", ("t", z3.IntSort()))
_V.declare("N", ("n", z3.IntSort()))
_V.declare("Tup", ("k", z3.IntSort()))
Val = _V.create()
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
SORTS = {"I": I, "B": B, "R": R, "V": Val,
         "AV": z3.ArraySort(I, Val),        # sequence contents
         "HV": z3.ArraySort(Val, B),        # membership
         "MV": z3.ArraySort(Val, Val)}      # mapping


class Ty:
    __slots__ = ("k", "cls", "args")

    def __init__(self, k, cls=None, args=()):
        self.k, self.cls, self.args = k, cls, tuple(args)

    def __repr__(self):
        n = getattr(self.cls, "name", self.cls)
        return f"Ty({self.k}{',' + str(n) if n else ''}{',' + str(self.args) if self.args else ''})"

    def __eq__(self, o):
        return isinstance(o, Ty) and (self.k, self.cls, self.args) == (o.k, o.cls, o.args)

    def __hash__(self):
        return hash((self.k, self.cls, self.args))


T_INT, T_BOOL, T_FLOAT, T_STR, T_TD, T_NONE, T_USER = (
    Ty("int"), Ty("bool"), Ty("float"), Ty("str"), Ty("td"), Ty("none"), Ty("user"))
T_ANY = Ty("any")

_KSORT = {"int": "I", "bool": "B", "float": "R", "str": "I", "td": "I", "ref": "I"}


def sort_of(ty):
    return _KSORT.get(ty.k, "V")


class V:
    """A symbolic value."""

    __slots__ = ("k", "z", "ty", "exact")

    def __init__(self, k, z, ty=None, exact=False):
        self.k, self.z, self.ty, self.exact = k, z, ty, exact

    def __repr__(self):
        return f"V({self.k},{self.z})"

    @property
    def cls(self):
        return self.ty.cls if self.ty is not None else None


UNBOUND = Native("<unbound>")
MAYBE = Native("<bound only if the loop ran>")

_nat_ids: dict = {}
_nat_objs: list = []
_str_ids: dict = {}


def nat_id(o):
    key = id(o)
    if key not in _nat_ids:
        _nat_ids[key] = len(_nat_objs)
        _nat_objs.append(o)
    return _nat_ids[key]


def str_id(s):
    if s not in _str_ids:
        _str_ids[s] = len(_str_ids)
    return _str_ids[s]


_tkeep = {}


_tnames: dict = {}


def tname(z):
    """A short name of a term, the same in every process (terms are kept alive, so ids are not reused)."""
    i = z.get_id()
    n = _tnames.get(i)
    if n is None:
        x = z.sexpr()
        n = _tnames[i] = (x if len(x) <= 40 else hashlib.md5(x.encode()).hexdigest()[:12])
        _tkeep[i] = z
    return n


TUPN = {}


def tup_funcs(n):
    if n not in TUPN:
        mk = z3.Function(f"tup{n}", *([Val] * n + [I]))
        pr = [z3.Function(f"tup{n}_{i}", I, Val) for i in range(n)]
        TUPN[n] = (mk, pr)
    return TUPN[n]


# global ghost functions (immutable facts about objects)
OWNER = z3.Function("OWNER", I, I)
ROLE = z3.Function("ROLE", I, I)
HASH = z3.Function("HASH", I, I)
UNHASH = z3.Function("UNHASH", I, I)
STRI = z3.Function("STRI", I, I)
UNSTRI = z3.Function("UNSTRI", I, I)
TRUTHY = z3.Function("TRUTHY", Val, B)
VEQ = z3.Function("VEQ", Val, Val, B)
PATHOF = z3.Function("PATHOF", Val, Val)
TD_OF = z3.Function("TD_OF", Val, I)
PYMOD = z3.Function("PYMOD", I, I, I)
PYDIV = z3.Function("PYDIV", I, I, I)
_isa = {}


def ISA(name):
    if name not in _isa:
        _isa[name] = z3.Function("isa_" + name, I, B)
    return _isa[name]


def role_id(s):
    return str_id("role:" + s)


# ---------------------------------------------------------------------------- signals
class Sig(Exception):
    pass


class ReturnSig(Sig):
    def __init__(self, v):
        self.v = v


class BreakSig(Sig):
    pass


class ContinueSig(Sig):
    pass


class PyRaise(Sig):
    def __init__(self, exc, origin=None):
        self.exc = exc          # V ref
        self.origin = origin


class Cut(Exception):
    """End of this path (infeasible or covered by a loop invariant)."""


class Restart(Exception):
    """Loop information changed: explore the function again."""


class View:
    """An immutable snapshot of heap and ghosts."""

    def __init__(self, st):
        self.st = st
        self.heap = dict(st.heap)
        self.epoch = st.epoch
        self.keyepoch = dict(st.keyepoch)
        self.ghost = dict(st.ghost)
        self.alloc = st.alloc
        self.memo = {}
        self.cand_view = None

    def arr(self, key, sort):
        a = self.heap.get(key)
        if a is None:
            a = self.st.base(key, sort, self.keyepoch.get(key, self.epoch))
            self.heap[key] = a
        return a

    def rd(self, key, addr, sort):
        k = (key, addr.get_id())
        if k not in self.memo:
            self.memo[k] = (self.st.select(self.arr(key, sort), addr), addr)
        return self.memo[k][0]

    def g(self, name):
        return self.ghost[name]


class St:
    """State of the current path."""

    def __init__(self, eng):
        self.eng = eng
        self.heap = {}
        self.keyepoch = {}
        self.epoch = 0
        self.epochs = 0
        self.ghost = {}
        self.alloc = 0
        self.nfresh = 0
        self.final_keys = set()
        self.base_n = {}          # base const name -> (alloc count, unescaped list)
        self.epoch_info = {0: (0, ())}
        self.unescaped = {}       # numeral -> V
        self.children = {}
        self.dirty = {}           # key -> {name: address} written in this segment, or None
        self.seg = None
        self.rec = []             # active write recorders
        self.pc = []
        self.pckey = 0            # identifies the list of assumptions
        self.bounds = {}          # address -> least possible value
        self.flushed = 0          # assumptions known to the solver
        self.solver = z3.SimpleSolver()
        self.solver.set("auto_config", False)
        self.solver.set("smt.mbqi", False)
        self.solver.set("smt.array.extensional", False)      # quick first attempt, less complete
        self.full = None          # the complete solver, used when the first attempt fails
        self.fullflushed = 0
        self.known = []           # known reference terms [(z, cls)]
        self.known_ids = set()
        self.prov = {}
        self.elem_ty = {}
        self.written = set()
        self.owned = {}
        self.isa_seen = {}

    # -- fresh -------------------------------------------------------------------
    def name(self, hint):
        self.nfresh += 1
        return f"{hint}!{self.nfresh}"

    def const(self, hint, sort):
        return z3.Const(self.name(hint), SORTS[sort] if isinstance(sort, str) else sort)

    # -- heap --------------------------------------------------------------------
    def base(self, key, sort, epoch):
        if key in self.final_keys:
            epoch = 0
        nm = f"H{epoch}_{key[0]}.{key[1]}"
        return z3.Const(nm, z3.ArraySort(I, SORTS[sort]))

    def cur(self, key, sort):
        a = self.heap.get(key)
        if a is None:
            a = self.base(key, sort, self.keyepoch.get(key, self.epoch))
            self.heap[key] = a
        return a

    def rd(self, key, addr, sort):
        return self.select(self.cur(key, sort), addr)

    def bound(self, z, lo):
        """It is known (and was assumed) that the address z is at least lo."""
        if z3.is_int_value(z):
            return
        i = z.get_id()
        b = self.bounds.get(i)
        if b is None or b[0] < lo:
            self.bounds[i] = (lo, z)

    def select(self, arr, addr):
        """arr[addr], passing over writes to addresses which are certainly different."""
        num = addr.as_long() if z3.is_int_value(addr) else None
        b = None if num is not None else self.bounds.get(addr.get_id())
        while z3.is_store(arr):
            i = arr.arg(1)
            if z3.eq(i, addr):
                return z3.simplify(arr.arg(2))
            if z3.is_int_value(i):
                n = i.as_long()
                if num is not None or (b is not None and n < b[0]):
                    arr = arr.arg(0)
                    continue
            elif num is not None:
                c = self.bounds.get(i.get_id())
                if c is not None and num < c[0]:
                    arr = arr.arg(0)
                    continue
            break
        return z3.simplify(z3.Select(arr, addr))

    def wr(self, key, addr, z, sort):
        a = self.cur(key, sort)
        self.heap[key] = z3.Store(a, addr, z)
        d = self.dirty.setdefault(key, {})
        if d is not None:
            d[tname(addr)] = addr
        if z3.is_int_value(addr) and addr.as_long() < 0:
            self.written.add((key, addr.as_long()))
        for r in self.rec:
            r.add((key, addr, sort))

    def setarr(self, key, arr, sort):
        """Replace the whole field map."""
        self.heap[key] = arr
        self.dirty[key] = None
        for r in self.rec:
            r.add((key, None, sort))

    def setg(self, name, z):
        self.ghost[name] = z
        self.dirty[("ghost", name)] = None
        for r in self.rec:
            r.add((("ghost", name), None, None))

    def new_epoch(self, keep_locals=True):
        """Havoc everything that is not final, keeping local (unescaped) objects."""
        self.epochs += 1
        e = self.epochs
        old = self.heap
        self.heap = {}
        self.keyepoch = {}
        self.epoch = e
        self.epoch_info[e] = (self.alloc, tuple(self.unescaped))
        for key, arr in old.items():
            if key in self.final_keys:
                self.heap[key] = arr
                continue
            srt = arr.sort().range()
            nb = z3.Const(f"H{e}_{key[0]}.{key[1]}", arr.sort())
            for num, v in self.unescaped.items():
                if self._has_written(key, num):
                    nb = z3.Store(nb, z3.IntVal(num), z3.simplify(z3.Select(arr, z3.IntVal(num))))
            self.heap[key] = nb
        return e

    def _has_written(self, key, num):
        return (key, num) in self.written

    # -- logic -------------------------------------------------------------------
    def add(self, z):
        if z is True or z is None:
            return
        if z is False:
            raise Cut()
        z = z3.simplify(z) if not z3.is_quantifier(z) else z
        if z3.is_true(z):
            return
        if z3.is_false(z):
            raise Cut()
        self.pc.append(z)
        self.pckey = self.eng.intern(self.pckey, z)

    def check(self, extra, timeout, full=False):
        """Satisfiability with the assumptions (answers are remembered across rounds)."""
        eng = self.eng
        ck = (self.pckey, extra.get_id(), full)
        hit = eng.answers.get(ck)
        if hit is not None and (hit[0] == z3.unsat or (not full and timeout <= hit[2])):
            return hit[0], None, hit[3]
        if full and self.full is None:
            self.full = z3.SimpleSolver()
            self.full.set("auto_config", False)
            self.full.set("smt.mbqi", False)
        solver = self.full if full else self.solver
        solver.set("timeout", timeout)
        t = time.time()
        for z in self.pc[self.fullflushed if full else self.flushed:]:
            solver.add(z)
        if full:
            self.fullflushed = len(self.pc)
        else:
            self.flushed = len(self.pc)
        solver.push()
        try:
            solver.add(extra)
            r = solver.check()
            m = None
            if r == z3.sat:
                try:
                    m = solver.model()
                except z3.Z3Exception:
                    m = None
            reason = solver.reason_unknown() if r == z3.unknown else ""
        finally:
            solver.pop()
        eng.solver_time += time.time() - t
        eng.queries += 1
        eng.answers[ck] = (r, extra, timeout, reason)
        return r, m, reason

    def must_afresh(self, z, timeout):
        """The same question to a solver without a past (other orders of instantiation)."""
        n = z3.Not(z3.simplify(z) if not z3.is_quantifier(z) else z)
        ck = (self.pckey, n.get_id(), "afresh")
        hit = self.eng.answers.get(ck)
        if hit is None:
            t = time.time()
            r = z3.unknown
            for seed in (1, 2):
                s = z3.SimpleSolver()
                s.set("auto_config", False)
                s.set("smt.mbqi", False)
                s.set("smt.random_seed", seed)
                s.set("timeout", timeout)
                s.add(n)
                s.add(*self.pc)
                r = s.check()
                if r != z3.unknown:
                    break
            self.eng.solver_time += time.time() - t
            self.eng.queries += 1
            hit = self.eng.answers[ck] = (r, n)
        return hit[0] == z3.unsat

    def must(self, z, timeout=1500, full=True):
        if z is True:
            return True
        if z is False:
            z = z3.BoolVal(False)
        z = z3.simplify(z) if not z3.is_quantifier(z) else z
        if z3.is_true(z):
            return True
        n = z3.Not(z)
        if self.check(n, timeout)[0] == z3.unsat:
            return True
        return full and self.check(n, timeout, True)[0] == z3.unsat
