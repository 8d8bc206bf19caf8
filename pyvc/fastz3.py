"""Cheaper term constructors (the z3 module checks every argument in Python).

The constructors below build the same terms; arguments which are not terms
already take the original route, and z3 itself still rejects ill-sorted terms.
"""
import z3
from z3 import z3 as zz
from z3.z3core import (Z3_mk_and, Z3_mk_implies, Z3_mk_not, Z3_mk_or, Z3_mk_select, Z3_mk_store)

_E = zz.ExprRef
_B = zz.BoolRef
_ctx = zz.main_ctx()
_ref = _ctx.ref()
_Ast = zz.Ast
_o = {n: getattr(zz, n) for n in ("Select", "Store", "And", "Or", "Not", "Implies")}


def Select(a, *args):
    if len(args) == 1 and isinstance(args[0], _E):
        return zz._to_expr_ref(Z3_mk_select(_ref, a.ast, args[0].ast), _ctx)
    return _o["Select"](a, *args)


def Store(a, *args):
    if len(args) == 2 and isinstance(args[0], _E) and isinstance(args[1], _E):
        return zz.ArrayRef(Z3_mk_store(_ref, a.ast, args[0].ast, args[1].ast), _ctx)
    return _o["Store"](a, *args)


def _nary(mk, orig):
    def f(*args):
        if len(args) == 1 and isinstance(args[0], (list, tuple)):
            args = args[0]
        for x in args:
            if not isinstance(x, _B):
                return orig(*args)
        n = len(args)
        arr = (_Ast * n)()
        for i in range(n):
            arr[i] = args[i].ast
        return _B(mk(_ref, n, arr), _ctx)
    return f


And, Or = _nary(Z3_mk_and, _o["And"]), _nary(Z3_mk_or, _o["Or"])


def Not(a, ctx=None):
    if isinstance(a, _B):
        return _B(Z3_mk_not(_ref, a.ast), _ctx)
    return _o["Not"](a, ctx)


def Implies(a, b, ctx=None):
    if isinstance(a, _B) and isinstance(b, _B):
        return _B(Z3_mk_implies(_ref, a.ast, b.ast), _ctx)
    return _o["Implies"](a, b, ctx)


_forall = zz.ForAll
_BAD = (zz.Z3_OP_ITE, zz.Z3_OP_AND, zz.Z3_OP_OR, zz.Z3_OP_NOT, zz.Z3_OP_EQ, zz.Z3_OP_IMPLIES, zz.Z3_OP_TRUE, zz.Z3_OP_FALSE)


def bad_pattern(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if zz.is_app(x) and x.decl().kind() in _BAD:
            return True
        todo.extend(x.children())
    return False


def ForAll(vs, body, *a, patterns=(), **kw):
    """ForAll without the patterns z3 rejects (z3 chooses its own if none is left)."""
    ok = []
    for p in patterns:
        if isinstance(p, zz.PatternRef):
            ts = [zz._to_expr_ref(zz.Z3_get_pattern(_ref, p.ast, i), _ctx) for i in range(zz.Z3_get_pattern_num_terms(_ref, p.ast))]
        else:
            ts = [p]
        if not any(bad_pattern(t) for t in ts):
            ok.append(p)
    return _forall(vs, body, *a, patterns=ok, **kw)


z3.ForAll = zz.ForAll = ForAll
for _n in _o:
    setattr(z3, _n, globals()[_n])
    setattr(zz, _n, globals()[_n])
z3.Z3_DEBUG = zz.Z3_DEBUG = False
