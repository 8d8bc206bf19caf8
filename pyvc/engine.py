"""The driver of the verifier: path exploration, obligations, types, interference."""
from __future__ import annotations

import ast
import collections
import multiprocessing
import multiprocessing.connection
import os
import signal
import time
import traceback

import z3

from . import core
from .core import (B, I, ISA, T_ANY, T_BOOL, T_FLOAT, T_INT, T_NONE, T_STR, T_TD, T_USER, Cut, PyRaise,
                   Restart, ReturnSig, Ty, V, Val, View, sort_of)
from .ext import EXT_FINAL, LoopInfo
from .interp import Coro, Frame, ext_exc
from .lib import Lib
from .loader import EnumMember, Ext, Native, PyClass, PyFunc, PyModule, Unsupported

STUBS = '''
async def wait_for(self, predicate):
    result = predicate()
    while not result:
        await self.wait()
        result = predicate()
    return result
'''

EXT_ENUMS = {"watchfiles.Change": ["added", "modified", "deleted"]}
_CANON_ENUM = {"watchfiles.main.Change": "watchfiles.Change"}
_EXT_TY = {
    "builtins.int": T_INT, "builtins.bool": T_BOOL, "builtins.float": T_FLOAT, "builtins.str": T_STR,
    "datetime.timedelta": T_TD, "typing.Any": T_USER, "builtins.object": T_ANY, "builtins.None": T_NONE,
}
_GENERIC = {
    "collections.deque": "collections.deque", "builtins.list": "builtins.list", "builtins.set": "builtins.set",
    "builtins.frozenset": "builtins.frozenset", "builtins.dict": "builtins.dict", "weakref.ref": "weakref.ref",
    "weakref.ReferenceType": "weakref.ref", "asyncio.Task": "asyncio.Task", "asyncio.Future": "asyncio.Future",
    "typing.AsyncGenerator": "typing.AsyncGenerator", "typing.List": "builtins.list", "typing.Dict": "builtins.dict",
    "typing.Set": "builtins.set", "typing.FrozenSet": "builtins.frozenset",
    "collections.abc.AsyncIterator": "typing.AsyncIterator", "collections.abc.Iterable": "typing.Iterable",
    "typing.Iterable": "typing.Iterable", "collections.abc.Set": "builtins.frozenset",
    "collections.abc.MutableSet": "builtins.set", "typing.AsyncIterator": "typing.AsyncIterator",
    "collections.abc.Sequence": "builtins.list", "collections.abc.Mapping": "builtins.dict",
}
_PLAIN = {"asyncio.Condition", "asyncio.Event", "asyncio.Lock", "asyncio.AbstractEventLoop", "pathlib.Path",
          "asyncio.Semaphore", "asyncio.Queue"}


class Ob:
    __slots__ = ("name", "props", "ok", "n", "trivial", "time", "info", "model", "trace", "reason", "func", "undecided")

    def __init__(self, name):
        self.name, self.props, self.ok, self.n, self.trivial, self.time = name, set(), True, 0, 0, 0.0
        self.info = self.model = self.trace = self.reason = None
        self.undecided = False


class Engine:
    def __init__(self, pkg, verbose=False):
        self.pkg = pkg
        self.verbose = verbose
        self.solver_time = 0.0
        self.queries = 0
        self.branch_timeout = 1500
        self.cand_timeout = 1500
        self.ob_timeout = 6000
        self.first_fail = None
        self.grace = 15
        self.jobs = int(os.environ.get('VJOBS', 0)) or min(8, os.cpu_count() or 1)
        self.keepalive = []
        self.inlined = set()
        self.answers = {}
        self.own_cands = set()
        self._intern = {}
        self.site_ty = {}
        self.loops = {}
        self.dropped = False
        self.worklist = []
        self._stub = None
        self._lazy = {}
        self._fty = {}
        self._enums = {}
        self.judging = True
        self.obs = {}
        self.assumed = set()
        self.classes = [c for m in pkg.modules.values() for c in m.env.values()
                        if isinstance(c, PyClass) and c.module is m]
        self.exc_classes = [c for c in self.classes if any(
            isinstance(b, Ext) and ext_exc(b.name) is not None for b in c.mro())]
        self.sentinel_classes = [c for c in self.classes if c.name.startswith("_") and not c.bases
                                 and not c.field_annots and not c.field_assigns and not c.class_annots]
        self.final_keys = self._finals()

    # ------------------------------------------------------------------ finals
    def _finals(self):
        foreign = set()
        for m in self.pkg.modules.values():
            selfs = {}
            for c in m.env.values():
                if isinstance(c, PyClass) and c.module is m:
                    for f in c.methods.values():
                        a = f.node.args
                        ps = a.posonlyargs + a.args
                        if ps and not f.is_static:
                            for n in ast.walk(f.node):
                                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
                                        and n.value.id == ps[0].arg:
                                    selfs[id(n)] = True
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in selfs:
                    foreign.add(n.attr)
        out = set(EXT_FINAL)
        for c in self.classes:
            names = set(c.field_annots) | set(c.field_assigns) | {n for n, _, _ in c.class_annots}
            for n in names:
                pub = not n.startswith("_")
                if pub and c not in self.exc_classes and not c.is_dataclass:
                    continue
                if n in foreign:
                    continue
                who = set()
                for d in self.classes:
                    if d is c or c in d.mro() or d in c.mro():
                        who |= d.field_assigns.get(n, set())
                if who - {"__init__"}:
                    continue
                o = c.field_owner(n)
                out.add((o.qual, n))
        return out

    # ------------------------------------------------------------------ misc
    def intern(self, key, z):
        k = (key, z.get_id())
        r = self._intern.get(k)
        if r is None:
            r = self._intern[k] = (len(self._intern) + 1, z)     # the term is kept alive
        return r[0]

    def log(self, *a):
        if self.verbose:
            print("   .", *a, flush=True)

    def npaths_guard(self, n):
        if len(self.worklist) > 3000:
            raise Unsupported("too many paths")
        if n > 400:
            raise Unsupported("path too long")
        if time.time() > self.deadline:
            raise Unsupported("time budget for the function exhausted")

    def loopinfo(self, key):
        if key not in self.loops:
            self.loops[key] = LoopInfo(len(self.loops))
            self.judging = False
            self.dropped = True
        return self.loops[key]

    def stub_module(self):
        if self._stub is None:
            m = PyModule("stubs", "<stubs>", ast.parse(STUBS), STUBS)
            for st in m.tree.body:
                m.env[st.name] = PyFunc(m, None, st)
            self._stub = m
        return self._stub

    def lazy_global(self, it, mod, name, node):
        k = (mod.name, name)
        if k not in self._lazy:
            self._lazy[k] = it.static_eval(mod, node, f"{mod.short}.{name}")
        return self._lazy[k]

    # ------------------------------------------------------------------ enums
    def ext_enum(self, e):
        return _CANON_ENUM.get(e.name, e.name) in EXT_ENUMS

    def enum_members(self, c):
        if isinstance(c, Ext):
            c = c.name
        if isinstance(c, str):
            c = _CANON_ENUM.get(c, c)
            return [Ext(f"{c}.{n}") for n in EXT_ENUMS[c]]
        if c.qual not in self._enums:
            out = []
            it = Lib(self, [])
            for n, node in c.class_attrs.items():
                out.append(EnumMember(c, n, it.static_eval(c.module, node, f"{c.qual}.{n}")))
            self._enums[c.qual] = out
        return self._enums[c.qual]

    def enum_member(self, c, attr):
        for m in self.enum_members(c):
            if m.mname == attr:
                return m
        raise Unsupported(f"enum member {attr}")

    # ------------------------------------------------------------------ types
    def field_ty(self, cls, attr):
        o = cls.field_owner(attr)
        k = (o.qual, attr)
        if k in self._fty:
            return self._fty[k]
        ann = o.field_annots.get(attr)
        if ann is None:
            for n, a, _ in o.class_annots:
                if n == attr:
                    ann = a
        ty = None
        if ann is None:
            ann = next((c.field_annots[attr] for c in o.mro() if isinstance(c, PyClass) and attr in c.field_annots),
                       None)
        if ann is not None:
            try:
                ty = self.parse_ty(o.module, ann, None)
            except Unsupported as e:
                self.log("type", e)
        else:
            for f, v in o.field_nodes.get(attr, []):
                if isinstance(v, ast.Constant) and isinstance(v.value, bool):
                    ty = T_BOOL
                elif isinstance(v, ast.Constant) and isinstance(v.value, int):
                    ty = T_INT
                elif isinstance(v, ast.Name) and f.name == "__init__":
                    for p in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
                        if p.arg == v.id and p.annotation is not None:
                            try:
                                ty = self.parse_ty(o.module, p.annotation, None)
                            except Unsupported:
                                pass
                elif isinstance(v, ast.Call):
                    r = self.pkg.static_ref(o.module, v.func)
                    if isinstance(r, PyClass):
                        ty = Ty("ref", r)
                    elif isinstance(r, Ext) and (r.name in _PLAIN or r.name in _GENERIC):
                        ty = Ty("ref", _GENERIC.get(r.name, r.name))
                if ty is not None:
                    break
        self._fty[k] = ty or T_ANY
        return self._fty[k]

    def parse_ty(self, m, n, fr):
        if isinstance(n, ast.Constant):
            if n.value is None:
                return T_NONE
            if isinstance(n.value, str):
                return self.parse_ty(m, ast.parse(n.value, mode="eval").body, fr)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
            return self.union([self.parse_ty(m, n.left, fr), self.parse_ty(m, n.right, fr)])
        sub = None
        if isinstance(n, ast.Subscript):
            sub = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            n = n.value
        r = self.pkg.static_ref(m, n) if isinstance(n, (ast.Name, ast.Attribute)) else None
        if r is None and fr is not None and isinstance(n, ast.Name):
            f = fr.find(n.id)
            r = f.locals[n.id] if f is not None else None
        if isinstance(r, tuple) and r:
            # TypeVar or alias
            node = r[1] if r[0] == "lazy" else r[1].env[r[2]][1]
            mod = m if r[0] == "lazy" else r[1]
            if isinstance(node, ast.Call):
                return T_USER
            return self.parse_ty(mod, node, fr)
        if isinstance(r, PyClass):
            return Ty("enum", r) if r.is_enum() else Ty("ref", r)
        if isinstance(r, Ext):
            nm = _CANON_ENUM.get(r.name, r.name)
            if nm in _EXT_TY:
                return _EXT_TY[nm]
            if nm in EXT_ENUMS:
                return Ty("enum", nm)
            if nm == "watchfiles.main.FileChange":
                return Ty("tuple", None, (Ty("enum", "watchfiles.Change"), T_STR))
            if nm in ("builtins.tuple", "typing.Tuple"):
                if not sub:
                    return Ty("tuple")
                if len(sub) == 2 and isinstance(sub[1], ast.Constant) and sub[1].value is Ellipsis:
                    return Ty("ref", "tuple*", (self.parse_ty(m, sub[0], fr),))
                return Ty("tuple", None, [self.parse_ty(m, s, fr) for s in sub])
            if nm in ("collections.abc.Callable", "typing.Callable"):
                return Ty("callable")
            if nm in ("builtins.type", "typing.Type"):
                if sub:
                    t = self.parse_ty(m, sub[0], fr)
                    if t.k == "ref":
                        return Ty("type", t.cls)
                return T_ANY
            if nm in ("typing.Optional",):
                return self.union([self.parse_ty(m, sub[0], fr), T_NONE])
            if nm in ("typing.Union",):
                return self.union([self.parse_ty(m, s, fr) for s in sub])
            if nm in ("typing.Final", "typing.ClassVar", "typing.Annotated"):
                return self.parse_ty(m, sub[0], fr) if sub else T_ANY
            if nm in ("typing.TypeGuard", "typing.TypeIs"):
                return T_BOOL
            if nm in _GENERIC:
                return Ty("ref", _GENERIC[nm], [self.parse_ty(m, s, fr) for s in sub or ()])
            if nm in _PLAIN:
                return Ty("ref", nm)
            if ext_exc(nm) is not None:
                return Ty("ref", nm)
        raise Unsupported(f"type annotation {ast.unparse(n)}")

    def union(self, ts):
        fl = []
        for t in ts:
            for x in (t.args if t.k == "union" else (t,)):
                if x not in fl:
                    fl.append(x)
        if any(x.k == "any" for x in fl):
            return T_ANY
        return fl[0] if len(fl) == 1 else Ty("union", None, fl)

    def param_ty(self, fn, name):
        a = fn.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []):
            if p.arg == name:
                if p.annotation is None:
                    return T_ANY
                return self.parse_ty(fn.module, p.annotation, None)
        return None

    # ------------------------------------------------------------------ obligations
    def obligation(self, it, z, name, props=(), info=""):
        st = it.st
        if isinstance(z, bool):
            z = z3.BoolVal(z)
        if self.judging and not it.replaying:
            ob = self.obs.setdefault(name, Ob(name))
            ob.props |= set(props)
            ob.n += 1
            t0 = time.time()
            zz = z if z3.is_quantifier(z) else z3.simplify(z)
            if z3.is_true(zz):
                ob.trivial += 1
            elif ob.ok:
                n = z3.Not(zz)
                r, m, why = st.check(n, self.ob_timeout)
                if r != z3.unsat:
                    r, m, why = st.check(n, self.ob_timeout, True)
                if r == z3.unknown:
                    r2, m2 = self.retry(st, zz)
                    if r2 != z3.unknown:
                        r, m = r2, m2
                if r != z3.unsat:
                    if self.first_fail is None:
                        self.first_fail = time.time()
                    if ob.ok:
                        ob.ok = False
                        ob.reason = "counterexample" if r == z3.sat else f"not proved ({why})"
                        ob.undecided = r != z3.sat and any(k in str(why) for k in ("timeout", "cancel", "memout", "resource", "interrupt"))
                        ob.info = info
                        ob.model = self.model_text(it, m)
                        ob.trace = list(it.trace[-40:])
                    self.log("FAIL", name, r, info)
            ob.time += time.time() - t0
        st.add(z)

    def retry(self, st, zz):
        s = z3.Solver()
        s.set("timeout", self.ob_timeout * 2)
        s.add(*st.pc)
        s.add(z3.Not(zz))
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        return r, (s.model() if r == z3.sat else None)

    def model_text(self, it, m):
        if m is None:
            return None
        out = []
        for d in m.decls():
            if d.arity() == 0 and not d.name().startswith("H"):
                s = str(m[d])
                if len(s) < 200:
                    out.append(f"{d.name()} = {s}")
        return out[:80]

    # ------------------------------------------------------------------ interference
    def suspend(self, it, kind, info):
        st = it.st
        it.trace.append(f"suspend {kind}")
        if it.held():
            self.obligation(it, z3.BoolVal(False), "no-lock-held-while-suspended", it.spec.all_props)
        it.spec.before_suspend(kind, info)
        it.spec.segment_end(kind)
        pre = View(st)
        st.new_epoch()
        it.spec.assume_rely(pre)
        it.spec.assume_inv()
        st.dirty = {}
        st.seg = View(st)
        it.spec.after_suspend(kind, info, pre)

    def cancelled(self, it, kind, info):
        it.trace.append(f"cancelled in {kind}")
        it.spec.event(it, "cancelled", kind_=kind)

    def seg_havocked(self, it):
        for _, _, z in it.spec.inv_of(it.st.seg):
            it.st.add(z)

    def do_yield(self, it, v):
        sp = it.spec
        sp.event(it, "yield", value=v)
        it.escape(v)
        it.suspensions += 1
        self.suspend(it, "yield", {"value": v})
        sp.event(it, "yield_resumed", value=v)
        if it.choose(2) == 1:
            e = it.unknown_exc("builtins.BaseException", "thrown")
            sp.event(it, "yield_thrown", exc=e)
            raise PyRaise(e, "thrown into the generator")

    def spec_cands(self, it, info, pre, fr):
        out = []
        if info.suspends:
            out.extend(it.spec.rely_cands(pre))
            for j, (n, _, _) in enumerate(it.spec.guar(pre.seg, pre)):
                out.append((("segguar", n), lambda v, i, j=j: it.spec.guar_of(v.seg, v)[j][2]))
        own = it.spec.cands(info, pre, fr)
        self.own_cands.update(nm for nm, _ in own)
        return out + own

    def focus_vals(self, it):
        return it.spec.focus_vals() if it.spec is not None else []

    def inst_vals(self, it):
        return it.spec.focus_vals() + it.spec.inst_vals() if it.spec is not None else []

    def only_inst_vals(self, it):
        return it.spec.inst_vals() if it.spec is not None else []

    def focus_pos(self, it, v):
        return it.spec.focus_pos(v) if it.spec is not None else []

    def focus_pos_abs(self, it, a):
        return it.spec.focus_pos_abs(a) if it.spec is not None else []

    def focus_sort_ok(self, it, f, ty):
        want = {"ref": "R", "str": "S", "int": "I", "td": "T", "bool": "B", "tuple": "Tup"}.get(ty.k)
        if want is None or not z3.is_app(f):
            return True
        d = f.decl().name()
        return d == want or d not in ("R", "S", "I", "T", "B", "N", "none", "Tup", "F")

    def alive(self, it, z):
        return it.spec.alive(z) if it.spec is not None else False

    def user_code(self, it):
        self.assumed.add("user callables and foreign receivers do not re-enter the object in progress")

    def ref_hint(self, it, v):
        return None

    def agen_next(self, it, v):
        return it.spec.agen_next(v)

    # ------------------------------------------------------------------ contracts of abstract methods
    def apply_contract(self, it, fn, args, kwargs):
        sp = it.spec
        if sp is not None:
            r = sp.contract(fn, args, kwargs)
            if r is not None:
                return r
        if not fn.is_abstract:
            return None
        return self.abstract_contract(it, fn, args, kwargs)

    def abstract_contract(self, it, fn, args, kwargs):
        if fn.name == "ready":
            def run():
                it.spec_event("abs_ready", recv=args[0])
                it.suspensions += 1
                self.suspend(it, "ready", {"recv": args[0]})
                c = it.choose(3)
                if c == 1:
                    it.raise_exc("asyncio.CancelledError")
                if c == 2:
                    e = it.unknown_exc("builtins.Exception", "readyerr")
                    it.spec_event("abs_ready_raised", recv=args[0], exc=e)
                    raise PyRaise(e)
                r = V("bool", it.st.const("ready", "B"), T_BOOL)
                it.spec_event("abs_ready_done", recv=args[0], result=r)
                return r
            return (Coro(run, desc="ready", fn=fn, args=args),)
        if fn.name == "consume":
            it.spec_event("abs_consume", recv=args[0])
            if it.choose(2) == 1:
                e = it.unknown_exc("builtins.Exception", "consumeerr")
                it.spec_event("abs_consume_raised", recv=args[0], exc=e)
                raise PyRaise(e)
            r = it.fresh(T_USER, "msg")
            it.spec_event("abs_consume_done", recv=args[0], result=r)
            return (r,)
        if fn.name == "calculate_next_tick_time":
            kw = dict(kwargs)
            names = [p.arg for p in fn.node.args.posonlyargs + fn.node.args.args][1:]
            for n, a in zip(names, args[1:]):
                kw[n] = a
            it.spec_event("policy", obj=args[0], kw=kw)
            if it.choose(2) == 1:
                e = it.unknown_exc("builtins.Exception", "policyerr")
                it.spec_event("policy_raised", exc=e)
                raise PyRaise(e)
            r = it.fresh(T_INT, "nexttick")
            it.spec_event("policy_done", result=r)
            return (r,)
        return None

    # ------------------------------------------------------------------ exploration
    def run_case(self, case, budget=240):
        self.case = case
        self.deadline = time.time() + budget
        t0 = time.time()
        self.unsupported = None
        rounds = 0
        self.judging = True
        while True:
            rounds += 1
            self.dropped = False
            self.obs = {}
            self.first_fail = None
            self.early = False
            self.exits = collections.Counter()
            self.worklist = [[]]
            self.npaths = 0
            judge = self.judging
            if rounds > 80:
                self.unsupported = "loop inference does not stabilise"
                break
            self.again = False
            try:
                self.explore(case)
            except Unsupported as e:
                if not self.again or time.time() > self.deadline:
                    self.unsupported = str(e)
                    self.where = traceback.format_exc()
                    break
            if self.again:
                self.judging = False
                if case.redo:
                    for info in self.loops.values():
                        info.dropped.clear()
            self.log(f"round {rounds}: {self.npaths} paths, {self.solver_time:.1f} s solver, {time.time() - t0:.1f} s, "
                     f"{'restart' if self.again else 'dropped' if self.dropped else 'stable'} judge={judge}")
            if self.again:
                continue
            if self.early:
                break
            if self.dropped or not judge or not self.judging:
                stable = not self.dropped
                self.judging = True
                if stable and judge:
                    break
                continue
            break
        self.rounds = rounds
        self.wall = time.time() - t0
        if self.unsupported is None and not self.early:
            for lab in case.expect:
                ob = self.obs.setdefault("reachable:" + lab, Ob("reachable:" + lab))
                ob.n += 1
                ob.props |= set(case.props)
                if not self.exits.get(lab):
                    ob.ok = False
                    ob.reason = "no execution of the function reaches this exit (vacuous contract)"
        return self.obs

    def explore(self, case):
        """One round: every execution of the function."""
        par = case.parallel and self.jobs > 1
        while self.worklist:
            if par and len(self.worklist) >= 4 and self.npaths >= 30:
                self.explore_parallel(case)
                return
            # (breadth first until there is enough to share)
            self.one_path(case, self.worklist.pop(0 if par else -1))
            if self.stop_round():
                return

    def one_path(self, case, prefix):
        self.npaths += 1
        it = Lib(self, prefix)
        try:
            self.run_path(case, it)
        except Cut:
            pass
        except Restart:
            self.again = True
        return it

    def stop_round(self):
        if self.first_fail and not self.again and time.time() > self.first_fail + self.grace:
            self.early = True        # it failed already; assumptions only get weaker
            return True
        if time.time() > self.deadline:
            raise Unsupported("time budget for the function exhausted")
        return False

    def explore_parallel(self, case):
        """The rest of a round in forked processes, which hand back what they found."""
        workers = []
        queue, self.worklist = self.worklist, []
        replays, problem = [], None
        for _ in range(self.jobs):
            a, b = multiprocessing.Pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    a.close()
                    for w in workers:
                        w["conn"].close()
                    self.worker(case, b)
                finally:
                    os._exit(0)
            b.close()
            workers.append({"pid": pid, "conn": a, "busy": False})
        try:
            while queue or any(w["busy"] for w in workers):
                for w in workers:
                    if queue and not w["busy"]:
                        w["conn"].send(queue.pop())
                        w["busy"] = True
                for c in multiprocessing.connection.wait([w["conn"] for w in workers if w["busy"]], 0.5):
                    w = next(w for w in workers if w["conn"] is c)
                    try:
                        r = c.recv()
                    except EOFError:
                        raise Unsupported("a process of the verifier was killed") from None
                    w["busy"] = False
                    queue.extend(r["left"])
                    replays.extend(r["again"])
                    problem = problem or r["problem"]
                    self.take(r)
                self.again = self.again or bool(replays)
                if self.stop_round():
                    break
        finally:
            for w in workers:
                os.kill(w["pid"], signal.SIGKILL)
                w["conn"].close()
                os.waitpid(w["pid"], 0)
        # what was learnt about the loops is learnt again here (terms cannot be handed over)
        for p in replays:
            judging, self.judging = self.judging, False
            self.one_path(case, p)
            self.judging = judging and self.judging
            if time.time() > self.deadline:
                raise Unsupported("time budget for the function exhausted")
        self.worklist = []
        if problem is not None:
            raise Unsupported(problem)

    def worker(self, case, conn):
        while True:
            try:
                prefix = conn.recv()
            except EOFError:
                return
            before = {k: set(i.dropped) for k, i in self.loops.items()}
            self.obs, self.exits = {}, collections.Counter()
            self.npaths, self.solver_time, self.queries = 0, 0.0, 0
            self.first_fail, self.dropped = None, False
            self.inlined, self.assumed = set(), set()
            self.worklist = [prefix]
            again, problem = [], None
            end = time.time() + 1.5
            while self.worklist and time.time() < end and not problem:
                known = len(self.loops)
                self.again = False
                it = None
                try:
                    it = self.one_path(case, self.worklist.pop())
                except Unsupported as e:
                    problem = str(e)
                if it is not None and (self.again or len(self.loops) != known):
                    again.append(it.decisions)
            drops = {k: i.dropped - before.get(k, set()) for k, i in self.loops.items()}
            conn.send({
                "left": self.worklist, "again": again, "problem": problem, "obs": self.obs, "exits": self.exits,
                "drops": {k: d for k, d in drops.items() if d}, "npaths": self.npaths, "solver": self.solver_time,
                "queries": self.queries, "fail": self.first_fail is not None, "inlined": {str(getattr(f, "qual", f)) for f in self.inlined},
                "assumed": {str(x) for x in self.assumed}})

    def take(self, r):
        for n, o in r["obs"].items():
            m = self.obs.get(n)
            if m is None:
                self.obs[n] = o
                continue
            m.n += o.n
            m.trivial += o.trivial
            m.time += o.time
            m.props |= o.props
            if m.ok and not o.ok:
                for f in ("ok", "info", "model", "trace", "reason", "undecided"):
                    setattr(m, f, getattr(o, f))
        self.exits.update(r["exits"])
        self.npaths += r["npaths"]
        self.solver_time += r["solver"]
        self.queries += r["queries"]
        self.inlined |= r["inlined"]
        self.assumed |= r["assumed"]
        if r["fail"] and self.first_fail is None:
            self.first_fail = time.time()
        for k, d in r["drops"].items():
            if k in self.loops:
                self.loops[k].dropped |= d
                self.dropped = True

    def run_path(self, case, it):
        spec = case.make(self, it)
        it.spec = spec
        fr = Frame(None, spec.module or next(iter(self.pkg.modules.values())))
        it.cur_frame = fr
        spec.setup()
        spec.assume_inv()
        it.st.dirty = {}
        it.st.seg = View(it.st)
        spec.entry = it.st.seg
        spec.entered()
        if it.st.check(z3.BoolVal(True), 2000)[0] == z3.unsat:
            if not it.replaying:
                self.exits["#contradictory-entry"] += 1
            raise Cut()
        try:
            r = spec.call()
        except PyRaise as p:
            lab = "raise"
            spec.exc_origin = p.origin
            it.trace.append(f"raises {self.exc_name(p.exc)} {p.origin or ''}")
            self.count_exit(it, lab)
            spec.raised(p.exc)
        else:
            it.trace.append("returns")
            self.count_exit(it, "return")
            spec.returned(r)
        if it.held():
            self.obligation(it, z3.BoolVal(False), "lock-released", spec.all_props)
        spec.segment_end("exit")

    def exc_name(self, e):
        return e.cls.name if isinstance(e.cls, PyClass) else str(e.cls)

    def count_exit(self, it, lab):
        if self.judging and not self.exits.get(lab):
            if it.st.check(z3.BoolVal(True), 3000)[0] != z3.unsat:
                self.exits[lab] += 1


class Case:
    parallel = False    # worth several processes
    fold = False        # loops are left from their head only (fewer executions, but needs stronger invariants)
    redo = False        # candidates depend on what the loops modify: restart the inference with it

    def __init__(self, name, make, props, expect=("return",), func=None):
        self.name, self.make, self.props, self.expect, self.func = name, make, set(props), tuple(expect), func


class Spec:
    """Contract of one function: base class with empty clauses."""

    all_props = ()
    module = None

    def __init__(self, eng, it):
        self.eng, self.it, self.st, self.pkg = eng, it, it.st, eng.pkg

    # -- clauses
    def setup(self):
        pass

    def entered(self):
        pass

    def call(self):
        raise NotImplementedError

    def returned(self, r):
        pass

    def raised(self, e):
        pass

    def inv(self, v):
        return []

    def guar(self, a, b):
        return []

    def rely(self, a, b):
        return [(n, z) for n, _, z in self.guar(a, b)]

    def cands(self, info, pre, fr):
        return []

    def rely_cands(self, pre):
        out = []
        names = [n for n, _ in self.rely(pre, pre)]
        for n in names:
            def f(v, i, n=n):
                return self.rely_of(pre, v)[n]
            out.append((("rely", n), f))
        return out

    def focus_vals(self):
        return []

    def inst_vals(self):
        return []

    def focus_pos(self, v):
        return []

    def focus_pos_abs(self, a):
        return []

    def alive(self, z):
        return False

    def contract(self, fn, args, kwargs):
        return None

    def agen_next(self, v):
        raise Unsupported("anext() of an asynchronous generator")

    def before_suspend(self, kind, info):
        pass

    def after_suspend(self, kind, info, pre):
        pass

    def event(self, it, kind, **kw):
        it.trace.append(kind)
        m = getattr(self, "on_" + kind, None)
        if m is not None:
            m(**kw)

    # -- memoised on immutable views
    def inv_of(self, v):
        if "inv" not in v.memo:
            v.memo["inv"] = self.inv(v)
        return v.memo["inv"]

    def guar_of(self, a, b):
        k = ("guar", id(a))
        if k not in b.memo:
            b.memo[k] = self.guar(a, b), a
        return b.memo[k][0]

    def rely_of(self, a, b):
        k = ("rely", id(a))
        if k not in b.memo:
            b.memo[k] = dict(self.rely(a, b)), a
        return b.memo[k][0]

    # -- protocol
    def assume_inv(self):
        for _, _, z in self.inv(self.st):
            self.st.add(z)

    def assume_rely(self, pre):
        for _, z in self.rely(pre, self.st):
            self.st.add(z)

    def segment_end(self, why):
        for n, props, z in self.guar(self.st.seg, self.st):
            self.prove(z, n, props, why)
        for n, props, z in self.inv(self.st):
            self.prove(z, n, props, why)

    def prove(self, z, name, props=None, info=""):
        self.it.prove(z, name, self.all_props if props is None else props, info)

    # -- helpers
    def F(self, cls, attr):
        """(key, sort) of a field."""
        o = cls.field_owner(attr)
        if o is None:
            raise Unsupported(f"class {cls.name} has no field {attr} (renamed?)")
        return (o.qual, attr), sort_of(self.eng.field_ty(cls, attr))

    def rdf(self, v, cls, attr, addr):
        k, s = self.F(cls, attr)
        return v.rd(k, addr, s)

    def ref(self, name, cls, args=()):
        """An arbitrary existing object."""
        z = z3.Int(name)
        self.st.add(z > 0)
        self.st.bound(z, 1)
        return self.it.mkref(z, Ty("ref", cls, args))

    def field(self, v, attr):
        """Current field value of an object (engine value)."""
        return self.it.get_field(v, attr)

    def is_exc(self, e, name):
        """Formula: the exception is an instance of the class."""
        d = name
        if isinstance(name, str) and not name.startswith(("builtins.", "asyncio.")):
            d = self.pkg.cls(name)
            if d is None:
                raise Unsupported(f"exception class {name} is gone")
        z = self.it.isa(e, d)
        return z3.BoolVal(z) if isinstance(z, bool) else z

    def cause(self, e):
        return self.st.rd(("exc", "__cause__"), e.z, "V")


def subclass_of(pkg, short, base):
    """The (unique) concrete subclass of Sender/Receiver in a module."""
    m = pkg.modules["frequenz.channels." + short]
    out = [c for c in m.env.values() if isinstance(c, PyClass) and c.module is m and
           any(isinstance(b, PyClass) and b.qual == base and b is not c for b in c.mro())]
    if len(out) != 1:
        raise Unsupported(f"{base} subclass of module {short}")
    return out[0]
