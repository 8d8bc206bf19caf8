"""Contracts of select(), Selected and selected_from() (C15, C16, C17).

select() is stated for an arbitrary sequence of receivers and an arbitrary one
of them, W.  Ghosts follow the protocol of W:

  wstate  0 not being waited for, 1 a ready() task is outstanding (or has
          finished and was not looked at), 2 consumed, 3 yielded
  wtask   the latest ready() task of W
  open    the receiver which was consumed but not yet yielded (0: none)
  last    the Selected most recently yielded (0: none)
"""
from __future__ import annotations

import ast

from pyvc.core import HASH, STRI, UNHASH, UNSTRI, str_id, tname
from pyvc.ext import K_DONE
from pyvc.interp import DICTS, SEQ, SETS, AsyncGen, Coro, StarArg, is_ext
from pyvc.loader import PyClass

from .common import *

S, R = Val.S, Val.R
FALSE = Val.B(z3.BoolVal(False))
_COL = ((K_HAS, "HV"), (K_CARD, "I"), (K_MAP, "MV"))
_SEQ = ((K_LO, "I"), (K_HI, "I"), (K_ARR, "AV"), (K_MEM, "HV"))


class SelectSpec(ChannelSpec):
    all_props = ("C15", "C16", "C17")

    def setup(self):
        st, it = self.st, self.it
        self.mod("_select")
        self.Sel = self.pkg.cls("_select.Selected")
        self.P = z3.Int("INDEX")
        z = z3.Int("RECEIVERS")
        st.add(z > 0)
        st.bound(z, 1)
        self.recvs = it.mkref(z, Ty("ref", "tuple*", (Ty("ref", self.pkg.cls("_receiver.Receiver")),)))
        self.lo0, self.hi0 = st.rd(K_LO, z, "I"), st.rd(K_HI, z, "I")
        self.n = self.hi0 - self.lo0
        st.add(self.n >= 1)
        st.add(AND(self.P >= 0, self.P < self.n))
        w = z3.Select(st.rd(K_ARR, z, "AV"), self.lo0 + self.P)
        st.add(AND(Val.is_R(w), Val.a(w) > 0))
        self.W = Val.a(w)
        self.name = STRI(HASH(self.W))
        st.add(AND(UNHASH(HASH(self.W)) == self.W, UNSTRI(self.name) == HASH(self.W)))
        for g in ("wstate", "wtask", "open", "last"):
            st.ghost[g] = z3.IntVal(0)
        st.ghost["checked"] = z3.BoolVal(True)      # the last Selected was found to be handled
        st.ghost["was_handled"] = z3.BoolVal(False)     # ... when the iteration went on after it
        st.ghost["ending"] = z3.BoolVal(False)
        st.ghost["interrupted"] = z3.BoolVal(False)     # waiting in the cleanup
        st.ghost["cancelled"] = z3.K(Val, z3.BoolVal(False))
        st.ghost["ok"] = z3.BoolVal(False)          # outcome of the consume()
        st.ghost["out"] = Val.none
        self.thrown = None
        self.K = z3.Const("KEY", Val)

    def focus_vals(self):
        body = self.it.loop_body
        if body is not None and not any(self.may_act(n) for s in body for n in ast.walk(s)):
            return []       # nothing happens to W in there that needs a case of its own
        return [S(self.name), R(self.st.ghost["wtask"])]

    def may_act(self, n):
        """Whether a step of a loop may do more than look at tasks."""
        if isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, ast.Call):
            return not (isinstance(n.func, ast.Attribute) and n.func.attr in
                        ("cancel", "cancelled", "exception", "done", "append", "result"))
        return False

    def focus_pos(self, v):
        return [self.P] if z3.eq(v.z, self.recvs.z) else []

    def inst_vals(self):
        return [self.K]

    def rely(self, a, b):
        t = z3.Const("t!q", I)
        d = lambda v: v.rd(K_DONE, t, "B")
        return [("done-is-final", FA([t], IMP(AND(t >= -a.alloc, d(a)), d(b)), d(a), d(b))),
                # (selected_from() only ever marks a Selected as handled)
                ("handled-is-final", IMP(self.handled(a), self.rdf(b, self.Sel, "_handled", a.ghost["last"])))]

    def assume_rely(self, pre):
        super().assume_rely(pre)
        # nobody else reaches the containers which are local to the generator
        if self.it.foreign_containers:
            return
        for fr in self.it.frames:
            for x in fr.locals.values():
                if isinstance(x, V) and x.k == "ref" and is_ext(x.cls, *SEQ, *SETS, *DICTS):
                    for k, s in (_SEQ if is_ext(x.cls, *SEQ) else _COL):
                        self.st.add(pre.rd(k, x.z, s) == self.st.rd(k, x.z, s))

    def done(self, v, a):
        return v.rd(K_DONE, a, "B")

    def handled(self, v=None):
        v = v or self.st
        return self.rdf(v, self.Sel, "_handled", v.ghost["last"])

    def call(self):
        it = self.it
        g = it.call(it.load_global(self.module, "select"), [StarArg(self.recvs)], {})
        if not isinstance(g, AsyncGen):
            raise Unsupported("select() is not an asynchronous generator")
        return it.run_body(g.fn, g.args)

    # -- protocol
    def check_handled(self, what):
        """Nothing else happens before the last Selected was found to be handled."""
        st = self.st
        self.prove(OR(st.ghost["checked"], self.handled()), "unhandled-selection-ends-the-iteration-first", ("C16",), what)
        st.setg("checked", z3.BoolVal(True))

    def retired(self):
        st = self.st
        return AND(st.ghost["wstate"] == 3, TRES(st.ghost["wtask"]) == FALSE)

    def on_create_task(self, task, coro, src, tkind):
        st, P = self.st, ("C15",)
        g = st.ghost
        self.prove(T(src is not None and tkind == "ready"), "starts-only-ready-calls", P)
        if src is None:
            return
        self.prove(NOT(g["ending"]), "starts-nothing-while-ending", ("C17",))
        self.check_handled("before waiting again")
        mine = src.z == self.W
        self.prove(IMP(mine, OR(g["wstate"] == 0, AND(g["wstate"] == 3, NOT(TRES(g["wtask"]) == FALSE)))),
                   "one-ready-call-per-receiver", ("C15", "C17"))
        st.setg("wstate", z3.simplify(z3.If(mine, 1, g["wstate"])))
        st.setg("wtask", z3.simplify(z3.If(mine, task.z, g["wtask"])))

    def on_abs_consume(self, recv):
        st, P = self.st, ("C15",)
        g = st.ghost
        self.prove(NOT(g["ending"]), "takes-no-message-while-ending", ("C17",))
        self.check_handled("before consuming again")
        self.prove(g["open"] == 0, "yields-each-outcome-before-the-next-consume", P)
        mine = recv.z == self.W
        t = g["wtask"]
        self.prove(IMP(mine, AND(g["wstate"] == 1, self.done(st, t))), "consumes-once-after-each-completed-ready", ("C15", "C17"))
        self.prove(IMP(mine, AND(NOT(TCANC(t)), NOT(Val.is_R(TEXC(t))))), "failed-ready-is-not-consumed", P)
        st.setg("open", recv.z)
        st.setg("wstate", z3.simplify(z3.If(mine, 2, g["wstate"])))

    def on_abs_consume_raised(self, recv, exc):
        self.st.setg("ok", z3.BoolVal(False))
        self.st.setg("out", R(exc.z))

    def on_abs_consume_done(self, recv, result):
        self.st.setg("ok", z3.BoolVal(True))
        self.st.setg("out", self.it.to_val(result))

    def on_yield(self, value):
        st, it = self.st, self.it
        g = st.ghost
        P = ("C15", "C16")
        good = isinstance(value, V) and value.k == "ref" and isinstance(value.cls, PyClass) and value.cls is self.Sel
        self.prove(T(good), "yields-Selected-objects", P)
        if not good:
            return
        self.prove(NOT(g["ending"]), "yields-nothing-while-ending", ("C17",))
        self.check_handled("before yielding again")
        self.prove(AND(g["open"] != 0, self.rdf(st, self.Sel, "_recv", value.z) == g["open"]), "yields-the-outcome-of-the-consumed-receiver", P)
        self.prove(NOT(self.rdf(st, self.Sel, "_handled", value.z)), "starts-unhandled", ("C16",))
        exc = it.to_val(it.get_field(value, "_exception"))
        self.prove(z3.If(g["ok"], exc == Val.none, exc == g["out"]), "yields-the-outcome-of-the-consumed-receiver", P)
        self.prove(IMP(g["ok"], it.to_val(it.get_field(value, "_message")) == g["out"]), "yields-the-outcome-of-the-consumed-receiver", P)
        mine = g["open"] == self.W
        st.setg("wstate", z3.simplify(z3.If(mine, 3, g["wstate"])))
        st.setg("open", z3.IntVal(0))
        st.setg("last", value.z)
        st.setg("checked", z3.BoolVal(False))

    def on_yield_resumed(self, value):
        self.st.setg("was_handled", self.handled())

    def on_yield_thrown(self, exc):
        self.thrown = exc
        self.st.setg("checked", z3.BoolVal(True))

    def on_await_tasks(self, tasks, has=None, all=False, first=False, timeout=None, gather=False):
        st = self.st
        g = st.ghost
        k = self.K
        self.prove(T(has is not None), "waits-for-a-set-of-tasks", ("C15", "C17"))
        if has is None:
            return
        w = R(g["wtask"])
        if all:
            self.prove(T(timeout is None), "waits-for-every-cancelled-ready-call", ("C17",))
            self.prove(IMP(g["wstate"] == 1, OR(z3.Select(has, w), self.done(st, g["wtask"]))), "waits-for-every-cancelled-ready-call", ("C17",))
            self.prove(IMP(z3.Select(has, k), OR(z3.Select(g["cancelled"], k), self.done(st, Val.a(k)))),
                       "cancels-every-outstanding-ready-call", ("C17",))
            st.setg("ending", z3.BoolVal(True))
            st.setg("interrupted", z3.BoolVal(True))
            return
        P = ("C15",)
        self.prove(NOT(g["ending"]), "nothing-is-selected-while-ending", ("C17",))
        self.prove(T(first and timeout is None), "waits-for-whichever-receiver-is-first", P)
        self.check_handled("before waiting again")
        self.prove(g["open"] == 0, "yields-before-waiting-again", P)
        self.prove(OR(AND(g["wstate"] == 1, z3.Select(has, w)), self.retired()), "waits-for-every-running-receiver", P)

    def on_waited(self, has, hd, hp):
        self.st.setg("interrupted", z3.BoolVal(False))

    def on_task_cancel(self, task):
        st = self.st
        st.setg("ending", z3.BoolVal(True))
        st.setg("cancelled", z3.Store(st.ghost["cancelled"], R(task.z), True))

    def before_suspend(self, kind, info):
        self.prove(T(kind in ("wait", "gather", "yield")), "waits-only-for-its-tasks", ("C15", "C17"))

    # -- candidates for loop invariants
    def task_ok(self, v, k, maps, strict):
        a = Val.a(k)
        out = [Val.is_R(k), a < 0, a >= -v.alloc, TKIND(a) == str_id("ready")]
        for d in maps:
            n = S(TNAME(a))
            m = z3.Select(v.rd(K_MAP, d, "MV"), n)
            out += [z3.Select(v.rd(K_HAS, d, "HV"), n), m == R(TSRC(a))]
        if strict:
            out.append(IMP(TSRC(a) == self.W, AND(a == v.ghost["wtask"], v.ghost["wstate"] == 1)))
        return AND(*out)

    def cands(self, info, pre, fr):
        out = []
        q = z3.Const("q!q", Val)
        sets, maps = {}, []
        for f in self.it.frames:
            for n, x in f.locals.items():
                if isinstance(x, V) and x.k == "ref" and is_ext(x.cls, *SETS):
                    sets[n] = x
                if isinstance(x, V) and x.k == "ref" and is_ext(x.cls, *DICTS):
                    maps.append(x.z)
        for a in (info.mod.get(K_MAP) or {}).values():
            if not any(z3.eq(a, m) for m in maps):
                maps.append(a)

        def cur(v, n):
            x = v.locals.get(n)
            if x is None:
                for _, d in v.chain:
                    if n in d:
                        x = d[n]
            return x.z if isinstance(x, V) and x.k == "ref" and is_ext(x.cls, *SETS) else None

        def member(v, n):
            z = cur(v, n)
            return None if z is None else v.rd(K_HAS, z, "HV")

        for n in sets:
            def ok(v, i, n=n, strict=True):
                h = member(v, n)
                if h is None:
                    return None
                return FA([q], IMP(z3.Select(h, q), self.task_ok(v, q, maps, strict)), z3.Select(h, q))

            def has(v, i, n=n):
                h = member(v, n)
                return None if h is None else IMP(v.ghost["wstate"] == 1, z3.Select(h, R(v.ghost["wtask"])))

            def card(v, i, n=n):
                z = cur(v, n)
                h = member(v, n)
                return None if z is None else AND(v.rd(K_CARD, z, "I") >= 0, FA([q], IMP(
                    z3.Select(h, q), v.rd(K_CARD, z, "I") >= 1), z3.Select(h, q)))
            out.append((("tasks-ok", n), ok))
            out.append((("tasks-ok-weak", n), lambda v, i, ok=ok: ok(v, i, strict=False)))
            out.append((("holds-the-task", n), has))
            out.append((("card", n), card))
            out.append((("cancelled-all", n), lambda v, i, n=n: None if member(v, n) is None else IMP(
                z3.Select(member(v, n), self.K), OR(z3.Select(v.ghost["cancelled"], self.K), self.done(v, Val.a(self.K))))))
        for d in maps:
            def mapped(v, i, d=d):
                h, m = v.rd(K_HAS, d, "HV"), v.rd(K_MAP, d, "MV")
                x = z3.Select(m, q)
                return FA([q], IMP(z3.Select(h, q), AND(
                    Val.is_R(x), Val.a(x) != 0, q == S(STRI(HASH(Val.a(x)))), UNHASH(HASH(Val.a(x))) == Val.a(x),
                    UNSTRI(STRI(HASH(Val.a(x)))) == HASH(Val.a(x)))), z3.Select(h, q))

            def known(v, i, d=d):
                return AND(z3.Select(v.rd(K_HAS, d, "HV"), S(self.name)), z3.Select(v.rd(K_MAP, d, "MV"), S(self.name)) == R(self.W))
            out += [(("keys-ok", tname(d)), mapped), (("knows-W", tname(d)), known)]
        g0 = pre.ghost
        src = self.it.loop_src
        if src is not None and isinstance(src.kind, tuple) and src.idx is not None:
            _, had = src.has
            out.append((("cancelled-passed",), lambda v, i: IMP(z3.Select(had, self.K), OR(
                src.idx(self.K) >= i, z3.Select(v.ghost["cancelled"], self.K), self.done(v, Val.a(self.K))))))
        for k in (0, 1, 3):
            out.append((("wstate", k), lambda v, i, k=k: v.ghost["wstate"] == k))
        t0 = g0["wtask"]
        out += [
            (("running-or-retired",), lambda v, i: OR(v.ghost["wstate"] == 1, AND(
                v.ghost["wstate"] == 3, TRES(v.ghost["wtask"]) == FALSE))),
            (("task-alive",), lambda v, i: AND(IMP(v.ghost["wstate"] != 0, v.ghost["wtask"] < 0), v.ghost["wtask"] >= -v.alloc)),
            (("task-of-W",), lambda v, i: IMP(v.ghost["wstate"] != 0, AND(TSRC(v.ghost["wtask"]) == self.W, TNAME(v.ghost["wtask"]) == self.name))),
            (("closed",), lambda v, i: v.ghost["open"] == 0),
            (("checked",), lambda v, i: OR(v.ghost["checked"], self.handled(v))),
            (("was-handled",), lambda v, i: OR(v.ghost["checked"], v.ghost["was_handled"])),
            (("not-ending",), lambda v, i: NOT(v.ghost["ending"])),
            (("done",), lambda v, i: self.rely(pre, v)[0][1]),
            (("cancelled-grows",), lambda v, i: FA([q], IMP(z3.Select(g0["cancelled"], q), z3.Select(v.ghost["cancelled"], q)),
                                                          z3.Select(v.ghost["cancelled"], q), z3.Select(g0["cancelled"], q))),
            (("cancelledK",), lambda v, i: z3.Select(v.ghost["cancelled"], self.K)),
            (("not-interrupted",), lambda v, i: NOT(v.ghost["interrupted"])),
        ]
        return out

    # -- exits
    def ended(self):
        """However the iteration ends."""
        st = self.st
        g = st.ghost
        P = ("C17",)
        self.prove(g["open"] == 0, "every-consumed-outcome-is-yielded", ("C15", "C17"))
        self.prove(IMP(g["wstate"] == 1, self.done(st, g["wtask"])), "no-ready-call-is-left-behind", P)

    def returned(self, r):
        self.check_handled("before the end")
        self.prove(self.retired(), "ends-only-when-every-receiver-was-reported-as-stopped", ("C15",))
        self.prove(T(r is None), "returns-nothing")
        self.ended()

    def raised(self, e):
        st = self.st
        g = st.ghost
        info = f"raised {self.eng.exc_name(e)} {self.exc_origin or ''}"
        sel = self.is_exc(e, "_select.SelectError")
        unh = self.is_exc(e, "_select.UnhandledSelectedError")
        canc = self.is_exc(e, "asyncio.CancelledError")
        group = self.is_exc(e, "builtins.BaseExceptionGroup")
        mine = T(False) if self.thrown is None else e.z == self.thrown.z
        # a failure of a ready() which had to be cancelled comes as a group
        cleanup = AND(group, g["ending"])
        self.prove(OR(mine, sel, canc, cleanup), "raises-only-the-documented-errors", ("C15", "C16", "C24"), info)
        if self.thrown is not None:
            self.prove(OR(mine, canc, cleanup), "errors-of-the-body-end-the-iteration", ("C16", "C17"), info)
            cleaned = OR(NOT(canc), mine)
        else:
            cleaned = NOT(canc)
            last = g["last"]
            waiting = AND(NOT(g["checked"]), last != 0)
            plain = AND(sel, NOT(unh), NOT(mine))
            self.prove(IMP(unh, AND(waiting, NOT(g["was_handled"]), self.exc_field(e, "_select.UnhandledSelectedError", "selected") == last)),
                       "unhandled-error-names-the-selected", ("C16", "C24"), info)
            self.prove(IMP(AND(waiting, NOT(g["was_handled"])), OR(unh, cleanup, AND(canc, g["interrupted"]))),
                       "unhandled-selection-ends-the-iteration-first", ("C16",), info)
            self.prove(IMP(plain, self.failed_ready_cause(e)), "failing-ready-is-the-cause", ("C15", "C24"), info)
        # (when the cleanup itself is cancelled nothing can be waited for)
        self.prove(OR(NOT(g["interrupted"]), canc), "waits-for-every-cancelled-ready-call", ("C17",), info)
        if self.st.must(g["interrupted"], full=False):
            return
        self.ended()

    def failed_ready_cause(self, e):
        """The cause of e is the error of a finished ready() call."""
        z = z3.simplify(self.cause(e))
        if z3.is_app(z) and z.decl().name() == "R":
            z = z.arg(0)
            if z3.is_app(z) and z.decl().name() == "a":
                z = z.arg(0)
        if not (z3.is_app(z) and z.decl().name() == "TEXC"):
            return T(False)
        t = z.arg(0)
        return AND(self.done(self.st, t), NOT(TCANC(t)), TKIND(t) == str_id("ready"), Val.is_R(z))


class Observe(ChannelSpec):
    """A Selected shows what consume() did, now and later."""

    all_props = ("C16",)
    prop = "message"

    def setup(self):
        self.mod("_select")
        self.Sel = self.pkg.cls("_select.Selected")
        self.recv = self.ref("RECV", self.pkg.cls("_receiver.Receiver"))
        self.nconsumed = 0
        self.outcome = None

    def rely(self, a, b):
        return []

    def on_abs_consume(self, recv):
        self.nconsumed += 1
        self.prove(recv.z == self.recv.z, "consumes-the-receiver")

    def on_abs_consume_raised(self, recv, exc):
        self.outcome = ("raised", exc)

    def on_abs_consume_done(self, recv, result):
        self.outcome = ("ok", result)

    def before_suspend(self, kind, info):
        self.prove(T(False), "does-not-wait")

    def call(self):
        it, st = self.it, self.st
        sel = it.call(self.Sel, [self.recv], {})
        self.prove(T(self.nconsumed == 1 and self.outcome is not None), "consumes-exactly-once", ("C15", "C16"))
        self.sel = sel
        it.escape(sel)
        st.new_epoch()                  # anything may have happened in between
        if self.prop == "tag":
            return it.get_field(sel, "_recv")
        return it.getattr(sel, self.prop)

    def returned(self, r):
        it, st = self.it, self.st
        if self.prop == "tag":
            self.prove(T(isinstance(r, V) and r.k == "ref"), "keeps-the-receiver")
            self.prove(r.z == self.recv.z, "keeps-the-receiver")
            return
        how, x = self.outcome or (None, None)
        if self.prop == "message":
            self.prove(T(how == "ok"), "error-is-raised-again")
            if how == "ok":
                self.prove(it.to_val(r) == it.to_val(x), "message-is-the-consumed-message")
        elif self.prop == "exception":
            self.prove(it.to_val(r) == (Val.none if how == "ok" else R(x.z)), "exception-is-the-error-or-none")
        else:
            b = self.bool_of(r)
            self.prove(T(b is not None), "returns-bool")
            if b is not None:
                stop = self.is_exc(x, "_receiver.ReceiverStoppedError") if how == "raised" else T(False)
                self.prove(b == stop, "was-stopped-exactly-for-ReceiverStoppedError")

    def raised(self, e):
        how, x = self.outcome or (None, None)
        self.prove(T(self.prop == "message" and how == "raised"), "property-does-not-fail", None,
                   f"raised {self.eng.exc_name(e)} {self.exc_origin or ''}")
        if how == "raised":
            self.prove(e.z == x.z, "message-raises-exactly-the-error")


class SelectedFrom(ChannelSpec):
    all_props = ("C16",)

    def setup(self):
        self.mod("_select")
        st = self.st
        self.Sel = self.pkg.cls("_select.Selected")
        self.s = self.ref("SELECTED", self.Sel)
        self.o = self.ref("OTHER", self.Sel)
        st.add(self.o.z != self.s.z)
        self.r = self.ref("RECV", self.pkg.cls("_receiver.Receiver"))
        for x in (self.s, self.o):
            for f in ("_recv", "_handled"):
                self.it.get_field(x, f)

    def guar(self, a, b):
        out = [("other-selections-untouched", ("C16",), self.unch(a, b, self.Sel, "_handled", self.o.z)),
               ("receiver-of-a-selection-is-fixed", ("C16",), AND(
                   self.unch(a, b, self.Sel, "_recv", self.s.z), self.unch(a, b, self.Sel, "_recv", self.o.z)))]
        for f in ("_message", "_exception"):
            out.append(("outcome-is-fixed", ("C16",), self.unch(a, b, self.Sel, f, self.s.z)))
        return out

    def before_suspend(self, kind, info):
        self.prove(T(False), "does-not-wait")

    def call(self):
        it = self.it
        r = it.call(it.load_global(self.module, "selected_from"), [self.s, self.r], {})
        if isinstance(r, Coro):
            raise Unsupported("selected_from() is asynchronous")
        return r

    def returned(self, r):
        b = self.bool_of(r)
        self.prove(T(b is not None), "returns-bool")
        if b is None:
            return
        e, v = self.entry, self.st
        same = self.rdf(e, self.Sel, "_recv", self.s.z) == self.r.z
        self.prove(b == same, "true-exactly-for-the-selected-receiver")
        self.prove(self.rdf(v, self.Sel, "_handled", self.s.z) == OR(self.rdf(e, self.Sel, "_handled", self.s.z), same),
                   "marks-handled-exactly-for-the-selected-receiver")

    def raised(self, e):
        self.prove(T(False), "does-not-fail", None, f"raised {self.eng.exc_name(e)} {self.exc_origin or ''}")


def cases(pkg):
    sel = Case("_select.select", SelectSpec, ("C15", "C16", "C17", "C24"), ("return", "raise"))
    sel.redo = sel.fold = sel.parallel = True
    out = [sel]
    for p in ("message", "exception", "was_stopped", "tag"):
        k = type("Observe", (Observe,), {"prop": p})
        out.append(Case(f"_select.Selected.{p}" if p != "tag" else "_select.Selected [receiver]", k, ("C16", "C15"),
                        ("return", "raise") if p == "message" else ("return",)))
    out.append(Case("_select.selected_from", SelectedFrom, ("C16",)))
    return out
