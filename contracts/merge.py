"""Contracts of merge() and the Merger (C13, C14, parts of C23 and C24).

Stated for an arbitrary merger M, an arbitrary source of it (under the name N)
and an arbitrary task K.  The ghost `cur` is the outstanding receive of the
source.  Outcomes of tasks (cancelled, exception, result) are fixed unknowns.
"""
from __future__ import annotations

from pyvc.core import STRI, str_id, tname

from .common import *

K_CUR = ("gh", "$curtask")          # ghost: the latest receive started for the source
K_STOPPED = ("gh", "$mstopped")     # ghost: stop() finished
S = Val.S


class MergeSpec(ChannelSpec):
    all_props = ("C13", "C14")
    own = True

    def setup(self):
        st, it = self.st, self.it
        self.mod("_merge")
        self.cls = self.pkg.cls("_merge.Merger")
        self.N = z3.Int("NAME")
        self.K = z3.Const("KEY", Val)
        self.p = z3.Int("POS")
        st.ghost["queued"] = z3.BoolVal(False)
        st.ghost["cancelled"] = z3.K(Val, z3.BoolVal(False))
        st.ghost["pops"] = z3.IntVal(0)
        self.M = self.front = None
        self.make_self()

    def make_self(self):
        self.self_ = self.ref("SELF", self.cls)
        if self.own:
            self.use(self.self_)
        else:
            self.use_fields(self.self_)
            m = self.ref("OTHER", self.cls)
            self.st.add(m.z != self.self_.z)
            self.use(m)

    def use_fields(self, m):
        it = self.it
        for f in ("_receivers", "_pending", "_results", "_stopped"):
            x = it.get_field(m, f)
        if self.bool_of(x) is None:
            raise Unsupported("the merger keeps whether it was stopped differently")
        r = it.get_field(m, "_results")
        p = it.get_field(m, "_pending")
        if not (isinstance(r, V) and r.k == "ref" and r.cls == "collections.deque" and isinstance(p, V) and p.k == "ref"
                and p.cls == "builtins.set"):
            raise Unsupported("the merger keeps its tasks differently")

    def use(self, m):
        it, st = self.it, self.st
        self.use_fields(m)
        self.M = m
        self.G = it.get_field(m, "_receivers")
        self.D = it.get_field(m, "_results")
        st.add(self.known(self.N))
        src = z3.Select(st.rd(K_MAP, self.G.z, "MV"), S(self.N))
        st.add(Val.is_R(src))
        self.src = Val.a(src)

    # -- abbreviations
    def known(self, name):
        return z3.Select(self.st.rd(K_HAS, self.G.z, "HV"), S(name))

    def source(self, name):
        return Val.a(z3.Select(self.st.rd(K_MAP, self.G.z, "MV"), S(name)))

    def pset(self, v):
        return self.rdf(v, self.cls, "_pending", self.M.z)

    def pend(self, v):
        return v.rd(K_HAS, self.pset(v), "HV")

    def npend(self, v):
        return v.rd(K_CARD, self.pset(v), "I")

    def lo(self, v):
        return v.rd(K_LO, self.D.z, "I")

    def hi(self, v):
        return v.rd(K_HI, self.D.z, "I")

    def at(self, v, i):
        return z3.Select(v.rd(K_ARR, self.D.z, "AV"), i)

    def mx(self):
        return self.st.rd(K_MAX, self.D.z, "I")

    def flag(self, v):
        """stop() was called."""
        return self.rdf(v, self.cls, "_stopped", self.M.z)

    def cur(self, v):
        return v.rd(K_CUR, self.M.z, "I")

    def done(self, v, a):
        return v.rd(K_DONE, a, "B")

    def stopout(self, v, a):
        """The receive was completed by the end of its source (or cancelled)."""
        e = TEXC(a)
        return AND(self.done(v, a), OR(TCANC(a), AND(Val.is_R(e), ISA("builtins.StopAsyncIteration")(Val.a(e)))))

    def pending_ok(self, v, k, has=None):
        a = Val.a(k)
        return IMP(z3.Select(self.pend(v) if has is None else has, k), AND(
            Val.is_R(k), a >= -v.alloc, a != 0, TKIND(a) == str_id("anext"), self.known(TNAME(a)), TSRC(a) == self.source(TNAME(a)),
            IMP(TNAME(a) == self.N, a == self.cur(v))))

    def result_ok(self, v, j):
        e = self.at(v, j)
        a = Val.a(e)
        x = TEXC(a)
        return IMP(AND(self.lo(v) <= j, j < self.hi(v)), AND(
            Val.is_R(e), a >= -v.alloc, a != 0, self.done(v, a), NOT(TCANC(a)),
            NOT(AND(Val.is_R(x), ISA("builtins.StopAsyncIteration")(Val.a(x))))))

    def focus_vals(self):
        if self.M is None:
            return []
        return [Val.R(self.cur(self.st))] if self.own else []

    def inst_vals(self):
        return [self.K]

    # -- clauses
    def inv(self, v):
        if self.M is None:
            return []
        n = self.hi(v) - self.lo(v)
        return [
            ("one-outstanding-receive-per-running-source", ("C13", "C14"), OR(
                z3.Select(self.pend(v), Val.R(self.cur(v))), self.stopout(v, self.cur(v)), self.flag(v))),
            ("pending-are-receives-of-the-sources", ("C13", "C14"), self.pending_ok(v, self.K)),
            ("results-are-messages-or-errors-of-the-sources", ("C13", "C14", "C23"), self.result_ok(v, self.p)),
            ("room-for-all-results", ("C13",), AND(n >= 0, self.npend(v) >= 0, IMP(self.mx() >= 0, AND(
                n <= self.mx(), self.npend(v) <= self.mx())))),
            ("stopped-merger-receives-nothing", ("C14",), IMP(
                v.rd(K_STOPPED, self.M.z, "B"), AND(self.flag(v), self.npend(v) == 0))),
            ("current-receive-is-of-the-source", ("C13",), AND(TNAME(self.cur(v)) == self.N, self.cur(v) >= -v.alloc, self.cur(v) != 0)),
        ]

    def assume_inv(self):
        super().assume_inv()
        if self.M is None:
            return
        st = self.st
        self.it.get_field(self.M, "_pending")
        k, j = z3.Const("k!q", Val), z3.Const("j!q", I)
        st.add(z3.ForAll([k], self.pending_ok(st, k), patterns=[z3.Select(self.pend(st), k)]))
        st.add(z3.ForAll([j], self.result_ok(st, j), patterns=[self.at(st, j)]))
        st.add(self.card_facts(st))

    def card_facts(self, v):
        """Cardinality zero means empty."""
        k = z3.Const("k!q", Val)
        return z3.ForAll([k], IMP(z3.Select(self.pend(v), k), self.npend(v) >= 1), patterns=[z3.Select(self.pend(v), k)])

    def unchanged(self, a, b):
        return AND(self.pend(a) == self.pend(b), self.npend(a) == self.npend(b), self.same_seq(a, b, self.D.z))

    def monotone(self, a, b):
        t = z3.Const("t!q", I)
        return z3.ForAll([t], IMP(AND(t >= -a.alloc, self.done(a, t)), self.done(b, t)), patterns=[self.done(b, t), self.done(a, t)])

    def rely(self, a, b):
        if self.M is None:
            return []
        fin = lambda v: v.rd(K_STOPPED, self.M.z, "B")
        return [("done-is-final", self.monotone(a, b)), ("single-consumer", AND(
            self.same_seq(a, b, self.D.z), self.cur(a) == self.cur(b), IMP(self.flag(a), self.flag(b)), IMP(fin(a), fin(b)),
            IMP(NOT(self.flag(b)), AND(self.unchanged(a, b), fin(a) == fin(b)))))]

    def guar(self, a, b):
        if self.M is None:
            return []
        out = [("drops-only-finished-receives", ("C13", "C14"), IMP(
            AND(z3.Select(self.pend(a), self.K), NOT(z3.Select(self.pend(b), self.K))), self.done(b, Val.a(self.K)))),
            ("stopped-for-good", ("C14", "C23"), IMP(self.flag(a), self.flag(b)))]
        if not self.own:
            out.append(("other-mergers-untouched", ("C13",), self.unchanged(a, b)))
        else:
            out += self.change(a, b)
        return out

    def change(self, a, b):
        return [("state-unchanged", ("C13", "C14", "C23"), self.unchanged(a, b))]

    def before_suspend(self, kind, info):
        self.prove(T(False), "does-not-wait")


class Ready(MergeSpec):
    all_props = ("C13", "C14", "C23")

    def call(self):
        return self.call_method(self.self_, "ready")

    def change(self, a, b):
        return [
            ("waiting-keeps-the-results", ("C13", "C23"), AND(self.lo(a) == self.lo(b), self.hi(a) <= self.hi(b),
                                                              IMP(self.p < self.hi(a), self.at(a, self.p) == self.at(b, self.p)))),
            ("a-taken-message-starts-the-next-receive", ("C13",), NOT(b.ghost["queued"])),
            ("a-stopped-source-is-not-received-from", ("C14",), IMP(self.npend(a) == 0, self.npend(b) == 0)),
            # stop() keeps waiting for these receives
            ("nothing-is-received-after-stop", ("C14",), IMP(self.flag(a), self.unchanged(a, b))),
            ("only-stop-stops", ("C14",), self.flag(a) == self.flag(b)),
        ]

    def on_await_tasks(self, tasks, has=None, all=False, first=False, timeout=None, gather=False):
        self.aw = has
        if not self.own:
            return
        v = self.st
        self.prove(T(has is not None and first and timeout is None), "waits-for-whichever-source-is-first")
        if has is not None:
            self.prove(z3.Select(has, self.K) == z3.Select(self.pend(v), self.K), "waits-for-all-outstanding-receives")

    def before_suspend(self, kind, info):
        self.prove(T(kind == "wait"), "waits-only-for-the-sources")
        if self.own:
            self.prove(self.hi(self.st) == self.lo(self.st), "waits-only-when-everything-was-handed-out")

    def on_append(self, obj, value, z, arr, lo, hi, max):
        if not self.own:
            return
        st, P = self.st, ("C13",)
        here = obj.z == self.D.z
        a = Val.a(z)
        mine = AND(here, TNAME(a) == self.N)
        c = self.cur(st)
        self.prove(IMP(here, AND(Val.is_R(z), self.known(TNAME(a)))), "takes-only-results-of-its-sources", P)
        self.prove(IMP(mine, AND(a == c, NOT(st.ghost["queued"]))), "takes-each-result-once", P)
        self.prove(IMP(mine, AND(self.done(st, a), NOT(self.stopout(st, a)))), "takes-only-messages-and-errors", ("C13", "C14"))
        st.setg("queued", z3.simplify(OR(st.ghost["queued"], AND(here, z == Val.R(c)))))

    def on_drop(self, obj, value, new, arr, lo, hi):
        if self.own:
            self.prove(obj.z != self.D.z, "no-message-is-dropped", ("C13",))

    def on_appendleft(self, obj, **kw):
        if self.own:
            self.prove(obj.z != self.D.z, "results-keep-their-order", ("C13",))

    def on_create_task(self, task, coro, src, tkind):
        if not self.own:
            return
        st, P = self.st, ("C13", "C14")
        nm = TNAME(task.z)
        self.prove(T(src is not None and tkind == "anext"), "starts-only-receives", P)
        if src is None:
            return
        self.prove(AND(self.known(nm), src.z == self.source(nm)), "receives-from-the-source-of-that-name", P)
        mine = nm == self.N
        self.prove(IMP(mine, st.ghost["queued"]), "next-receive-only-after-the-previous-result-was-taken", P)
        st.wr(K_CUR, self.M.z, z3.simplify(z3.If(mine, task.z, self.cur(st))), "I")
        st.setg("queued", z3.simplify(AND(st.ghost["queued"], NOT(mine))))

    def on_task_cancel(self, task):
        if self.own:
            self.prove(T(False), "does-not-cancel-receives")

    def cands(self, info, pre, fr):
        out = [(("inv", j), lambda v, i, j=j: self.inv_of(v)[j][2]) for j in range(6)]
        out.append((("done",), lambda v, i: self.monotone(pre, v)))
        out += [(("guar", j), lambda v, i, j=j: self.change(pre, v)[j][2]) for j in (0, 1, 3, 4)]
        if self.M is not None:
            c0, n0 = self.cur(pre), self.npend(pre)
            h0 = self.hi(pre)
            out += [(("cur",), lambda v, i: self.cur(v) == c0),
                    (("pending-grows",), lambda v, i: self.npend(v) - n0 <= self.hi(v) - h0),
                    (("some",), lambda v, i: OR(self.hi(v) > self.lo(v), self.npend(v) == n0)),
                    (("empty",), lambda v, i: self.hi(v) == self.lo(v)),
                    (("first-try",), lambda v, i: IMP(OR(self.hi(pre) > self.lo(pre), n0 == 0, self.flag(pre)),
                                                                AND(self.unchanged(pre, v), self.flag(pre) == self.flag(v))))]
            out.append((("all-pending",), lambda v, i: z3.Select(self.pend(v), Val.R(self.cur(v)))))
        return out

    def returned(self, r):
        b = self.bool_of(r)
        self.prove(T(b is not None), "returns-bool")
        if b is None or not self.own:
            return
        v, e = self.st, self.entry
        self.prove(IMP(b, self.hi(v) > self.lo(v)), "true-means-a-result-is-available")
        self.prove(IMP(NOT(b), AND(self.hi(v) == self.lo(v), OR(self.flag(v), self.npend(v) == 0))), "false-only-when-nothing-is-outstanding-or-available")
        self.prove(IMP(NOT(b), OR(self.stopout(v, self.cur(v)), self.flag(v))), "false-only-when-all-sources-stopped",
                   ("C14", "C23"))
        self.prove(IMP(self.hi(e) > self.lo(e), b), "available-results-mean-ready")
        self.prove(IMP(AND(self.hi(e) == self.lo(e), OR(self.flag(e), self.npend(e) == 0)), NOT(b)), "stopped-stays-stopped")

    def raised(self, e):
        if self.own:
            self.raised_only(e, "asyncio.CancelledError")


class Consume(MergeSpec):
    all_props = ("C13", "C14", "C23")

    def call(self):
        return self.call_method(self.self_, "consume")

    def change(self, a, b):
        n = b.ghost["pops"] - a.ghost["pops"]
        return [("consuming-touches-no-source", ("C13", "C14"), AND(
                    self.pend(a) == self.pend(b), self.npend(a) == self.npend(b), self.flag(a) == self.flag(b))),
                ("takes-the-oldest-result", ("C13",), AND(
                    self.lo(b) == self.lo(a) + n, self.hi(b) == self.hi(a),
                    IMP(AND(self.lo(b) <= self.p, self.p < self.hi(b)), self.at(a, self.p) == self.at(b, self.p))))]

    def on_popleft(self, obj, value, z, arr, lo, hi):
        if self.own:
            self.prove(obj.z == self.D.z, "takes-only-from-the-results", ("C13",))
            self.prove(self.st.ghost["pops"] == 0, "takes-one-result", ("C13",))
            self.st.setg("pops", z3.simplify(self.st.ghost["pops"] + 1))

    def front_task(self):
        e = self.entry
        return Val.a(self.at(e, self.lo(e)))

    def returned(self, r):
        if not self.own:
            return
        e = self.entry
        self.prove(self.hi(e) > self.lo(e), "hands-out-only-available-results")
        self.prove(self.st.ghost["pops"] == 1, "takes-one-result")
        t = self.front_task()
        self.prove(NOT(Val.is_R(TEXC(t))), "errors-of-sources-are-raised", ("C13", "C23"))
        self.prove(self.it.to_val(r) == TRES(t), "hands-out-exactly-the-message")

    def raised(self, e):
        if not self.own:
            return
        a, b = self.entry, self.st
        empty = self.hi(a) == self.lo(a)
        t = self.front_task()
        x = TEXC(t)
        took = b.ghost["pops"] == 1
        stop = self.is_exc(e, "_receiver.ReceiverStoppedError")
        self.prove(IMP(NOT(empty), AND(Val.is_R(x), e.z == Val.a(x), took)), "raises-exactly-the-error-of-the-source", None,
                   f"raised {self.eng.exc_name(e)} {self.exc_origin or ''}")
        self.prove(IMP(empty, OR(stop, self.is_exc(e, "builtins.AssertionError"))), "raises-only-the-documented-errors", ("C23", "C24", "C14"))
        self.prove(IMP(empty, NOT(took)), "refused-consume-changes-nothing")
        self.prove(IMP(empty, stop == OR(self.flag(a), self.npend(a) == 0)), "stopped-exactly-when-all-sources-stopped", ("C14", "C23"))
        self.prove(IMP(AND(empty, stop), self.exc_field(e, "_receiver.ReceiverError", "receiver") == self.self_.z), "error-names-the-receiver",
                   ("C24", "C23"))


class Stop(MergeSpec):
    """stop(), while a ready() of the merger may be in progress."""

    all_props = ("C14",)

    def call(self):
        return self.call_method(self.self_, "stop")

    def rely(self, a, b):
        if self.M is None:
            return []
        # once stopped, only another stop() touches the outstanding receives
        out = [("done-is-final", self.monotone(a, b)),
               ("stopped-for-good", IMP(self.flag(a), self.flag(b))),
               ("nothing-is-received-after-stop", IMP(self.flag(a), OR(
                   AND(self.pend(a) == self.pend(b), self.npend(a) == self.npend(b)), self.npend(b) == 0))),
               ("finished-stop", IMP(a.rd(K_STOPPED, self.M.z, "B"), b.rd(K_STOPPED, self.M.z, "B")))]
        if not self.own:
            out.append(("single", self.unchanged(a, b)))
        return out

    def change(self, a, b):
        return [("stop-keeps-the-results", ("C13", "C14"), self.same_seq(a, b, self.D.z))]

    def on_task_cancel(self, task):
        g = self.st.ghost["cancelled"]
        self.st.setg("cancelled", z3.Store(g, Val.R(task.z), True))

    def on_await_tasks(self, tasks, has=None, all=False, first=False, timeout=None, gather=False):
        if not self.own:
            return
        v, P = self.st, ("C14",)
        self.prove(T(has is not None and all and timeout is None), "waits-for-the-end-of-every-receive", P)
        if has is None:
            return
        self.prove(IMP(z3.Select(self.pend(v), self.K), z3.Select(has, self.K)), "waits-for-the-end-of-every-receive", P)
        self.prove(IMP(z3.Select(has, self.K), OR(z3.Select(v.ghost["cancelled"], self.K), self.done(v, Val.a(self.K)))),
                   "cancels-every-outstanding-receive", P)

    def before_suspend(self, kind, info):
        self.prove(T(kind in ("wait", "gather", "await_task")), "waits-only-for-its-receives")

    def on_create_task(self, task, coro, src, tkind):
        self.prove(T(False), "starts-nothing")

    def focus_vals(self):
        return [self.K] + super().focus_vals()

    def cands(self, info, pre, fr):
        out = [(("inv", j), lambda v, i, j=j: self.inv_of(v)[j][2]) for j in range(6)]
        if self.M is None:
            return out
        out += [(("keptK",), lambda v, i: v.ghost["cancelled"] == pre.ghost["cancelled"]),
                (("cancelledK",), lambda v, i: z3.Select(v.ghost["cancelled"], self.K)),
                (("done",), lambda v, i: self.monotone(pre, v)),
                (("sameK",), lambda v, i: IMP(z3.Select(pre.ghost["cancelled"], self.K), z3.Select(v.ghost["cancelled"], self.K)))]
        return out

    def assume_inv(self):
        super().assume_inv()

    def returned(self, r):
        if not self.own:
            return
        v = self.st
        self.prove(self.npend(v) == 0, "nothing-is-outstanding-when-stopped")
        self.prove(NOT(z3.Select(self.pend(v), self.K)), "nothing-is-outstanding-when-stopped")
        self.prove(self.flag(v), "stopped-is-remembered")
        v.wr(K_STOPPED, self.M.z, z3.BoolVal(True), "B")

    def raised(self, e):
        self.raised_only(e, "asyncio.CancelledError")


class Init(MergeSpec):
    """Merger(...) and merge(...) with an arbitrary sequence of receivers."""

    all_props = ("C13", "C14")
    fn = "Merger"

    def make_self(self):
        st = self.st
        self.P = z3.Int("INDEX")
        z = z3.Int("RECEIVERS")
        st.add(z > 0)
        st.bound(z, 1)
        self.recvs = self.it.mkref(z, Ty("ref", "tuple*", (Ty("ref", self.pkg.cls("_receiver.Receiver")),)))
        self.lo0, self.hi0 = st.rd(K_LO, z, "I"), st.rd(K_HI, z, "I")
        self.n = self.hi0 - self.lo0
        st.add(self.n >= (0 if self.fn == "merge" else 1))
        st.add(AND(self.P >= 0, self.P < self.n)) if self.fn != "merge" else None
        st.add(AND(self.P >= 0, IMP(self.n > 0, self.P < self.n)))
        self.name = STRI(self.P)
        st.add(core.UNSTRI(self.name) == self.P)
        st.ghost["tasks"] = z3.IntVal(0)        # receives started for the source
        st.ghost["task"] = z3.IntVal(0)

    def rely(self, a, b):
        return []

    def guar(self, a, b):
        return []

    def focus_pos(self, v):
        return [self.P] if z3.eq(v.z, self.recvs.z) else []

    def focus_vals(self):
        return [S(self.name)] + ([Val.R(self.st.ghost["task"])] if False else [])

    def the_source(self):
        return Val.a(z3.Select(self.entry.rd(K_ARR, self.recvs.z, "AV"), self.lo0 + self.P))

    def call(self):
        from pyvc.interp import StarArg
        it = self.it
        if self.fn == "merge":
            f = it.load_global(self.module, "merge")
            return it.call(f, [StarArg(self.recvs)], {})
        nm = it.fresh(Ty("union", None, (T_STR, core.T_NONE)), "GIVENNAME")
        return it.instantiate(self.cls, [StarArg(self.recvs)], {"name": nm})

    def on_create_task(self, task, coro, src, tkind):
        st, P = self.st, ("C13", "C14")
        nm = TNAME(task.z)
        mine = nm == self.name
        self.prove(T(src is not None and tkind == "anext"), "starts-only-receives", P)
        if src is None:
            return
        self.prove(IMP(mine, src.z == self.the_source()), "receives-from-the-source-of-that-name", P)
        self.prove(IMP(mine, st.ghost["tasks"] == 0), "one-receive-per-source", P)
        st.setg("tasks", z3.simplify(z3.If(mine, st.ghost["tasks"] + 1, st.ghost["tasks"])))
        st.setg("task", z3.simplify(z3.If(mine, task.z, st.ghost["task"])))

    def cands(self, info, pre, fr):
        out = []
        k = self.K
        a = Val.a(k)
        x = z3.Const("x!q", Val)
        for key in info.mod:
            if key == K_HAS and info.mod[key] is not None:
                for ad in info.mod[key].values():
                    g = None

                    def ok(v, i, ad=ad):
                        h = v.rd(K_HAS, ad, "HV")
                        return IMP(z3.Select(h, k), AND(
                            Val.is_R(k), a < 0, a >= -v.alloc, TKIND(a) == str_id("anext"),
                            IMP(TNAME(a) == self.name, a == v.ghost["task"])))

                    def named(v, i, ad=ad):
                        h = v.rd(K_HAS, ad, "HV")
                        gs = self.local_dicts(fr, v)
                        return AND(*[IMP(z3.Select(h, k), AND(
                            z3.Select(v.rd(K_HAS, d, "HV"), S(TNAME(a))),
                            TSRC(a) == Val.a(z3.Select(v.rd(K_MAP, d, "MV"), S(TNAME(a)))))) for d in gs])
                    out += [(("tasks-ok", tname(ad)), ok), (("tasks-named", tname(ad)), named)]
                    out.append((("has-task", tname(ad)), lambda v, i, ad=ad: z3.Select(v.rd(K_HAS, ad, "HV"), Val.R(v.ghost["task"]))))
                    out.append((("keys-str", tname(ad)), lambda v, i, ad=ad: z3.ForAll([x], IMP(
                        z3.Select(v.rd(K_HAS, ad, "HV"), x), AND(Val.is_S(x), x == S(STRI(core.UNSTRI(Val.s(x)))), core.UNSTRI(Val.s(x)) < i, core.UNSTRI(Val.s(x)) >= 0)),
                        patterns=[z3.Select(v.rd(K_HAS, ad, "HV"), x)])))
        out += [(("no-task-yet",), lambda v, i: v.ghost["tasks"] == 0), (("task",), lambda v, i: v.ghost["tasks"] == 1)]
        return out

    def local_dicts(self, fr, v):
        out = []
        k = (self.cls.field_owner("_receivers").qual, "_receivers")
        for kv in self.st.known:
            if isinstance(kv.ty.cls, PyClass) and kv.ty.cls is self.cls:
                out.append(self.rdf(v, self.cls, "_receivers", kv.z))
        return out

    def returned(self, r):
        P = self.all_props
        self.prove(self.n > 0, "merging-nothing-is-refused", ("C14",))
        st = self.st
        st.add(self.n > 0)
        self.M = self.self_ = r
        self.use_fields(r)
        self.G = self.it.get_field(r, "_receivers")
        self.D = self.it.get_field(r, "_results")
        self.prove(self.known(self.name), "every-given-receiver-is-a-source", P)
        self.prove(self.source(self.name) == self.the_source(), "every-given-receiver-is-a-source", P)
        self.N = self.name
        self.prove(st.ghost["tasks"] == 1, "one-receive-per-source", P)
        st.wr(K_CUR, r.z, st.ghost["task"], "I")
        st.wr(K_STOPPED, r.z, z3.BoolVal(False), "B")
        self.prove(self.hi(st) == self.lo(st), "starts-without-results", P)
        self.prove(NOT(self.flag(st)), "starts-running", P)
        for n, props, z in MergeSpec.inv(self, st):
            self.prove(z, n, props)

    def raised(self, e):
        if self.fn == "merge":
            self.raised_only(e, "builtins.ValueError", props=("C14",))
            self.prove(self.n == 0, "merging-something-is-not-refused", ("C14",))
        else:
            self.prove(T(False), "does-not-fail", None, f"raised {self.eng.exc_name(e)} {self.exc_origin or ''}")


def cases(pkg):
    out = []

    def add(cls, name, props, expect=("return",), both=True, tag="", **kw):
        for own in ((True, False) if both else (True,)):
            k = type(cls.__name__, (cls,), dict(own=own, **kw))
            out.append(Case(f"_merge.{name}{tag}" + ("" if own else " [frame: another merger]"), k, props, expect))

    add(Ready, "Merger.ready", ("C13", "C14", "C23"), ("return", "raise"))
    add(Consume, "Merger.consume", ("C13", "C14", "C23", "C24"), ("return", "raise"))
    add(Stop, "Merger.stop", ("C14", "C13"), ("return", "raise"))
    add(Init, "Merger.__init__", ("C13", "C14"), both=False)
    add(Init, "merge", ("C13", "C14"), ("return", "raise"), both=False, fn="merge")
    return out
