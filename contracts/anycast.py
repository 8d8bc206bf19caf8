"""Contracts of the Anycast channel (C01-C05, parts of C23 and C24)."""
from __future__ import annotations

from .common import *

ALL = ("C01", "C02", "C03", "C04", "C05")


class AnycastSpec(ChannelSpec):
    """Everything is stated for an arbitrary channel C with an arbitrary buffer
    position p and an arbitrary receiver W."""

    all_props = ALL
    receiver_self = False       # the function is ready()/consume() of `self`
    own = True

    def setup(self):
        st, it = self.st, self.it
        self.mod("_anycast")
        self.chan_cls = self.pkg.cls("_anycast.Anycast")
        self.recv_cls = subclass_of(self.pkg, "_anycast", "_receiver.Receiver")
        self.send_cls = subclass_of(self.pkg, "_anycast", "_sender.Sender")
        for g in ("app", "pops"):
            st.ghost[g] = z3.IntVal(0)
        st.ghost["popv"] = Val.none
        self.p = z3.Int("POS")
        self.W = self.ref("W", self.recv_cls)
        self.D = None
        self.make_self()

    def use_channel(self, c):
        it = self.it
        self.C = c
        self.D = it.get_field(c, "_deque")
        self.S = it.get_field(c, "_send_cv")
        self.R = it.get_field(c, "_recv_cv")
        self.st.add(self.st.rd(K_MAX, self.D.z, "I") >= 1)

    def pick_channel(self, own_chan):
        if self.own:
            self.use_channel(own_chan)
            self.other = None
        else:
            c = self.ref("OTHERCHAN", self.chan_cls)
            self.st.add(c.z != own_chan.z)
            self.use_channel(c)

    # -- abbreviations
    def closed(self, v):
        return self.rdf(v, self.chan_cls, "_closed", self.C.z)

    def lo(self, v):
        return v.rd(K_LO, self.D.z, "I")

    def hi(self, v):
        return v.rd(K_HI, self.D.z, "I")

    def n(self, v):
        return self.hi(v) - self.lo(v)

    def at(self, v, i):
        return z3.Select(v.rd(K_ARR, self.D.z, "AV"), i)

    def mx(self):
        return self.st.rd(K_MAX, self.D.z, "I")

    def nxt(self, v, r):
        return self.rdf(v, self.recv_cls, "_next", r)

    def empty(self):
        c = self.pkg.cls("_anycast._Empty")
        if c is None:
            raise Unsupported("the empty marker of the Anycast receiver is gone")
        return Val.N(z3.IntVal(nat_id(c)))

    # -- clauses
    def inv(self, v):
        if self.D is None:
            return []
        un_r, pe_r = v.rd(K_CUN, self.R.z, "I"), v.rd(K_CPEND, self.R.z, "I")
        un_s, pe_s = v.rd(K_CUN, self.S.z, "I"), v.rd(K_CPEND, self.S.z, "I")
        n, mx, cl = self.n(v), self.mx(), self.closed(v)
        return [
            ("buffer-bounded", ("C02",), AND(n >= 0, n <= mx, mx >= 1)),
            ("waiter-counts", (), AND(un_r >= 0, pe_r >= 0, un_s >= 0, pe_s >= 0)),
            ("no-receiver-sleeps-on-a-message", ("C05",), IMP(AND(un_r > 0, NOT(cl)), pe_r >= n)),
            ("no-sender-sleeps-on-free-space", ("C05",), IMP(AND(un_s > 0, NOT(cl)), pe_s >= mx - n)),
            ("nobody-sleeps-on-a-closed-channel", ("C05", "C03", "C04"), IMP(cl, AND(un_r == 0, un_s == 0))),
        ]

    def g_common(self, a, b):
        return [
            ("close-is-final", ("C03", "C04"), IMP(self.closed(a), self.closed(b))),
            ("no-message-after-close", ("C03", "C01"), IMP(self.closed(a), self.hi(b) == self.hi(a))),
            ("buffer-history", ("C01", "C02", "C04"), AND(self.hi(b) >= self.hi(a), self.lo(b) >= self.lo(a),
                                                          IMP(self.p < self.hi(a), self.at(b, self.p) == self.at(a, self.p)))),
            ("queue-order", ("C01",), AND(*[self.unch(a, b, self.chan_cls, f, self.C.z)
                                            for f in ("_deque", "_send_cv", "_recv_cv")])),
        ]

    def slot_w(self, a, b):
        return ("other-receivers-keep-their-message", ("C01", "C23"), self.nxt(b, self.W.z) == self.nxt(a, self.W.z))

    def rely(self, a, b):
        out = [(n, z) for n, _, z in self.g_common(a, b)]
        if self.receiver_self:
            out.append(("own-slot", self.nxt(b, self.self_.z) == self.nxt(a, self.self_.z)))
        return out

    def guar(self, a, b):
        out = self.g_common(a, b)
        out.append(self.slot_w(a, b))
        da, dp = b.ghost["app"] - a.ghost["app"], b.ghost["pops"] - a.ghost["pops"]
        out.append(("no-message-dropped-or-invented", ("C01", "C02", "C04"), AND(
            self.lo(b) == self.lo(a) + dp, self.hi(b) == self.hi(a) + da)))
        if not self.own:
            out.append(("other-channels-untouched", ("C01", "C03", "C05"), AND(
                self.same_seq(a, b, self.D.z), self.same_cv(a, b, self.S.z), self.same_cv(a, b, self.R.z),
                self.closed(a) == self.closed(b))))
        return out

    def cands(self, info, pre, fr):
        def slack(v, i, k):
            out = []
            cl = self.closed(v)
            n, mx = self.n(v), self.mx()
            un_r, pe_r = v.rd(K_CUN, self.R.z, "I"), v.rd(K_CPEND, self.R.z, "I")
            un_s, pe_s = v.rd(K_CUN, self.S.z, "I"), v.rd(K_CPEND, self.S.z, "I")
            return {"r": IMP(AND(un_r > 0, NOT(cl)), pe_r + 1 >= n),
                    "s": IMP(AND(un_s > 0, NOT(cl)), pe_s + 1 >= mx - n)}[k]
        out = [(("slack", k), lambda v, i, k=k: slack(v, i, k)) for k in ("r", "s")]
        out += [(("open",), lambda v, i: NOT(self.closed(v))), (("empty",), lambda v, i: self.n(v) == 0),
                (("nonempty",), lambda v, i: self.n(v) > 0), (("full",), lambda v, i: self.n(v) == self.mx()),
                (("space",), lambda v, i: self.n(v) < self.mx())]
        for j, (nm, _, _) in enumerate(self.inv(self.st)):
            out.append((("inv", nm), lambda v, i, j=j: self.inv_of(v)[j][2]))
        return out

    # -- events
    def is_d(self, o):
        return z3.simplify(o.z == self.D.z)

    def bump(self, g, obj, extra=None):
        d = self.is_d(obj)
        self.st.setg(g, z3.simplify(self.st.ghost[g] + z3.If(d, 1, 0)))

    def on_append(self, obj, value, z, arr, lo, hi, max):
        if self.D is None or not (isinstance(obj.cls, str) and obj.cls == "collections.deque"):
            return
        d = self.is_d(obj)
        if z3.is_false(d):
            return
        self.prove(IMP(d, NOT(self.closed(self.st))), "appends-only-while-open", ("C03",))
        self.prove(IMP(d, hi - lo < max), "appends-only-with-room", ("C01", "C02"))
        self.prove(IMP(d, self.accepts(z)), "appends-exactly-the-message", ("C01",))
        self.bump("app", obj)

    def accepts(self, z):
        return T(False)

    def on_popleft(self, obj, value, z, arr, lo, hi):
        if self.D is None:
            return
        d = self.is_d(obj)
        self.st.setg("popv", z3.simplify(z3.If(d, z, self.st.ghost["popv"])))
        self.bump("pops", obj)

    def on_cancelled(self, kind_):
        pass


def unary(own):
    return "" if own else "[other channel]"


class Send(AnycastSpec):
    def make_self(self):
        self.self_ = self.ref("SELF", self.send_cls)
        self.msg = self.arg_user()
        self.pick_channel(self.it.get_field(self.self_, "_channel"))

    def call(self):
        return self.call_method(self.self_, "send", [self.msg])

    def accepts(self, z):
        return z == self.msg.z

    def before_suspend(self, kind, info):
        if not self.own:
            return
        v = self.st
        self.prove(AND(self.n(v) == self.mx(), NOT(self.closed(v))), "waits-only-when-full-and-open", ("C02", "C03"))
        ok = info["cv"].z == self.S.z if kind == "cv_wait" else T(False)
        self.prove(ok, "waits-for-room-on-the-sender-queue", ("C05", "C02"))
        self.prove(v.ghost["app"] == 0, "does-not-wait-after-accepting", ("C01", "C02"))

    def returned(self, r):
        if self.own:
            self.prove(self.st.ghost["app"] == 1, "accepted-exactly-once", ("C01", "C02"))
            self.prove(NOT(self.closed(self.st)), "closed-channel-rejects", ("C03",))
            self.prove(NOT(self.closed(self.entry)), "closed-channel-rejects", ("C03",))
            self.prove(T(r is None), "returns-none", ())
        else:
            self.prove(self.st.ghost["app"] == 0, "other-channel-gets-nothing", ("C01",))

    def raised(self, e):
        se = self.is_exc(e, "_sender.SenderError")
        self.raised_only(e, "_sender.SenderError", "asyncio.CancelledError", props=("C03", "C24"))
        if not self.own:
            return
        self.prove(self.st.ghost["app"] == 0, "failed-send-accepts-nothing", ("C01", "C03"))
        self.prove(IMP(se, self.closed(self.st)), "open-channel-does-not-reject", ("C03",))
        self.prove(IMP(se, self.exc_field(e, "_sender.SenderError", "sender") == self.self_.z), "error-names-the-sender",
                   ("C24",))
        self.prove(IMP(se, self.is_cause_closed(e, self.C.z)), "error-cause-is-channel-closed", ("C03", "C24"))


class Ready(AnycastSpec):
    receiver_self = True
    all_props = ALL + ("C23",)

    def make_self(self):
        self.self_ = self.ref("SELF", self.recv_cls)
        self.st.add(self.W.z != self.self_.z)
        self.it.get_field(self.self_, "_next")
        self.pick_channel(self.it.get_field(self.self_, "_channel"))

    def call(self):
        return self.call_method(self.self_, "ready")

    def guar(self, a, b):
        out = super().guar(a, b)
        if self.own:
            dp = b.ghost["pops"] - a.ghost["pops"]
            na, nb = self.nxt(a, self.self_.z), self.nxt(b, self.self_.z)
            out.append(("taken-message-goes-to-the-slot", ("C01", "C04", "C23"), OR(
                AND(dp == 0, na == nb),
                AND(dp == 1, na == self.empty(), nb == b.ghost["popv"]))))
        return out

    def before_suspend(self, kind, info):
        if not self.own:
            return
        v = self.st
        self.prove(AND(self.n(v) == 0, NOT(self.closed(v)), self.nxt(v, self.self_.z) == self.empty()),
                   "waits-only-when-nothing-to-take", ("C05", "C04", "C23"))
        ok = info["cv"].z == self.R.z if kind == "cv_wait" else T(False)
        self.prove(ok, "waits-on-the-receiver-queue", ("C05",))
        self.prove(v.ghost["pops"] == 0, "does-not-wait-after-taking", ("C01",))

    def returned(self, r):
        b = self.bool_of(r)
        self.prove(T(b is not None), "returns-bool", ("C23",))
        if b is None or not self.own:
            return
        v = self.st
        nx = self.nxt(v, self.self_.z)
        self.prove(IMP(b, nx != self.empty()), "true-means-a-message-is-held", ("C23", "C01"))
        self.prove(IMP(NOT(b), AND(self.closed(v), self.n(v) == 0, nx == self.empty())),
                   "false-only-when-closed-and-drained", ("C04", "C23"))

    def raised(self, e):
        self.raised_only(e, "asyncio.CancelledError", props=("C04", "C23"))
        if self.own:
            self.prove(self.st.ghost["pops"] == 0, "cancelled-wait-takes-nothing", ("C01",))


class Consume(AnycastSpec):
    receiver_self = True
    all_props = ALL + ("C23",)

    make_self = Ready.make_self

    def call(self):
        return self.call_method(self.self_, "consume")

    def guar(self, a, b):
        out = super().guar(a, b)
        if self.own:
            out.append(("consume-leaves-the-channel-alone", ("C01", "C05"), AND(
                self.same_seq(a, b, self.D.z), self.closed(a) == self.closed(b))))
        return out

    def returned(self, r):
        if not self.own:
            return
        n0, n1 = self.nxt(self.entry, self.self_.z), self.nxt(self.st, self.self_.z)
        self.prove(n0 != self.empty(), "only-a-held-message-is-consumed", ("C01", "C23"))
        self.prove(self.it.to_val(r) == n0, "returns-the-held-message", ("C01", "C04", "C23"))
        self.prove(n1 == self.empty(), "message-handed-out-once", ("C01", "C23"))

    def raised(self, e):
        self.raised_only(e, "_receiver.ReceiverStoppedError", "builtins.AssertionError", props=("C23", "C24"))
        if not self.own:
            return
        n0, n1 = self.nxt(self.entry, self.self_.z), self.nxt(self.st, self.self_.z)
        cl, n = self.closed(self.entry), self.n(self.entry)
        st_ = self.is_exc(e, "_receiver.ReceiverStoppedError")
        self.prove(n0 == self.empty(), "held-message-is-not-refused", ("C04", "C23", "C01"))
        self.prove(n1 == n0, "refused-consume-changes-nothing", ("C23",))
        self.prove(IMP(st_, cl), "stopped-only-when-closed", ("C04", "C23"))
        self.prove(IMP(AND(cl, n == 0), st_), "stopped-when-closed-and-drained", ("C04", "C23"))
        self.prove(IMP(st_, AND(self.exc_field(e, "_receiver.ReceiverError", "receiver") == self.self_.z)),
                   "error-names-the-receiver", ("C24", "C23"))
        self.prove(IMP(st_, self.is_cause_closed(e, self.C.z)), "error-cause-is-channel-closed", ("C04", "C24"))

    def before_suspend(self, kind, info):
        self.prove(T(False), "consume-does-not-wait", ("C01", "C23"))


class OnChannel(AnycastSpec):
    def make_self(self):
        self.self_ = self.ref("SELF", self.chan_cls)
        self.pick_channel(self.self_)

    def raised(self, e):
        if not self.own:
            return
        self.prove(T(False), "does-not-fail", ("C03",), f"raised {self.eng.exc_name(e)} {self.exc_origin or ''}")

    def before_suspend(self, kind, info):
        self.prove(T(False), "does-not-wait", ("C03", "C05"))


class Close(OnChannel):
    def call(self):
        return self.call_method(self.self_, "close")

    def guar(self, a, b):
        return super().guar(a, b)

    def returned(self, r):
        if self.own:
            self.prove(self.closed(self.st), "channel-is-closed", ("C03", "C04"))
            self.prove(self.same_seq(self.entry, self.st, self.D.z), "close-keeps-the-buffer", ("C04",))


class IsClosed(OnChannel):
    def call(self):
        return self.it.getattr(self.self_, "is_closed")

    def returned(self, r):
        if not self.own:
            return
        b = self.bool_of(r)
        self.prove(b == self.closed(self.st) if b is not None else T(False), "is-closed-tells-the-truth", ("C03",))


class Limit(OnChannel):
    def call(self):
        return self.it.getattr(self.self_, "limit")

    def returned(self, r):
        if not self.own:
            return
        self.prove(self.it.zint(r) == self.mx(), "limit-tells-the-truth", ("C02",))


class NewSender(OnChannel):
    def call(self):
        return self.call_method(self.self_, "new_sender")

    def returned(self, r):
        ok = isinstance(r, V) and r.k == "ref" and r.cls is self.send_cls
        self.prove(T(ok), "gives-a-sender", ("C01",))
        if ok:
            self.prove(self.it.get_field(r, "_channel").z == self.self_.z, "sender-of-this-channel", ("C01",))


class NewReceiver(OnChannel):
    def call(self):
        return self.call_method(self.self_, "new_receiver")

    def returned(self, r):
        ok = isinstance(r, V) and r.k == "ref" and r.cls is self.recv_cls
        self.prove(T(ok), "gives-a-receiver", ("C01",))
        if ok:
            self.prove(self.it.get_field(r, "_channel").z == self.self_.z, "receiver-of-this-channel", ("C01",))
            self.prove(self.nxt(self.st, r.z) == self.empty(), "new-receiver-holds-nothing", ("C01", "C23"))


class Init(AnycastSpec):
    """The constructor establishes the invariants."""

    def make_self(self):
        self.limit = z3.Int("LIMIT")
        self.st.add(self.limit >= 1)

    def guar(self, a, b):
        return []

    def rely(self, a, b):
        return []

    def call(self):
        return self.it.instantiate(self.chan_cls, [], {"name": V("str", z3.Int("NAME"), T_STR),
                                                       "limit": V("int", self.limit, T_INT)})

    def returned(self, r):
        self.C = r
        it = self.it
        self.D, self.S, self.R = (it.get_field(r, f) for f in ("_deque", "_send_cv", "_recv_cv"))
        v = self.st
        self.prove(AND(self.n(v) == 0, NOT(self.closed(v))), "starts-empty-and-open", ("C01", "C03", "C04"))
        self.prove(self.mx() == self.limit, "buffer-has-the-given-limit", ("C02",))
        self.prove(self.S.z != self.R.z, "distinct-waiter-queues", ("C05",))

    def raised(self, e):
        self.prove(T(False), "does-not-fail", ("C01", "C02"))


def cases(pkg):
    out = []

    def add(cls, name, props, expect=("return",), both=True):
        for own in ((True, False) if both else (True,)):
            k = type(cls.__name__, (cls,), {"own": own})
            out.append(Case(f"_anycast.{name}" + ("" if own else " [frame: another channel]"), k, props,
                            expect))

    add(Send, "_Sender.send", ALL + ("C24",), ("return", "raise"))
    add(Ready, "_Receiver.ready", ALL + ("C23",), ("return", "raise"))
    add(Consume, "_Receiver.consume", ALL + ("C23", "C24"), ("return", "raise"))
    add(Close, "Anycast.close", ALL)
    add(IsClosed, "Anycast.is_closed", ("C03",))
    add(Limit, "Anycast.limit", ("C02",))
    add(NewSender, "Anycast.new_sender", ("C01",))
    add(NewReceiver, "Anycast.new_receiver", ("C01", "C23"))
    add(Init, "Anycast.__init__", ALL, both=False)
    return out
