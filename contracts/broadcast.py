"""Contracts of the Broadcast channel (C06-C10, parts of C23 and C24)."""
from __future__ import annotations

from pyvc.core import HASH

from .common import *

ALL = ("C06", "C07", "C08", "C09", "C10")
K_WAIT = ("gh", "$waitepoch")        # ghost: epoch in which the receiver went to sleep, -1 when it does not


class BroadcastSpec(ChannelSpec):
    """Everything is stated for an arbitrary channel C, an arbitrary living
    receiver W of C created by new_receiver(), an arbitrary position p of the
    queue of W and an arbitrary registry key K."""

    all_props = ALL
    own = True           # C is the channel of the function's object
    same = False         # W is the receiver the function works on

    def setup(self):
        st, it = self.st, self.it
        self.mod("_broadcast")
        self.chan_cls = self.pkg.cls("_broadcast.Broadcast")
        self.recv_cls = subclass_of(self.pkg, "_broadcast", "_receiver.Receiver")
        self.send_cls = subclass_of(self.pkg, "_broadcast", "_sender.Sender")
        st.ghost["enq"] = z3.IntVal(0)
        st.ghost["pops"] = z3.IntVal(0)
        self.p = z3.Int("POS")
        self.K = z3.Const("KEY", Val)
        self.C = self.W = self.Q = None
        self.accepted = None
        self.make_self()

    def use_channel(self, c):
        it = self.it
        self.C = c
        self.G = it.get_field(c, "_receivers")
        self.R = it.get_field(c, "_recv_cv")

    def use_receiver(self, w):
        self.W = w
        self.Q = self.it.get_field(w, "_q")
        self.st.add(self.it.get_field(w, "_channel").z == self.C.z)
        self.st.add(self.st.rd(K_MAX, self.Q.z, "I") >= 1)
        self.hW = Val.I(HASH(w.z))
        self.st.add(core.UNHASH(HASH(w.z)) == w.z)

    def pick(self, own_chan):
        """C and W, for the function's own channel or another one."""
        self.own_chan = own_chan
        if self.own:
            self.use_channel(own_chan)
        else:
            c = self.ref("OTHERCHAN", self.chan_cls)
            self.st.add(c.z != own_chan.z)
            self.use_channel(c)
        self.use_receiver(self.ref("W", self.recv_cls))

    # -- abbreviations
    def closed(self, v):
        return self.rdf(v, self.chan_cls, "_closed", self.C.z)

    def lo(self, v):
        return v.rd(K_LO, self.Q.z, "I")

    def hi(self, v):
        return v.rd(K_HI, self.Q.z, "I")

    def n(self, v):
        return self.hi(v) - self.lo(v)

    def mx(self):
        return self.st.rd(K_MAX, self.Q.z, "I")

    def at(self, v, i):
        return z3.Select(v.rd(K_ARR, self.Q.z, "AV"), i)

    def epoch(self, v):
        return v.rd(K_CEP, self.R.z, "I")

    def wait(self, v, r=None):
        return v.rd(K_WAIT, self.W.z if r is None else r, "I")

    def has(self, v, k):
        return z3.Select(v.rd(K_HAS, self.G.z, "HV"), k)

    def target(self, v, k):
        m = z3.Select(v.rd(K_MAP, self.G.z, "MV"), k)
        return v.rd(K_WTGT, Val.a(m), "I")

    def registered(self, v, w):
        k = Val.I(HASH(w.z))
        return AND(self.has(v, k), self.target(v, k) == w.z)

    def alive(self, z):
        return z3.simplify(z == self.W.z) if self.W is not None else False

    def focus_vals(self):
        return [self.hW] if self.W is not None else []

    # -- clauses
    def channels(self):
        """The channels at hand (the invariants hold for all)."""
        out = [(self.C, self.G)]
        if not self.own:
            out.append((self.own_chan, self.it.get_field(self.own_chan, "_receivers")))
        return out

    def entry_ok(self, v, k, c=None, g=None):
        c, g = c or self.C, g or self.G
        m = z3.Select(v.rd(K_MAP, g.z, "MV"), k)
        t = v.rd(K_WTGT, Val.a(m), "I")
        return IMP(z3.Select(v.rd(K_HAS, g.z, "HV"), k), AND(
            Val.is_R(m), Val.a(m) >= -v.alloc, t >= -v.alloc, t != 0, k == Val.I(HASH(t)),
            self.rdf(v, self.recv_cls, "_channel", t) == c.z, core.UNHASH(HASH(t)) == t))

    def inv(self, v):
        if self.C is None:
            return []
        un, pe = v.rd(K_CUN, self.R.z, "I"), v.rd(K_CPEND, self.R.z, "I")
        out = [("registry-entries-are-receivers-of-the-channel", ("C06",), self.entry_ok(v, self.K)),
               ("waiter-counts", (), AND(un >= 0, pe >= 0, self.epoch(v) >= 0))]
        if self.W is not None:
            n, cl = self.n(v), self.closed(v)
            out += [
                ("queue-bounded", ("C07",), AND(n >= 0, n <= self.mx())),
                ("receiver-registered", ("C06",), IMP(NOT(cl), self.registered(v, self.W))),
                ("nobody-sleeps-on-messages-or-closed", ("C10", "C09"),
                 IMP(self.wait(v) == self.epoch(v), AND(n == 0, NOT(cl)))),
                ("sleep-epochs", (), AND(self.wait(v) <= self.epoch(v), self.wait(v) >= -1)),
            ]
        return out

    def assume_inv(self):
        super().assume_inv()
        if self.C is None:
            return
        k = z3.Const("k!q", Val)
        st = self.st
        for c, g in self.channels():
            m = z3.Select(st.rd(K_HAS, g.z, "HV"), k)
            st.add(z3.ForAll([k], self.entry_ok(st, k, c, g), patterns=[m]))
        # every queue was created with a positive limit (limits below one are out of contract)
        r = z3.Const("r!q", I)
        q = self.rdf(st, self.recv_cls, "_q", r)
        st.add(z3.ForAll([r], st.rd(K_MAX, q, "I") >= 1, patterns=[q]))

    def g_common(self, a, b):
        out = [("epochs-grow", (), self.epoch(b) >= self.epoch(a)),
               ("close-is-final", ("C09",), IMP(self.closed(a), self.closed(b)))]
        if self.W is not None:
            out += [
                ("nothing-enqueued-after-close", ("C09",), IMP(self.closed(a), self.hi(b) == self.hi(a))),
                ("queue-history", ("C06", "C07", "C09"), AND(
                    self.hi(b) >= self.hi(a), self.lo(b) >= self.lo(a),
                    IMP(self.p < self.hi(a), self.at(b, self.p) == self.at(a, self.p)))),
            ]
        return out

    def rely(self, a, b):
        out = [(n, z) for n, _, z in self.g_common(a, b)]
        if self.W is not None and self.same:
            out += [("own-wait", self.wait(a) == self.wait(b)),
                    ("drops-only-when-full", OR(self.lo(b) == self.lo(a), self.n(b) == self.mx())),
                    ("closed-queue", IMP(self.closed(a), self.lo(a) == self.lo(b)))]
        return out

    def guar(self, a, b):
        out = self.g_common(a, b)
        if self.W is not None and not self.same:
            de = b.ghost["enq"] - a.ghost["enq"]
            na, nb, mx = self.n(a), self.n(b), self.mx()
            out += [
                ("evicts-exactly-the-oldest-when-full", ("C07", "C06", "C09"), AND(
                    self.hi(b) == self.hi(a) + de, nb == z3.If(na + de > mx, mx, na + de), de >= 0, de <= 1)),
                ("other-receivers-state", ("C10",), self.wait(a) == self.wait(b)),
            ]
        if not self.own:
            out.append(("other-channels-untouched", ("C06", "C09", "C10"), self.frame(a, b)))
        return out

    def frame(self, a, b):
        z = [a.rd(K_HAS, self.G.z, "HV") == b.rd(K_HAS, self.G.z, "HV"),
             a.rd(K_MAP, self.G.z, "MV") == b.rd(K_MAP, self.G.z, "MV"),
             self.same_cv(a, b, self.R.z), self.epoch(a) == self.epoch(b)]
        if self.W is not None:
            z.append(self.same_seq(a, b, self.Q.z))
        return AND(self.same_fields(a, b, self.C.z), *z)

    def same_fields(self, a, b, c):
        """All the fields of the channel object."""
        out = []
        for cl in self.chan_cls.mro():
            if isinstance(cl, PyClass):
                names = set(cl.field_annots) | set(cl.field_assigns) | {x for x, _, _ in cl.class_annots}
                for f in sorted(names):
                    k, s = self.F(self.chan_cls, f)
                    out.append(a.rd(k, c, s) == b.rd(k, c, s))
        return AND(*out)

    def cands(self, info, pre, fr):
        out = [(("inv", nm), lambda v, i, j=j: self.inv_of(v)[j][2]) for j, (nm, _, _) in enumerate(self.inv(self.st))]
        if self.W is not None:
            out += [(("open",), lambda v, i: NOT(self.closed(v))), (("empty",), lambda v, i: self.n(v) == 0)]
        return out

    # -- events
    def is_q(self, o):
        if self.Q is None or not (isinstance(o.cls, str) and o.cls == "collections.deque"):
            return z3.BoolVal(False)
        return z3.simplify(o.z == self.Q.z)

    def bump(self, g, d):
        if not z3.is_false(d):
            self.st.setg(g, z3.simplify(self.st.ghost[g] + z3.If(d, 1, 0)))

    def on_append(self, obj, value, z, arr, lo, hi, max):
        d = self.is_q(obj)
        if z3.is_false(d):
            return
        self.prove(IMP(d, z == self.accepted if self.accepted is not None else T(False)),
                   "enqueues-exactly-the-message", ("C06", "C08", "C09"))
        self.bump("enq", d)

    def on_popleft(self, obj, value, z, arr, lo, hi):
        self.bump("pops", self.is_q(obj))


# ------------------------------------------------------------------------------- senders
class Send(BroadcastSpec):
    all_props = ALL + ("C24",)

    def make_self(self):
        self.self_ = self.ref("SELF", self.send_cls)
        self.msg = self.arg_user()
        self.pick(self.it.get_field(self.self_, "_channel"))
        if self.own:
            self.accepted = self.msg.z

    def call(self):
        return self.call_method(self.self_, "send", [self.msg])

    def before_suspend(self, kind, info):
        self.prove(T(False), "send-never-waits", ("C07", "C06"))

    def returned(self, r):
        v = self.st
        if self.own:
            self.prove(v.ghost["enq"] == 1, "enqueued-exactly-once-for-every-receiver", ("C06",))
            self.prove(NOT(self.closed(self.entry)), "closed-channel-rejects", ("C09",))
            self.prove(self.epoch(v) > self.epoch(self.entry), "wakes-every-blocked-receiver", ("C10",))
        else:
            self.prove(v.ghost["enq"] == 0, "nothing-for-other-channels", ("C06",))

    def raised(self, e):
        se = self.is_exc(e, "_sender.SenderError")
        self.raised_only(e, "_sender.SenderError", props=("C09", "C06", "C24"))
        if not self.own:
            return
        self.prove(self.st.ghost["enq"] == 0, "failed-send-enqueues-nothing", ("C06", "C09"))
        self.prove(IMP(se, self.closed(self.entry)), "open-channel-does-not-reject", ("C09",))
        self.prove(IMP(se, self.exc_field(e, "_sender.SenderError", "sender") == self.self_.z), "error-names-the-sender",
                   ("C24",))
        self.prove(IMP(se, self.is_cause_closed(e, self.C.z)), "error-cause-is-channel-closed", ("C09", "C24"))


# ------------------------------------------------------------------------------- receivers
class OnReceiver(BroadcastSpec):
    all_props = ALL + ("C23",)

    def make_self(self):
        self.self_ = self.ref("SELF", self.recv_cls)
        self.it.get_field(self.self_, "_q")
        ch = self.it.get_field(self.self_, "_channel")
        if self.same:
            self.use_channel(ch)
            self.use_receiver(self.self_)
        else:
            self.pick(ch)
            self.st.add(self.W.z != self.self_.z)

    def guar(self, a, b):
        out = super().guar(a, b)
        if self.own:
            out.append(("channel-untouched", ("C06", "C08", "C09"), AND(
                self.same_fields(a, b, self.C.z),
                a.rd(K_MAP, self.G.z, "MV") == b.rd(K_MAP, self.G.z, "MV"))))
        if not self.same:
            out.append(("other-queues-untouched", ("C06", "C07"), self.same_seq(a, b, self.Q.z)))
        return out


class Ready(OnReceiver):
    def call(self):
        return self.call_method(self.self_, "ready")

    def guar(self, a, b):
        out = super().guar(a, b)
        if self.same:
            out.append(("ready-takes-nothing", ("C06", "C23"), self.same_seq(a, b, self.Q.z)))
        return out

    def on_cv_wait(self, cv):
        st = self.st
        if self.same:
            st.wr(K_WAIT, self.self_.z, z3.If(cv.z == self.R.z, self.epoch(st), z3.IntVal(-1)), "I")

    def on_cv_resumed(self, cv, cancelled):
        st = self.st
        if self.same:
            if not cancelled:
                st.add(IMP(cv.z == self.R.z, self.epoch(st) > self.wait(st)))
            st.wr(K_WAIT, self.self_.z, z3.IntVal(-1), "I")

    def before_suspend(self, kind, info):
        if not self.same:
            return
        v = self.st
        self.prove(AND(self.n(v) == 0, NOT(self.closed(v))), "waits-only-when-empty-and-open", ("C10", "C09", "C23"))
        ok = info["cv"].z == self.R.z if kind == "cv_wait" else T(False)
        self.prove(ok, "waits-on-the-channel-queue", ("C10",))

    def returned(self, r):
        b = self.bool_of(r)
        self.prove(T(b is not None), "returns-bool", ("C23",))
        if b is None or not self.same:
            return
        v = self.st
        self.prove(IMP(b, self.n(v) > 0), "true-means-a-message-is-queued", ("C23", "C06"))
        self.prove(IMP(NOT(b), AND(self.closed(v), self.n(v) == 0)), "false-only-when-closed-and-drained", ("C09", "C23"))

    def raised(self, e):
        self.raised_only(e, "asyncio.CancelledError", props=("C09", "C23"))


class Consume(OnReceiver):
    def call(self):
        return self.call_method(self.self_, "consume")

    def before_suspend(self, kind, info):
        self.prove(T(False), "consume-does-not-wait", ("C06", "C23"))

    def returned(self, r):
        if not self.same:
            return
        a, b = self.entry, self.st
        self.prove(self.n(a) > 0, "only-a-queued-message-is-consumed", ("C06", "C23"))
        self.prove(self.it.to_val(r) == self.at(a, self.lo(a)), "returns-the-oldest-queued-message", ("C06", "C07", "C09", "C23"))
        self.prove(AND(self.lo(b) == self.lo(a) + 1, self.hi(b) == self.hi(a)), "message-handed-out-once", ("C06", "C07", "C23"))

    def raised(self, e):
        self.raised_only(e, "_receiver.ReceiverStoppedError", "builtins.AssertionError", props=("C23", "C24"))
        if not self.same:
            return
        a, b = self.entry, self.st
        cl, n = self.closed(a), self.n(a)
        st_ = self.is_exc(e, "_receiver.ReceiverStoppedError")
        self.prove(n == 0, "queued-message-is-not-refused", ("C09", "C06", "C23"))
        self.prove(self.same_seq(a, b, self.Q.z), "refused-consume-changes-nothing", ("C23",))
        self.prove(st_ == cl, "stopped-exactly-when-closed-and-drained", ("C09", "C23"))
        self.prove(IMP(st_, self.exc_field(e, "_receiver.ReceiverError", "receiver") == self.self_.z),
                   "error-names-the-receiver", ("C24", "C23"))
        self.prove(IMP(st_, self.is_cause_closed(e, self.C.z)), "error-cause-is-channel-closed", ("C09", "C24"))


class Len(OnReceiver):
    def call(self):
        return self.it.getattr(self.self_, "__len__"), self.call_method(self.self_, "__len__")

    def returned(self, r):
        if self.same:
            self.prove(self.it.zint(r[1]) == self.n(self.st), "len-is-the-number-of-queued-messages", ("C07",))
            self.prove(self.same_seq(self.entry, self.st, self.Q.z), "len-changes-nothing", ("C07",))

    def raised(self, e):
        self.prove(T(False), "does-not-fail", ("C07",))


# ------------------------------------------------------------------------------- the channel
class OnChannel(BroadcastSpec):
    writes_state = False

    def make_self(self):
        self.self_ = self.ref("SELF", self.chan_cls)
        self.pick(self.self_)

    def before_suspend(self, kind, info):
        self.prove(T(False), "does-not-wait", ("C09", "C10"))

    def raised(self, e):
        if self.own:
            self.prove(T(False), "does-not-fail", ("C06", "C09", "C08"), f"raised {self.eng.exc_name(e)} {self.exc_origin or ''}")

    def guar(self, a, b):
        out = super().guar(a, b)
        if not self.writes_state:
            out.append(("channel-state-untouched", ("C08", "C09"), self.same_fields(a, b, self.C.z)))
        out.append(("existing-receivers-untouched", ("C06", "C08"), self.same_seq(a, b, self.Q.z)))
        return out


class Close(OnChannel):
    writes_state = True

    def call(self):
        return self.call_method(self.self_, "close")

    def returned(self, r):
        if self.own:
            self.prove(self.closed(self.st), "channel-is-closed", ("C09",))
            self.prove(self.epoch(self.st) > self.epoch(self.entry), "close-wakes-every-blocked-receiver", ("C10",))


class IsClosed(OnChannel):
    def call(self):
        return self.it.getattr(self.self_, "is_closed")

    def returned(self, r):
        b = self.bool_of(r)
        if self.own:
            self.prove(b == self.closed(self.st) if b is not None else T(False), "is-closed-tells-the-truth", ("C09",))


class NewSender(OnChannel):
    def call(self):
        return self.call_method(self.self_, "new_sender")

    def returned(self, r):
        ok = isinstance(r, V) and r.k == "ref" and r.cls is self.send_cls
        self.prove(T(ok), "gives-a-sender", ("C06",))
        if ok:
            self.prove(self.it.get_field(r, "_channel").z == self.self_.z, "sender-of-this-channel", ("C06",))


class NewReceiver(OnChannel):
    def call(self):
        self.limit = z3.Int("LIMIT")
        self.st.add(self.limit >= 1)
        self.nm = self.it.fresh(Ty("union", None, (T_STR, core.T_NONE)), "NAME")
        return self.call_method(self.self_, "new_receiver", [], {"name": self.nm, "limit": V("int", self.limit, T_INT)})

    def new_queue(self, r):
        q = self.it.get_field(r, "_q")
        v = self.st
        return q, v.rd(K_HI, q.z, "I") - v.rd(K_LO, q.z, "I"), z3.Select(v.rd(K_ARR, q.z, "AV"), v.rd(K_LO, q.z, "I"))

    def returned(self, r):
        ok = isinstance(r, V) and r.k == "ref" and r.cls is self.recv_cls
        self.prove(T(ok), "gives-a-receiver", ("C06",))
        if not ok:
            return
        q, n, first = self.new_queue(r)
        self.prove(self.it.get_field(r, "_channel").z == self.self_.z, "receiver-of-this-channel", ("C06",))
        self.prove(self.st.rd(K_MAX, q.z, "I") == self.limit, "queue-has-the-given-limit", ("C07",))
        if self.own:
            self.prove(IMP(NOT(self.closed(self.st)), self.registered(self.st, r)), "new-receiver-is-registered", ("C06",))


class Latest(BroadcastSpec):
    """Clients for the resend_latest guarantee: [open | send | close], then new_receiver().

    All the other functions leave the fields of the channel alone (their
    contracts above), so these clients cover every history."""

    all_props = ("C08",)
    script = ()
    on = True

    def make_self(self):
        it, st = self.it, self.st
        if self.script[0] == "init":
            self.c = None
            return
        self.c = self.ref("SELF", self.chan_cls)
        self.use_channel(self.c)
        st.add(self.closed(st) == (self.script[0] == "close-send"))

    def call(self):
        it = self.it
        if self.c is None:
            c = self.c = it.instantiate(self.chan_cls, [], {"name": V("str", z3.Int("NAME"), T_STR), "resend_latest": self.on})
            self.use_channel(c)
        c = self.c
        # (a public attribute: anybody may have set it, and may set it at any time)
        if not self.script[0] == "init":
            it.setattr(c, "resend_latest", it.fresh(T_BOOL, "BEFORE"))
        self.m = self.arg_user()
        for s in self.script:
            if s == "send":
                snd = self.call_method(c, "new_sender")
                self.call_method(snd, "send", [self.m])
            elif s == "send-fails":
                snd = self.call_method(c, "new_sender")
                try:
                    self.call_method(snd, "send", [self.m])
                except core.PyRaise as e:
                    self.prove(self.is_exc(e.exc, "_sender.SenderError"), "closed-channel-rejects", ("C08", "C09"))
                else:
                    self.prove(T(False), "closed-channel-rejects", ("C08", "C09"))
            elif s == "close":
                self.call_method(c, "close")
        if not self.script[0] == "init":
            it.setattr(c, "resend_latest", self.on)
        r = self.call_method(c, "new_receiver", [], {"limit": V("int", self.limit(), T_INT)})
        return r

    def limit(self):
        z = z3.Int("LIMIT")
        self.st.add(z >= 1)
        return z

    def inv(self, v):
        return [x for x in super().inv(v) if x[0] != "receiver-registered"]

    def guar(self, a, b):
        return []

    new_queue = NewReceiver.new_queue

    def returned(self, r):
        q, n, first = self.new_queue(r)
        if self.on and self.script[-1] == "send":
            self.prove(n == 1, "starts-with-one-message", ("C08",))
            self.prove(first == self.m.z, "starts-with-the-latest-message", ("C08",))
        else:
            self.prove(n == 0, "starts-empty", ("C08",))

    def raised(self, e):
        self.prove(T(False), "does-not-fail", ("C08",), f"raised {self.eng.exc_name(e)} {self.exc_origin or ''}")


class Init(BroadcastSpec):
    def make_self(self):
        pass

    def guar(self, a, b):
        return []

    rely = guar

    def call(self):
        b = self.it.fresh(T_BOOL, "RESEND")
        self.resend = b
        return self.it.instantiate(self.chan_cls, [], {"name": V("str", z3.Int("NAME"), T_STR), "resend_latest": b})

    def returned(self, r):
        self.use_channel(r)
        self.prove(NOT(self.closed(self.st)), "starts-open", ("C09",))
        rs = self.it.getattr(r, "resend_latest")
        self.prove(self.it.to_val(rs) == self.it.to_val(self.resend), "resend-setting-kept", ("C08",))

    def raised(self, e):
        self.prove(T(False), "does-not-fail", ("C06",))


def cases(pkg):
    out = []

    def add(cls, name, props, expect=("return",), own=(True, False), same=(False,)):
        for s in same:
            for o in own:
                if s and not o:
                    continue
                k = type(cls.__name__, (cls,), {"own": o, "same": s})
                suffix = "" if (s or (o and same == (False,))) else \
                    " [frame: another receiver]" if o else " [frame: another channel]"
                out.append(Case(f"_broadcast.{name}{suffix}", k, props, expect))

    RX = (True, False)
    add(Send, "_Sender.send", ("C06", "C07", "C09", "C10", "C24"), ("return", "raise"))
    add(Ready, "_Receiver.ready", ALL + ("C23",), ("return", "raise"), same=RX)
    add(Consume, "_Receiver.consume", ("C06", "C07", "C09", "C10", "C23", "C24"), ("return", "raise"), same=RX)
    add(Len, "_Receiver.__len__", ("C07",), same=RX)
    add(Close, "Broadcast.close", ALL)
    add(IsClosed, "Broadcast.is_closed", ("C09", "C08"))
    add(NewSender, "Broadcast.new_sender", ("C06", "C08"))
    add(NewReceiver, "Broadcast.new_receiver", ("C06", "C07", "C08", "C09", "C10"))
    add(Init, "Broadcast.__init__", ("C06", "C08", "C09", "C10"), own=(True,))
    for on in (True, False):
        for sc in (("init",), ("open", "send"), ("open", "close"), ("open", "send", "close"),
                   ("open", "close", "send-fails")):
            k = type("Latest", (Latest,), {"script": sc, "on": on})
            out.append(Case(f"_broadcast.Broadcast.new_receiver [client: {'; '.join(sc)}; resend_latest={on}]", k, ("C08",)))
    return out
