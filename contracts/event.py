"""Contracts of the Event receiver (C21, C23, C24)."""
from __future__ import annotations

from .common import *

ALL = ("C21",)


class EventSpec(ChannelSpec):
    """Stated for an arbitrary event E: the one the function works on, or another one."""

    all_props = ALL
    own = True

    def setup(self):
        self.mod("event")
        self.cls = self.pkg.cls("event.Event")
        self.E = self.X = None
        self.make_self()

    def make_self(self):
        self.self_ = self.ref("SELF", self.cls)
        self.it.get_field(self.self_, "_event")
        if self.own:
            self.use(self.self_)
        else:
            e = self.ref("OTHER", self.cls)
            self.st.add(e.z != self.self_.z)
            self.use(e)

    def use(self, e):
        self.E = e
        self.X = self.it.get_field(e, "_event")

    def S(self, v):
        return self.rdf(v, self.cls, "_is_set", self.E.z)

    def P(self, v):
        return self.rdf(v, self.cls, "_is_stopped", self.E.z)

    def flag(self, v):
        return v.rd(K_ESET, self.X.z, "B")

    def un(self, v):
        return v.rd(K_EUN, self.X.z, "I")

    def sets(self, v):
        return v.rd(K_ESETS, self.X.z, "I")

    def inv(self, v):
        if self.E is None:
            return []
        return [
            ("wakeable", ("C21", "C23"), AND(IMP(self.S(v), self.flag(v)), IMP(self.flag(v), OR(self.S(v), self.P(v))))),
            ("nobody-sleeps-on-a-set-or-stopped-event", ("C21",), AND(self.un(v) >= 0, IMP(self.un(v) > 0, AND(
                NOT(self.S(v)), NOT(self.P(v)))))),
        ]

    def rely(self, a, b):
        # the receiver has a single consumer, which is inside of this call
        return [("stop-is-final", IMP(self.P(a), self.P(b))), ("set-stays", IMP(self.S(a), self.S(b))),
                ("woken", AND(self.sets(b) >= self.sets(a), IMP(self.sets(b) > self.sets(a), OR(self.S(b), self.P(b)))))]

    def guar(self, a, b):
        out = [("stop-is-final", ("C21",), IMP(self.P(a), self.P(b))),
               ("wakes-only-for-a-reason", ("C21",), AND(self.sets(b) >= self.sets(a), IMP(
                   self.sets(b) > self.sets(a), OR(self.S(b), self.P(b)))))]
        if not self.own:
            out.append(("other-events-untouched", ("C21",), AND(
                self.S(a) == self.S(b), self.P(a) == self.P(b), self.flag(a) == self.flag(b), self.un(a) == self.un(b))))
        else:
            out += self.change(a, b)
        return out

    def change(self, a, b):
        return [("state-unchanged", ("C21", "C23"), AND(self.S(a) == self.S(b), self.P(a) == self.P(b)))]

    def raised(self, e):
        self.prove(T(False), "does-not-fail", ("C21",), f"raised {self.eng.exc_name(e)} {self.exc_origin or ''}")

    def before_suspend(self, kind, info):
        self.prove(T(False), "does-not-wait", ("C21",))


class Set(EventSpec):
    def call(self):
        return self.call_method(self.self_, "set")

    def change(self, a, b):
        return [("set-keeps-stopped", ("C21",), self.P(a) == self.P(b)), ("set-never-unsets", ("C21",), IMP(self.S(a), self.S(b)))]

    def returned(self, r):
        if self.own:
            self.prove(self.S(self.st), "event-is-set", ("C21",))


class Stop(EventSpec):
    def call(self):
        return self.call_method(self.self_, "stop")

    def change(self, a, b):
        return [("stop-keeps-pending-message", ("C21", "C23"), self.S(a) == self.S(b))]

    def returned(self, r):
        if self.own:
            self.prove(self.P(self.st), "event-is-stopped", ("C21",))


class Prop(EventSpec):
    attr = "is_set"

    def call(self):
        return self.it.getattr(self.self_, self.attr)

    def returned(self, r):
        b = self.bool_of(r)
        if self.own:
            want = self.S(self.st) if self.attr == "is_set" else self.P(self.st)
            self.prove(b == want if b is not None else T(False), "tells-the-truth", ("C21",))


class Ready(EventSpec):
    all_props = ("C21", "C23")

    def call(self):
        return self.call_method(self.self_, "ready")

    def before_suspend(self, kind, info):
        if not self.own:
            return
        v = self.st
        self.prove(AND(NOT(self.S(v)), NOT(self.P(v))), "waits-only-when-neither-set-nor-stopped")
        self.prove(info["ev"].z == self.X.z if kind == "ev_wait" else T(False), "waits-for-the-event")

    def cands(self, info, pre, fr):
        return [(("none",), lambda v, i: AND(NOT(self.S(v)), NOT(self.P(v)))), (("set",), lambda v, i: self.S(v)),
                (("some",), lambda v, i: OR(self.S(v), self.P(v)))] + [
            (("inv", j), lambda v, i, j=j: self.inv_of(v)[j][2]) for j in range(2)]

    def returned(self, r):
        b = self.bool_of(r)
        self.prove(T(b is not None), "returns-bool")
        if b is None or not self.own:
            return
        v = self.st
        self.prove(IMP(b, self.S(v)), "true-means-set")
        self.prove(IMP(NOT(b), AND(self.P(v), NOT(self.S(v)))), "false-only-when-stopped-without-pending-message")

    def raised(self, e):
        self.raised_only(e, "asyncio.CancelledError")


class Consume(EventSpec):
    all_props = ("C21", "C23")

    def call(self):
        return self.call_method(self.self_, "consume")

    def change(self, a, b):
        return [("consume-keeps-stopped", ("C21",), self.P(a) == self.P(b)), ("consume-never-sets", ("C21",), IMP(self.S(b), self.S(a)))]

    def returned(self, r):
        if not self.own:
            return
        self.prove(T(r is None), "the-message-is-none")
        self.prove(self.S(self.entry), "only-a-set-event-is-consumed")
        self.prove(NOT(self.S(self.st)), "consuming-clears-the-event")

    def raised(self, e):
        self.raised_only(e, "_receiver.ReceiverStoppedError", "builtins.AssertionError", props=("C23", "C24", "C21"))
        if not self.own:
            return
        s, p = self.S(self.entry), self.P(self.entry)
        st_ = self.is_exc(e, "_receiver.ReceiverStoppedError")
        self.prove(NOT(s), "set-event-is-not-refused")
        self.prove(NOT(self.S(self.st)), "refused-consume-changes-nothing")
        self.prove(st_ == p, "stopped-exactly-when-stopped-without-pending-message")
        self.prove(IMP(st_, self.exc_field(e, "_receiver.ReceiverError", "receiver") == self.self_.z), "error-names-the-receiver",
                   ("C24", "C23"))


class Init(EventSpec):
    def make_self(self):
        self.nm = self.it.fresh(Ty("union", None, (T_STR, core.T_NONE)), "NAME")

    def guar(self, a, b):
        return []

    rely = guar

    def call(self):
        return self.it.instantiate(self.cls, [], {"name": self.nm})

    def returned(self, r):
        self.use(r)
        v = self.st
        self.prove(AND(NOT(self.S(v)), NOT(self.P(v))), "starts-unset-and-running", ("C21",))


def cases(pkg):
    out = []

    def add(cls, name, props, expect=("return",), both=True, **kw):
        for own in ((True, False) if both else (True,)):
            k = type(cls.__name__, (cls,), dict(own=own, **kw))
            out.append(Case(f"event.Event.{name}" + ("" if own else " [frame: another event]"), k, props, expect))

    add(Set, "set", ("C21", "C23"))
    add(Stop, "stop", ("C21", "C23"))
    add(Prop, "is_set", ("C21",), attr="is_set")
    add(Prop, "is_stopped", ("C21",), attr="is_stopped")
    add(Ready, "ready", ("C21", "C23"), ("return", "raise"))
    add(Consume, "consume", ("C21", "C23", "C24"), ("return", "raise"))
    add(Init, "__init__", ("C21", "C23"), both=False)
    return out
