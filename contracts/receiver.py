"""Contracts of the receiver interface: receive(), iteration and map() (C11, C12, parts of C23/C24)."""
from __future__ import annotations

from .common import *


class RecvSpec(ChannelSpec):
    """`self` is an arbitrary receiver (library or user-defined): its ready() and
    consume() are only known by the contract of the interface."""

    all_props = ("C11",)
    cls = None

    def setup(self):
        self.mod("_receiver")
        self.base = self.pkg.cls("_receiver.Receiver")
        self.self_ = self.ref("SELF", self.cls or self.base)
        self.st.ghost["waits"] = z3.IntVal(0)
        self.st.ghost["ended"] = z3.BoolVal(False)
        self.st.ghost["consumes"] = z3.IntVal(0)
        self.origin = None         # the exception of the receiver, if any
        self.msg = None

    def contract(self, fn, args, kwargs):
        if fn.name in ("ready", "consume") and args and isinstance(args[0], V) and z3.eq(args[0].z, self.self_.z):
            return self.eng.abstract_contract(self.it, fn, args, kwargs)
        return None

    def is_self(self, recv):
        return recv.z == self.self_.z if isinstance(recv, V) and recv.k == "ref" else T(False)

    def on_abs_ready(self, recv):
        self.prove(self.is_self(recv), "waits-for-the-receiver-itself")
        self.prove(self.st.ghost["consumes"] == 0, "nothing-awaited-after-consuming")
        self.prove(NOT(self.st.ghost["ended"]), "does-not-wait-again-once-stopped")

    def on_abs_ready_done(self, recv, result):
        self.st.setg("ended", z3.simplify(OR(self.st.ghost["ended"], NOT(result.z))))
        self.st.setg("waits", z3.simplify(self.st.ghost["waits"] + 1))

    def on_abs_ready_raised(self, recv, exc):
        self.origin = exc

    def on_abs_consume(self, recv):
        self.prove(self.is_self(recv), "consumes-from-the-receiver-itself")
        self.prove(self.st.ghost["waits"] >= 1, "waits-for-readiness-before-consuming")
        self.prove(self.st.ghost["consumes"] == 0, "consumes-at-most-once")
        self.st.setg("consumes", z3.simplify(self.st.ghost["consumes"] + 1))

    def on_abs_consume_done(self, recv, result):
        self.msg = result

    def on_abs_consume_raised(self, recv, exc):
        self.origin = exc

    def before_suspend(self, kind, info):
        self.prove(self.st.ghost["consumes"] == 0, "nothing-awaited-after-consuming")

    def returned(self, r):
        self.prove(self.st.ghost["consumes"] == 1, "consumes-exactly-once")
        self.prove(T(self.origin is None), "errors-are-not-swallowed")
        self.prove(self.it.to_val(r) == self.msg.z if self.msg is not None else T(False), "returns-exactly-the-message")

    def chain(self, e, target, depth=4):
        """target is e or in its __cause__ chain."""
        out = [e.z == target.z]
        x = e
        for _ in range(depth):
            c = z3.simplify(self.cause(x))
            if not (z3.is_app(c) and c.decl().name() == "R"):
                break
            k = self.known_obj(c.arg(0))
            out.append(c.arg(0) == target.z)
            if k is None:
                break
            x = k
        return OR(*out)


class Anext(RecvSpec):
    def call(self):
        return self.call_method(self.self_, "__anext__")

    def raised(self, e):
        o = self.origin
        if o is None:
            self.prove(self.is_exc(e, "asyncio.CancelledError"), "fails-only-because-of-the-receiver", None, f"raised {self.eng.exc_name(e)}")
            self.prove(self.st.ghost["consumes"] == 0, "cancelled-step-consumes-nothing")
            return
        stop = self.is_exc(o, "_receiver.ReceiverStoppedError")
        self.prove(IMP(stop, self.is_exc(e, "builtins.StopAsyncIteration")), "stopped-receiver-ends-the-iteration")
        self.prove(IMP(stop, self.chain(e, o)), "original-error-reachable", ("C11", "C24"))
        self.prove(IMP(NOT(stop), e.z == o.z), "other-errors-pass-unchanged")


class Receive(RecvSpec):
    def call(self):
        return self.call_method(self.self_, "receive")

    def raised(self, e):
        o = self.origin
        if o is None:
            self.prove(self.is_exc(e, "asyncio.CancelledError"), "fails-only-because-of-the-receiver", None, f"raised {self.eng.exc_name(e)}")
            self.prove(self.st.ghost["consumes"] == 0, "cancelled-step-consumes-nothing")
            return
        stop = self.is_exc(o, "_receiver.ReceiverStoppedError")
        sai = self.is_exc(o, "builtins.StopAsyncIteration")
        rse = self.is_exc(e, "_receiver.ReceiverStoppedError")
        self.prove(IMP(stop, AND(rse, self.exc_field(e, "_receiver.ReceiverError", "receiver") == self.self_.z)),
                   "stopped-receiver-raises-its-stopped-error", ("C11", "C24"))
        self.prove(IMP(stop, self.chain(e, o)), "original-error-reachable", ("C11", "C24"))
        # an iteration ended by the receiver itself: that error, or the stop that caused it
        self.prove(IMP(sai, OR(self.chain(e, o), self.cause(o) == Val.R(e.z))), "original-error-reachable", ("C11", "C24"))
        self.prove(IMP(NOT(OR(stop, sai)), e.z == o.z), "other-errors-pass-unchanged")


class Aiter(RecvSpec):
    def call(self):
        return self.call_method(self.self_, "__aiter__")

    def returned(self, r):
        self.prove(r.z == self.self_.z if isinstance(r, V) and r.k == "ref" else T(False), "iterates-over-itself")
        self.prove(self.st.ghost["consumes"] == 0, "iter-consumes-nothing")

    def raised(self, e):
        self.prove(T(False), "does-not-fail")


class MapSpec(RecvSpec):
    """M = self.map(F) for an arbitrary receiver and function, then any history."""

    all_props = ("C12",)

    def setup(self):
        super().setup()
        self.st.ghost["calls"] = z3.IntVal(0)
        self.fn = V("any", z3.Const("FUNC", Val), Ty("callable"))
        self.it.alloc_fact_val(self.fn.z)
        self.arg = self.result = self.fexc = None

    def mapped(self):
        it, st = self.it, self.st
        m = self.call_method(self.self_, "map", [self.fn])
        self.prove(T(isinstance(m, V) and m.k == "ref" and isinstance(m.cls, PyClass) and m.cls.is_sub(self.base)),
                   "map-gives-a-receiver")
        self.prove(AND(m.z != self.self_.z, self.st.ghost["consumes"] == 0, self.st.ghost["calls"] == 0), "map-itself-consumes-nothing")
        # any mutable state the mapper may have is arbitrary now
        it.escape(m)
        self.segment_end("history")
        st.new_epoch()
        st.dirty = {}
        st.seg = self.entry = View(st)
        return m

    def on_usercall(self, fn, args, zargs):
        self.prove(T(isinstance(fn, V)) if not isinstance(fn, V) else fn.z == self.fn.z, "calls-the-mapping-function")
        self.prove(self.st.ghost["calls"] == 0, "applied-once")
        ok = len(zargs) == 1 and self.msg is not None
        self.prove(zargs[0] == self.msg.z if ok else T(False), "applied-to-the-message")
        self.st.setg("calls", z3.simplify(self.st.ghost["calls"] + 1))

    def on_usercall_done(self, fn, args, result):
        self.result = result

    def on_usercall_raised(self, fn, exc):
        self.fexc = exc

    def on_abs_consume(self, recv):
        self.prove(self.is_self(recv), "consumes-from-the-receiver-itself")
        self.prove(self.st.ghost["consumes"] == 0, "consumes-at-most-once")
        self.st.setg("consumes", z3.simplify(self.st.ghost["consumes"] + 1))


class MapReady(MapSpec):
    all_props = ("C12", "C23")

    def call(self):
        m = self.mapped()
        return self.call_method(m, "ready")

    def on_abs_ready(self, recv):
        self.prove(self.is_self(recv), "waits-for-the-receiver-itself")

    def on_abs_ready_done(self, recv, result):
        super().on_abs_ready_done(recv, result)
        self.rres = result

    def clean(self):
        self.prove(AND(self.st.ghost["consumes"] == 0, self.st.ghost["calls"] == 0), "ready-neither-consumes-nor-calls")

    def returned(self, r):
        self.clean()
        self.prove(self.st.ghost["waits"] >= 1, "readiness-of-the-underlying-receiver")
        b = self.bool_of(r)
        self.prove(b == self.rres.z if b is not None and self.origin is None and self.st.ghost["waits"] is not None
                   and hasattr(self, "rres") else T(False), "readiness-passed-through")

    def raised(self, e):
        self.clean()
        if self.origin is None:
            self.prove(self.is_exc(e, "asyncio.CancelledError"), "fails-only-because-of-the-receiver")
        else:
            self.prove(e.z == self.origin.z, "errors-pass-unchanged")


class MapConsume(MapSpec):
    all_props = ("C12", "C23")

    def call(self):
        m = self.mapped()
        return self.call_method(m, "consume")

    def before_suspend(self, kind, info):
        self.prove(T(False), "consume-does-not-wait")

    def returned(self, r):
        self.prove(AND(self.st.ghost["consumes"] == 1, self.st.ghost["calls"] == 1), "one-message-one-application")
        self.prove(self.it.to_val(r) == self.result.z if self.result is not None and self.fexc is None else T(False),
                   "returns-exactly-the-value")
        self.prove(T(self.origin is None), "errors-are-not-swallowed")

    def raised(self, e):
        o = self.origin or self.fexc
        self.prove(e.z == o.z if o is not None else T(False), "errors-pass-unchanged")
        if self.origin is not None:
            self.prove(self.st.ghost["calls"] == 0, "function-not-called-without-message")


def cases(pkg):
    out = []
    base = pkg.cls("_receiver.Receiver")

    def subs(name):
        yield None
        for m in pkg.modules.values():
            for c in m.env.values():
                if isinstance(c, PyClass) and c.module is m and c is not base and c.is_sub(base) and name in c.methods:
                    yield c

    def add(spec, name, label, props, expect):
        for c in subs(name):
            k = type(spec.__name__, (spec,), {"cls": c})
            q = "_receiver.Receiver" if c is None else c.qual
            out.append(Case(f"{q}.{label}", k, props, expect))

    add(Anext, "__anext__", "__anext__", ("C11", "C24"), ("return", "raise"))
    add(Receive, "receive", "receive", ("C11", "C24"), ("return", "raise"))
    add(Aiter, "__aiter__", "__aiter__", ("C11",), ("return",))
    add(MapReady, "map", "map [then ready]", ("C12", "C23"), ("return", "raise"))
    add(MapConsume, "map", "map [then consume]", ("C12", "C23"), ("return", "raise"))
    return out
