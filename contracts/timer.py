"""Contracts of the timer and its missed-tick policies (C18-C20, C23).

Time: loop.time() is an arbitrary float; floating-point operations round with
relative error 2^-53 (IEEE 754 binary64, round to nearest), integers are exact.
"""
from __future__ import annotations

from pyvc.ext import EPS

from .common import *

MAXUS = int(71 * 365.25 * 86400) * 10 ** 6          # 71 years in microseconds


def near(n, t):
    """n is the time t (seconds, a float) in microseconds, up to rounding to an integer."""
    x = t * 1000000
    ax = z3.If(x >= 0, x, -x)
    d = z3.ToReal(n) - x
    tol = 1 + ax * 2 * EPS
    return AND(d <= tol, d >= -tol)


def small(us):
    return AND(us <= MAXUS, us >= -MAXUS)


# ------------------------------------------------------------------ policies
class Policy(ChannelSpec):
    all_props = ("C18",)
    cname = None

    def setup(self):
        self.mod("timer")
        self.cls = self.pkg.cls("timer." + self.cname)
        self.self_ = self.ref("SELF", self.cls)
        self.now, self.sched, self.iv = z3.Ints("NOW SCHEDULED INTERVAL")
        self.st.add(self.iv > 0)

    def call(self):
        i = self.it
        return self.call_method(self.self_, "calculate_next_tick_time", [], {
            "now": V("int", self.now, T_INT), "scheduled_tick_time": V("int", self.sched, T_INT),
            "interval": V("int", self.iv, T_INT)})

    def before_suspend(self, kind, info):
        self.prove(T(False), "does-not-wait")

    def raised(self, e):
        self.prove(T(False), "does-not-fail", None, f"raised {self.eng.exc_name(e)} {self.exc_origin or ''}")

    def returned(self, r):
        k, v = self.it.kind_of(r)
        self.prove(T(k == "int"), "result-is-an-integer")
        if k == "int":
            self.result(self.it.zint(v))


class TriggerAll(Policy):
    cname = "TriggerAllMissed"

    def result(self, r):
        self.prove(r == self.sched + self.iv, "next-tick-is-one-interval-after-the-scheduled-one")


class Resync(Policy):
    cname = "SkipMissedAndResync"

    def result(self, r):
        q, m = self.it.pymod(self.now - self.sched, self.iv)
        self.prove(r > self.now, "next-tick-is-after-now")
        self.prove(r <= self.now + self.iv, "next-tick-is-the-first-one-after-now")
        self.prove(r == self.sched + (q + 1) * self.iv, "next-tick-is-a-multiple-of-the-interval-after-the-scheduled-one")
        st = self.st
        st.add(IMP(AND(self.now >= self.sched, q < 0), q * self.iv <= -self.iv))     # lemma (iv > 0)
        self.prove(IMP(self.now >= self.sched, q + 1 >= 1), "at-least-one-interval-later")


class Drift(Policy):
    cname = "SkipMissedAndDrift"

    def setup(self):
        super().setup()
        self.tol = self.rdf(self.st, self.cls, "_tolerance", self.self_.z)
        self.st.add(self.tol >= 0)

    def result(self, r):
        late = self.now - self.sched > self.tol
        self.prove(IMP(late, r == self.now + self.iv), "late-tick-drifts")
        self.prove(IMP(NOT(late), r == self.sched + self.iv), "tolerated-tick-does-not-drift")


class DriftInit(ChannelSpec):
    all_props = ("C18",)

    def setup(self):
        self.mod("timer")
        self.cls = self.pkg.cls("timer.SkipMissedAndDrift")
        self.us = z3.Int("TOLERANCE")

    def call(self):
        return self.it.instantiate(self.cls, [], {"delay_tolerance": V("td", self.us, T_TD)})

    def returned(self, r):
        self.prove(self.us >= 0, "negative-tolerance-is-rejected")
        tol = self.rdf(self.st, self.cls, "_tolerance", r.z)
        self.prove(tol >= 0, "tolerance-is-not-negative")
        self.prove(IMP(small(self.us), tol == self.us), "tolerance-is-kept-exactly")
        t = self.it.getattr(r, "delay_tolerance")
        self.prove(t.z == tol if isinstance(t, V) and t.k == "td" else T(False), "tolerance-reads-back")

    def raised(self, e):
        self.raised_only(e, "builtins.ValueError")
        self.prove(self.us < 0, "only-negative-tolerances-are-rejected")


# ------------------------------------------------------------------ the timer
class TimerSpec(ChannelSpec):
    """Stated for an arbitrary timer X: the one the function works on, or another one."""

    all_props = ("C19", "C20")
    own = True

    def setup(self):
        self.mod("timer")
        self.cls = self.pkg.cls("timer.Timer")
        self.times = []
        self.st.ghost["last"] = z3.RealVal(0)           # last reading of the clock
        self.st.ghost["fresh"] = z3.BoolVal(False)      # ... was after the last suspension
        self.st.ghost["policies"] = z3.IntVal(0)
        self.st.ghost["nexttick"] = z3.IntVal(0)
        self.st.ghost["sched"] = z3.IntVal(0)
        self.st.ghost["found"] = z3.IntVal(0)
        self.X = None
        self.foreign = None
        self.make_self()

    def make_self(self):
        self.self_ = self.X = self.ref("SELF", self.cls)
        if not self.own:
            self.X = self.ref("OTHER", self.cls)
            self.st.add(self.X.z != self.self_.z)
        for x in (self.self_, self.X):
            self.st.add(self.rdf(self.st, self.cls, "_interval", x.z) > 0)

    def f(self, v, attr, x=None):
        return self.rdf(v, self.cls, attr, (x or self.X).z)

    def stopped(self, v):
        return self.f(v, "_stopped")

    def next(self, v, x=None):
        return self.f(v, "_next_tick_time", x)

    def drift(self, v):
        return self.f(v, "_current_drift")

    def iv(self):
        return self.f(self.st, "_interval")

    def inv(self, v):
        if self.X is None:
            return []
        return [("a-running-timer-has-a-scheduled-tick", ("C19", "C20", "C23"), IMP(NOT(self.stopped(v)), self.next(v) != Val.none)),
                ("well-formed", ("C19", "C20"), AND(OR(Val.is_none(self.next(v)), Val.is_I(self.next(v))),
                                     OR(Val.is_none(self.drift(v)), Val.is_T(self.drift(v)))))]

    def rely(self, a, b):
        if self.X is None:
            return []
        # others may reset() or stop() the timer; there is a single consumer
        out = []
        for i, x in enumerate([self.X] if self.X is self.self_ else [self.X, self.self_]):
            na, nb = self.next(a, x), self.next(b, x)
            da, db = self.f(a, "_current_drift", x), self.f(b, "_current_drift", x)
            out += [(f"single-consumer{i}", OR(db == da, db == Val.none)), (f"started-once{i}", IMP(na != Val.none, nb != Val.none))]
        return out

    def same(self, a, b):
        return AND(self.stopped(a) == self.stopped(b), self.next(a) == self.next(b), self.drift(a) == self.drift(b))

    def guar(self, a, b):
        if self.X is None:
            return []
        out = [("started-once", ("C20",), IMP(self.next(a) != Val.none, self.next(b) != Val.none))]
        if not self.own:
            out.append(("other-timers-untouched", ("C19", "C20"), self.same(a, b)))
        else:
            out += self.change(a, b)
        return out

    def change(self, a, b):
        return [("state-unchanged", ("C19", "C20", "C23"), self.same(a, b))]

    def on_time(self, value, loop):
        lp = self.rdf(self.st, self.cls, "_loop", self.self_.z) if self.X is not None else None
        if lp is not None:
            self.prove(loop.z == (lp if z3.is_int(lp) else Val.a(lp)), "reads-the-time-of-its-own-loop", ("C19", "C20"))
        self.times.append(value.z)
        self.st.setg("last", value.z)
        self.st.setg("fresh", z3.BoolVal(True))

    exact = ()

    def on_round(self, value, result):
        """Hints for the solver (each one is proved before it is used)."""
        for us in self.exact:
            z = IMP(small(us), result == us)
            if self.st.must(z):
                self.st.add(z)
                return
        if self.times:
            z = near(result, self.times[-1])
            if self.st.must(z):
                self.st.add(z)

    def before_suspend(self, kind, info):
        self.prove(T(False), "does-not-wait")


class Ready(TimerSpec):
    all_props = ("C19", "C20", "C23")

    def call(self):
        return self.call_method(self.self_, "ready")

    def started(self, a, b):
        """First use: the first tick is one interval after now."""
        ok = [AND(near(Val.i(self.next(b)) - self.iv(), t)) for t in self.times]
        return AND(NOT(self.stopped(b)), Val.is_I(self.next(b)), OR(*ok) if ok else T(False))

    def change(self, a, b):
        fired = b.ghost["policies"] > a.ghost["policies"]
        unused = self.next(a) == Val.none
        return [
            ("use-never-restarts-or-stops-a-timer", ("C20",), IMP(NOT(unused), self.stopped(a) == self.stopped(b))),
            ("found-tick-is-kept", ("C19", "C23"), IMP(self.drift(a) != Val.none, self.same(a, b))),
            ("first-use-starts", ("C20",), IMP(AND(unused, self.drift(a) == Val.none, NOT(fired)), self.started(a, b))),
            ("scheduled-tick-changes-only-by-the-policy", ("C19", "C20"), IMP(AND(NOT(unused), NOT(fired)), AND(
                self.next(a) == self.next(b), self.drift(a) == self.drift(b)))),
        ] if self.X is not None else []

    def near_last(self, n):
        g = self.st.ghost
        return AND(g["fresh"], near(n, g["last"]))

    def on_policy(self, obj, kw):
        if not self.own:
            return
        st, it = self.st, self.it
        P = ("C19",)
        self.prove(st.ghost["policies"] == 0, "one-policy-call-per-tick", P)
        self.prove(AND(self.drift(self.entry) == Val.none), "no-new-tick-while-one-is-pending", P)
        pol = self.rdf(st, self.cls, "_missed_tick_policy", self.self_.z)
        self.prove(obj.z == (pol if z3.is_int(pol) else Val.a(pol)), "asks-its-own-policy", P)
        now, sched, iv = [it.zint(kw[k]) if k in kw else None for k in ("now", "scheduled_tick_time", "interval")]
        if now is None or sched is None or iv is None:
            self.prove(T(False), "policy-gets-all-arguments", P)
            return
        self.prove(iv == self.iv(), "policy-gets-the-interval", P)
        a = st.seg
        was = self.next(a)
        self.prove(IMP(was != Val.none, Val.I(sched) == was), "policy-gets-the-scheduled-time", P)
        self.prove(IMP(was == Val.none, OR(*[near(sched - self.iv(), t) for t in self.times] or [T(False)])),
                   "policy-gets-the-scheduled-time", P)
        self.prove(self.near_last(now), "policy-gets-the-current-time", P)
        self.prove(st.ghost["fresh"], "time-is-read-after-the-wait", P)
        self.prove(now >= sched, "never-ticks-early", P)
        self.prove(OR(NOT(self.stopped(a)), was == Val.none), "never-ticks-while-stopped", ("C19", "C20"))
        st.setg("policies", z3.simplify(st.ghost["policies"] + 1))
        st.setg("sched", sched)
        st.setg("found", now)

    def on_policy_done(self, result):
        if self.own:
            self.st.setg("nexttick", self.it.zint(result))

    def on_policy_raised(self, exc):
        self.foreign = exc

    def before_suspend(self, kind, info):
        self.prove(T(kind == "sleep"), "waits-only-for-the-scheduled-time")
        if kind != "sleep" or not self.own:
            return
        a, v = self.st.seg, self.st
        k, arg = self.it.kind_of(info["arg"])
        d = self.it.zreal(arg)
        self.prove(self.st.ghost["policies"] == 0, "no-wait-after-the-tick")
        self.prove(self.drift(v) == Val.none, "no-wait-while-a-tick-is-pending")
        # d seconds from the last reading of the clock lie not beyond the scheduled time
        t = v.ghost["last"]
        if True:
            left = z3.ToReal(Val.i(self.next(v))) - t * 1000000
            at = z3.If(t >= 0, t, -t) * 1000000
            al = z3.If(left >= 0, left, -left)
            ok = d * 1000000 <= left + 1 + at * 4 * EPS + al * 4 * EPS + z3.Q(1, 1000)
        self.prove(AND(Val.is_I(self.next(v)), v.ghost["fresh"], ok), "never-asks-to-sleep-beyond-the-scheduled-time", ("C19",))

    def after_suspend(self, kind, info, pre):
        self.st.setg("fresh", z3.BoolVal(False))

    def cands(self, info, pre, fr):
        out = [(("fresh",), lambda v, i: v.ghost["fresh"])]
        for n in fr.locals:
            def num(v, n=n):
                k, x = self.it.kind_of(v.locals.get(n))
                return self.it.zint(x) if k == "int" else None

            def now(v, i, num=num):
                x = num(v)
                return T(False) if x is None else near(x, v.ghost["last"])

            def left(v, i, num=num):
                x = num(v)
                return T(False) if x is None else AND(Val.is_I(self.next(v)), near(Val.i(self.next(v)) - x, v.ghost["last"]))

            def late(v, i, num=num):
                x = num(v)
                return T(False) if x is None else AND(Val.is_I(self.next(v)), near(Val.i(self.next(v)) + x, v.ghost["last"]))
            out += [(("now", n), now), (("left", n), left), (("late", n), late)]
        return out + [(("nodrift",), lambda v, i: self.drift(v) == Val.none), (("next",), lambda v, i: self.next(v) != Val.none),
                (("policies",), lambda v, i: v.ghost["policies"] == 0)] + [
            (("inv", j), lambda v, i, j=j: self.inv_of(v)[j][2]) for j in range(2)]

    def returned(self, r):
        b = self.bool_of(r)
        self.prove(T(b is not None), "returns-bool")
        if b is None or not self.own:
            return
        v, e, g = self.st, self.entry, self.st.ghost
        had = self.drift(e) != Val.none
        self.prove(IMP(had, AND(b, g["policies"] == 0)), "found-tick-stays-ready")
        new = AND(b, NOT(had))
        self.prove(b == (self.drift(v) != Val.none), "true-exactly-when-a-tick-was-found")
        self.prove(IMP(new, g["policies"] == 1), "each-tick-asks-the-policy-once", ("C19",))
        self.prove(IMP(new, self.drift(v) == Val.T(g["found"] - g["sched"])), "drift-is-the-time-found-minus-the-scheduled-time", ("C19",))
        self.prove(IMP(new, self.next(v) == Val.I(g["nexttick"])), "next-tick-is-what-the-policy-said", ("C19",))
        self.prove(IMP(NOT(b), g["policies"] == 0), "no-tick-is-lost", ("C19",))
        self.prove(IMP(NOT(b), self.stopped(v)), "false-only-when-stopped")
        self.prove(IMP(AND(self.stopped(e), self.next(e) != Val.none, NOT(had)), NOT(b)) if not self.it.suspensions else T(True),
                   "stopped-timer-reports-stopped")

    def raised(self, e):
        f = self.foreign
        self.prove(OR(self.is_exc(e, "asyncio.CancelledError"), *([e.z == f.z] if f is not None else [])),
                   "fails-only-with-the-error-of-the-policy", None, f"raised {self.eng.exc_name(e)} {self.exc_origin or ''}")

    def segment_end(self, why):
        if self.foreign is not None:
            return          # a policy that raises leaves the tick pending: out of contract
        super().segment_end(why)


class Consume(TimerSpec):
    all_props = ("C19", "C20", "C23")

    def call(self):
        return self.call_method(self.self_, "consume")

    def change(self, a, b):
        return [("consuming-does-not-touch-the-schedule", ("C19", "C20", "C23"), AND(
            self.stopped(a) == self.stopped(b), self.next(a) == self.next(b)))]

    def returned(self, r):
        if not self.own:
            return
        self.prove(self.drift(self.entry) != Val.none, "only-a-found-tick-is-handed-out")
        self.prove(self.it.to_val(r) == self.drift(self.entry), "returns-the-drift-of-the-tick")
        self.prove(self.drift(self.st) == Val.none, "each-tick-is-handed-out-once")

    def raised(self, e):
        self.raised_only(e, "_receiver.ReceiverStoppedError", "builtins.AssertionError", props=("C23", "C24", "C20"))
        if not self.own:
            return
        a = self.entry
        stop = self.is_exc(e, "_receiver.ReceiverStoppedError")
        self.prove(self.drift(a) == Val.none, "found-tick-is-not-refused")
        self.prove(self.same(a, self.st), "refused-consume-changes-nothing")
        self.prove(stop == self.stopped(a), "stopped-exactly-when-stopped-without-a-tick")
        self.prove(IMP(stop, self.exc_field(e, "_receiver.ReceiverError", "receiver") == self.self_.z), "error-names-the-receiver",
                   ("C24", "C23"))


class Stop(TimerSpec):
    all_props = ("C20",)

    def call(self):
        return self.call_method(self.self_, "stop")

    def change(self, a, b):
        return [("stop-keeps-the-found-tick", ("C20", "C23"), self.drift(a) == self.drift(b))]

    def returned(self, r):
        if self.own:
            self.prove(self.stopped(self.st), "timer-is-stopped")
            self.prove(self.next(self.st) != Val.none, "a-stopped-timer-is-not-started-by-use")

    def raised(self, e):
        self.prove(T(False), "does-not-fail", None, f"raised {self.eng.exc_name(e)} {self.exc_origin or ''}")


class Reset(TimerSpec):
    all_props = ("C20",)
    with_delay = True

    def call(self):
        self.us = z3.Int("DELAY") if self.with_delay else z3.IntVal(0)
        self.exact = (self.us,)
        return self.call_method(self.self_, "reset", [], {"start_delay": V("td", self.us, T_TD)} if self.with_delay else {})

    def change(self, a, b):
        return []

    def returned(self, r):
        self.prove(self.us >= 0, "negative-delay-is-rejected")
        if not self.own:
            return
        v = self.st
        self.prove(NOT(self.stopped(v)), "timer-is-running")
        self.prove(self.drift(v) == Val.none, "pending-tick-is-forgotten")
        self.prove(Val.is_I(self.next(v)), "next-tick-is-start-delay-plus-interval-after-now")
        n = Val.i(self.next(v)) - self.us - self.iv()
        self.prove(IMP(small(self.us), OR(*[near(n, t) for t in self.times] or [T(False)])),
                   "next-tick-is-start-delay-plus-interval-after-now")

    def raised(self, e):
        self.raised_only(e, "builtins.ValueError")
        self.prove(self.us < 0, "only-negative-delays-are-rejected")
        if self.own:
            self.prove(self.same(self.entry, self.st), "rejected-reset-changes-nothing")


class Prop(TimerSpec):
    all_props = ("C20",)
    attr = "is_running"

    def call(self):
        return self.it.getattr(self.self_, self.attr)

    def returned(self, r):
        if self.attr == "is_running":
            b = self.bool_of(r)
            self.prove(b == NOT(self.stopped(self.st)) if b is not None else T(False), "tells-the-truth")
        else:
            self.prove(self.it.to_val(r) == Val.T(self.iv()), "interval-reads-back-exactly")

    def raised(self, e):
        self.prove(T(False), "does-not-fail", None, f"raised {self.eng.exc_name(e)}")


class Init(TimerSpec):
    all_props = ("C20",)
    loop = False

    def guar(self, a, b):
        return []

    rely = guar

    def make_self(self):
        st, it = self.st, self.it
        self.us, self.delay = z3.Ints("INTERVAL DELAY")
        self.exact = (self.us, self.delay)
        self.auto = z3.Bool("AUTO")
        self.pol = self.ref("POLICY", self.pkg.cls("timer.MissedTickPolicy"))
        z = z3.Int("GIVENLOOP")
        st.add(z > 0)
        st.bound(z, 1)
        self.given = it.mkref(z, Ty("ref", "asyncio.AbstractEventLoop"))
        self.loops = []

    def on_time(self, value, loop):
        super().on_time(value, loop)
        self.loops.append(loop.z)

    def call(self):
        kw = {"auto_start": V("bool", self.auto, T_BOOL), "start_delay": V("td", self.delay, T_TD)}
        if self.loop:
            kw["loop"] = self.given
        return self.it.instantiate(self.cls, [V("td", self.us, T_TD), self.pol], kw)

    def returned(self, r):
        self.prove(self.us >= 1, "non-positive-interval-is-rejected")
        self.prove(self.delay >= 0, "negative-start-delay-is-rejected")
        self.prove(OR(self.auto, self.delay == 0), "start-delay-without-auto-start-is-rejected")
        self.X, v = r, self.st
        iv = self.iv()
        self.prove(iv > 0, "interval-is-positive")
        self.prove(IMP(small(self.us), iv == self.us), "interval-is-kept-exactly")
        self.prove(self.stopped(v) == NOT(self.auto), "runs-from-construction-exactly-with-auto-start")
        self.prove(self.drift(v) == Val.none, "starts-without-a-tick")
        self.prove(IMP(NOT(self.auto), self.next(v) == Val.none), "not-scheduled-without-auto-start")
        n = Val.i(self.next(v)) - self.delay - iv
        self.prove(IMP(AND(self.auto, small(self.delay)), AND(Val.is_I(self.next(v)), OR(*[near(n, t) for t in self.times] or [T(False)]))),
                   "first-tick-is-start-delay-plus-interval-after-now")
        pol = self.rdf(v, self.cls, "_missed_tick_policy", r.z)
        self.prove((pol if z3.is_int(pol) else Val.a(pol)) == self.pol.z, "keeps-the-policy")
        lp = self.rdf(v, self.cls, "_loop", r.z)
        lp = lp if z3.is_int(lp) else Val.a(lp)
        self.prove(lp == (self.given.z if self.loop else z3.Int("LOOP")), "uses-the-given-loop", ("C20", "C19"))
        for l in self.loops:
            self.prove(lp == l, "reads-the-time-of-its-own-loop", ("C19", "C20"))
        for n, props, z in TimerSpec.inv(self, v):
            self.prove(z, n, props)

    def raised(self, e):
        self.raised_only(e, "builtins.ValueError")
        self.prove(OR(self.us < 1, self.delay < 0, AND(NOT(self.auto), self.delay != 0)), "only-invalid-arguments-are-rejected")


def cases(pkg):
    out = []

    def add(cls, name, props, expect=("return",), both=False, tag="", **kw):
        for own in ((True, False) if both else (True,)):
            k = type(cls.__name__, (cls,), dict(own=own, **kw))
            out.append(Case(f"timer.{name}{tag}" + ("" if own else " [frame: another timer]"), k, props, expect))

    add(TriggerAll, "TriggerAllMissed.calculate_next_tick_time", ("C18",))
    add(Resync, "SkipMissedAndResync.calculate_next_tick_time", ("C18",))
    add(Drift, "SkipMissedAndDrift.calculate_next_tick_time", ("C18",))
    add(DriftInit, "SkipMissedAndDrift.__init__", ("C18",), ("return", "raise"))
    add(Ready, "Timer.ready", ("C19", "C20", "C23"), ("return", "raise"), both=True)
    add(Consume, "Timer.consume", ("C19", "C20", "C23", "C24"), ("return", "raise"), both=True)
    add(Stop, "Timer.stop", ("C20", "C23"), both=True)
    add(Reset, "Timer.reset", ("C20", "C23"), ("return", "raise"), both=True)
    add(Reset, "Timer.reset", ("C20",), ("return",), tag=" [no delay]", with_delay=False)
    add(Prop, "Timer.is_running", ("C20",))
    add(Prop, "Timer.interval", ("C20",), attr="interval")
    add(Init, "Timer.__init__", ("C20",), ("return", "raise"))
    add(Init, "Timer.__init__", ("C20",), ("return", "raise"), tag=" [given loop]", loop=True)
    return out
