"""Contracts of the file watcher (C22, C23, C24).

The watch itself (the generator returned by watchfiles.awatch) is assumed: it
yields nonempty batches of (change, path) pairs, raises StopAsyncIteration when
it ends, and each suspended anext() can be cancelled or fail.
"""
from __future__ import annotations

from pyvc.core import tup_funcs
from pyvc.lib import PATHADDR

from pyvc.interp import StarArg

from .common import *

K_LEFT, K_LEFTN = ("gh", "$left"), ("gh", "$leftn")     # ghost: changes fetched and not handed out yet
K_ENDED, K_ENDEXC = ("gh", "$ended"), ("gh", "$endexc")  # ghost: how the watch ended
T_CHANGE = Ty("tuple", None, (Ty("enum", "watchfiles.Change"), T_STR))
MEMBER_OF = {"added": "CREATE", "modified": "MODIFY", "deleted": "DELETE"}


class WatchSpec(ChannelSpec):
    """Stated for an arbitrary watcher W: the one the function works on, or another one."""

    all_props = ("C22",)
    own = True

    def setup(self):
        self.mod("file_watcher")
        self.cls = self.pkg.cls("file_watcher.FileWatcher")
        self.evcls = self.pkg.cls("file_watcher.Event")
        self.W = self.popped = None
        self.fetching = False
        self.make_self()

    def make_self(self):
        self.self_ = self.ref("SELF", self.cls)
        self.it.get_field(self.self_, "_changes")
        if self.own:
            self.W = self.self_
        else:
            self.W = self.ref("OTHER", self.cls)
            self.st.add(self.W.z != self.self_.z)
        self.use(self.W)

    def use(self, w):
        self.W = w
        self.chg = self.it.get_field(w, "_changes")
        if not (isinstance(self.chg, V) and self.chg.k == "ref" and self.chg.cls == "builtins.set"):
            raise Unsupported("the pending changes are not kept in a set")

    def changes(self, v, w=None):
        d = self.rdf(v, self.cls, "_changes", (w or self.W).z)
        return v.rd(K_HAS, d, "HV"), v.rd(K_CARD, d, "I")

    def stopped(self, v, w=None):
        return self.rdf(v, self.cls, "_awatch_stopped_exc", (w or self.W).z)

    def ended(self, v, w=None):
        return v.rd(K_ENDED, (w or self.W).z, "B")

    def assume_inv(self):
        super().assume_inv()
        if self.W is not None:
            for w in (self.W, self.self_):
                self.it.get_field(w, "_changes")     # a set of its own

    def inv(self, v):
        if self.W is None:
            return []
        has, card = self.changes(v)
        left, n = v.rd(K_LEFT, self.W.z, "HV"), v.rd(K_LEFTN, self.W.z, "I")
        exc = v.rd(K_ENDEXC, self.W.z, "V")
        st = self.stopped(v)
        return [
            ("holds-exactly-the-changes-not-handed-out", ("C22", "C23"), AND(has == left, card == n, n >= 0)),
            ("knows-whether-and-how-the-watch-ended", ("C22", "C23"), AND(
                IMP(self.ended(v), st == exc), IMP(NOT(self.ended(v)), st == Val.none), NOT(exc == Val.none))),
        ]

    def guar(self, a, b):
        ha, ca = self.changes(a)
        hb, cb = self.changes(b)
        out = [("an-ended-watch-stays-ended", ("C22", "C23"), IMP(self.stopped(a) != Val.none, self.stopped(b) == self.stopped(a)))]
        if not self.own:
            out.append(("other-watchers-untouched", ("C22",), AND(ha == hb, ca == cb, self.stopped(a) == self.stopped(b))))
        else:
            out += self.change(a, b)
        return out

    def rely(self, a, b):
        # a watcher has a single consumer, which is inside of this call, and is not touched by others
        ha, ca = self.changes(a)
        hb, cb = self.changes(b)
        out = []
        for w in {id(self.W): self.W, id(self.self_): self.self_}.values() if self.own else [self.self_]:
            pa, pb = self.changes(a, w), self.changes(b, w)
            out += [(f"alone{w.z}", AND(pa[0] == pb[0], pa[1] == pb[1], self.stopped(a, w) == self.stopped(b, w),
                                        self.ended(a, w) == self.ended(b, w)))]
        return out

    def change(self, a, b):
        ha, ca = self.changes(a)
        hb, cb = self.changes(b)
        return [("state-unchanged", ("C22", "C23"), AND(ha == hb, ca == cb, self.stopped(a) == self.stopped(b)))]

    # -- the assumed contract of the watch
    def agen_next(self, v):
        it, st, s = self.it, self.st, self.self_
        own = self.rdf(st, self.cls, "_awatch", s.z)
        own = own if z3.is_int(own) else Val.a(own)
        self.prove(v.z == own, "fetches-from-its-own-watch", ("C22",))
        if self.own:
            self.prove(self.changes(st)[1] == 0, "fetches-only-when-all-changes-were-handed-out", ("C22", "C23"))
            self.prove(NOT(self.ended(st)), "does-not-fetch-after-the-end", ("C22", "C23"))
        it.suspensions += 1
        self.fetching = True
        self.eng.suspend(it, "fetch", {})
        self.fetching = False
        c = it.choose(4)
        if c == 1:
            it.raise_exc("asyncio.CancelledError")
        if c == 2:
            from pyvc.core import PyRaise
            e = it.unknown_exc("builtins.Exception", "watcherr")
            st.add(NOT(it.isa(e, "builtins.StopAsyncIteration")))
            self.foreign = e
            raise PyRaise(e)
        if c == 3:
            st.wr(K_ENDED, s.z, z3.BoolVal(True), "B")
            try:
                it.raise_exc("builtins.StopAsyncIteration")
            except Exception as p:
                if hasattr(p, "exc"):
                    st.wr(K_ENDEXC, s.z, Val.R(p.exc.z), "V")
                raise
        b = it.new_set(ty=(T_CHANGE,))
        has, card = st.const("batch", "HV"), st.const("batchn", "I")
        st.add(card > 0)
        st.wr(K_HAS, b.z, has, "HV")
        st.wr(K_CARD, b.z, card, "I")
        st.wr(K_LEFT, s.z, has, "HV")
        st.wr(K_LEFTN, s.z, card, "I")
        return b

    def before_suspend(self, kind, info):
        if not self.fetching:
            self.prove(T(False), "waits-only-for-the-watch", ("C22", "C23"), kind)

    def raised_none(self, e):
        self.prove(T(False), "does-not-fail", None, f"raised {self.eng.exc_name(e)} {self.exc_origin or ''}")


class Ready(WatchSpec):
    all_props = ("C22", "C23")
    foreign = None

    def call(self):
        return self.call_method(self.self_, "ready")

    def change(self, a, b):
        ha, ca = self.changes(a)
        hb, cb = self.changes(b)
        return [("waiting-hands-out-nothing", ("C22", "C23"), IMP(ca > 0, AND(ha == hb, ca == cb)))]

    def cands(self, info, pre, fr):
        return [(("none",), lambda v, i: AND(self.changes(v)[1] == 0, NOT(self.ended(v)))),
                (("emptyorsame",), lambda v, i: self.changes(v)[1] == 0),
                (("ended",), lambda v, i: self.ended(v))] + [
            (("inv", j), lambda v, i, j=j: self.inv_of(v)[j][2]) for j in range(2)]

    def returned(self, r):
        b = self.bool_of(r)
        self.prove(T(b is not None), "returns-bool")
        if b is None or not self.own:
            return
        v = self.st
        n = self.changes(v)[1]
        self.prove(IMP(b, n > 0), "true-means-a-change-is-available")
        self.prove(IMP(NOT(b), AND(n == 0, self.ended(v))), "false-only-when-the-watch-ended-and-all-was-handed-out")
        en = self.changes(self.entry)[1]
        self.prove(IMP(en > 0, b), "available-changes-mean-ready")
        self.prove(IMP(AND(en == 0, self.ended(self.entry)), NOT(b)), "stopped-stays-stopped")

    def raised(self, e):
        f = self.foreign
        self.prove(OR(self.is_exc(e, "asyncio.CancelledError"), *([e.z == f.z] if f is not None else [])),
                   "fails-only-with-the-error-of-the-watch", None, f"raised {self.eng.exc_name(e)} {self.exc_origin or ''}")


class Consume(WatchSpec):
    all_props = ("C22", "C23")

    def call(self):
        return self.call_method(self.self_, "consume")

    def on_set_pop(self, obj, value, z):
        self.popped = z

    def on_set_discard(self, obj, value, z):
        self.popped = z

    def change(self, a, b):
        return [("consuming-does-not-stop", ("C22", "C23"), self.stopped(a) == self.stopped(b))]

    def returned(self, r):
        if not self.own:
            return
        st, it, w = self.st, self.it, self.W
        z = self.popped
        ok = z is not None and isinstance(r, V) and r.k == "ref" and r.cls is self.evcls
        self.prove(T(ok), "takes-one-change-and-returns-an-event")
        if not ok:
            return
        left, n = self.entry.rd(K_LEFT, w.z, "HV"), self.entry.rd(K_LEFTN, w.z, "I")
        self.prove(z3.Select(left, z), "the-change-was-fetched-and-not-handed-out-before")
        st.wr(K_LEFT, w.z, z3.Store(left, z, False), "HV")
        st.wr(K_LEFTN, w.z, n - 1, "I")
        _, (p0, p1) = tup_funcs(2)
        change, path = p0(Val.k(z)), p1(Val.k(z))
        et = self.pkg.cls("file_watcher.EventType")
        ty = it.to_val(it.get_field(r, "type"))
        for ch, name in MEMBER_OF.items():
            c = next(m for m in self.eng.enum_members("watchfiles.Change") if m.name.endswith("." + ch))
            m = self.eng.enum_member(et, name)
            self.prove(IMP(change == it.to_val(c), ty == it.to_val(m)), "event-has-the-type-of-the-change", None, ch)
        self.prove(it.to_val(it.get_field(r, "path")) == Val.R(PATHADDR(path)), "event-has-the-path-of-the-change")

    def raised(self, e):
        self.raised_only(e, "_receiver.ReceiverStoppedError", "builtins.AssertionError", props=("C22", "C23", "C24"))
        if not self.own:
            return
        (h0, n0), (h1, n1) = self.changes(self.entry), self.changes(self.st)
        stop = self.is_exc(e, "_receiver.ReceiverStoppedError")
        self.prove(n0 == 0, "available-change-is-not-refused")
        self.prove(AND(h0 == h1, n0 == n1), "refused-consume-changes-nothing")
        self.prove(stop == self.ended(self.entry), "stopped-exactly-when-the-watch-ended")
        self.prove(IMP(stop, self.exc_field(e, "_receiver.ReceiverError", "receiver") == self.self_.z), "error-names-the-receiver",
                   ("C24", "C23"))
        self.prove(IMP(stop, self.cause(e) == self.entry.rd(K_ENDEXC, self.W.z, "V")), "stopped-because-of-the-end-of-the-watch",
                   ("C24", "C22"))


class Filter(WatchSpec):
    """The filter given to the watch, for an arbitrary raw change."""

    def make_self(self):
        st = self.st
        self.gen = self.filter = None
        self.iter_has = None
        et = self.pkg.cls("file_watcher.EventType")
        z = z3.Int("EVENT_TYPES")
        st.add(z > 0)
        st.bound(z, 1)
        self.types = self.it.mkref(z, Ty("ref", self.kind, (Ty("enum", et),)))
        self.pos = z3.Int("POS")
        zp = z3.Int("PATHS")
        st.add(zp > 0)
        path = Ty("union", None, (Ty("ref", "pathlib.Path"), T_STR))
        self.paths = self.it.mkref(zp, Ty("ref", "builtins.list", (path,)))

    def guar(self, a, b):
        return []

    rely = guar

    def on_iter_to_set(self, src, has):
        self.iter_has = has

    def on_awatch(self, gen, args, kw):
        self.prove(T(self.gen is None), "watches-once")
        self.gen, self.args, self.kw = gen, args, kw

    def call(self):
        kw = {"paths": self.paths}
        if self.kind:
            kw["event_types"] = self.types
        return self.it.instantiate(self.cls, [], kw)

    kind = "builtins.frozenset"

    def returned(self, r):
        self.prove(T(self.gen is not None), "watches-once")
        if self.gen is None:
            return
        it, st = self.it, self.st
        self.use(r)
        st.add(st.rd(K_LEFT, r.z, "HV") == z3.K(Val, z3.BoolVal(False)))    # the ghost of a fresh watcher
        st.add(st.rd(K_LEFTN, r.z, "I") == 0)
        st.add(NOT(self.ended(st)))
        st.add(st.rd(K_ENDEXC, r.z, "V") != Val.none)
        for n, props, z in WatchSpec.inv(self, st):
            self.prove(z, n, props)
        own = self.rdf(st, self.cls, "_awatch", r.z)
        self.prove((own if z3.is_int(own) else Val.a(own)) == self.gen.z, "keeps-its-watch")
        f = self.kw.get("watch_filter")
        self.prove(T(f is not None), "filters-the-changes")
        if f is None:
            return
        ch = it.fresh(Ty("enum", "watchfiles.Change"), "CHANGE")
        out = it.call(f, [ch, it.fresh(T_STR, "PATHSTR")], {})
        b = self.bool_of(out)
        self.prove(T(b is not None), "filter-returns-bool")
        if b is None:
            return
        et = self.pkg.cls("file_watcher.EventType")
        has = self.iter_has
        if has is None:
            has = self.entry.rd(K_HAS, self.types.z, "HV")
        for c, name in MEMBER_OF.items():
            cm = next(m for m in self.eng.enum_members("watchfiles.Change") if m.name.endswith("." + c))
            m = self.eng.enum_member(et, name)
            want = z3.Select(has, it.to_val(m)) if self.kind else T(True)
            self.prove(IMP(it.to_val(ch) == it.to_val(cm), b == want), "accepts-exactly-the-configured-types", None, c)
        self.watch_paths()

    def focus_pos(self, v):
        return [self.pos] if not self.kind and z3.eq(v.z, self.paths.z) else []

    def focus_pos_abs(self, a):
        return []

    def watch_paths(self):
        """The watch got exactly the given paths, in order (an arbitrary position)."""
        if self.kind:
            return
        st, it, p = self.st, self.it, self.pos
        n = self.entry.rd(K_HI, self.paths.z, "I") - self.entry.rd(K_LO, self.paths.z, "I")
        src = z3.Select(self.entry.rd(K_ARR, self.paths.z, "AV"), self.entry.rd(K_LO, self.paths.z, "I") + p)
        stars = [x for x in self.args if isinstance(x, StarArg)]
        if not stars:
            m = z3.IntVal(len(self.args))
            xs = [it.to_val(x) for x in self.args]
        elif len(self.args) == 1:
            o = stars[0].v
            arr, lo = st.rd(K_ARR, o.z, "AV"), st.rd(K_LO, o.z, "I")
            m = st.rd(K_HI, o.z, "I") - lo
            xs = [z3.Select(arr, lo + p)]
        else:
            raise Unsupported("the paths are not given to the watch as one list")
        self.prove(m == n, "watches-all-the-given-paths")
        for i, x in enumerate(xs):
            here = AND(p >= 0, p < n) if stars else p == i
            self.prove(IMP(here, OR(x == src, x == Val.R(PATHADDR(src)))), "watches-all-the-given-paths")

    def raised(self, e):
        self.prove(T(False), "does-not-fail", None, f"raised {self.eng.exc_name(e)} {self.exc_origin or ''}")


def cases(pkg):
    out = []

    def add(cls, name, props, expect=("return",), both=True, tag="", **kw):
        for own in ((True, False) if both else (True,)):
            k = type(cls.__name__, (cls,), dict(own=own, **kw))
            out.append(Case(f"file_watcher.FileWatcher.{name}{tag}" + ("" if own else " [frame: another watcher]"), k, props, expect))

    add(Ready, "ready", ("C22", "C23"), ("return", "raise"))
    add(Consume, "consume", ("C22", "C23", "C24"), ("return", "raise"))
    add(Filter, "__init__", ("C22",), both=False, tag=" [set of event types]")
    add(Filter, "__init__", ("C22",), both=False, tag=" [any iterable of event types]", kind="typing.Iterable")
    add(Filter, "__init__", ("C22",), both=False, tag=" [default event types]", kind="")
    return out
