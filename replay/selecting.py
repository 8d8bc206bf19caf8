"""select(), Selected and selected_from()."""
import asyncio
import contextlib

from recv import Boom, OtherRecv, Scripted
from world import SPECIAL, Token, cause_chain

import frequenz.channels as fc


class SlowScripted(Scripted):
    """Takes a while to end when it is cancelled."""

    slow = 0
    dying = False

    async def ready(self):
        try:
            return await super().ready()
        except asyncio.CancelledError:
            self.waiting += 1
            try:
                if self.slow < 0:
                    self.dying = True
                    await asyncio.sleep(3600)       # (of virtual time)
                for _ in range(self.slow):
                    await asyncio.sleep(0)
            finally:
                self.dying = False
                self.waiting -= 1
            raise


class Select:
    name = "select"
    props = ("C15", "C16", "C17", "C24")

    @staticmethod
    def gen(rng):
        params = {"n": rng.choice([1, 2, 2, 3, 4, 6]), "slow": [rng.choice([0, 0, 0, 3, -1]) for _ in range(6)],
                  "body": [rng.choices(["handle", "handle-first", "handle-last", "await", "unhandled", "break", "raise", "wrong"],
                                       [10, 2, 2, 3, .5, .3, .3, .3])[0] for _ in range(30)],
                  "close": rng.random() < .8}
        werr = rng.choice([0, 0, .4])
        wst = rng.choice([.3, 1, 3])
        wc = rng.choice([0, .1, .5])
        ops = []
        for _ in range(rng.randint(2, 25)):
            k = rng.choices(["feed", "stopsrc", "err", "cerr", "cancel", "yield", "settle"], [5, wst, werr, .7, wc, 1.5, 2])[0]
            if k == "feed":
                ops.append([k, rng.randrange(6), rng.randrange(9)])
            elif k in ("stopsrc", "err"):
                ops.append([k, rng.randrange(6)])
            elif k == "cerr":
                ops.append([k, rng.randrange(6), rng.randrange(3)])
            elif k == "yield":
                ops.append([k, rng.randint(1, 3)])
            else:
                ops.append([k])
        return params, ops

    @staticmethod
    async def run(w, params, ops):
        n = params["n"]
        srcs = []
        consumes = []           # sources in the order they were consumed
        for i in range(n):
            s = SlowScripted(w, f"s{i}")
            s.slow = params["slow"][i]
            s.on_consume = lambda s=s: consumes.append(s)
            srcs.append(s)
        readyerrs = {}
        yields = {s: [] for s in srcs}
        reported = set()
        st = {"ended": None, "n": 0, "seen": 0, "last": None, "cancelled": False, "inbody": False}
        boom = Boom("body")
        base = set(asyncio.all_tasks())

        def look(sel):
            """Check what was yielded; returns the source."""
            st["seen"] += 1
            if len(consumes) != st["seen"]:
                w.fail(("C15", "C17"), f"{len(consumes)} outcomes were consumed but {st['seen']} yielded")
                return None
            s = consumes[-1]
            i = len(yields[s])
            yields[s].append(sel)
            w.check(s not in reported, "C15", f"source {s.name} is yielded after it was reported as stopped")
            return s

        def outcome(sel, s):
            """Compare the selected with what consume() did."""
            if st.get("raised") is not None:
                e = st["raised"]
                w.check(sel.exception is e, ("C15", "C16"), f"exception is {sel.exception!r} instead of {e!r}")
                try:
                    v = sel.message
                except BaseException as x:
                    w.check(x is e, "C16", f"message raises {x!r} instead of {e!r}")
                else:
                    w.fail(("C15", "C16"), f"message is {v!r} although consume() raised {e!r}")
                w.check(sel.was_stopped is isinstance(e, fc.ReceiverStoppedError), "C16", f"was_stopped is {sel.was_stopped} for {e!r}")
            else:
                v = st["value"]
                try:
                    x = sel.message
                    w.check(x is v, ("C15", "C16"), f"message is {x!r} instead of {v!r}")
                except BaseException as e:
                    w.fail(("C15", "C16"), f"message raised {e!r} instead of returning {v!r}")
                w.check(sel.exception is None, ("C15", "C16"), f"exception is {sel.exception!r} for the message {v!r}")
                w.check(sel.was_stopped is False, "C16", f"was_stopped is {sel.was_stopped} for the message {v!r}")

        for s in srcs:
            real = s.consume

            def consume(real=real, s=s):
                st["raised"] = None
                try:
                    v = st["value"] = real()
                    return v
                except BaseException as e:
                    st["raised"] = e
                    raise
            s.consume = consume
        otherrecv = OtherRecv()

        async def go():
            gen = fc.select(*srcs)
            async with contextlib.aclosing(gen) if params["close"] else contextlib.nullcontext():
                k = 0
                expect_unhandled = None
                try:
                    async for sel in gen:
                        st["inbody"] = True
                        if expect_unhandled is not None:
                            w.fail("C16", "something else is yielded although the previous selection was not handled")
                        s = look(sel)
                        if s is None:
                            return "bad"
                        outcome(sel, s)
                        if s.stopped and s.cur is None and isinstance(st["raised"], fc.ReceiverStoppedError) and st["raised"].receiver is s:
                            reported.add(s)
                        act = params["body"][k % len(params["body"])]
                        k += 1
                        if act in ("unhandled", "wrong", "break", "raise"):
                            st["final"] = True
                        order = list(srcs)
                        if act == "handle-first":
                            order = [s]
                        elif act == "handle-last":
                            order.remove(s)
                            order.append(s)
                        elif act in ("unhandled",):
                            order = []
                        elif act == "wrong":
                            order.remove(s)
                        w.check(fc.selected_from(sel, otherrecv) is False, "C16", "selected_from() is true for a receiver which was not given")
                        for r in order:
                            b = fc.selected_from(sel, r)
                            w.check(b is (r is s), ("C15", "C16"), f"selected_from() is {b} for {r.name}, the selected receiver is {s.name}")
                        if act in ("handle", "handle-first") and order:
                            w.check(fc.selected_from(sel, s) is True, "C16", "selected_from() is not true again")
                        if act == "await":
                            for _ in range(3):
                                await asyncio.sleep(0)
                            outcome_again(sel, s)
                        if act in ("unhandled", "wrong"):
                            expect_unhandled = sel
                        if act == "break":
                            return "break"
                        if act == "raise":
                            raise boom
                        st["inbody"] = False
                    if expect_unhandled is not None:
                        w.fail("C16", "the iteration goes on although the last selection was not handled")
                except fc.UnhandledSelectedError as e:
                    w.check(isinstance(e, fc.SelectError) and isinstance(e, fc.Error), "C24", "UnhandledSelectedError is not a SelectError and Error")
                    w.check(expect_unhandled is not None, "C16", "UnhandledSelectedError although every selection was handled")
                    w.check(e.selected is expect_unhandled, ("C16", "C24"), "UnhandledSelectedError.selected is another selection")
                    return "unhandled"
                except fc.SelectError as e:
                    w.check(isinstance(e, fc.Error), "C24", "SelectError is not an Error")
                    w.check(id(e.__cause__) in readyerrs, ("C15", "C24"), f"SelectError is caused by {e.__cause__!r}")
                    w.check(expect_unhandled is None, "C16", "SelectError although a selection was not handled")
                    return "readyerr"
                except asyncio.CancelledError:
                    w.check(st["cancelled"], ("C15", "C17"), "the iteration raised CancelledError")
                    raise
                except Boom as e:
                    if e is not boom:
                        w.fail("C15", f"the iteration raised {e!r}")
                    return "raise"
                except BaseExceptionGroup as e:
                    # (a ready() that failed while it had to be cancelled)
                    ok = all(id(x) in readyerrs for x in e.exceptions)
                    w.check(ok, ("C17", "C15"), f"the iteration raised {e!r}")
                    return "group"
                except Exception as e:
                    w.unexpected(("C15", "C16", "C17"), "select()", e)
                return "done"

        def outcome_again(sel, s):
            e = sel.exception
            m = yields[s]
            if e is None:
                x = sel.message
                w.check(x is sel.message, "C16", "message changes")
                w.check(sel.was_stopped is False, "C16", "was_stopped changes")

        async def task():
            try:
                r = await go()
            except asyncio.CancelledError:
                r = "cancelled"
            except BaseException as e:
                if type(e).__name__ in ("Found", "Hang"):
                    raise
                if not (isinstance(e, BaseExceptionGroup) and all(id(x) in readyerrs for x in e.exceptions)):
                    w.unexpected(("C15", "C17"), "select()", e)
                r = "error"
            st["ended"] = r
            if r == "done":
                w.check(reported == set(srcs), "C15", f"the iteration ended although {[s.name for s in srcs if s not in reported]} were not reported as stopped")
            if params["close"] or not (r in ("break", "raise") or r == "cancelled" and st["inbody"]):
                for s in srcs:
                    w.check(s.waiting == 0, "C17", f"ready() of {s.name} is still running after the iteration ended ({r})")
                left = [t for t in asyncio.all_tasks() - base if not t.done() and t is not me[0]]
                w.check(not left, "C17", f"{len(left)} tasks are left behind after the iteration ended ({r})")
            for s in srcs:
                w.check(s.maxwaiting <= 1, "C15", f"{s.name} was waited for {s.maxwaiting} times at once")
                w.check(len(yields[s]) == s.nconsume, ("C15", "C17"), f"{s.nconsume} outcomes of {s.name} were consumed, {len(yields[s])} yielded")

        me = [None]
        t = me[0] = w.spawn(task())

        def quiet():
            if t.done() or st["inbody"] or any(s.dying for s in srcs):
                return
            for s in srcs:
                if st["cancelled"]:
                    w.fail("C17", "the iteration does not end when it is cancelled")
                if s in reported:
                    w.check(s.waiting == 0, "C15", f"{s.name} is waited for although it was reported as stopped")
                    continue
                w.check(s.waiting == 1, "C15", f"{s.name} is waited for {s.waiting} times")
                w.check(s.nready - s.waiting == s.nconsume == len(yields[s]), "C15",
                        f"{s.name}: {s.nready - s.waiting} completed ready(), {s.nconsume} consume(), {len(yields[s])} yielded")
            w.check(len(reported) < n, "C15", "the iteration does not end although every receiver was reported as stopped")

        for op in ops + [["settle"]]:
            k = op[0]
            if k == "feed":
                s = srcs[op[1] % n]
                i = st["n"]
                st["n"] += 1
                s.feed("msg", Token(i) if op[2] < 6 else SPECIAL[i % len(SPECIAL)])
            elif k == "stopsrc":
                srcs[op[1] % n].feed("stop")
            elif k == "err":
                e = Boom("ready")
                readyerrs[id(e)] = e
                srcs[op[1] % n].feed("readyerr", e)
            elif k == "cerr":
                s = srcs[op[1] % n]
                s.feed("consumeerr", [Boom("consume"), fc.ReceiverStoppedError(otherrecv), fc.ReceiverError("x", s)][op[2]])
            elif k == "cancel":
                # (cancelling the cleanup itself is out of scope)
                if not t.done() and not st["cancelled"] and not st.get("final") and not any(
                        id(e) in readyerrs for s in srcs for e in s.errors) and len(reported) < n:
                    st["cancelled"] = True
                    t.cancel()
            elif k == "yield":
                await w.yields(op[1])
            elif k == "settle":
                await w.settle(30)
                quiet()
            w.stop_if_found()
        if not t.done():
            for s in srcs:
                s.feed("stop")
            await w.settle(60)
            await asyncio.sleep(100_000)
            await w.settle(60)
            w.check(t.done(), ("C15", "C17"), "the iteration does not end although all receivers stopped")
        await w.settle(5)


FAMILIES = [Select]
