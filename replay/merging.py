"""merge() and Merger over scripted sources."""
import asyncio
import itertools

from recv import Boom
from selecting import SlowScripted
from world import SPECIAL, Token, cause_chain

import frequenz.channels as fc


class Merge:
    name = "merge"
    props = ("C13", "C14", "C23", "C24")

    @staticmethod
    def gen(rng):
        n = rng.choice([1, 2, 2, 3, 3, 6])
        params = {"n": n, "slow": [rng.choice([0, 0, 0, 3, -1]) for _ in range(6)]}
        wf, wr = rng.choice([2, 5]), rng.choice([2, 5])
        werr = rng.choice([0, 0, .7])
        wst = rng.choice([.2, .8, 2])
        wstop = rng.choice([0, 0, .4])
        wc = rng.choice([0, .5, 1.5])
        ops = []
        for _ in range(rng.randint(2, 30)):
            k = rng.choices(["feed", "recv", "cancel", "stopsrc", "err", "stop", "yield", "settle", "consume"],
                            [wf, wr, wc, wst, werr, wstop, 1.5, 2, .7])[0]
            if k == "feed":
                ops.append([k, rng.randrange(6), rng.randrange(8)])
            elif k == "recv":
                ops.append([k, rng.randrange(4)])
            elif k == "err":
                ops.append([k, rng.randrange(6), rng.randrange(2)])
            elif k == "stopsrc":
                ops.append([k, rng.randrange(6)])
            elif k == "yield":
                ops.append([k, rng.randint(1, 3)])
            elif k == "settle":
                ops.append([k])
            else:
                ops.append([k])
        return params, ops

    @staticmethod
    async def run(w, params, ops):
        n = params["n"]
        try:
            fc.merge()
        except ValueError:
            pass
        except Exception as e:
            w.unexpected("C14", "merge()", e)
        else:
            w.fail("C14", "merge() of no receivers does not raise ValueError")
        srcs = [SlowScripted(w, f"s{i}") for i in range(n)]
        for s, x in zip(srcs, params["slow"]):
            s.slow = x
        m = fc.merge(*srcs)
        st = {"stop": False, "stopped_done": False, "reported": False, "ready": False, "task": None, "n": 0, "stoptask": None,
              "lossy": False, "got": 0}
        handed = [[] for _ in srcs]         # values handed out
        owner = {}
        fedvals = [[] for _ in srcs]
        errs = {}

        def alive():
            return [s for s in srcs if not s.stopped]

        def left():
            """Outcomes received from the sources and not yet handed out."""
            return sum(len(s.consumed) + len(s.errors) for s in srcs) - st["got"]

        def deliver(v):
            st["ready"] = False
            st["got"] += 1
            w.check(not st["reported"], ("C14", "C23"), f"{v!r} was returned after the merger reported being stopped")
            if v not in owner:
                w.fail("C13", f"{v!r} was returned but never sent")
                return
            i = owner[v]
            w.check(v not in handed[i], "C13", f"{v!r} was returned twice")
            handed[i].append(v)
            k = len(handed[i]) - 1
            if srcs[i].consumed[k:k + 1] != [v]:
                w.fail("C13", f"source {i} gave {srcs[i].consumed!r} but the merger returned {handed[i]!r}")

        def failed(e):
            st["ready"] = False
            st["got"] += 1
            w.check(id(e) in errs and any(x is e for s in srcs for x in s.errors), ("C13", "C24"), f"a receive raised {e!r}")
            if id(e) in errs:
                errs[id(e)][1] += 1
                w.check(errs[id(e)][1] == 1, "C13", f"{e!r} was raised twice")

        def stopped(e, how):
            w.check(not alive() or st["stop"], "C14", f"{how} reports being stopped while source {[s.name for s in alive()]} has not stopped")
            w.check(left() == 0 or st["stop"], ("C13", "C14"), f"{how} reports being stopped with {left()} messages not handed out")
            w.check(not st["ready"], "C23", f"{how} reports being stopped after ready() returned true")
            st["reported"] = True
            if e is not None:
                w.check(isinstance(e, fc.ReceiverStoppedError) and e.receiver is m, ("C14", "C23", "C24"), f"{how} raised {e!r} of {getattr(e, 'receiver', None)}")

        def do_consume():
            try:
                v = m.consume()
            except fc.ReceiverStoppedError as e:
                if e.receiver is not m:
                    failed(e)
                else:
                    stopped(e, "consume()")
            except AssertionError as e:
                w.check(not st["ready"] and not st["reported"], "C23", f"consume() raised {e!r}, ready={st['ready']}, stopped={st['reported']}")
            except Exception as e:
                w.check(st["ready"], "C23", f"consume() raised {e!r}")
                failed(e)
            else:
                w.check(st["ready"], "C23", f"consume() returned {v!r} without a preceding ready()")
                deliver(v)

        async def recv(how):
            what = ["receive()", "anext()", "ready()", "ready()+consume()"][how]
            try:
                if how == 0:
                    v = await m.receive()
                elif how == 1:
                    v = await anext(m)
                else:
                    ok = await m.ready()
                    w.check(ok is True or ok is False, "C23", f"ready() returned {ok!r}")
                    if ok:
                        w.check(not st["reported"], ("C14", "C23"), "ready() returned true after false")
                        w.check(left() > 0 or st["stop"], ("C14", "C23"), "ready() returned true without a message")
                        st["ready"] = True
                    else:
                        stopped(None, what)
                    if how == 3:
                        do_consume()
                    return
            except asyncio.CancelledError:
                raise
            except fc.ReceiverStoppedError as e:
                if e.receiver is not m:
                    failed(e)
                else:
                    w.check(how != 1, "C14", f"{what} raised {e!r}")
                    stopped(e, what)
            except StopAsyncIteration as e:
                w.check(how == 1, "C14", f"{what} raised {e!r}")
                c = e.__cause__
                stopped(c, what)
            except Exception as e:
                failed(e)
            else:
                deliver(v)

        async def do_stop():
            st["stop"] = True
            try:
                await m.stop()
            except asyncio.CancelledError:
                raise
            except Exception as e:
                w.unexpected("C14", "stop()", e)
                return
            st["stopped_done"] = True
            for s in srcs:
                w.check(s.waiting == 0, "C14", f"after stop() a receive of source {s.name} is still outstanding")

        def quiet():
            if any(s.dying for s in srcs):
                return
            t = st["task"]
            busy = t is not None and not t.done()
            for s in srcs:
                w.check(s.maxwaiting <= 1, "C13", f"source {s.name} had {s.maxwaiting} outstanding receives at once")
                if busy and not s.stopped and not st["stop"]:
                    w.check(s.waiting == 1, "C13", f"source {s.name} has no outstanding receive while the merger waits")
                if st["stopped_done"]:
                    w.check(s.waiting == 0, "C14", f"source {s.name} has an outstanding receive after stop()")
            if busy:
                w.check(not st["ready"], "C23", "ready() does not return although it was ready")
                w.check(not st["reported"], "C23", "ready() does not return although it was stopped")
                w.check(left() <= 0 or st["stop"], ("C13", "C14"), f"a receive stays blocked with {left()} messages to hand out")
                w.check(bool(alive()) and not st["stop"], "C14", "a receive stays blocked although all sources stopped or stop() was called")
            if st["stoptask"] is not None:
                w.check(st["stoptask"].done(), "C14", "stop() does not return")

        extra = [["settle"]] + [["recv", 0], ["settle"]] * 2
        for op in ops + extra:
            k = op[0]
            t = st["task"]
            busy = t is not None and not t.done()
            if k == "feed":
                i = op[1] % n
                if srcs[i].stopped or any(o[0] == "stop" for o in srcs[i].script):
                    continue
                v = Token(st["n"])
                st["n"] += 1
                owner[v] = i
                srcs[i].feed("msg", v)
            elif k == "err":
                i = op[1] % n
                if any(o[0] == "stop" for o in srcs[i].script):
                    continue
                e = Boom(f"boom{st['n']}")
                st["n"] += 1
                errs[id(e)] = [e, 0]
                srcs[i].feed(["readyerr", "consumeerr"][op[2]], e)
            elif k == "stopsrc":
                srcs[op[1] % n].feed("stop")
            elif k == "recv" and not busy:
                was = st["ready"] or st["reported"]
                st["task"] = w.spawn(recv(op[1]))
                if was and op[1] in (2, 3):
                    await asyncio.sleep(0)
                    w.check(st["task"].done(), "C23", "ready() does not return at once again")
            elif k == "consume" and not busy:
                if st["ready"] or st["reported"]:
                    do_consume()
                elif not st["stop"] and alive() and left() == 0 and all(s.waiting for s in srcs):
                    do_consume()            # refused
            elif k == "cancel" and busy:
                t.cancel()
            elif k == "stop" and st["stoptask"] is None:
                st["stoptask"] = w.spawn(do_stop())
            elif k == "yield":
                await w.yields(op[1])
            elif k == "settle":
                await w.settle(12)
                quiet()
            w.stop_if_found()
        await w.settle(12)
        if any(s.dying for s in srcs):
            await asyncio.sleep(100_000)
            await w.settle(12)
        quiet()
        t = st["task"]
        if t is not None and not t.done():
            t.cancel()
            await w.settle(12)
        if st["ready"]:
            do_consume()
        if not st["stop"]:
            # everything that was fed is handed out now
            for _ in range(st["n"] + n + 3):
                if st["reported"]:
                    break
                t = w.spawn(recv(0))
                await w.settle(10)
                if not t.done():
                    t.cancel()
                    await w.settle(4)
                    break
            for i, s in enumerate(srcs):
                w.check(handed[i] == s.consumed and not [o for o in s.script if o[0] == "msg" and not s.stopped], "C13",
                        f"source {i}: {s.consumed!r} was received, {handed[i]!r} was handed out, left {s.script!r}")
            for e, k in errs.values():
                seen = any(x is e for s in srcs for x in s.errors)
                w.check(k == (1 if seen else 0), "C13", f"{e!r} was raised by {k} receives")
            for s in srcs:
                if not s.stopped:
                    s.feed("stop")
            for _ in range(n + 2):
                t = w.spawn(recv(0))
                await w.settle(10)
                w.check(t.done(), "C14", "a receive stays blocked although all sources stopped")
                if st["reported"] or w.found:
                    break
            w.check(st["reported"], "C14", "the merger does not report being stopped after all sources stopped")


FAMILIES = [Merge]
