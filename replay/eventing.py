"""Event."""
import asyncio

from world import cause_chain

import frequenz.channels as fc
from frequenz.channels.event import Event as FEvent


class Event:
    name = "event"
    props = ("C21", "C23", "C24")

    @staticmethod
    def gen(rng):
        ops = []
        ws = rng.choice([.1, .5])
        for _ in range(rng.randint(2, 20)):
            k = rng.choices(["set", "stop", "ready", "receive", "consume", "cancel", "yield", "settle", "waiter"], [4, ws, 4, 3, 3, 1, 2, 2, .5])[0]
            ops.append([k, rng.randint(1, 3)] if k == "yield" else [k])
        return {}, ops

    @staticmethod
    async def run(w, params, ops):
        e = FEvent(name="ev")
        st = {"set": False, "stopped": False, "ready": False, "task": None, "over": False}
        waiters = []

        def flags(what):
            w.check(e.is_set is st["set"], "C21", f"is_set is {e.is_set} after {what}")
            w.check(e.is_stopped is st["stopped"], "C21", f"is_stopped is {e.is_stopped} after {what}")

        flags("construction")

        def error(x):
            w.check(isinstance(x, fc.Error) and x.receiver is e, ("C23", "C24"), f"{x!r} of {getattr(x, 'receiver', None)!r}")

        def do_consume():
            try:
                v = e.consume()
            except fc.ReceiverStoppedError as x:
                w.check(st["stopped"] and not st["set"], ("C21", "C23"), f"consume() raised {x!r}, set={st['set']}, stopped={st['stopped']}")
                error(x)
            except AssertionError as x:
                w.check(not st["stopped"] and not st["set"], ("C21", "C23"), f"consume() raised {x!r}, set={st['set']}, stopped={st['stopped']}")
            except Exception as x:
                w.unexpected(("C21", "C23"), "consume()", x)
            else:
                w.check(st["set"], ("C21", "C23"), "consume() returned although the event is not set")
                w.check(v is None, "C21", f"consume() returned {v!r}")
                st["set"] = st["ready"] = False
            flags("consume()")

        async def ready():
            try:
                r = await e.ready()
            except asyncio.CancelledError:
                raise
            except Exception as x:
                w.unexpected(("C21", "C23"), "ready()", x)
                return
            w.check(r is (st["set"]), ("C21", "C23"), f"ready() returned {r!r}, set={st['set']}, stopped={st['stopped']}")
            w.check(r is True or st["stopped"], ("C21", "C23"), "ready() returned false although the event is not stopped")
            st["ready"] = r is True
            flags("ready()")

        async def receive():
            try:
                v = await e.receive()
            except asyncio.CancelledError:
                raise
            except fc.ReceiverStoppedError as x:
                w.check(st["stopped"] and not st["set"], ("C21", "C23"), f"receive() raised {x!r}, set={st['set']}, stopped={st['stopped']}")
                error(x)
            except Exception as x:
                w.unexpected(("C21", "C23"), "receive()", x)
            else:
                w.check(st["set"], ("C21", "C23"), "receive() returned although the event is not set")
                st["set"] = st["ready"] = False
            flags("receive()")

        async def waiter():
            await e.ready()

        def quiet():
            for t in [st["task"]] + waiters:
                if t is not None and not t.done():
                    w.check(not st["set"] and not st["stopped"], "C21", f"a waiter stays blocked, set={st['set']}, stopped={st['stopped']}")

        for op in ops + [["settle"]]:
            k = op[0]
            t = st["task"]
            busy = t is not None and not t.done()
            if k == "set":
                e.set()
                st["set"] = True
                flags("set()")
            elif k == "stop":
                e.stop()
                st["stopped"] = True
                flags("stop()")
            elif k in ("ready", "receive") and not busy and not any(not x.done() for x in waiters):
                now = st["set"] or st["stopped"]
                st["task"] = w.spawn(ready() if k == "ready" else receive())
                if now:
                    await asyncio.sleep(0)
                    w.check(st["task"].done(), ("C21", "C23"), f"{k}() waits, set={st['set']}, stopped={st['stopped']}")
            elif k == "waiter" and not busy:
                waiters.append(w.spawn(waiter()))
            elif k == "consume" and not busy:
                do_consume()
            elif k == "cancel" and busy:
                t.cancel()
                await w.settle(4)
            elif k == "yield":
                await w.yields(op[1])
            elif k == "settle":
                await w.settle(8)
                quiet()
            w.stop_if_found()


FAMILIES = [Event]
