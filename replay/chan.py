"""Anycast and Broadcast channels."""
import asyncio
import collections
import gc
import weakref

from world import SPECIAL, Token, cause_chain

import frequenz.channels as fc


class Msg:
    def __init__(self, n, value):
        self.n, self.value = n, value
        self.start = self.end = None
        self.accepted = False
        self.exc = None
        self.deliveries = []


class Rcv:
    def __init__(self, obj, n):
        self.obj, self.n = obj, n
        self.task = None
        self.slot = False               # ready() returned true
        self.slot_start = None
        self.stopped = False            # reported as stopped
        self.q = collections.deque()    # model (Broadcast)
        self.limit = None
        self.alive = True


def value(w, n, kind):
    return Token(n) if kind < 6 else SPECIAL[(n + kind) % len(SPECIAL)]


def check_sender_error(w, e, sender, chan, props):
    w.check(isinstance(e, fc.Error), "C24", f"SenderError is not an instance of Error: {type(e).__mro__}")
    w.check(getattr(e, "sender", None) is sender, "C24", f"SenderError.sender is {getattr(e, 'sender', None)!r}, not the sender")
    c = e.__cause__
    w.check(isinstance(c, fc.ChannelClosedError), props, f"the cause of the SenderError is {c!r}, not a ChannelClosedError")
    if isinstance(c, fc.ChannelClosedError):
        w.check(isinstance(c, fc.ChannelError) and isinstance(c, fc.Error), "C24", "ChannelClosedError is not a ChannelError and Error")
        w.check(getattr(c, "channel", None) is chan, props, "the ChannelClosedError refers to another channel")


def check_stopped_error(w, e, recv, chan, props):
    w.check(isinstance(e, fc.ReceiverError) and isinstance(e, fc.Error), "C24", "ReceiverStoppedError is not a ReceiverError and Error")
    w.check(getattr(e, "receiver", None) is recv, ("C11", "C23", "C24"), f"ReceiverStoppedError.receiver is {getattr(e, 'receiver', None)!r}, not the receiver")
    if chan is not None:
        ok = [c for c in cause_chain(e)[1:] if isinstance(c, fc.ChannelClosedError)]
        w.check(bool(ok), props, f"the cause of the ReceiverStoppedError is {e.__cause__!r}, not a ChannelClosedError")
        if ok:
            w.check(getattr(ok[0], "channel", None) is chan, props, "the ChannelClosedError refers to another channel")


class Anycast:
    name = "anycast"
    props = ("C01", "C02", "C03", "C04", "C05", "C11", "C23", "C24")

    @staticmethod
    def gen(rng):
        params = {"limit": rng.choice([1, 1, 2, 2, 3, 5]), "senders": rng.randint(1, 3), "receivers": rng.randint(1, 3)}
        style = rng.random()
        ws = rng.choice([1, 3, 6])
        wr = rng.choice([1, 3, 6])
        wc = rng.choice([0, 0.3, 2])
        wcl = rng.choice([0, 0.05, 0.3])
        ops = []
        for _ in range(rng.randint(4, 30)):
            k = rng.choices(["send", "recv", "cancel", "close", "yield", "settle", "consume", "newrecv", "drop"],
                            [ws, wr, wc, wcl, 2, 1.2 if style < .6 else .2, .8, .2, .1])[0]
            if k == "send":
                ops.append([k, rng.randrange(3), rng.randrange(8)])
            elif k == "recv":
                ops.append([k, rng.randrange(4), rng.randrange(4)])
            elif k in ("cancel", "consume", "drop"):
                ops.append([k, rng.randrange(6)])
            elif k == "yield":
                ops.append([k, rng.randint(1, 3)])
            else:
                ops.append([k])
        if rng.random() < .5:
            ops.append(["settle"])
            ops.append(["close"])
        return params, ops

    @staticmethod
    async def run(w, params, ops):
        limit = params["limit"]
        chan = fc.Anycast(name="chan", limit=limit)
        other = fc.Anycast(name="other", limit=limit)
        orecv = other.new_receiver()
        otask = w.spawn(orecv.receive())
        senders = [chan.new_sender() for _ in range(params["senders"])]
        rcvs = [Rcv(chan.new_receiver(), i) for i in range(params["receivers"])]
        msgs = []
        st = {"closed": None, "settled": True, "accepted": 0, "taken": 0}

        w.check(chan.limit == limit, "C02", f"limit is {chan.limit}, not {limit}")
        w.check(chan.is_closed is False, "C03", "a new channel is closed")

        def slots():
            return sum(1 for r in rcvs if r.slot)

        def buffered():
            return st["accepted"] - st["taken"] - slots()

        async def do_send(m, sender):
            m.start = w.tick()
            was_closed = st["closed"] is not None
            try:
                await sender.send(m.value)
            except asyncio.CancelledError:
                m.end = w.tick()
                m.exc = "cancelled"
                raise
            except fc.SenderError as e:
                m.end = w.tick()
                m.exc = e
                w.check(st["closed"] is not None, ("C03", "C02"), f"send of {m.value!r} raised {e!r} on an open channel")
                check_sender_error(w, e, sender, chan, ("C03", "C24"))
            except Exception as e:
                m.exc = e
                w.unexpected(("C01", "C02", "C03", "C24"), "send()", e)
            else:
                m.end = w.tick()
                m.accepted = True
                st["accepted"] += 1
                w.check(st["closed"] is None, "C03", f"send of {m.value!r} succeeded after close() was called" +
                        ("" if was_closed else " (it was blocked when the channel was closed)"))
                w.check(buffered() <= limit, "C02", f"{buffered()} messages are buffered, the limit is {limit}")

        def deliver(r, v, start):
            end = w.tick()
            st["taken"] += 1
            r.slot = False
            w.check(not r.stopped, ("C04", "C23"), f"receiver {r.n} returned {v!r} after it reported being stopped")
            cands = [m for m in msgs if m.value is v]
            if not cands:
                w.fail("C01", f"{v!r} was received but never sent")
                return
            if isinstance(v, Token):
                m = cands[0]
                m.deliveries.append((start, end, r.n))
                w.check(len(m.deliveries) == 1, "C01", f"{v!r} was received twice")
                w.check(m.exc is None, ("C01", "C03") if st["closed"] is not None else "C01",
                        f"{v!r} was received although its send() raised {m.exc!r}")

        def stopped(r, e, how):
            w.check(st["closed"] is not None, "C04", f"{how} of receiver {r.n} reports being stopped on an open channel")
            w.check(buffered() <= 0, "C04", f"{how} of receiver {r.n} reports being stopped with {buffered()} messages buffered")
            w.check(not r.slot, ("C04", "C23"), f"{how} of receiver {r.n} reports being stopped while it holds a message")
            r.stopped = True
            if e is not None:
                check_stopped_error(w, e, r.obj, chan, ("C04", "C24"))

        async def do_recv(r, how):
            start = r.slot_start if r.slot else w.tick()
            had = r.slot
            what = ["receive()", "anext()", "ready()", "ready()+consume()"][how]
            try:
                if how == 0:
                    v = await r.obj.receive()
                elif how == 1:
                    v = await anext(r.obj)
                else:
                    ok = await r.obj.ready()
                    w.check(ok is True or ok is False, "C23", f"ready() returned {ok!r}")
                    if not ok:
                        stopped(r, None, what)
                        if how == 3:
                            do_consume(r)
                        return
                    w.check(not r.stopped, ("C04", "C23"), f"ready() of receiver {r.n} returned true after false")
                    if not r.slot:
                        r.slot, r.slot_start = True, start
                    w.check(buffered() >= 0, ("C01", "C23"), "ready() returned true without a message")
                    if how == 3:
                        do_consume(r)
                    return
            except asyncio.CancelledError:
                raise
            except fc.ReceiverStoppedError as e:
                w.check(how == 0, "C11", f"{what} raised {e!r}")
                stopped(r, e, what)
            except StopAsyncIteration as e:
                w.check(how == 1, "C11", f"{what} raised {e!r}")
                c = e.__cause__
                w.check(isinstance(c, fc.ReceiverStoppedError), "C11", "StopAsyncIteration is not caused by the ReceiverStoppedError")
                stopped(r, c if isinstance(c, fc.ReceiverStoppedError) else None, what)
            except Exception as e:
                w.unexpected(("C01", "C04", "C11", "C23", "C24"), what, e)
            else:
                deliver(r, v, start)
                w.check(buffered() >= 0, "C01", "more messages were received than accepted")

        def do_consume(r):
            try:
                v = r.obj.consume()
            except fc.ReceiverStoppedError as e:
                w.check(not r.slot, "C23", f"consume() raised {e!r} after ready() returned true")
                stopped(r, e, "consume()")
            except AssertionError as e:
                w.check(not r.slot and not r.stopped and st["closed"] is None, ("C23", "C04") if r.stopped else "C23",
                        f"consume() raised {e!r}, slot={r.slot}, stopped={r.stopped}")
            except Exception as e:
                w.unexpected(("C01", "C23", "C24"), "consume()", e)
            else:
                w.check(r.slot, "C23", f"consume() of receiver {r.n} returned {v!r} without a preceding ready()")
                deliver(r, v, r.slot_start if r.slot else w.tick())

        async def do_close():
            if st["closed"] is None:
                st["closed"] = w.tick()
            try:
                await chan.close()
            except asyncio.CancelledError:
                raise
            except Exception as e:
                w.unexpected(("C03", "C05"), "close()", e)
            w.check(chan.is_closed is True, "C03", "is_closed is not true after close()")

        def outstanding():
            return [t for t in w.tasks if not t.done() and t is not otask]

        kinds = {}

        def quiet_checks():
            """Nothing can run any more."""
            for t in w.tasks:
                if t.done() or t is otask:
                    continue
                kind, x = kinds[t]
                if st["closed"] is not None:
                    w.fail(("C05", "C03") if kind == "send" else ("C05", "C04") if kind == "recv" else "C05", f"a {kind} stays blocked on a closed channel")
                elif kind == "recv":
                    w.check(buffered() <= 0, "C05", f"receiver {x.n} stays blocked with {buffered()} messages buffered")
                    w.check(not x.slot, "C23", f"ready() of receiver {x.n} does not return although it was ready")
                elif kind == "send":
                    w.check(buffered() >= limit, ("C05", "C02"), f"the send of {x.value!r} stays blocked with {buffered()} of {limit} messages buffered")
                else:
                    w.fail("C05", "close() does not return")
            w.check(chan.is_closed is (st["closed"] is not None), "C03", f"is_closed is {chan.is_closed}")
            w.check(not otask.done(), "C01", "a message reached a receiver of another channel")

        for op in ops:
            k = op[0]
            if k == "send":
                m = Msg(len(msgs), value(w, len(msgs), op[2]))
                msgs.append(m)
                s = senders[op[1] % len(senders)]
                free = st["closed"] is None and st["settled"] and buffered() < limit and not any(
                    kinds[t][0] == "send" for t in outstanding() if t in kinds)
                t = w.spawn(do_send(m, s))
                kinds[t] = ("send", m)
                if free:
                    await asyncio.sleep(0)
                    w.check(t.done(), "C02", f"the send of {m.value!r} waits although only {buffered()} of {limit} messages are buffered")
                st["settled"] = False
            elif k == "recv":
                r = rcvs[op[1] % len(rcvs)]
                if r.task is not None and not r.task.done():
                    continue
                r.task = w.spawn(do_recv(r, op[2] % 4))
                kinds[r.task] = ("recv", r)
                if r.slot or r.stopped:
                    await asyncio.sleep(0)
                    w.check(r.task.done(), "C23", f"ready() of receiver {r.n} does not return at once again")
                st["settled"] = False
            elif k == "consume":
                r = rcvs[op[1] % len(rcvs)]
                if r.task is not None and not r.task.done():
                    continue
                if st["closed"] is not None and not r.slot and (buffered() > 0 or not r.stopped):
                    continue
                do_consume(r)
            elif k == "cancel":
                ts = outstanding()
                if ts:
                    ts[op[1] % len(ts)].cancel()
                st["settled"] = False
            elif k == "close":
                t = w.spawn(do_close())
                kinds[t] = ("close", None)
                st["settled"] = False
            elif k == "newrecv":
                rcvs.append(Rcv(chan.new_receiver(), len(rcvs)))
            elif k == "drop":
                i = op[1] % len(rcvs)
                r = rcvs[i]
                if len(rcvs) > 1 and not r.slot and (r.task is None or r.task.done()):
                    del rcvs[i]
            elif k == "yield":
                await w.yields(op[1])
            else:
                await w.settle()
                st["settled"] = True
                quiet_checks()
            w.check(buffered() <= limit, "C02", f"{buffered()} messages are buffered, the limit is {limit}")
            w.stop_if_found()
        await w.settle()
        quiet_checks()
        w.stop_if_found()
        # drain: whatever is outstanding is finished first
        for _ in range(len(msgs) + len(rcvs) + 2):
            for r in rcvs:
                if r.slot and (r.task is None or r.task.done()):
                    do_consume(r)
            await w.settle(8)
        idle = [r for r in rcvs if r.task is None or r.task.done()]
        r = (idle or [Rcv(chan.new_receiver(), 99)])[0]
        for t in outstanding():
            if kinds[t][0] == "recv":
                t.cancel()
        await w.settle()
        for _ in range(len(msgs) + 2):
            if r.stopped:
                break
            t = w.spawn(do_recv(r, 0))
            kinds[t] = ("recv", r)
            await w.settle(8)
            if not t.done():
                t.cancel()
                await w.settle(8)
                break
        await w.settle()
        quiet_checks()
        props = ("C01", "C02", "C04") if st["closed"] is not None else ("C01", "C02")
        for m in msgs:
            if m.accepted and isinstance(m.value, Token):
                w.check(len(m.deliveries) == 1, props, f"{m.value!r} was accepted but never received")
        w.check(st["taken"] == st["accepted"], props, f"{st['accepted']} messages were accepted, {st['taken']} were received")
        # order
        d = [(m.end, m.start, m.deliveries[0], m) for m in msgs if m.accepted and m.deliveries]
        d.sort(key=lambda x: x[0])
        for i, a in enumerate(d):
            for b in d[i + 1:]:
                w.check(not b[2][1] < a[2][0], ("C01", "C04") if st["closed"] is not None else "C01",
                        f"{b[3].value!r} was accepted after {a[3].value!r} but received before it")


class Broadcast:
    name = "broadcast"
    props = ("C06", "C07", "C08", "C09", "C10", "C11", "C23", "C24")

    @staticmethod
    def gen(rng):
        params = {"resend": rng.random() < .5, "senders": rng.randint(1, 2),
                  "limits": [rng.choice([1, 2, 2, 3, 50]) for _ in range(rng.randint(0, 3))],
                  "names": rng.choice([None, None, "same", "few"])}
        ws = rng.choice([2, 6])
        wr = rng.choice([1, 3, 6])
        wc = rng.choice([0, 0.3, 2])
        wn = rng.choice([.2, 1, 3])
        wcl = rng.choice([0, 0.05, 0.3])
        wt = rng.choice([0, 0, .3])
        wb = rng.choice([0, .5, 1])
        ops = []
        for _ in range(rng.randint(4, 30)):
            k = rng.choices(["send", "recv", "cancel", "close", "yield", "settle", "consume", "newrecv", "drop", "resend", "burst"],
                            [ws, wr, wc, wcl, 2, 1, .8, wn, wn / 2, wt, wb])[0]
            if k == "resend":
                ops.append([k, rng.random() < .5])
            elif k == "burst":
                ops.append([k, rng.choice([1, 1, 2]), rng.randrange(8), rng.random() < wcl * 2])
            elif k == "send":
                ops.append([k, rng.randrange(3), rng.randrange(8)])
            elif k == "recv":
                ops.append([k, rng.randrange(4), rng.randrange(4)])
            elif k == "newrecv":
                ops.append([k, rng.choice([1, 2, 3, 50, 0])])
            elif k in ("cancel", "consume", "drop"):
                ops.append([k, rng.randrange(6)])
            elif k == "yield":
                ops.append([k, rng.randint(1, 3)])
            else:
                ops.append([k])
        return params, ops

    @staticmethod
    async def run(w, params, ops):
        chan = fc.Broadcast(name="chan", resend_latest=params["resend"])
        other = fc.Broadcast(name="other")
        orecv = other.new_receiver()
        otask = w.spawn(orecv.receive())
        senders = [chan.new_sender() for _ in range(params["senders"])]
        rcvs = []
        st = {"closed": False, "has": False, "latest": None, "n": 0}
        kinds = {}
        w.check(chan.is_closed is False, "C09", "a new channel is closed")

        def make(limit):
            kw = {"limit": limit} if limit else {}
            if params.get("names"):
                kw["name"] = "x" if params["names"] == "same" else "xy"[len(rcvs) % 2]
            o = chan.new_receiver(**kw)
            r = Rcv(o, len(rcvs))
            r.limit = limit or 50
            if chan.resend_latest and st["has"] and not st["closed"]:
                r.q.append(st["latest"])
            w.check(len(o) == len(r.q), "C08", f"a new receiver holds {len(o)} messages instead of {len(r.q)} "
                    f"(resend_latest={chan.resend_latest}, closed={st['closed']}, sent before={st['has']})")
            rcvs.append(r)
            lens("C08")

        def lens(*more):
            for r in rcvs:
                n = len(r.obj)
                w.check(n <= r.limit, "C07", f"receiver {r.n} holds {n} messages, its limit is {r.limit}")
                w.check(n == len(r.q), ("C06", "C07") + more, f"receiver {r.n} holds {n} messages instead of {len(r.q)}")

        async def do_send(v, sender):
            closed = st["closed"]
            if not closed:
                st["has"], st["latest"] = True, v
                for r in rcvs:
                    if len(r.q) == r.limit:
                        r.q.popleft()
                    r.q.append(v)
            try:
                await sender.send(v)
            except asyncio.CancelledError:
                raise
            except fc.SenderError as e:
                w.check(closed, "C09", f"send raised {e!r} on an open channel")
                check_sender_error(w, e, sender, chan, ("C09", "C24"))
            except Exception as e:
                w.unexpected(("C06", "C07", "C09", "C24"), "send()", e)
            else:
                w.check(not closed, "C09", "send() succeeded on a closed channel")
            lens(*(("C09",) if closed else ()))

        def deliver(r, v):
            w.check(not r.stopped, ("C09", "C23"), f"receiver {r.n} returned {v!r} after it reported being stopped")
            r.slot = False
            props = ("C06", "C07", "C08") + (("C09",) if st["closed"] else ())
            if not r.q:
                w.fail(props, f"receiver {r.n} returned {v!r} but nothing was enqueued for it")
                return
            x = r.q.popleft()
            w.check(x is v, props, f"receiver {r.n} returned {v!r} instead of {x!r}")
            w.check(len(r.obj) == len(r.q), ("C06", "C07"), f"receiver {r.n} holds {len(r.obj)} messages instead of {len(r.q)}")

        def stopped(r, e, how):
            w.check(st["closed"], "C09", f"{how} of receiver {r.n} reports being stopped on an open channel")
            w.check(not r.q, "C09", f"{how} of receiver {r.n} reports being stopped with {len(r.q)} messages queued")
            w.check(not r.slot, "C23", f"{how} of receiver {r.n} reports being stopped after ready() returned true")
            r.stopped = True
            if e is not None:
                check_stopped_error(w, e, r.obj, chan, ("C09", "C24"))

        def do_consume(r):
            try:
                v = r.obj.consume()
            except fc.ReceiverStoppedError as e:
                stopped(r, e, "consume()")
            except AssertionError as e:
                w.check(not r.q and not st["closed"], ("C23", "C09") if r.stopped else "C23", f"consume() raised {e!r} with {len(r.q)} messages queued, closed={st['closed']}")
            except Exception as e:
                w.unexpected(("C06", "C23", "C24"), "consume()", e)
            else:
                w.check(bool(r.q), "C23", f"consume() returned {v!r} without a message queued")
                deliver(r, v)

        async def do_recv(r, how):
            what = ["receive()", "anext()", "ready()", "ready()+consume()"][how]
            try:
                if how == 0:
                    v = await r.obj.receive()
                elif how == 1:
                    v = await anext(r.obj)
                else:
                    ok = await r.obj.ready()
                    w.check(ok is True or ok is False, "C23", f"ready() returned {ok!r}")
                    if not ok:
                        stopped(r, None, what)
                    else:
                        w.check(not r.stopped, ("C09", "C23"), f"ready() of receiver {r.n} returned true after false")
                        w.check(bool(r.q), ("C10", "C23"), "ready() returned true without a message")
                        r.slot = True
                        w.check(len(r.obj) == len(r.q), "C23", "ready() changed the queue")
                    if how == 3:
                        do_consume(r)
                    return
            except asyncio.CancelledError:
                raise
            except fc.ReceiverStoppedError as e:
                w.check(how == 0, "C11", f"{what} raised {e!r}")
                stopped(r, e, what)
            except StopAsyncIteration as e:
                w.check(how == 1, "C11", f"{what} raised {e!r}")
                c = e.__cause__
                w.check(isinstance(c, fc.ReceiverStoppedError), "C11", "StopAsyncIteration is not caused by the ReceiverStoppedError")
                stopped(r, c if isinstance(c, fc.ReceiverStoppedError) else None, what)
            except Exception as e:
                w.unexpected(("C06", "C09", "C11", "C23", "C24"), what, e)
            else:
                deliver(r, v)

        async def do_close():
            st["closed"] = True
            try:
                await chan.close()
            except asyncio.CancelledError:
                raise
            except Exception as e:
                w.unexpected(("C09", "C10"), "close()", e)
            w.check(chan.is_closed is True, "C09", "is_closed is not true after close()")

        def quiet():
            for t in w.tasks:
                if t.done() or t is otask:
                    continue
                kind, x = kinds[t]
                if kind == "recv":
                    w.check(not x.q, "C10", f"receiver {x.n} stays blocked with {len(x.q)} messages queued")
                    w.check(not st["closed"], ("C10", "C09"), f"receiver {x.n} stays blocked on a closed channel")
                    w.check(not x.slot, "C23", f"ready() of receiver {x.n} does not return although it was ready")
                else:
                    w.fail(("C07", "C10"), f"a {kind} stays blocked")
            w.check(chan.is_closed is st["closed"], "C09", f"is_closed is {chan.is_closed}")
            w.check(not otask.done() and len(orecv) == 0, "C06", "a message reached a receiver of another channel")
            lens(*(("C09",) if st["closed"] else ()))

        for lim in params["limits"]:
            make(lim)
        for op in ops:
            k = op[0]
            if k == "send":
                v = value(w, st["n"], op[2])
                st["n"] += 1
                t = w.spawn(do_send(v, senders[op[1] % len(senders)]))
                kinds[t] = ("send", None)
                await asyncio.sleep(0)
                w.check(t.done(), "C07", "send() waits")
            elif k == "resend":
                chan.resend_latest = op[1]
            elif k == "burst":
                # sends (and a close) before anybody they wake runs
                ts = []
                for _ in range(op[1]):
                    v = value(w, st["n"], op[2])
                    st["n"] += 1
                    ts.append(w.spawn(do_send(v, senders[0])))
                    kinds[ts[-1]] = ("send", None)
                if op[3]:
                    kinds[w.spawn(do_close())] = ("close", None)
                await asyncio.sleep(0)
                w.check(all(t.done() for t in ts), "C07", "send() waits")
                ts = None
            elif k == "recv" and rcvs:
                r = rcvs[op[1] % len(rcvs)]
                if r.task is not None and not r.task.done():
                    continue
                t = r.task = w.spawn(do_recv(r, op[2] % 4))
                kinds[t] = ("recv", r)
                if r.slot or r.stopped:
                    await asyncio.sleep(0)
                    w.check(t.done(), "C23", f"ready() of receiver {r.n} does not return at once again")
            elif k == "consume" and rcvs:
                r = rcvs[op[1] % len(rcvs)]
                if r.task is not None and not r.task.done():
                    continue
                do_consume(r)
            elif k == "cancel":
                ts = [t for t in w.tasks if not t.done() and t is not otask and kinds[t][0] == "recv"]
                if ts:
                    ts[op[1] % len(ts)].cancel()
            elif k == "close":
                t = w.spawn(do_close())
                kinds[t] = ("close", None)
                await asyncio.sleep(0)
            elif k == "newrecv":
                make(op[1])
            elif k == "drop" and rcvs:
                i = op[1] % len(rcvs)
                r = rcvs[i]
                if r.task is None or r.task.done():
                    del rcvs[i]
                    kinds = {t: (a, b) for t, (a, b) in kinds.items() if b is not r}
                    w.tasks[:] = [t for t in w.tasks if t in kinds or t is otask]
                    r = None
                    t = None
                    gc.collect() if w.rng.random() < .02 else None
            elif k == "yield":
                await w.yields(op[1])
            elif k == "settle":
                await w.settle()
                quiet()
            lens()
            w.stop_if_found()
        await w.settle()
        quiet()
        w.stop_if_found()
        for r in rcvs:
            if r.task is not None and not r.task.done():
                continue
            for hows, when in (([0, 1, 3], lambda: bool(r.q)), ([0, 1, 2, 3], lambda: st["closed"] and not r.stopped)):
                while when() and w.found is None:
                    t = w.spawn(do_recv(r, w.rng.choice(hows)))
                    kinds[t] = ("recv", r)
                    await w.settle()
                    if not t.done():
                        w.fail(("C06", "C09", "C10"), f"receiver {r.n} stays blocked with {len(r.q)} messages queued, closed={st['closed']}")
                        t.cancel()
                        await w.settle()
                        break
        await w.settle()
        quiet()


FAMILIES = [Anycast, Broadcast]
