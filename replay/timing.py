"""Timer and its policies."""
import asyncio
from datetime import timedelta

from frequenz.channels import ReceiverError, ReceiverStoppedError, Error
from frequenz.channels import timer as ft

US = timedelta(microseconds=1)


def td(us):
    return timedelta(microseconds=us)


class Policies:
    name = "policies"
    props = ("C18",)

    @staticmethod
    def gen(rng):
        big = rng.choice([3, 10, 1000, 10**6, 10**13])
        return {"tol": rng.choice([0, 0, 1, rng.randrange(big + 1), -rng.randrange(1, big + 1)]), "interval": rng.randint(1, big),
                "start": rng.randint(-big, big)}, [
            [rng.choice(["late", "late", "exact", "edge", "early", "mult"]), rng.randint(0, big * 3), rng.randrange(-1, 2)]
            for _ in range(rng.randint(1, 12))]

    @staticmethod
    async def run(w, params, ops):
        i, tol = params["interval"], params["tol"]
        try:
            drift = ft.SkipMissedAndDrift(delay_tolerance=td(tol))
            w.check(tol >= 0, "C18", f"a negative tolerance of {tol} us is accepted")
            w.check(drift.delay_tolerance == td(tol), "C18", f"delay_tolerance is {drift.delay_tolerance}, not {td(tol)}")
        except ValueError:
            w.check(tol < 0, "C18", f"a tolerance of {tol} us is rejected")
            drift = None
        if drift is None and tol >= 0:
            return
        pols = [ft.TriggerAllMissed(), ft.SkipMissedAndResync(), drift]
        for which, p in enumerate(pols):
            if p is None:
                continue
            s = params["start"]
            for kind, x, e in ops:
                now = {"late": s + x, "exact": s, "edge": s + tol + e, "early": s - x % (3 * i), "mult": s + i * (x % 1000) + e}[kind]
                r = p.calculate_next_tick_time(interval=i, scheduled_tick_time=s, now=now)
                a = f"{type(p).__name__}(interval={i}, scheduled={s}, now={now}, tolerance={tol})"
                w.check(type(r) is int, "C18", f"{a} = {r!r} is not an integer")
                if which == 0:
                    w.check(r == s + i, "C18", f"{a} = {r}, expected {s + i}")
                elif which == 1:
                    w.check(r > now and r - i <= now and (r - s) % i == 0, "C18", f"{a} = {r} is not the first scheduled + k*interval after now")
                else:
                    x = now + i if now - s > tol else s + i
                    w.check(r == x, "C18", f"{a} = {r}, expected {x}")
                w.stop_if_found()
                s = r


class Recorder(ft.MissedTickPolicy):
    def __init__(self, real):
        self.real, self.calls = real, []

    def calculate_next_tick_time(self, *, interval, scheduled_tick_time, now):
        r = self.real.calculate_next_tick_time(interval=interval, scheduled_tick_time=scheduled_tick_time, now=now)
        self.calls.append((interval, scheduled_tick_time, now, r))
        return r


class Any(ft.MissedTickPolicy):
    """A policy of a user: also schedules in the past."""

    def calculate_next_tick_time(self, *, interval, scheduled_tick_time, now):
        return scheduled_tick_time + (interval // 2 if now % 2 else interval * 2 - 1)


class Timer:
    name = "timer"
    props = ("C18", "C19", "C20", "C23", "C24")

    @staticmethod
    def gen(rng):
        i = rng.choice([1, 2, 10, 1000, 1000, 999_999, 1_000_000, 3_600_000_000, 86_400_000_000 + 7])
        params = {"interval": i, "policy": rng.randrange(4), "tol": rng.choice([0, 1, i // 2]), "auto": rng.random() < .75,
                  "delay": rng.choice([0, 0, 1, i, i * 3 + 1]), "t0": rng.choice([0, 1_000_000, 123_456_789, 10**12 + 1]),
                  "jitter": rng.choice([0, 0, 0, 3, i // 3])}
        big = i if i < 10**10 else 1000
        ops = []
        for _ in range(rng.randint(3, 25)):
            k = rng.choices(["ready", "receive", "consume", "stop", "reset", "sleep", "busy", "settle", "cancel"],
                            [4, 3, 3, .6, 1, 4, 2, 1, .5])[0]
            if k in ("sleep", "busy"):
                ops.append([k, rng.choice([0, 1, i // 2, i - 1, i, i + 1, 2 * i, 3 * i + i // 2, rng.randrange(4 * big + 1)])])
            elif k == "reset":
                ops.append([k, rng.choice([0, 0, 1, i // 2, 2 * i, -1])])
            else:
                ops.append([k])
        return params, ops

    @staticmethod
    async def run(w, params, ops):
        loop = w.loop
        loop.us = params["t0"] or loop.us
        i = params["interval"]
        for bad in (0, -1, -i):
            try:
                ft.Timer(td(bad), ft.TriggerAllMissed())
                w.fail("C20", f"an interval of {bad} us is accepted")
            except ValueError:
                pass
        for kw in ({"start_delay": td(-1)}, {"start_delay": td(-i)}, {"start_delay": td(-1), "auto_start": False}, {"start_delay": td(1), "auto_start": False}):
            try:
                ft.Timer(td(i), ft.TriggerAllMissed(), **kw)
                w.fail("C20", f"Timer({kw}) is accepted")
            except ValueError:
                pass
        x = w.rng.randrange(1, 71 * 365 * 86_400_000_000)
        for x in (x, x // 10**6 * 10**6 or 1, i):
            y = ft.Timer(td(x), ft.TriggerAllMissed(), auto_start=False).interval
            w.check(y == td(x), "C20", f"interval is {y!r}, not {td(x)!r}")
        real = [ft.TriggerAllMissed(), ft.SkipMissedAndResync(), ft.SkipMissedAndDrift(delay_tolerance=td(params["tol"])), Any()][params["policy"]]
        pol = Recorder(real)
        kw = {"auto_start": params["auto"]}
        if params["auto"]:
            kw["start_delay"] = td(params["delay"])
        t = ft.Timer(td(i), pol, **kw)
        st = {"run": params["auto"], "next": loop.us + params["delay"] + i if params["auto"] else None, "due": None, "task": None,
              "resets": 0, "disturbed": False}
        w.check(t.interval == td(i), "C20", f"interval is {t.interval}, not {td(i)}")
        w.check(t.missed_tick_policy is pol, "C20", "missed_tick_policy is another policy")

        def running(what):
            w.check(t.is_running is st["run"], "C20", f"is_running is {t.is_running} after {what}")

        running("construction")

        def error(e):
            w.check(isinstance(e, ReceiverError) and isinstance(e, Error) and e.receiver is t, ("C23", "C24"), f"{e!r} of {getattr(e, 'receiver', None)!r}")

        def got(drift, what):
            w.check(st["due"] is not None, ("C19", "C23"), f"{what} returned {drift!r} without a tick")
            if st["due"] is not None:
                w.check(drift == td(st["due"]), "C19", f"{what} returned the drift {drift!r} instead of {td(st['due'])!r}")
            st["due"] = None

        def do_consume():
            try:
                d = t.consume()
            except ReceiverStoppedError as e:
                w.check(not st["run"] and st["due"] is None, ("C20", "C23"), f"consume() raised {e!r}, running={st['run']}, tick={st['due']}")
                error(e)
            except AssertionError as e:
                w.check(st["run"] and st["due"] is None, ("C20", "C23"), f"consume() raised {e!r}, running={st['run']}, tick={st['due']}")
            else:
                got(d, "consume()")
            running("consume()")

        def ticked(ok, what):
            """A wait for the next tick ended now."""
            n = len(pol.calls)
            if st["due"] is not None:
                w.check(ok is True, "C23", f"{what} ended with {ok!r} although a tick is pending")
                w.check(n == st["calls"], ("C18", "C19"), "the policy was called without a tick")
                return
            if not st["run"]:
                w.check(ok is False, ("C19", "C20"), f"{what} ticks although the timer is stopped")
                w.check(n == st["calls"], ("C18", "C19"), "the policy was called without a tick")
                return
            if ok is not True:
                w.fail(("C20", "C23"), f"{what} reports being stopped although the timer is running")
                return
            now, sched = loop.us, st["next"]
            w.check(now >= sched, "C19", f"the timer ticks at {now}, the tick was scheduled at {sched}")
            w.check(n == st["calls"] + 1, ("C18", "C19"), f"the policy was called {n - st['calls']} times for a tick")
            st["due"] = now - sched
            if n > st["calls"]:
                a = pol.calls[-1]
                w.check(a[:3] == (i, sched, now), ("C18", "C19"), f"the policy was called with interval, scheduled, now = {a[:3]} instead of {(i, sched, now)}")
                st["next"] = a[3]
            if not st["disturbed"] and not params["jitter"] and what.startswith("ready"):
                w.check(now <= max(sched, st["began"]) + 2, "C19", f"the wait which began at {st['began']} for the tick at {sched} ended at {now}")

        async def ready(how):
            st["calls"] = len(pol.calls)
            st["began"] = loop.us
            st["disturbed"] = False
            if st["due"] is None and st["next"] is None:
                st["run"], st["next"] = True, loop.us + i
            try:
                if how == "receive":
                    try:
                        v = await t.receive()
                    except ReceiverStoppedError as e:
                        error(e)
                        ticked(False, "receive()")
                        w.check(st["due"] is None, ("C20", "C23"), "receive() raised although a tick was pending")
                    else:
                        ticked(True, "receive()")
                        got(v, "receive()")
                else:
                    ticked(await t.ready(), "ready()")
            except asyncio.CancelledError:
                w.check(len(pol.calls) == st["calls"], "C19", "a cancelled wait called the policy")
                raise
            except (AssertionError, Exception) as e:
                w.unexpected(("C19", "C20", "C23"), how, e)
            running(how)

        for op in ops:
            k = op[0]
            task = st["task"]
            busy = task is not None and not task.done()
            if k in ("ready", "receive") and not busy:
                due = st["due"] is not None
                old = st["next"] is not None and st["run"] and st["next"] <= loop.us
                st["task"] = w.spawn(ready(k))
                await asyncio.sleep(0)
                if due or old or not st["run"]:
                    w.check(st["task"].done(), ("C19", "C20", "C23"), f"{k}() waits, tick pending={due}, tick overdue={old}, running={st['run']}")
                elif st["due"] is None and not st["task"].done():
                    nt = loop.next_timer()
                    if nt is not None and not params["jitter"]:
                        # (asleep up to the scheduled time; nothing else sleeps now)
                        w.check(nt * 1e6 <= st["next"] + 2, "C19", f"sleeps until {nt}, the tick is scheduled at {st['next']} us")
            elif k == "consume" and not busy:
                do_consume()
            elif k == "stop":
                t.stop()
                st["run"] = False
                if st["next"] is None or True:
                    st["next"] = loop.us
                st["disturbed"] = True
                running("stop()")
            elif k == "reset":
                if busy and st["run"] and st["next"] is not None and loop.us + max(op[1], 0) + i < st["next"]:
                    continue        # does not wake a sleeping ready(): out of contract
                try:
                    t.reset(start_delay=td(op[1]))
                except ValueError:
                    w.check(op[1] < 0, "C20", f"reset() with a delay of {op[1]} us raised ValueError")
                else:
                    w.check(op[1] >= 0, "C20", f"reset() with a delay of {op[1]} us is accepted")
                    st["run"], st["next"], st["due"] = True, loop.us + op[1] + i, None
                    st["disturbed"] = True
                running("reset()")
            elif k == "sleep":
                loop.jitter = params["jitter"]
                end = loop.us + op[1]
                await asyncio.sleep(op[1] / 1e6)
                await w.settle(4)
                loop.jitter = 0
                task = st["task"]
                if task is not None and not task.done() and st["run"] and not st["disturbed"]:
                    w.check(loop.us < st["next"] + 1, ("C19",), f"the wait goes on at {loop.us} although the tick was scheduled at {st['next']}")
            elif k == "busy":
                loop.us += op[1]
                st["disturbed"] = True
            elif k == "settle":
                await w.settle(3)
            elif k == "cancel" and busy:
                task.cancel()
                await w.settle(3)
            w.stop_if_found()
        task = st["task"]
        if task is not None and not task.done():
            # it ends when its time has come
            for _ in range(20):
                if task.done():
                    break
                nt = loop.next_timer()
                if nt is None:
                    break
                await asyncio.sleep(max(nt - loop.time(), 0) + 1e-6)
                await w.settle(3)
            w.check(task.done(), ("C19", "C20"), "the wait does not end")


class Clock:
    """A clock which moves with every reading."""

    def __init__(self, us, step):
        self.us, self.step, self.seen = us, step, []

    def time(self):
        self.us += self.step
        self.seen.append(self.us)
        return self.us / 1_000_000


class TimerClock:
    """Overdue ticks with a clock which moves between any two readings."""
    name = "timer-clock"
    props = ("C18", "C19", "C20")

    @staticmethod
    def gen(rng):
        params = {"interval": rng.choice([1, 5, 1000, 1_000_000]), "policy": rng.randrange(4), "step": rng.choice([1, 1, 7]),
                  "auto": rng.random() < .7, "t0": rng.choice([1_000_000, 123_456_789])}
        ops = []
        for _ in range(rng.randint(2, 12)):
            k = rng.choices(["tick", "stop", "reset", "again"], [6, .5, 1, 1])[0]
            ops.append([k, rng.choice([0, 1, 3, 10, 25]), rng.randrange(3)])
        return params, ops

    @staticmethod
    async def run(w, params, ops):
        i = params["interval"]
        clock = Clock(params["t0"], params["step"])
        pol = Recorder([ft.TriggerAllMissed(), ft.SkipMissedAndResync(), ft.SkipMissedAndDrift(delay_tolerance=td(2)), Any()][params["policy"]])
        t = ft.Timer(td(i), pol, auto_start=params["auto"], loop=clock)
        nexts = {x + i for x in clock.seen} if params["auto"] else None
        running = params["auto"]
        for k, x, y in ops:
            clock.seen.clear()
            if k == "stop":
                t.stop()
                running = False
                nexts = nexts or set()
            elif k == "reset":
                t.reset(start_delay=td(x))
                running, nexts = True, {r + x + i for r in clock.seen}
            else:
                if nexts is None:
                    continue
                if running:
                    clock.us = max(clock.us, max(nexts)) + x
                n = len(pol.calls)
                task = w.spawn(t.ready())
                await asyncio.sleep(0)
                if not task.done():
                    w.fail(("C19", "C20"), "ready() waits although the tick is overdue")
                    task.cancel()
                    return
                ok = task.result()
                w.check(ok is running, ("C19", "C20"), f"ready() is {ok}, running={running}")
                calls = pol.calls[n:]
                w.check(len(calls) == (1 if running else 0), ("C18", "C19"), f"the policy was called {len(calls)} times for a tick")
                if not ok or len(calls) != 1:
                    w.stop_if_found()
                    continue
                iv, sched, now, r = calls[0]
                w.check(iv == i and sched in nexts, ("C19", "C20"), f"the policy was called with the interval {iv} and the tick at {sched}, not {sorted(nexts)}")
                w.check(now in clock.seen, "C19", f"the policy was called with now={now}, the clock said {clock.seen}")
                w.check(now >= sched, "C19", f"ticks at {now}, before {sched}")
                nexts = {r}
                if k == "again":
                    task = w.spawn(t.ready())
                    await asyncio.sleep(0)
                    w.check(task.done() and task.result() is True and len(pol.calls) == n + 1, "C19", "ready() is not ready again")
                    task.cancel()
                d = t.consume()
                w.check(d == td(now - sched), "C19", f"the drift is {d!r}, the policy was told {td(now - sched)!r}")
            w.stop_if_found()


FAMILIES = [Policies, Timer, TimerClock]
