"""Runs scenarios on the real code under a deterministic event loop with virtual time."""
import asyncio
import gc
import heapq
import logging
import random
import selectors
import signal
import sys
import warnings

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
sys.unraisablehook = lambda *a: None


class Hang(BaseException):
    """The code under test does not return."""


class Found(BaseException):
    """The property in question was violated."""

    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class _Selector(selectors.BaseSelector):
    def __init__(self, loop_ref):
        self._map = {}
        self.loop_ref = loop_ref

    def register(self, fileobj, events, data=None):
        key = selectors.SelectorKey(fileobj, fileobj if isinstance(fileobj, int) else fileobj.fileno(), events, data)
        self._map[key.fd] = key
        return key

    def unregister(self, fileobj):
        return self._map.pop(fileobj if isinstance(fileobj, int) else fileobj.fileno())

    def modify(self, fileobj, events, data=None):
        self.unregister(fileobj)
        return self.register(fileobj, events, data)

    def get_map(self):
        return self._map

    def select(self, timeout=None):
        loop = self.loop_ref[0]
        if timeout is None:
            raise Hang("every task is blocked forever")
        if timeout > 0:
            us = int(timeout * 1e6)
            if us < timeout * 1e6 - 1e-3:
                us += 1
            loop.us += max(us, 1) + loop.jitter
        return []

    def close(self):
        self._map.clear()


class VLoop(asyncio.SelectorEventLoop):
    """The standard event loop (FIFO) with a virtual clock in whole microseconds."""

    def __init__(self):
        ref = [self]
        self.us = 1_000_000
        self.jitter = 0
        super().__init__(_Selector(ref))

    def time(self):
        return self.us / 1_000_000

    def next_timer(self):
        """When the next sleeping task is woken (None: there is none)."""
        hs = [h for h in self._scheduled if not h._cancelled]
        return min(h.when() for h in hs) if hs else None


class World:
    """State shared by the scenario and its oracle."""

    def __init__(self, prop, loop, seed):
        self.prop, self.loop = prop, loop
        self.now = 0
        self.tasks = []
        self.found = None
        self.rng = random.Random(seed)
        self.log = []

    def tick(self):
        self.now += 1
        return self.now

    def fail(self, props, msg):
        if isinstance(props, str):
            props = (props,)
        if self.prop in props and self.found is None:
            self.found = msg

    def check(self, cond, props, msg):
        if not cond:
            self.fail(props, msg)

    def stop_if_found(self):
        if self.found is not None:
            raise Found(self.found)

    def spawn(self, coro):
        t = self.loop.create_task(coro)
        self.tasks.append(t)
        return t

    async def settle(self, n=0):
        """Run until nothing is left to run."""
        await asyncio.sleep(0)
        k = 0
        while self.loop._ready:
            await asyncio.sleep(0)
            k += 1
            if k > 3000:
                self.stop_if_found()
                raise Hang("the tasks never come to rest")
        self.stop_if_found()

    async def yields(self, n):
        for _ in range(n):
            await asyncio.sleep(0)
        self.stop_if_found()

    def unexpected(self, props, what, exc):
        self.fail(props, f"{what} raised {type(exc).__name__}: {exc}")


def execute(fam, prop, params, ops, seed, cpu=20):
    """Run one scenario; the description of the violation or None."""
    loop = VLoop()
    loop.set_exception_handler(lambda *a: None)
    asyncio.set_event_loop(loop)
    w = World(prop, loop, seed)

    async def main():
        w.deadline_guard = True
        await fam.run(w, params, ops)
        w.stop_if_found()

    def onalarm(*a):
        raise Hang("the code does not give control back")
    old = signal.signal(signal.SIGVTALRM, onalarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    t = None
    try:
        t = loop.create_task(main())
        try:
            loop.run_until_complete(t)
        except Found as e:
            return e.msg
        except Hang as e:
            return w.found or f"hang: {e}"
        return w.found
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        try:
            for _ in range(3):
                pend = [x for x in asyncio.all_tasks(loop) if not x.done()]
                for x in pend:
                    x.cancel()
                if pend:
                    async def fin():
                        for _ in range(20):
                            await asyncio.sleep(0)
                    loop.run_until_complete(fin())
        except BaseException:
            pass
        w.tasks.clear()
        signal.signal(signal.SIGVTALRM, old)
        try:
            loop.close()
        except BaseException:
            pass
        asyncio.set_event_loop(None)


def shrink(fam, prop, params, ops, seed, budget=300):
    """Drop operations as long as the violation stays."""
    msg = execute(fam, prop, params, ops, seed)
    n = max(1, len(ops) // 2)
    while n >= 1 and budget > 0:
        i = 0
        changed = False
        while i < len(ops) and budget > 0:
            cut = ops[:i] + ops[i + n:]
            budget -= 1
            m = execute(fam, prop, params, cut, seed)
            if m is not None:
                ops, msg, changed = cut, m, True
            else:
                i += n
        if not changed or n > 1:
            n = n // 2 if n > 1 else (1 if changed else 0)
    return ops, msg


class Token:
    """A message with an identity of its own."""

    __slots__ = ("n", "__weakref__")

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"m{self.n}"


SPECIAL = [None, 0, False, "", (), 0.0]


def cause_chain(e):
    out = []
    while e is not None and len(out) < 20:
        out.append(e)
        e = e.__cause__ or (None if e.__suppress_context__ else e.__context__)
    return out
