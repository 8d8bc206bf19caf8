"""receive(), iteration and map() over scripted receivers."""
import asyncio

from world import SPECIAL, Token, cause_chain

import frequenz.channels as fc


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


class Scripted(fc.Receiver):
    """Hands out a script of outcomes; the driver decides when one becomes ready.

    Outcomes: ("msg", v) | ("stop",) | ("readyerr", e) | ("consumeerr", e)
    """

    def __init__(self, w, name, auto=True):
        self.w, self.name = w, name
        self.script = []
        self.cur = None             # outcome which is ready
        self.auto = auto
        self.waiting = 0            # ready() calls in progress
        self.nready = self.nconsume = 0
        self.consumed = []
        self.errors = []            # errors raised
        self.stopped = False
        self.waiters = []
        self.on_consume = None
        self.cancelled = 0
        self.stop_error = None
        self.maxwaiting = 0
        self.flip = False

    def __str__(self):
        return self.name

    def feed(self, *outcome):
        self.script.append(outcome)
        self.wake()

    def wake(self):
        for f in self.waiters:
            if not f.done():
                f.set_result(None)
        self.waiters.clear()

    async def ready(self):
        self.nready += 1
        self.waiting += 1
        self.maxwaiting = max(self.maxwaiting, self.waiting)
        try:
            while self.cur is None:
                if self.stopped:
                    return False
                if self.script:
                    o = self.script.pop(0)
                    if o[0] == "stop":
                        self.stopped = True
                        return False
                    if o[0] == "readyerr":
                        self.errors.append(o[1])
                        raise o[1]
                    self.cur = o
                    break
                f = asyncio.get_running_loop().create_future()
                self.waiters.append(f)
                try:
                    await f
                except asyncio.CancelledError:
                    self.cancelled += 1
                    raise
            return True
        finally:
            self.waiting -= 1

    def consume(self):
        self.nconsume += 1
        if self.on_consume:
            self.on_consume()
        if self.cur is None:
            if self.stopped:
                e = fc.ReceiverStoppedError(self)
                self.stop_error = e
                if self.flip:
                    raise e from Boom("origin")
                raise e
            raise AssertionError("not ready")
        o, self.cur = self.cur, None
        if o[0] == "consumeerr":
            self.errors.append(o[1])
            raise o[1]
        self.consumed.append(o[1])
        return o[1]


def script(rng, n, errs=True):
    out = []
    for i in range(n):
        k = rng.random()
        if k < .7 or not errs:
            out.append(["msg", i, rng.randrange(10)])
        elif k < .8:
            out.append(["readyerr", i, rng.randrange(6)])
        elif k < .9:
            out.append(["consumeerr", i, rng.randrange(6)])
        else:
            out.append(["stop"])
            break
    return out


class OtherRecv(fc.Receiver):
    async def ready(self):
        return False

    def consume(self):
        raise fc.ReceiverStoppedError(self)

    def __str__(self):
        return "other"


class Sub(fc.ReceiverStoppedError):
    pass


def build(o, w, me=None):
    """Scripted outcome from its JSON form."""
    if o[0] == "stop":
        return ("stop",)
    if o[0] == "msg":
        return ("msg", Token(o[1]) if o[2] < 6 else SPECIAL[o[1] % len(SPECIAL)])
    errs = [Boom("boom"), fc.ReceiverError("rerr", me), RuntimeError("rt"), ValueError(""), fc.ReceiverStoppedError(OtherRecv()), KeyError(1)]
    return (o[0], errs[o[2] % len(errs)])


class Receive:
    name = "receive"
    props = ("C11", "C12", "C23", "C24")

    @staticmethod
    def gen(rng):
        params = {"maps": rng.choice([0, 0, 1, 1, 2]), "script": script(rng, rng.randint(0, 8)), "flip": rng.random() < .5,
                  "fn": [rng.randrange(8) for _ in range(12)]}
        ops = []
        for _ in range(rng.randint(1, 14)):
            k = rng.choices(["feed", "recv", "cancel", "yield", "settle", "for", "ready"], [5, 5, 1.2, 1, 2, .5, 1])[0]
            if k == "recv":
                ops.append([k, rng.randrange(2)])
            elif k == "yield":
                ops.append([k, rng.randint(1, 3)])
            else:
                ops.append([k])
        return params, ops

    @staticmethod
    async def run(w, params, ops):
        src = Scripted(w, "src")
        src.flip = params["flip"]
        todo = [build(o, w, src) for o in params["script"]]
        calls = []
        fns = []
        top = src
        st = {"fn": 0, "task": None, "inmap": 0}

        def fn_of(level):
            def fn(x):
                k = params["fn"][st["fn"] % len(params["fn"])]
                st["fn"] += 1
                e = None
                if k == 0:
                    e = Boom("mapping")
                    y = None
                elif k == 1:
                    y = None
                elif k == 2:
                    y = False
                elif k == 3:
                    y = 0
                elif k == 4:
                    y = x
                else:
                    y = Token(1000 + st["fn"])
                calls.append((level, x, y, e))
                if e is not None:
                    raise e
                return y
            return fn
        for i in range(params["maps"]):
            top = top.map(fn_of(i))
            w.check(isinstance(top, fc.Receiver), "C12", "map() does not return a receiver")
        M = ("C11", "C12") if params["maps"] else ("C11",)
        w.check(not calls and src.nready == 0 and src.nconsume == 0, "C12", "map() uses the receiver")

        flags = {}

        def on_consume():
            flags["returned"] = False
            now = flags

            def later():
                w.check(now.get("returned", True), "C11", "there is a suspension between consuming a message and returning it")
            w.loop.call_soon(later)
        src.on_consume = on_consume

        def begin():
            return (src.nready, src.nconsume, len(src.consumed), len(calls), len(src.errors))

        def after(b, kind, val, how):
            """One receive which began in state b ended with kind ("ok", "err")."""
            flags["returned"] = True
            taken = src.consumed[b[2]:]
            mc = calls[b[3]:]
            errs = src.errors[b[4]:]
            if kind == "cancelled":
                w.check(src.nconsume == b[1], "C11", "a cancelled receive consumed")
                w.check(not mc, "C12", "waiting called the mapping function")
                return
            w.check(src.nready == b[0] + 1, M, f"{how} called ready() {src.nready - b[0]} times")
            if errs and not taken:
                e = errs[0]
                w.check(src.nconsume - b[1] <= 1, M, f"{how} called consume() {src.nconsume - b[1]} times")
                if isinstance(e, fc.ReceiverStoppedError):
                    check_stop(kind, val, how, e)
                else:
                    w.check(kind == "err" and val is e, M, f"{how}: the error {e!r} of the receiver became {val!r}")
                w.check(not mc, "C12", "the mapping function was called without a message")
                return
            w.check(src.nconsume == b[1] + 1, M, f"{how} consumed {src.nconsume - b[1]} times")
            if not taken:
                check_stop(kind, val, how, src.stop_error)
                w.check(not mc, "C12", "the mapping function was called without a message")
                return
            w.check(len(taken) == 1, M, f"{how} took {len(taken)} messages")
            x = taken[0]
            err = None
            for lvl in range(params["maps"]):
                if lvl >= len(mc):
                    w.fail("C12", f"the mapping function {lvl} was not called for {x!r}")
                    return
                lv, a, y, e = mc[lvl]
                w.check(lv == lvl, "C12", "the mapping functions are called in the wrong order")
                w.check(a is x, "C12", f"the mapping function was called with {a!r} instead of {x!r}")
                x = y
                if e is not None:
                    err = e
                    mc = mc[:lvl + 1] + mc[lvl + 1:]
                    w.check(len(mc) == lvl + 1, "C12", "a mapping function was called after one failed")
                    break
            else:
                w.check(len(mc) == params["maps"], "C12", f"the mapping function was called {len(mc)} times for one message")
            if err is not None:
                w.check(kind == "err" and val is err, M, f"{how}: the error {err!r} of the mapping function became {val!r}")
            else:
                w.check(kind == "ok" and val is x, M, f"{how} returned {val!r} instead of {x!r}")

        def check_stop(kind, val, how, orig):
            if kind != "err":
                w.fail(M, f"{how} returned {val!r} from a stopped receiver")
                return
            if how == "anext()":
                w.check(isinstance(val, StopAsyncIteration), "C11", f"anext() of a stopped receiver raised {val!r}")
            else:
                w.check(isinstance(val, fc.ReceiverStoppedError), ("C11", "C12", "C24") if params["maps"] else ("C11", "C24"), f"receive() of a stopped receiver raised {val!r}")
                w.check(getattr(val, "receiver", None) is top, ("C11", "C24"), f"the ReceiverStoppedError of receive() refers to {getattr(val, 'receiver', None)}")
            w.check(any(c is orig for c in cause_chain(val)), "C11", "the original error is not in the cause chain")

        async def one(how):
            b = begin()
            try:
                v = await (top.receive() if how == "receive()" else anext(top))
            except asyncio.CancelledError:
                after(b, "cancelled", None, how)
                raise
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)) or type(e).__name__ in ("Found", "Hang"):
                    raise
                after(b, "err", e, how)
            else:
                after(b, "ok", v, how)

        async def loop_for():
            b = begin()
            try:
                async for v in top:
                    after(b, "ok", v, "async for")
                    b = begin()
            except asyncio.CancelledError:
                after(b, "cancelled", None, "async for")
                raise
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)) or type(e).__name__ in ("Found", "Hang"):
                    raise
                if isinstance(e, StopAsyncIteration):
                    w.fail("C11", "async for raised StopAsyncIteration")
                flags["returned"] = True
                errs = src.errors[b[4]:]
                mc = [c for c in calls[b[3]:] if c[3] is not None]
                ok = (errs and e is errs[0] and not isinstance(e, fc.ReceiverStoppedError)) or (mc and mc[-1][3] is e)
                w.check(ok, M, f"async for raised {e!r}")
            else:
                flags["returned"] = True
                errs = src.errors[b[4]:]
                w.check((errs and isinstance(errs[0], fc.ReceiverStoppedError)) or (not src.consumed[b[2]:] and src.stopped and not errs),
                        M, "async for ended although the receiver did not stop")

        async def only_ready():
            b = begin()
            s = (src.cur, list(src.script), src.stopped)
            try:
                r = await top.ready()
            except asyncio.CancelledError:
                r = None
            except BaseException as e:
                if type(e).__name__ in ("Found", "Hang"):
                    raise
                errs = src.errors[b[4]:]
                w.check(errs and errs[0] is e, "C12", f"ready() of the mapped receiver raised {e!r}")
                r = None
            else:
                w.check(r is (src.cur is not None), ("C12", "C23"), f"ready() of the mapped receiver returned {r!r}, the receiver has {src.cur!r}")
            w.check(src.nconsume == b[1] and len(calls) == b[3], ("C12", "C23"), "ready() consumed or called the mapping function")

        for op in ops + [["feed"]] * (len(todo) + 1) + [["settle"]] + [["recv", 0], ["settle"]] * (len(todo) + 1):
            k = op[0]
            t = st["task"]
            busy = t is not None and not t.done()
            if k == "feed":
                if todo:
                    src.feed(*todo.pop(0))
            elif k == "recv" and not busy:
                st["task"] = w.spawn(one(["receive()", "anext()"][op[1]]))
            elif k == "for" and not busy:
                st["task"] = w.spawn(loop_for())
            elif k == "ready" and not busy:
                st["task"] = w.spawn(only_ready())
            elif k == "cancel" and busy:
                t.cancel()
            elif k == "yield":
                await w.yields(op[1])
            elif k == "settle":
                await w.settle(6)
                t = st["task"]
                if t is not None and not t.done():
                    w.check(not (src.cur is not None or src.script or src.stopped), ("C11", "C12"), "a receive stays blocked although the receiver is ready or stopped")
            w.stop_if_found()
        await w.settle(6)


FAMILIES = [Receive]
