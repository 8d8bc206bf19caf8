"""FileWatcher with a watch controlled by the scenario."""
import asyncio
import collections
import pathlib

from faketime import CURRENT
from watchfiles import Change

import frequenz.channels as fc
from frequenz.channels import file_watcher as fw

TYPES = [fw.EventType.CREATE, fw.EventType.MODIFY, fw.EventType.DELETE]
CH = [Change.added, Change.modified, Change.deleted]


class FileWatcher:
    name = "filewatcher"
    props = ("C22", "C23", "C24")

    @staticmethod
    def gen(rng):
        params = {"types": rng.choice([None, [0], [1], [2], [0, 1], [1, 2], [0, 2], [0, 1, 2], []]), "how": rng.randrange(4)}
        ops = []
        for _ in range(rng.randint(2, 16)):
            k = rng.choices(["batch", "end", "ready", "receive", "consume", "yield", "settle"], [5, .4, 4, 4, 4, 1, 2])[0]
            if k == "batch":
                ops.append([k, [[rng.randrange(3), rng.randrange(4)] for _ in range(rng.choice([1, 1, 2, 3, 5]))]])
            elif k == "yield":
                ops.append([k, rng.randint(1, 3)])
            else:
                ops.append([k])
        return params, ops

    @staticmethod
    async def run(w, params, ops):
        box = {"kw": None, "queue": collections.deque(), "fut": None, "fetched": 0, "ended": False}

        def fake(paths, kw):
            box["kw"], box["paths"] = kw, paths

            async def gen():
                while True:
                    if box["queue"]:
                        b = box["queue"].popleft()
                        if b is None:
                            box["ended"] = True
                            return
                        box["fetched"] += 1
                        box["current"] = b
                        yield set(b)
                        continue
                    box["fut"] = asyncio.get_running_loop().create_future()
                    await box["fut"]
            return gen()

        CURRENT.append(fake)
        try:
            types = params["types"]
            ev = [TYPES[i] for i in types] if types is not None else None
            given = None if ev is None else [lambda: ev, lambda: frozenset(ev), lambda: iter(ev), lambda: (x for x in ev)][params["how"]]()
            paths = ["/tmp/a", pathlib.Path("/tmp/b")]
            fwr = fw.FileWatcher(paths=paths) if given is None else fw.FileWatcher(paths=paths, event_types=given)
            want = set(TYPES if ev is None else ev)
            if box["kw"] is None:
                return          # it watches in some other way
            flt = box["kw"].get("watch_filter")
            w.check([str(p) for p in box["paths"]] == ["/tmp/a", "/tmp/b"], "C22", f"watches {box['paths']!r}")
            w.check(flt is not None, "C22", "no filter is given to the watch")
            if flt is None:
                return
            for _ in range(2):
                for j in range(3):
                    b = flt(CH[j], "/tmp/a/x")
                    w.check(bool(b) is (TYPES[j] in want), "C22", f"the filter is {b} for {CH[j]!r} with the event types {sorted(x.name for x in want)}")
            st = {"task": None, "stopped": False, "ready": False, "first": True}
            left = collections.Counter()        # of the current batch
            fetched = [0]

            def sync():
                if box["fetched"] != fetched[0]:
                    w.check(not left, "C22", f"another batch was fetched before {list(left)} were handed out")
                    fetched[0] = box["fetched"]
                    left.clear()
                    left.update(box["current"])

            def deliver(x):
                sync()
                st["ready"] = False
                w.check(not st["stopped"], ("C22", "C23"), f"{x!r} was handed out after the watcher reported being stopped")
                k = None
                for j in range(3):
                    if getattr(x, "type", None) is TYPES[j]:
                        k = (CH[j], str(x.path))
                        w.check(isinstance(x.path, pathlib.Path), "C22", f"the path is {x.path!r}")
                if k is None or left[k] <= 0:
                    w.fail("C22", f"{x!r} was handed out, outstanding are {list(left)}")
                    return
                left[k] -= 1
                if not left[k]:
                    del left[k]

            def stopped(e, what):
                sync()
                w.check(box["ended"], ("C22", "C23"), f"{what} reports being stopped before the watch ended")
                w.check(not left, ("C22", "C23"), f"{what} reports being stopped before {list(left)} were handed out")
                st["stopped"] = True
                if e is not None:
                    w.check(isinstance(e, fc.Error) and e.receiver is fwr, ("C23", "C24"), f"{e!r} of another receiver")
                    w.check(isinstance(e.__cause__, StopAsyncIteration), "C22", f"the error is caused by {e.__cause__!r}")

            def do_consume():
                try:
                    x = fwr.consume()
                except fc.ReceiverStoppedError as e:
                    w.check(not st["ready"], "C23", f"consume() raised {e!r} after ready() returned true")
                    stopped(e, "consume()")
                except AssertionError as e:
                    sync()
                    w.check(not left and not st["stopped"], ("C22", "C23"), f"consume() raised {e!r}, outstanding {list(left)}, stopped={st['stopped']}")
                except Exception as e:
                    w.unexpected(("C22", "C23"), "consume()", e)
                else:
                    deliver(x)

            async def wait(how):
                try:
                    if how == "receive":
                        x = await fwr.receive()
                        deliver(x)
                        return
                    r = await fwr.ready()
                    sync()
                    w.check(r is True or r is False, "C23", f"ready() returned {r!r}")
                    if r:
                        w.check(not st["stopped"], ("C22", "C23"), "ready() returned true after false")
                        w.check(bool(left), ("C22", "C23"), "ready() returned true without a change")
                        st["ready"] = True
                    else:
                        stopped(None, "ready()")
                except asyncio.CancelledError:
                    raise
                except fc.ReceiverStoppedError as e:
                    stopped(next((e for _ in [0]), None) if isinstance(e.__cause__, StopAsyncIteration) else e, how + "()")
                except Exception as e:
                    w.unexpected(("C22", "C23"), how, e)

            ended = False
            for op in ops + [["settle"]] + [["receive"], ["settle"]] * 8:
                k = op[0]
                t = st["task"]
                busy = t is not None and not t.done()
                if k == "batch" and not ended:
                    b = {(CH[j], f"/tmp/a/f{i}") for j, i in op[1]}
                    b = {c for c in b if flt(*c)}
                    if b:
                        box["queue"].append(b)
                        if box["fut"] is not None and not box["fut"].done():
                            box["fut"].set_result(None)
                elif k == "end":
                    if not ended:
                        ended = True
                        box["queue"].append(None)
                        if box["fut"] is not None and not box["fut"].done():
                            box["fut"].set_result(None)
                elif k in ("ready", "receive") and not busy:
                    sync()
                    now = bool(left) or st["stopped"]
                    n = box["fetched"]
                    st["task"] = w.spawn(wait(k))
                    if now:
                        await asyncio.sleep(0)
                        w.check(st["task"].done(), ("C22", "C23"), f"{k}() waits, stopped={st['stopped']}")
                        w.check(box["fetched"] == n, "C22", "another batch was fetched too early")
                elif k == "consume" and not busy:
                    do_consume()
                elif k == "yield":
                    await w.yields(op[1])
                elif k == "settle":
                    await w.settle(6)
                    t = st["task"]
                    if t is not None and not t.done():
                        sync()
                        w.check(not left and not box["queue"] and not box["ended"], "C22", "a wait goes on although there are changes or the watch ended")
                w.stop_if_found()
        finally:
            CURRENT.pop()


FAMILIES = [FileWatcher]
