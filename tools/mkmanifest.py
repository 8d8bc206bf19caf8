"""Generates MANIFEST.json, trusted.json and known_findings.json from the tables below."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]

BASE = [
    "the verifier itself (pyvc/: symbolic execution of the Python subset the package uses, written for this task) and z3",
    "pyvc/lib.py: models of the builtins and asyncio primitives the package calls (deque, list, dict, set, weakref, Condition, Event, create_task, wait, gather, sleep); cross-checked on the real interpreter by replay/",
    "asyncio is cooperative: code between two suspension points is atomic, a suspended task may be cancelled once by anybody",
]
GLOBAL = [
    "one event loop, one thread; no two overlapping waits on the same receiver object",
    "buffer limits are positive",
    "integers are mathematical (as in Python); timedelta overflow is ignored; no float inf or nan is passed",
    "user code called back (mapping functions, tick policies, foreign receivers) does not re-enter the object that is calling it",
    "user messages are not the package's private sentinel objects",
    "logging and string rendering have no effect on the state",
    "what is dropped from the source: docstrings, type annotations except as type assumptions on parameters and fields, logging calls",
]
T = "time advances monotonically; asyncio.sleep(d) returns no earlier than asked on the loop's clock"
A = {
    "C01": ["identity hashing of distinct live objects never makes them equal"],
    "C05": ["liveness is stated as a safety invariant: number of un-notified blocked waiters versus pending notifications; the event loop runs woken tasks"],
    "C10": ["liveness is stated as a safety invariant over waiters; the event loop runs woken tasks"],
    "C12": ["the mapping function is called with no assumption on its result; it may raise anything"],
    "C13": ["a source receiver meets the generic Receiver contract (C23), and does not raise CancelledError by itself"],
    "C14": ["as C13; asyncio.wait returns once the first of the tasks is done, gather once all are"],
    "C15": ["as C13 for the selected receivers; their hash is the identity hash; the dict/set that select() keeps locally are not touched by others"],
    "C16": ["as C15"],
    "C17": ["as C15; the cleanup itself is not cancelled"],
    "C18": ["machine floats appear nowhere in the policies"],
    "C19": [T, "a policy returns an integer or raises"],
    "C20": [T, "float arithmetic obeys the relative error bound 2^-53; exactness of interval is claimed up to 71 years"],
    "C21": ["liveness is stated as: a waiter waits on an asyncio.Event which is set whenever the Event is set or stopped"],
    "C22": ["watchfiles.awatch yields non-empty batches and calls the filter it was given exactly on the raw changes; it is not cancelled"],
    "C23": [T],
}
NOTE = ("Every function the property depends on is executed symbolically from the source in /repo on every run and checked against its "
        "contract for all inputs, iterations and interleavings at suspension points (loop invariants, class invariants, two-state rely/guarantee at suspensions); "
        "no bound. Trusted: the verifier, z3, the models of asyncio and the builtins; assumptions in evidence. "
        "Where changed code falls outside the verifier's reach, a labelled bounded search on the real code decides instead and the run says so.")
SPECIAL = {}

FIXED = [
    ("C03", "aaf3d95", "an Anycast sender blocked at close() neither sent nor raised SenderError"),
    ("C05", "e1506ea", "cancelling a just-notified Anycast sender or receiver lost the wake-up of another one"),
    ("C22", "4998c0d", "FileWatcher.ready() raised StopAsyncIteration state wrongly at the end of the watch instead of returning False (also C23)"),
    ("C08", "3a30c58", "resend_latest did not resend a latest message that is None"),
    ("C21", "1036b29", "an Event stopped with a pending set was not ready although consume() would have succeeded (also C23)"),
    ("C20", "96bf560", "a negative start delay was accepted with auto_start=False"),
    ("C14", "1cf9845", "a receive of a Merger in progress while stop() was called failed instead of ending as stopped"),
    ("C13", "b2960f2", "a failing source made a Merger lose messages of other sources and detach sources"),
    ("C14", "e995711", "Merger.stop() left behind a receive started by a ready() in progress"),
    ("C14", "d025b70", "Merger.ready() resumed after stop() finished started new receives"),
]

json.dump({"base": BASE, "global": GLOBAL, "assumptions": A}, open(os.path.join(HERE, "trusted.json"), "w"), indent=1)
json.dump({"findings": [], "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]},
          open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
json.dump({
    "version": 1,
    "setup_cmd": "true",
    "checks": [{
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"python3 check.py {i} --thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "contract-based deductive verification (symbolic execution of the real source against sidecar contracts, z3)",
        "level": "proof",
        "level_note": SPECIAL.get(i, NOTE),
    } for i in IDS],
    "not_applicable": [],
    "notes": "No hooks in /repo; contracts are sidecar files in contracts/, checked against the source in /repo parsed anew on every run.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
