"""Generates /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os

S = "src/frequenz/channels/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
            "mechanism": [{"name": n, "where": S + w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


ONE = ("Assumes the documented usage: one event loop, a positive buffer limit, and no two overlapping waits on the "
       "same receiver object.")

prop("C01", "Anycast delivers every accepted message exactly once, in FIFO order",
     "Every message whose send() on an Anycast channel completed successfully leaves the channel exactly once, "
     "unmodified, and in the order in which messages were accepted, to exactly one receiver that returns it from exactly one "
     "receive (any value, including None and falsy values). No message is lost, duplicated, reordered or invented; a send() "
     "that raised (closed channel, cancellation) contributed no message, and a cancelled receive took none.",
     ["schedules", "inputs", "histories", "fault_sequences"],
     "for every number of senders and receivers, every buffer limit, every message value, every interleaving of their "
     "tasks at suspension points, and every cancellation of a blocked send or receive. " + ONE,
     "Tests run a handful of schedules with small integers; the claim is over all interleavings and histories.",
     ["_anycast.py", "_receiver.py"],
     [("Anycast sender send", "_anycast.py"), ("Anycast receiver ready/consume", "_anycast.py")],
     [("buffer", "messages accepted and not yet taken by a receiver", "_anycast.py"),
      ("slot", "message taken by a receiver and not yet consumed", "_anycast.py")],
     ["Sender.send", "Receiver.receive", "Receiver.ready", "Receiver.consume"])

prop("C02", "Anycast buffer is bounded and senders block instead of dropping",
     "An Anycast channel never buffers more than its limit of messages. A send() finding the buffer full waits and completes "
     "only after room appeared, never dropping or overwriting a buffered message; a send() finding room in an open channel "
     "completes without waiting.",
     ["schedules", "inputs", "histories"],
     "for every limit >= 1 and every interleaving of senders, receivers and close. " + ONE,
     "The one test fills a buffer of ten from one sender; competing senders woken together are never exercised.",
     ["_anycast.py"],
     [("full check and wait loop in send", "_anycast.py"), ("buffer created with the limit", "_anycast.py")],
     [("limit", "capacity of the buffer", "_anycast.py")], ["Sender.send", "Anycast.limit"])

prop("C03", "A closed Anycast channel accepts no message, not even from blocked senders",
     "Once close() was called on an Anycast channel, is_closed stays true forever and no message is accepted any more: "
     "each later send(), and each send() that was still blocked waiting for room at that moment, raises SenderError whose "
     "cause is a ChannelClosedError of that channel. A send() on an open channel never raises SenderError.",
     ["schedules", "histories"],
     "for every interleaving of blocked and new senders, receivers and close(). " + ONE,
     "The test closes an idle channel; a close racing blocked senders is never exercised.",
     ["_anycast.py", "_exceptions.py", "_sender.py"],
     [("closed check in send", "_anycast.py"), ("close wakes the waiters", "_anycast.py")],
     [("closed flag", "whether close() was called", "_anycast.py")], ["Anycast.close", "Sender.send", "Anycast.is_closed"])

prop("C04", "Closing Anycast lets receivers drain, then stops them",
     "After close() the messages still buffered in an Anycast channel are still delivered, in order, by ready()/consume()/receive(). A receiver of an "
     "Anycast channel reports being stopped (ready() false, ReceiverStoppedError caused by ChannelClosedError of that channel) "
     "only when the channel is closed, the buffer is empty and it holds no message it has not yet handed out, and from then on forever. (consume() called without a preceding ready() on a closed channel that still has buffered messages is outside the documented use.)",
     ["schedules", "histories"],
     "for every buffer content at close time and every interleaving of the draining receivers. " + ONE,
     "The tests drain a single message with one receiver.",
     ["_anycast.py", "_receiver.py"],
     [("ready loop", "_anycast.py"), ("consume guard", "_anycast.py")],
     [("closed flag", "whether close() was called", "_anycast.py")], ["Receiver.ready", "Receiver.consume", "Receiver.receive"])

prop("C05", "No lost wake-ups on Anycast channels",
     "On an Anycast channel no receiver stays blocked while an undelivered message is buffered, unless enough other receivers have "
     "already been woken to take all buffered messages; no sender stays blocked while there is free space, unless enough other senders have "
     "already been woken to fill it; and nobody stays blocked on a closed channel. This also holds when blocked or "
     "just-woken tasks are cancelled.",
     ["schedules", "fault_sequences", "histories"],
     "for every number of blocked senders/receivers, every interleaving, every cancellation of a blocked or just-woken task. " + ONE,
     "A lost wake-up needs a particular interleaving (often a cancellation between notification and resumption).",
     ["_anycast.py"],
     [("notify receivers in send", "_anycast.py"), ("notify senders in ready", "_anycast.py"), ("notify all in close", "_anycast.py")],
     [("waiter queues", "senders/receivers blocked on the channel", "_anycast.py")], ["Sender.send", "Receiver.ready"])

prop("C06", "Broadcast delivers every message to every receiver in order",
     "Each message accepted by a Broadcast channel is enqueued exactly once, unmodified, for every receiver that is alive and was "
     "created before the send, in the order of the sends; no receiver sees messages of other channels, and a "
     "receiver that was garbage collected or is slow never affects what the others get. Each receiver hands out the messages "
     "enqueued for it exactly once, in order, except those its own overflow dropped.",
     ["inputs", "histories", "schedules"],
     "for every number and order of creation/collection of receivers, every message value, every interleaving.",
     "Tests use a few receivers and a few integers; registration/collection histories and arbitrary values are not reached.",
     ["_broadcast.py", "_receiver.py"],
     [("send loop over registered receivers", "_broadcast.py"), ("enqueue", "_broadcast.py"), ("consume", "_broadcast.py"), ("new_receiver registration", "_broadcast.py")],
     [("receiver registry", "weak references to the receivers of the channel", "_broadcast.py"), ("receiver queue", "messages not yet consumed", "_broadcast.py")],
     ["Sender.send", "Receiver.receive"])

prop("C07", "Broadcast overflow drops exactly the oldest messages, and send never blocks",
     "A Broadcast receiver with limit n always holds the newest min(n, k) of the k messages enqueued since it was last drained: when its queue is full a new "
     "message evicts exactly the single oldest one, in that receiver only, and never otherwise. Its len() is the number of messages it holds, never more than n. "
     "A Broadcast send() never waits for a receiver.",
     ["inputs", "histories", "schedules"],
     "for every limit >= 1 and every sequence of sends and receives.",
     "One test overflows one receiver with one pattern.",
     ["_broadcast.py"],
     [("enqueue", "_broadcast.py"), ("bounded queue created with limit", "_broadcast.py")],
     [("receiver queue", "messages not yet consumed", "_broadcast.py")], ["Sender.send", "len(receiver)"])

prop("C08", "resend_latest gives new receivers exactly the latest message",
     "With resend_latest enabled, a receiver created on an open Broadcast channel starts with exactly the latest message sent on the channel (whatever "
     "its value), or empty if none was sent yet; with it disabled, or on a closed channel, a new receiver starts empty. "
     "Creating a receiver changes nothing for the existing receivers.",
     ["inputs", "histories", "configurations"],
     "for every history of sends (any value, None included), close() and receiver creations, both settings.",
     "Two tests check one integer message each.",
     ["_broadcast.py"],
     [("latest recorded by send, cleared by close", "_broadcast.py"), ("new_receiver", "_broadcast.py")],
     [("latest", "the latest message sent", "_broadcast.py")], ["Broadcast.new_receiver", "len(receiver)", "Receiver.receive"])

prop("C09", "A closed Broadcast channel rejects sends and lets receivers drain",
     "After close() a Broadcast channel stays closed forever, enqueues nothing for any receiver, and each send() raises SenderError caused by "
     "ChannelClosedError of that channel; on an open channel send() does not raise. Its receivers still hand out all messages already queued, in order, and report being stopped "
     "(ready() false, ReceiverStoppedError caused by ChannelClosedError) only, and from then on always, when the channel is closed and their queue is empty.",
     ["schedules", "histories"],
     "for every interleaving of senders, receivers and close, every queue content at close.",
     "One test closes with an almost empty queue.",
     ["_broadcast.py", "_receiver.py", "_exceptions.py"],
     [("closed check in send", "_broadcast.py"), ("ready and consume", "_broadcast.py"), ("close", "_broadcast.py")],
     [("closed flag", "whether close() was called", "_broadcast.py")], ["Broadcast.close", "Sender.send", "Receiver.ready", "Receiver.consume"])

prop("C10", "No lost wake-ups on Broadcast channels",
     "No Broadcast receiver stays blocked while its queue holds a message or its channel is closed: every send and every close wakes all receivers blocked "
     "at that moment, and a receiver only starts waiting when its queue is empty and the channel open. This also holds when blocked or just-woken tasks are cancelled.",
     ["schedules", "fault_sequences", "histories"],
     "for every number of blocked receivers, every interleaving and cancellation.",
     "A lost wake-up needs a particular interleaving that tests do not enumerate.",
     ["_broadcast.py"],
     [("notify_all in send and close", "_broadcast.py"), ("ready wait loop", "_broadcast.py")],
     [("waiter queue", "receivers blocked on the channel", "_broadcast.py")], ["Receiver.ready"])

prop("C11", "receive() and async iteration consume exactly one message or report faithfully",
     "For any receiver, each successful receive() or iteration step waits for readiness and then consumes exactly once and returns exactly that message, with no suspension between consuming and "
     "returning, so cancelling it never loses a message. A stopped receiver ends the iteration with StopAsyncIteration and makes receive() raise ReceiverStoppedError for that receiver, keeping the original error reachable through "
     "the cause chain; any other error passes through unchanged.",
     ["inputs", "schedules", "fault_sequences", "programs"],
     "for every Receiver implementation, every message or exception it produces, every cancellation point.",
     "Tests only drive the built-in receivers on success and on plain stop.",
     ["_receiver.py"],
     [("__anext__", "_receiver.py"), ("receive", "_receiver.py")],
     [], ["Receiver.receive", "Receiver.__anext__", "Receiver.__aiter__"])

prop("C12", "map() applies the function exactly once per message and is otherwise transparent",
     "A mapped receiver yields, for each message of the underlying receiver and in the same order, exactly the value of the mapping function applied once to that "
     "message (values such as None and False included); readiness, stopping and errors of the underlying receiver are passed through unchanged. Waiting for readiness neither consumes a message nor calls the function.",
     ["inputs", "programs", "histories"],
     "for every underlying receiver, every mapping function (including raising ones), every message.",
     "Tests map two integers through a comparison.",
     ["_receiver.py"],
     [("mapper ready/consume", "_receiver.py"), ("map", "_receiver.py")],
     [], ["Receiver.map", "Receiver.receive"])

prop("C13", "merge() delivers each source's messages exactly once and in source order",
     "A merged receiver hands out every message received from any of its sources exactly once, and messages of the same source in that source's order; "
     "each source that has not stopped always has exactly one outstanding receive, so no source is skipped or forgotten. An error raised by one source is raised by one receive of the merged receiver and loses no message of, and does not "
     "detach, any source; cancelling a wait on the merged receiver loses nothing. Only stop() abandons messages: those its outstanding receives already got but nobody asked for.",
     ["schedules", "inputs", "histories", "fault_sequences"],
     "for every number of sources, every order and grouping of completions, every message value, every failing source, every cancellation of a wait. Assumes no two "
     "overlapping waits on the same merged receiver.",
     "The test merges two well-behaved sources in lock step.",
     ["_merge.py"],
     [("Merger.ready", "_merge.py"), ("Merger.consume", "_merge.py"), ("Merger construction", "_merge.py")],
     [("pending", "outstanding receives, one per live source", "_merge.py"), ("results", "received, not yet handed out", "_merge.py")],
     ["Merger.receive"])

prop("C14", "merge() stops exactly when all sources stopped or it was stopped",
     "A merged receiver reports being stopped exactly when every source has stopped and all received messages were handed out, or stop() was called and the results it had already queued were handed out; before that it "
     "stays active and waits for whichever source completes first. merge() of no receivers raises ValueError; stop() cancels every outstanding receive and waits for its end, and a "
     "receive in progress then ends as stopped.",
     ["schedules", "histories"],
     "for every number of sources and every order in which they stop.",
     "Tests stop two sources in one order.",
     ["_merge.py"],
     [("Merger.ready", "_merge.py"), ("Merger.consume", "_merge.py"), ("Merger.stop", "_merge.py"), ("merge", "_merge.py")],
     [("pending", "outstanding receives, one per live source", "_merge.py")], ["Merger.receive", "Merger.stop", "merge"])

prop("C15", "select() serves every receiver and consumes only what it yields",
     "While select() runs, each given receiver that has not been reported as stopped is either being waited for by exactly one ready() call or has completed it and is about to be yielded; "
     "every completed ready() is followed by exactly one consume() whose outcome is yielded, tagged with that receiver, before select() waits again. A receiver is retired only "
     "after its ready() returned false, the iteration ends only when all receivers are retired, and a ready() that raises ends it with SelectError caused by that error (not claimed when the wait itself is cancelled from outside).",
     ["schedules", "inputs", "histories", "programs"],
     "for every number of distinct (identity-hashed) receivers, every grouping of simultaneously ready receivers, every loop body.",
     "Tests use three events and a few fixed schedules.",
     ["_select.py"],
     [("select", "_select.py"), ("Selected construction", "_select.py")],
     [("pending", "outstanding ready() tasks", "_select.py")], ["select"])

prop("C16", "Selected reports the outcome faithfully and unhandled selections are detected",
     "A Selected carries either the consumed message (any value) or the exception raised by consuming: message returns or raises exactly that, exception is exactly that or None, and was_stopped is "
     "true exactly for ReceiverStoppedError. selected_from() is true exactly for the very receiver that was selected and only then marks it handled; if the body "
     "continues without that, select() raises UnhandledSelectedError carrying that Selected before yielding anything else, and never otherwise.",
     ["inputs", "programs", "histories"],
     "for every message value, every exception, every receiver (even equal-comparing ones), every sequence of selected_from calls.",
     "Tests check a few values and one forgotten receiver.",
     ["_select.py"],
     [("Selected", "_select.py"), ("selected_from", "_select.py"), ("handled check in select", "_select.py")],
     [("handled flag", "whether selected_from matched", "_select.py")], ["Selected.message", "Selected.exception", "Selected.was_stopped", "selected_from"])

prop("C17", "select() leaves no background task behind and steals no message",
     "However a select() iteration ends (all stopped, break/close, error in the body, unhandled selection, failing receiver, cancellation), every ready() task it "
     "started has finished or has been cancelled and awaited before it is done (unless that cleanup is itself cancelled). Messages of receivers that were ready but not yet yielded stay available in those receivers.",
     ["schedules", "fault_sequences", "programs"],
     "for every way of leaving the iteration at every point, every number of receivers.",
     "Tests only break out of three events.",
     ["_select.py"],
     [("cleanup in select", "_select.py")],
     [("pending", "outstanding ready() tasks", "_select.py")], ["select", "asyncio.all_tasks"])

prop("C18", "Missed-tick policies compute the documented next tick for all integers",
     "TriggerAllMissed schedules the next tick exactly one interval after the scheduled one; SkipMissedAndResync schedules it at the first scheduled + k*interval (k >= 1 for an on-time or late tick) strictly after now; "
     "SkipMissedAndDrift schedules it one interval after now if the delay exceeds the tolerance and one interval after the scheduled time otherwise, and rejects a negative tolerance. Results are exact integers of microseconds with no accumulated error over any number of ticks.",
     ["inputs", "histories"],
     "for all integer times and intervals >= 1 and all tolerances, over any number of ticks.",
     "Property-based tests sample the integers; exactness over all of them and over unbounded histories is not settled.",
     ["timer.py"],
     [("calculate_next_tick_time of the three policies", "timer.py")],
     [], ["MissedTickPolicy.calculate_next_tick_time"])

prop("C19", "A timer never ticks early and reports the exact drift once per tick",
     "A timer tick becomes ready only at or after its scheduled time, never while the timer is stopped, and its reported drift is exactly (>= 0) the time at which it "
     "was found due minus the scheduled time. Each tick is handed out once, and the next one is scheduled by exactly one call of the policy with the interval, the scheduled time and that same now; "
     "waiting never asks to sleep beyond the scheduled time, also when the timer is reset during the wait.",
     ["schedules", "inputs", "histories"],
     "for every policy, interval, clock behaviour, delay of the consumer, and reset()/stop() at any suspension point.",
     "Tests use a simulated clock with a few delays.",
     ["timer.py"],
     [("Timer.ready", "timer.py"), ("Timer.consume", "timer.py")],
     [("next tick time", "absolute time of the next tick", "timer.py"), ("current drift", "tick found due but not consumed", "timer.py")],
     ["Timer.ready", "Timer.consume"])

prop("C20", "Timer life cycle: start, stop, reset and argument validation",
     "A timer runs exactly from construction with auto_start, first use, or reset() until stop(); reset() forgets a pending tick and schedules the next one exactly start_delay + interval after now. A stopped timer hands out at most the tick already "
     "found due, then reports stopped until reset() and is never restarted by use. Non-positive intervals, negative start delays and a start delay without auto_start raise ValueError; interval reads back exactly as given (up to 71 years).",
     ["inputs", "histories"],
     "for every sequence of reset/stop/ready/consume and every interval and delay.",
     "Tests check a handful of argument combinations and sequences.",
     ["timer.py"],
     [("Timer construction", "timer.py"), ("reset", "timer.py"), ("stop", "timer.py"), ("ready", "timer.py")],
     [("stopped flag", "whether the timer is stopped", "timer.py")], ["Timer.is_running", "Timer.interval", "Timer.receive"])

prop("C21", "Event: set is remembered until consumed, stop is final",
     "An Event is ready exactly when it was set and not yet consumed, or stopped: setting any number of times before consuming yields exactly one message, also when it is stopped meanwhile; consuming clears it and never un-stops it. "
     "Without a pending set, a stopped Event reports stopped (ready() false, ReceiverStoppedError) forever; set() and stop() wake every blocked waiter and no waiter stays blocked while the event is set or stopped.",
     ["schedules", "histories"],
     "for every sequence and interleaving of set, stop, ready and consume, cancellations included.",
     "One test checks one sequence.",
     ["event.py"],
     [("set/stop/ready/consume", "event.py")],
     [("set flag", "set and not consumed", "event.py"), ("stopped flag", "stop() was called", "event.py")], ["Event.ready", "Event.consume", "Event.is_set"])

prop("C22", "FileWatcher reports each matching change exactly once and stops cleanly",
     "A FileWatcher accepts a raw change exactly when its type is among the configured event types, and hands out every change of each batch it got exactly once, with "
     "that change's type and path, before fetching another batch. When the underlying watch ends it hands out what is left and then reports stopped (ready() false, ReceiverStoppedError caused by the end of the watch), never before.",
     ["inputs", "histories", "configurations"],
     "for every set of event types, every batch of changes, every end of the watch.",
     "Tests mock single-change batches and never let the watch end.",
     ["file_watcher.py"],
     [("_filter_events", "file_watcher.py"), ("ready/consume", "file_watcher.py")],
     [("changes", "changes of the current batch not yet handed out", "file_watcher.py")], ["FileWatcher.ready", "FileWatcher.consume"])

prop("C23", "Every receiver honours the ready()/consume() protocol",
     "For every receiver of the library, ready() never consumes: after it returned true the next consume() returns a message without error (or, for map() and merge(), raises exactly the error of the mapping function or of the failed source) and until then ready() keeps returning true at once (unless "
     "the timer was reset); after it returned false the next consume() raises ReceiverStoppedError of that receiver and ready() keeps returning false at once (unless the timer was reset or an event set). Consuming an active "
     "receiver that is not ready is refused with AssertionError and changes nothing.",
     ["schedules", "histories", "programs"],
     "for every library receiver (Anycast, Broadcast, mapped, merged, Event, Timer, FileWatcher), every state and history, every interleaving of other tasks.",
     "Tests only follow each ready() by one consume().",
     ["_anycast.py", "_broadcast.py", "_receiver.py", "_merge.py", "event.py", "timer.py", "file_watcher.py"],
     [("ready and consume of each receiver", "_receiver.py")],
     [], ["Receiver.ready", "Receiver.consume"])

prop("C24", "Failures carry the right error type, origin and cause",
     "Every library error is an instance of the library's Error and of the documented subclass, and refers to the very sender, receiver, channel or Selected involved: SenderError.sender, ReceiverError.receiver, "
     "ChannelError.channel, UnhandledSelectedError.selected. Errors due to a closed channel have as cause a ChannelClosedError referring to exactly that channel.",
     ["inputs", "histories"],
     "for every failing operation of every sender, receiver, channel and select loop.",
     "Tests assert the fields on a few of the failing paths.",
     ["_exceptions.py", "_sender.py", "_receiver.py", "_select.py", "_anycast.py", "_broadcast.py"],
     [("exception constructors", "_exceptions.py"), ("raise sites", "_anycast.py")],
     [], ["SenderError.sender", "ReceiverError.receiver", "ChannelError.channel"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
