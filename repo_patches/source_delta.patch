From aaf3d95a24c6cd8e94c879536806d0c3fb038d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 01/10] fix: raise SenderError in Anycast senders blocked when
 the channel is closed

---
 src/frequenz/channels/_anycast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index 2ea0515..16ed2cb 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -350,6 +350,11 @@ class _Sender(Sender[_T]):
             while len(self._channel._deque) == self._channel._deque.maxlen:
                 async with self._channel._send_cv:
                     await self._channel._send_cv.wait()
+                # The channel could have been closed while the sender was blocked.
+                if self._channel._closed:
+                    raise SenderError(
+                        "The channel was closed", self
+                    ) from ChannelClosedError(self._channel)
             _logger.info(
                 "Anycast channel [%s] has space again, resuming the blocked sender",
                 self,
-- 
2.43.0


From e1506ea5f1c4b77c97a21a665e0091720083db26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 02/10] fix: do not lose Anycast wake-ups when a notified task
 is cancelled

---
 src/frequenz/channels/_anycast.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index 16ed2cb..97dcbad 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -6,7 +6,7 @@
 from __future__ import annotations
 
 import logging
-from asyncio import Condition
+from asyncio import CancelledError, Condition
 from collections import deque
 from typing import Generic, TypeVar
 
@@ -349,7 +349,13 @@ class _Sender(Sender[_T]):
             )
             while len(self._channel._deque) == self._channel._deque.maxlen:
                 async with self._channel._send_cv:
-                    await self._channel._send_cv.wait()
+                    try:
+                        await self._channel._send_cv.wait()
+                    except CancelledError:
+                        # We might have been notified already, in which case we
+                        # need to pass the notification on to another sender.
+                        self._channel._send_cv.notify(1)
+                        raise
                 # The channel could have been closed while the sender was blocked.
                 if self._channel._closed:
                     raise SenderError(
@@ -415,7 +421,13 @@ class _Receiver(Receiver[_T]):
             if self._channel._closed:
                 return False
             async with self._channel._recv_cv:
-                await self._channel._recv_cv.wait()
+                try:
+                    await self._channel._recv_cv.wait()
+                except CancelledError:
+                    # We might have been notified already, in which case we need
+                    # to pass the notification on to another receiver.
+                    self._channel._recv_cv.notify(1)
+                    raise
         self._next = self._channel._deque.popleft()
         async with self._channel._send_cv:
             self._channel._send_cv.notify(1)
-- 
2.43.0


From 4998c0d20179d67aeb5805f73b67b2469552b8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 03/10] fix: make FileWatcher.ready() return False when the
 watch ended

---
 src/frequenz/channels/file_watcher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frequenz/channels/file_watcher.py b/src/frequenz/channels/file_watcher.py
index 57c3553..860c0bd 100644
--- a/src/frequenz/channels/file_watcher.py
+++ b/src/frequenz/channels/file_watcher.py
@@ -185,6 +185,7 @@ class FileWatcher(Receiver[Event]):
             self._changes = await anext(self._awatch)
         except StopAsyncIteration as err:
             self._awatch_stopped_exc = err
+            return False
 
         return True
 
-- 
2.43.0


From 3a30c58f80a1ef7b3edde2c01a3281c13a40dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 04/10] fix: resend the latest Broadcast message also when it
 is None

---
 src/frequenz/channels/_broadcast.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index b217aa0..bf1fe21 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -216,6 +216,9 @@ class Broadcast(Generic[ChannelMessageT]):
         self._latest: ChannelMessageT | None = None
         """The latest message sent to the channel."""
 
+        self._has_latest: bool = False
+        """Whether there is a latest message (which could be any value, even None)."""
+
         self.resend_latest: bool = resend_latest
         """Whether to resend the latest message to new receivers.
 
@@ -258,6 +261,7 @@ class Broadcast(Generic[ChannelMessageT]):
         immediately.
         """
         self._latest = None
+        self._has_latest = False
         self._closed = True
         async with self._recv_cv:
             self._recv_cv.notify_all()
@@ -284,8 +288,9 @@ class Broadcast(Generic[ChannelMessageT]):
         """
         recv: _Receiver[ChannelMessageT] = _Receiver(self, name=name, limit=limit)
         self._receivers[hash(recv)] = weakref.ref(recv)
-        if self.resend_latest and self._latest is not None:
-            recv.enqueue(self._latest)
+        if self.resend_latest and self._has_latest:
+            # The type ignore is needed because None could be a valid message.
+            recv.enqueue(self._latest)  # type: ignore[arg-type]
         return recv
 
     def __str__(self) -> str:
@@ -340,6 +345,7 @@ class _Sender(Sender[_T]):
                 self._channel
             )
         self._channel._latest = message
+        self._channel._has_latest = True
         stale_refs = []
         for _hash, recv_ref in self._channel._receivers.items():
             recv = recv_ref()
-- 
2.43.0


From 1036b2918493aab55cb2459dfb055af87a3952ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 05/10] fix: keep an Event ready when it is stopped with a
 pending message

---
 src/frequenz/channels/event.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frequenz/channels/event.py b/src/frequenz/channels/event.py
index 3f3b207..26a1de9 100644
--- a/src/frequenz/channels/event.py
+++ b/src/frequenz/channels/event.py
@@ -147,10 +147,11 @@ class Event(_receiver.Receiver[None]):
         Returns:
             Whether this receiver is still running.
         """
-        if self._is_stopped:
+        # If it was set before being stopped, there is still a message to consume.
+        if self._is_stopped and not self._is_set:
             return False
         await self._event.wait()
-        return not self._is_stopped
+        return self._is_set or not self._is_stopped
 
     def consume(self) -> None:
         """Consume the event.
-- 
2.43.0


From 96bf56022b075353cd877a28b8366280d5013452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 06/10] fix: reject a negative Timer start delay also without
 auto_start

---
 src/frequenz/channels/timer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index 683db7b..a68bc77 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -509,7 +509,7 @@ class Timer(Receiver[timedelta]):
                 f"The `interval` must be positive and at least 1 microsecond, not {interval}"
             )
 
-        if start_delay > timedelta(0) and auto_start is False:
+        if start_delay != timedelta(0) and auto_start is False:
             raise ValueError(
                 "`auto_start` must be `True` if a `start_delay` is specified"
             )
-- 
2.43.0


From 1cf9845620628f529d260771720124dcb5471c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 07/10] fix: end Merger.ready() normally when the merger is
 stopped while waiting

---
 src/frequenz/channels/_merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index 6be4302..85cb4a4 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -163,7 +163,8 @@ class Merger(Receiver[ReceiverMessageT_co]):
             for item in done:
                 name = item.get_name()
                 # if channel is closed, don't add a task for it again.
-                if isinstance(item.exception(), StopAsyncIteration):
+                # (if it was cancelled, then this merger was stopped while waiting)
+                if item.cancelled() or isinstance(item.exception(), StopAsyncIteration):
                     continue
                 result = item.result()
                 self._results.append(result)
-- 
2.43.0


From b2960f275e5f3944507acfa1b5100c34dc233a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 08/10] fix: do not lose messages or sources of a Merger when a
 source fails

---
 src/frequenz/channels/_merge.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index 85cb4a4..c1b777a 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -120,7 +120,9 @@ class Merger(Receiver[ReceiverMessageT_co]):
             asyncio.create_task(anext(recv), name=name)
             for name, recv in self._receivers.items()
         }
-        self._results: deque[ReceiverMessageT_co] = deque(maxlen=len(self._receivers))
+        # We keep the finished tasks, because they could also hold an error that needs
+        # to be raised when the result is consumed.
+        self._results: deque[asyncio.Task[Any]] = deque(maxlen=len(self._receivers))
 
     def __del__(self) -> None:
         """Finalize this merger."""
@@ -166,8 +168,7 @@ class Merger(Receiver[ReceiverMessageT_co]):
                 # (if it was cancelled, then this merger was stopped while waiting)
                 if item.cancelled() or isinstance(item.exception(), StopAsyncIteration):
                     continue
-                result = item.result()
-                self._results.append(result)
+                self._results.append(item)
                 self._pending.add(
                     asyncio.create_task(anext(self._receivers[name]), name=name)
                 )
@@ -187,7 +188,8 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
         assert self._results, "`consume()` must be preceded by a call to `ready()`"
 
-        return self._results.popleft()
+        result: ReceiverMessageT_co = self._results.popleft().result()
+        return result
 
     def __str__(self) -> str:
         """Return a string representation of this receiver."""
-- 
2.43.0


From e995711bb6e6538d5d7830b51fe35048aac634c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:28 +0000
Subject: [PATCH 09/10] fix: Don't leave a receive behind when stopping a
 Merger while it is waiting

If a receive of one of the receivers completed just before `stop()` was called,
the `ready()` in progress started the next one after `stop()` collected the tasks
to cancel. `stop()` then forgot about it without cancelling it, so it kept running
and took (and lost) the next message of that receiver.
---
 src/frequenz/channels/_merge.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index c1b777a..620e824 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -132,10 +132,13 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
     async def stop(self) -> None:
         """Stop this merger."""
-        for task in self._pending:
-            task.cancel()
-        await asyncio.gather(*self._pending, return_exceptions=True)
-        self._pending = set()
+        # A `ready()` in progress can still start a new receive while we are waiting, if
+        # one of the receives was completed just before it was cancelled.
+        while pending := self._pending:
+            for task in pending:
+                task.cancel()
+            await asyncio.gather(*pending, return_exceptions=True)
+            self._pending = self._pending - pending
 
     async def ready(self) -> bool:
         """Wait until the receiver is ready with a message or an error.
-- 
2.43.0


From d025b70320bbf3a7d4927633ac8558745e52897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 10/10] fix: Don't start new receives in a Merger once it is
 being stopped

If a receive of every receiver was completed when `stop()` was called, waiting for
the tasks returns right away, so a `ready()` in progress was resumed only after
`stop()` finished, and started new receives that nobody cancelled.
---
 src/frequenz/channels/_merge.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index 620e824..c3c6a4f 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -123,6 +123,7 @@ class Merger(Receiver[ReceiverMessageT_co]):
         # We keep the finished tasks, because they could also hold an error that needs
         # to be raised when the result is consumed.
         self._results: deque[asyncio.Task[Any]] = deque(maxlen=len(self._receivers))
+        self._stopped: bool = False
 
     def __del__(self) -> None:
         """Finalize this merger."""
@@ -132,13 +133,12 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
     async def stop(self) -> None:
         """Stop this merger."""
-        # A `ready()` in progress can still start a new receive while we are waiting, if
-        # one of the receives was completed just before it was cancelled.
-        while pending := self._pending:
-            for task in pending:
-                task.cancel()
-            await asyncio.gather(*pending, return_exceptions=True)
-            self._pending = self._pending - pending
+        # From now on a `ready()` in progress must not start new receives.
+        self._stopped = True
+        for task in self._pending:
+            task.cancel()
+        await asyncio.gather(*self._pending, return_exceptions=True)
+        self._pending = set()
 
     async def ready(self) -> bool:
         """Wait until the receiver is ready with a message or an error.
@@ -159,16 +159,19 @@ class Merger(Receiver[ReceiverMessageT_co]):
                 return True
 
             # if there are no more pending receivers, we return immediately.
-            if len(self._pending) == 0:
+            if self._stopped or len(self._pending) == 0:
                 return False
 
-            done, self._pending = await asyncio.wait(
+            done, pending = await asyncio.wait(
                 self._pending, return_when=asyncio.FIRST_COMPLETED
             )
+            # if we were stopped while waiting, `stop()` takes care of the tasks.
+            if self._stopped:
+                continue
+            self._pending = pending
             for item in done:
                 name = item.get_name()
                 # if channel is closed, don't add a task for it again.
-                # (if it was cancelled, then this merger was stopped while waiting)
                 if item.cancelled() or isinstance(item.exception(), StopAsyncIteration):
                     continue
                 self._results.append(item)
@@ -186,7 +189,7 @@ class Merger(Receiver[ReceiverMessageT_co]):
             ReceiverStoppedError: If the receiver stopped producing messages.
             ReceiverError: If there is some problem with the receiver.
         """
-        if not self._results and not self._pending:
+        if not self._results and (self._stopped or not self._pending):
             raise ReceiverStoppedError(self)
 
         assert self._results, "`consume()` must be preceded by a call to `ready()`"
-- 
2.43.0

