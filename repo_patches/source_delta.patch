From 9df2da34431ad05607d362709602bd6400801e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 01/46] fix: restore exhausted marks, slot indices and future
 states of interleave

set_state kept the exhausted mark of slots that are live in the restored
state, so the next checkpoint reported them as exhausted and dropped their
remaining elements. It also aliased lists and dicts of the caller's state and
later mutated them, and ignored future states whose keys became strings in a
JSON round trip.
---
 .../python/dataset/transformations/interleave.py    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index d1830f6..ae0fc38 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -204,7 +204,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
         "iterators_in_use_indices": self._iterators_in_use_indices.copy(),
         "iterators_in_use_states": iterators_in_use_states,
         "exhausted": exhausted,
-        "future_states": self._future_states,
+        "future_states": self._future_states.copy(),
     }
     return state
 
@@ -256,6 +256,9 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     for index_in_cycle, (index_in_datasets, it_state) in enumerate(
         zip(state["iterators_in_use_indices"], state["iterators_in_use_states"])
     ):
+      # Slots that are not exhausted in the restored state must not keep the
+      # exhausted mark from before the restore.
+      self._exhausted_iterator_state[index_in_cycle] = None
       if it_state is None:
         self._iterators_in_use[index_in_cycle] = None
       elif exhausted[index_in_cycle] == 0:
@@ -294,8 +297,12 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     )
     self._next_index_in_cycle = state["next_index_in_cycle"]
     self._next_index_in_datasets = state["next_index_in_datasets"]
-    self._iterators_in_use_indices = state["iterators_in_use_indices"]
-    self._future_states = cast(dict[int, Any], state.get("future_states", {}))
+    # Copy to not alias (and later mutate) the state owned by the caller.
+    self._iterators_in_use_indices = list(state["iterators_in_use_indices"])
+    # JSON serialization turns integer keys into strings.
+    self._future_states = {
+        int(k): v for k, v in state.get("future_states", {}).items()
+    }
 
   def set_shard_states(self, shard_states: Sequence[Any]) -> None:
     active_states = []
-- 
2.43.0


From 713f8d68d5a89e5ce7de89c5dced254172d1f7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 02/46] fix: restore concat-then-split packing from JSON
 serialized states

Slices in the state are tuples; after a JSON round trip (which is how grain
writes checkpoints) they are lists, never equal to the empty slice, so an
iterator without a remainder was restored as having an empty one and lost an
element or raised.
---
 .../dataset/transformations/packing_concat_then_split.py     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index f54e2a6..0e37093 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -525,6 +525,11 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
 
   def set_state(self, state: dict[str, Any]):
     state = _CtsState(**state)
+    # JSON serialization turns tuples into lists, which never compare equal to
+    # `_EMPTY_SLICE`.
+    state.remainder_slices = {
+        k: tuple(v) for k, v in state.remainder_slices.items()
+    }
     # Clear internal state.
     self._packed_elements = collections.deque()
     self._remainder_element = None
-- 
2.43.0


From 3701d8809496cd4fea6ed0f9f1bf5dfcbeb85dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 03/46] fix: drop stale buffer of flat map when the parent ends
 or fails

Restoring an end-of-data state kept the buffer of the previous position and
emitted its elements again; after an exception from the parent or the flat map
function the state combined the new parent position with the old buffer
index.
---
 grain/_src/python/dataset/transformations/flatmap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/flatmap.py b/grain/_src/python/dataset/transformations/flatmap.py
index 75a8ea6..f28719d 100644
--- a/grain/_src/python/dataset/transformations/flatmap.py
+++ b/grain/_src/python/dataset/transformations/flatmap.py
@@ -104,11 +104,13 @@ class _FlatMapDatasetIterator(dataset.DatasetIterator[T]):
       # Stores the previous state so that we can checkpoint this iterator
       # without storing `self._buffer` elements
       self._last_parent_state = self._parent.get_state()
+      # The buffered elements belong to the previous parent state.
+      self._next_index_in_buffer = 0
+      self._buffer = []
 
       element = next(self._parent)  # Raises `StopIteration` when done.
 
       with timer:
-        self._next_index_in_buffer = 0
         self._buffer = self._flat_map(element)
 
     with self._stats.record_self_time(offset_ns=timer.value()):
@@ -133,7 +135,7 @@ class _FlatMapDatasetIterator(dataset.DatasetIterator[T]):
     except StopIteration:
       # Edge case: The iterator has run out of elements.
       # We keep this EOF state.
-
+      self._buffer = []
       self._next_index_in_buffer = 0
       pass
 
-- 
2.43.0


From 7c85b8972f1b07de32c2d5962600cda9e592e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 04/46] fix: do not start a thread in start_prefetch when
 prefetching is disabled

With a buffer size of 0, start_prefetch started a thread with an unbounded
buffer that advanced the parent concurrently with __next__.
---
 grain/_src/python/dataset/transformations/prefetch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 76449dd..86a9805 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -606,6 +606,11 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       raise ValueError("Attempting to use a closed iterator.")
     if self._prefetch_thread is not None:
       return
+    if self._target_prefetch_buffer_size == 0:
+      # Prefetching is disabled: a background thread would fill an unbounded
+      # buffer and advance the parent concurrently with `__next__`.
+      super().start_prefetch()
+      return
 
     self._prefetch_should_stop.clear()
 
-- 
2.43.0


From c743267a2309f0c91ce5a942604416d5e0f68d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 05/46] fix: report death of a prefetch worker process in every
 case

The exit of a worker with code 0, or a failure while stale elements were
being discarded after set_state, made __next__ wait forever.
---
 .../transformations/process_prefetch.py       | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 1bf3c8a..203d8cb 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -485,11 +485,10 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       except Exception as e:  # pylint: disable=broad-except
         logging.warning("Failed to register subprocess: %s", str(e))
 
-  def _process_failed(self) -> bool:
+  def _process_exit_code(self) -> int | None:
     if self._prefetch_process is None:
-      return False
-    exit_code = self._prefetch_process.exitcode
-    return exit_code is not None and exit_code != 0
+      return None
+    return self._prefetch_process.exitcode
 
   @dataset_stats.record_next_duration_if_output
   def __next__(self):
@@ -500,22 +499,30 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       err_traceback = None
       self.start_prefetch()
       # Loop until we get a non-stale element.
+      discarded_err, discarded_err_traceback = None, None
       while True:
+        exit_code = self._process_exit_code()
         try:
           element, state, next_index, err, err_traceback = self._buffer.get(
               timeout=_QUEUE_WAIT_TIMEOUT_S
           )
         except queue.Empty:
+          # Everything that the process has produced before exiting is already
+          # in the buffer. We can only give up waiting if it was still empty
+          # after the process had exited, no matter how it did.
           assert self._prefetch_process is not None
-          if self._process_failed():
-            element, state, next_index = None, None, None
+          if exit_code is None:
+            continue
+          element, state, next_index = None, None, None
+          if exit_code == 0 and discarded_err is not None:
+            err, err_traceback = discarded_err, discarded_err_traceback
+          else:
             err = RuntimeError(
                 "Worker process was terminated unexpectedly with exit code "
-                f"{self._prefetch_process.exitcode}. Search the logs above for "
-                "the source of the crash."
+                f"{exit_code}. Search the logs above for the source of the "
+                "crash."
             )
-          else:
-            continue
+          break
         if isinstance(element, _SetStateIsDone):
           self._set_state_count -= 1
         elif self._set_state_count == 0:
@@ -523,6 +530,8 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
         elif element is not None:
           # Unlink shared memory for the discarded element.
           shared_memory_array.unlink_shm(element)
+        elif err is not None:
+          discarded_err, discarded_err_traceback = err, err_traceback
       if err is not None:
         if (
             not isinstance(err, StopIteration)
-- 
2.43.0


From ee7e337c4dd46a662145d6dcb2b130e82680aaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 06/46] fix: do not reuse IPC primitives of a killed prefetch
 worker process

A killed process may hold locks of the stop event, the queues and the
request counter, which blocked close, set_state and a restarted worker.
---
 .../transformations/process_prefetch.py       | 115 +++++++++++-------
 1 file changed, 69 insertions(+), 46 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 203d8cb..e14432f 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -16,6 +16,7 @@
 from __future__ import annotations
 
 from collections.abc import Callable, Sequence
+import contextlib
 import functools
 from multiprocessing import queues
 from multiprocessing import sharedctypes
@@ -204,7 +205,7 @@ def _put_dataset_elements_in_buffer(
             traceback_util.PicklableTraceback | None,
         ]
     ],
-    should_stop: synchronize.Event,
+    should_stop: Any,
     set_state_request_count: sharedctypes.Synchronized[int],
     set_state_queue: queues.Queue[StateT | int],
     stats_out_queue: queues.Queue[Any] | None,
@@ -230,7 +231,7 @@ def _put_dataset_elements_in_buffer(
     it._stats._config.stats_out_queue = stats_out_queue  # pylint: disable=protected-access
     parent_exhausted = False
     next_index: int | None = 0
-    while not should_stop.is_set():
+    while not should_stop.value:
       if set_state_request_count.value > 0:
         new_state_or_index = None
         with set_state_request_count.get_lock():
@@ -242,7 +243,7 @@ def _put_dataset_elements_in_buffer(
           if not grain_queue.add_element_to_queue(  # pytype: disable=wrong-arg-types
               (_SetStateIsDone(), None, None, None, None),
               buffer,
-              should_stop.is_set,
+              lambda: should_stop.value,
           ):
             continue
           if isinstance(new_state_or_index, int):
@@ -270,7 +271,7 @@ def _put_dataset_elements_in_buffer(
                 ),
             ),
             buffer,
-            should_stop.is_set,
+            lambda: should_stop.value,
         )
 
         parent_exhausted = True
@@ -285,7 +286,7 @@ def _put_dataset_elements_in_buffer(
       if not grain_queue.add_element_to_queue(  # pytype: disable=wrong-arg-types
           (element, it.get_state(), next_index, None, None),
           buffer,
-          should_stop.is_set,
+          lambda: should_stop.value,
       ):
         # We failed to put the element into the output queue because the
         # should_stop event was set. The element may contain a shared memory
@@ -303,7 +304,7 @@ def _put_dataset_elements_in_buffer(
             traceback_util.PicklableTraceback.from_traceback(e.__traceback__),
         ),
         buffer,
-        should_stop.is_set,
+        lambda: should_stop.value,
     )
     return
   _clear_queue_and_maybe_unlink_shm(buffer)
@@ -356,7 +357,32 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     self._process_ctx = mp.get_context("spawn")
     self._state: StateT | None = None
     self._prefetch_process: Any | None = None
-    self._prefetch_should_stop: synchronize.Event = self._process_ctx.Event()
+    self._create_ipc_primitives()
+    self._stats_in_queue = self._process_ctx.Queue(maxsize=5)
+    self._start_profiling_event = self._process_ctx.Event()
+    self._stop_profiling_event = self._process_ctx.Event()
+    self._exhausted = False
+    self._prefetch_ds_iter = None
+    self._next_index: int | None = 0
+    # Ensure that the iterator is closed before the multiprocessing module
+    # attempts to terminate the worker processes to prevent process hanging
+    # issues.
+    util.Finalize(
+        self,
+        _close_if_alive,
+        args=(weakref.ref(self),),
+        exitpriority=1,
+    )
+
+  def _create_ipc_primitives(self):
+    """Creates everything that is used to communicate with a single process.
+
+    A process that gets killed may hold locks of any of these objects and leave
+    incomplete data behind, they must not be used to communicate with a process
+    started later.
+    """
+    # Does not have a lock, so that it can be set after the process is killed.
+    self._prefetch_should_stop = self._process_ctx.RawValue("b", 0)
     self._set_state_request_count: sharedctypes.Synchronized[int] = (
         self._process_ctx.Value("i", 0)
     )
@@ -372,22 +398,9 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
             traceback_util.PicklableTraceback | None,
         ]
     ] = self._process_ctx.Queue(maxsize=self._buffer_size)
-    self._stats_in_queue = self._process_ctx.Queue(maxsize=5)
-    self._start_profiling_event = self._process_ctx.Event()
-    self._stop_profiling_event = self._process_ctx.Event()
+    # Number of _SetStateIsDone that need to be skipped to avoid stale elements
+    # in the buffer.
     self._set_state_count = 0
-    self._exhausted = False
-    self._prefetch_ds_iter = None
-    self._next_index: int | None = 0
-    # Ensure that the iterator is closed before the multiprocessing module
-    # attempts to terminate the worker processes to prevent process hanging
-    # issues.
-    util.Finalize(
-        self,
-        _close_if_alive,
-        args=(weakref.ref(self),),
-        exitpriority=1,
-    )
 
   @property
   def buffer_size(self) -> int:
@@ -440,7 +453,6 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     if self._prefetch_process is not None:
       return
 
-    self._prefetch_should_stop.clear()
     ds = dataset.WithOptionsIterDataset(
         self._iter_parent,
         options=self._ctx.dataset_options,
@@ -557,11 +569,36 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     self._closed = True
     self._stop_prefetch()
 
-  def _clear_set_state_queue(self):
-    with self._set_state_request_count.get_lock():
+  @contextlib.contextmanager
+  def _set_state_request_lock(self):
+    """Holds the lock of requests unless the process died while holding it."""
+    lock = self._set_state_request_count.get_lock()
+    while not lock.acquire(timeout=_QUEUE_WAIT_TIMEOUT_S):
+      if self._process_exit_code() is not None:
+        self._stop_prefetch()
+        lock = self._set_state_request_count.get_lock()
+    try:
+      yield
+    finally:
+      lock.release()
+
+  def _request_set_state(self, state_or_index: StateT | int):
+    # Remove any pending set_state calls.
+    with self._set_state_request_lock():
       num_removed = _clear_queue_and_maybe_unlink_shm(self._set_state_queue)
       self._set_state_count -= num_removed
       self._set_state_request_count.value -= num_removed
+    set_state_queue = self._set_state_queue
+    set_state_queue.put(state_or_index)
+    # Signal the prefetch process to start processing set_state calls.
+    with self._set_state_request_lock():
+      if self._set_state_queue is not set_state_queue:
+        # The process died in the meantime.
+        self._set_state_queue.put(state_or_index)
+      self._set_state_request_count.value += 1
+    # Increment the number of _SetStateIsDone that need to be skipped to
+    # avoid stale elements in the buffer.
+    self._set_state_count += 1
 
   def _stop_prefetch(self):
     """Stops the prefetching process if it's currently running."""
@@ -571,9 +608,8 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     if self._unregister_fn is not None:
       self._unregister_fn()
 
-    self._prefetch_should_stop.set()
+    self._prefetch_should_stop.value = 1
     _clear_queue_and_maybe_unlink_shm(self._buffer)
-    self._clear_set_state_queue()
 
     # Not joining here will cause the children to be zombie after they finish.
     # Need to join or call active_children.
@@ -586,7 +622,10 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     else:
       _clear_queue_and_maybe_unlink_shm(self._buffer)
     self._prefetch_process = None
-    self._set_state_count = 0
+    # Requests that have not been processed are dropped together with the queue,
+    # do not wait for them to be sent.
+    self._set_state_queue.cancel_join_thread()
+    self._create_ipc_primitives()
 
   def get_state(self) -> StateT:
     if self._state is not None:
@@ -605,15 +644,7 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
 
   def set_state(self, state: StateT):
     self._state = state
-    # Remove any pending set_state calls.
-    self._clear_set_state_queue()
-    self._set_state_queue.put(self._state)
-    # Signal the prefetch process to start processing set_state calls.
-    with self._set_state_request_count.get_lock():
-      self._set_state_request_count.value += 1
-    # Increment the number of _SetStateIsDone that need to be skipped to
-    # avoid stale elements in the buffer.
-    self._set_state_count += 1
+    self._request_set_state(state)
     self._exhausted = False
     self._next_index = None
 
@@ -632,15 +663,7 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     # If `_set_next_index` is not supported for a parent iterator, the error
     # will not show up until the next `__next__` call.
     self._next_index = next_index
-    # Remove any pending set_state calls.
-    self._clear_set_state_queue()
-    self._set_state_queue.put(self._next_index)
-    # Signal the prefetch process to start processing set_state calls.
-    with self._set_state_request_count.get_lock():
-      self._set_state_request_count.value += 1
-    # Increment the number of _SetStateIsDone that need to be skipped to
-    # avoid stale elements in the buffer.
-    self._set_state_count += 1
+    self._request_set_state(next_index)
     self._exhausted = False
     self._state = None
 
-- 
2.43.0


From 1a7fa94fa4c5fb226237392037666e9311dfcdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 07/46] fix: do not emit an empty batch when restoring rebatch
 at the end

---
 grain/_src/python/dataset/transformations/rebatch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/rebatch.py b/grain/_src/python/dataset/transformations/rebatch.py
index e6cfb25..cb6b5e4 100644
--- a/grain/_src/python/dataset/transformations/rebatch.py
+++ b/grain/_src/python/dataset/transformations/rebatch.py
@@ -139,6 +139,9 @@ class _RebatchDatasetIterator(dataset.DatasetIterator):
             raise StopIteration from exc
           break
         self._batch_idx = self._batch_idx if is_first_batch else 0
+        if 0 < len(self._current_batch[0]) <= self._batch_idx:
+          # The restored state points at the end of an already consumed batch.
+          continue
 
       with timer:
         if len(self._current_batch[0]) <= 0:
-- 
2.43.0


From 85de4af2a9aef5d11e7d7efdfee73ee92b6281ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 08/46] fix: raise ValueError when advancing any closed
 iterator

As promised by DatasetIterator.close; buffered and exhausted iterators kept
returning elements or raised StopIteration.
---
 grain/_src/python/dataset/transformations/batch.py             | 1 +
 grain/_src/python/dataset/transformations/cache.py             | 1 +
 grain/_src/python/dataset/transformations/filter.py            | 1 +
 grain/_src/python/dataset/transformations/flatmap.py           | 1 +
 grain/_src/python/dataset/transformations/limit.py             | 1 +
 grain/_src/python/dataset/transformations/map.py               | 3 +++
 grain/_src/python/dataset/transformations/mix.py               | 1 +
 grain/_src/python/dataset/transformations/packing.py           | 1 +
 .../dataset/transformations/packing_concat_then_split.py       | 1 +
 grain/_src/python/dataset/transformations/prefetch.py          | 1 +
 grain/_src/python/dataset/transformations/process_prefetch.py  | 1 +
 grain/_src/python/dataset/transformations/rebatch.py           | 1 +
 grain/_src/python/dataset/transformations/repeat.py            | 1 +
 grain/_src/python/dataset/transformations/shuffle.py           | 1 +
 grain/_src/python/dataset/transformations/zip.py               | 1 +
 15 files changed, 17 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 93169fc..98ad4de 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -298,6 +298,7 @@ class _BatchDatasetIterator(dataset.DatasetIterator[T]):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self) -> T:
+    self._assert_not_closed()
     values = []
     for _ in range(self._batch_size):
       try:
diff --git a/grain/_src/python/dataset/transformations/cache.py b/grain/_src/python/dataset/transformations/cache.py
index 829dc51..82b38c3 100644
--- a/grain/_src/python/dataset/transformations/cache.py
+++ b/grain/_src/python/dataset/transformations/cache.py
@@ -60,6 +60,7 @@ class _InMemoryCacheDatasetIterator(dataset.DatasetIterator[T]):
 
   @stats.record_next_duration_if_output
   def __next__(self) -> T:
+    self._assert_not_closed()
     timer = stats.Timer()
     if self._cache_filled:
       with self._stats.record_self_time():
diff --git a/grain/_src/python/dataset/transformations/filter.py b/grain/_src/python/dataset/transformations/filter.py
index 2c320d4..7d4abe9 100644
--- a/grain/_src/python/dataset/transformations/filter.py
+++ b/grain/_src/python/dataset/transformations/filter.py
@@ -164,6 +164,7 @@ class _FilterDatasetIterator(dataset.DatasetIterator[T]):
       stage_category=dataset_stats.IPL_CAT_PREPROCESSING
   )
   def __next__(self):
+    self._assert_not_closed()
     value = None
     passed_filter = False
     timer = dataset_stats.Timer()
diff --git a/grain/_src/python/dataset/transformations/flatmap.py b/grain/_src/python/dataset/transformations/flatmap.py
index f28719d..71b4803 100644
--- a/grain/_src/python/dataset/transformations/flatmap.py
+++ b/grain/_src/python/dataset/transformations/flatmap.py
@@ -99,6 +99,7 @@ class _FlatMapDatasetIterator(dataset.DatasetIterator[T]):
       stage_category=dataset_stats.IPL_CAT_PREPROCESSING
   )
   def __next__(self):
+    self._assert_not_closed()
     timer = dataset_stats.Timer()
     while self._has_consumed_all_buffer_elements():
       # Stores the previous state so that we can checkpoint this iterator
diff --git a/grain/_src/python/dataset/transformations/limit.py b/grain/_src/python/dataset/transformations/limit.py
index a496318..1fd1c04 100644
--- a/grain/_src/python/dataset/transformations/limit.py
+++ b/grain/_src/python/dataset/transformations/limit.py
@@ -37,6 +37,7 @@ class _LimitDatasetIterator(dataset.DatasetIterator[T]):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     if self._count_elements_read >= self._count:
       raise StopIteration
     value = next(self._parent)
diff --git a/grain/_src/python/dataset/transformations/map.py b/grain/_src/python/dataset/transformations/map.py
index 9070eec..1551e57 100644
--- a/grain/_src/python/dataset/transformations/map.py
+++ b/grain/_src/python/dataset/transformations/map.py
@@ -305,6 +305,7 @@ class _MapDatasetIterator(dataset.DatasetIterator[T]):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     element = next(self._parent)
     with self._stats.record_self_time():
       if element is not None:
@@ -347,6 +348,7 @@ class _RandomMapDatasetIterator(dataset.DatasetIterator[T]):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     element = next(self._parent)
     with self._stats.record_self_time():
       if element is not None:
@@ -401,6 +403,7 @@ class _MapWithIndexDatasetIterator(dataset.DatasetIterator[T]):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     element = next(self._parent)
     with self._stats.record_self_time():
       if element is not None:
diff --git a/grain/_src/python/dataset/transformations/mix.py b/grain/_src/python/dataset/transformations/mix.py
index 74cdb50..d73e261 100644
--- a/grain/_src/python/dataset/transformations/mix.py
+++ b/grain/_src/python/dataset/transformations/mix.py
@@ -209,6 +209,7 @@ class _MixedDatasetIterator(dataset.DatasetIterator[T]):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     if self._stop:
       # Although there may be elements available in some parent datasets, do not
       # sample once stop signal is turned on.
diff --git a/grain/_src/python/dataset/transformations/packing.py b/grain/_src/python/dataset/transformations/packing.py
index 21a69b2..915194f 100644
--- a/grain/_src/python/dataset/transformations/packing.py
+++ b/grain/_src/python/dataset/transformations/packing.py
@@ -178,6 +178,7 @@ class PackingDatasetIterator(dataset.DatasetIterator):
       stage_category=dataset_stats.IPL_CAT_PREPROCESSING
   )
   def __next__(self):
+    self._assert_not_closed()
     timer = dataset_stats.Timer()
     if self._packed_batch is not None:
       # We have a packed batch, we emit one row at a time until exhausted.
diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index 0e37093..236ec35 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -402,6 +402,7 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     if self._packed_elements:
       self._state.elements_from_buffer_after_checkpoint += 1
       return self._stats.record_output_spec(self._packed_elements.popleft())
diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 86a9805..6483038 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -632,6 +632,7 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       stage_category=dataset_stats.IPL_CAT_PREFETCH
   )
   def __next__(self):
+    self._assert_not_closed()
 
     timer = dataset_stats.Timer()
     with timer:
diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index e14432f..76d5dd8 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -504,6 +504,7 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
 
   @dataset_stats.record_next_duration_if_output
   def __next__(self):
+    self._assert_not_closed()
     if self._exhausted:
       raise StopIteration
     timer = dataset_stats.Timer()
diff --git a/grain/_src/python/dataset/transformations/rebatch.py b/grain/_src/python/dataset/transformations/rebatch.py
index cb6b5e4..2ab31d9 100644
--- a/grain/_src/python/dataset/transformations/rebatch.py
+++ b/grain/_src/python/dataset/transformations/rebatch.py
@@ -111,6 +111,7 @@ class _RebatchDatasetIterator(dataset.DatasetIterator):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     timer = stats.Timer()
 
     batch_dim_needed = self._batch_size
diff --git a/grain/_src/python/dataset/transformations/repeat.py b/grain/_src/python/dataset/transformations/repeat.py
index e1d2cc5..050098b 100644
--- a/grain/_src/python/dataset/transformations/repeat.py
+++ b/grain/_src/python/dataset/transformations/repeat.py
@@ -111,6 +111,7 @@ class _RepeatDatasetIterator(dataset.DatasetIterator[T]):
 
   @stats.record_next_duration_if_output
   def __next__(self):
+    self._assert_not_closed()
     timer = stats.Timer()
     if self._epoch == self._num_epochs:
       raise StopIteration
diff --git a/grain/_src/python/dataset/transformations/shuffle.py b/grain/_src/python/dataset/transformations/shuffle.py
index 23e56c4..15b8696 100644
--- a/grain/_src/python/dataset/transformations/shuffle.py
+++ b/grain/_src/python/dataset/transformations/shuffle.py
@@ -216,6 +216,7 @@ class _WindowShuffleDatasetIterator(dataset.DatasetIterator[T]):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     # Window is empty, fill up the next window.
     if not self._window:
       if self._parent_exhausted:
diff --git a/grain/_src/python/dataset/transformations/zip.py b/grain/_src/python/dataset/transformations/zip.py
index 3f29280..eff458f 100644
--- a/grain/_src/python/dataset/transformations/zip.py
+++ b/grain/_src/python/dataset/transformations/zip.py
@@ -101,6 +101,7 @@ class _ZipDatasetIterator(dataset.DatasetIterator[T]):
       stage_category=dataset_stats.IPL_CAT_PREPROCESSING
   )
   def __next__(self) -> tuple[T, ...]:
+    self._assert_not_closed()
     with self._stats.record_self_time():
       # Can't use for a `for` loop because we need to raise StopIteration from
       # the inner iterators.
-- 
2.43.0


From 5cd405d640481eab952bb66b5a8b965be72e5020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 09/46] fix: close the base iterator of ElasticIterator

close() checked a name that the cached property never used.
---
 grain/_src/python/dataset/elastic_iterator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/elastic_iterator.py b/grain/_src/python/dataset/elastic_iterator.py
index 5304259..7194986 100644
--- a/grain/_src/python/dataset/elastic_iterator.py
+++ b/grain/_src/python/dataset/elastic_iterator.py
@@ -194,6 +194,7 @@ class ElasticIterDatasetIterator(dataset.DatasetIterator):
 
   def __next__(self) -> Any:
     """Returns the next element from the iterator."""
+    self._assert_not_closed()
     return next(self._iterator)
 
   def get_shard_states(self) -> dict[int, Any]:
@@ -335,6 +336,7 @@ class _ElasticMapDatasetIterator(dataset.DatasetIterator):
     return ds.__iter__()
 
   def __next__(self) -> Any:
+    self._assert_not_closed()
     result = next(self._iterator)
     self._global_next_index += self._global_batch_size
     return result
@@ -351,6 +353,7 @@ class _ElasticMapDatasetIterator(dataset.DatasetIterator):
     self.__dict__.pop("_iterator", None)
 
   def close(self) -> None:
+    self._closed = True
     if "_iterator" in self.__dict__:
       self._iterator.close()
 
@@ -473,11 +476,13 @@ class ElasticIterator(dataset.DatasetIterator):
     Returns:
       The next element in the iteration.
     """
+    self._assert_not_closed()
     return next(self.base_iterator)
 
   def close(self) -> None:
     """Closes the base iterator if it was created for backwards compatibility."""
-    if "_base_iterator" in self.__dict__:
+    self._closed = True
+    if "base_iterator" in self.__dict__:
       self.base_iterator.close()
 
   def get_state(self) -> dict[str, Any]:
@@ -493,6 +498,7 @@ class ElasticIterator(dataset.DatasetIterator):
     if "base_iterator" in self.__dict__:
       self.base_iterator.close()
       self.__dict__.pop("base_iterator")
+    self._closed = False
     self.base_iterator.set_state(state)
 
   def get_shard_states(self) -> Any:
-- 
2.43.0


From 70f4af8b2517478046ab33714ccae73872a28d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 10/46] fix: support next index of an exhausted single-dataset
 interleave

---
 grain/_src/python/dataset/transformations/interleave.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index ae0fc38..a48b964 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -349,8 +349,15 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     }
     self.set_state(new_state)
 
+  def _reopen_exhausted_iterators(self) -> None:
+    state = self.get_state()
+    state["exhausted"] = [0] * self._cycle_length
+    self.set_state(state)
+
   def _get_next_index(self) -> int:
     if len(self._datasets) == 1:
+      if self._exhausted_iterator_state[0] is not None:
+        self._reopen_exhausted_iterators()
       it = self._iterators_in_use[0]
       if it is None:
         return 0
@@ -364,6 +371,8 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     if len(self._datasets) == 1:
       # Ensure iterator is created by calling get_state.
       _ = self.get_state()
+      if self._exhausted_iterator_state[0] is not None:
+        self._reopen_exhausted_iterators()
       it = self._iterators_in_use[0]
       assert it is not None
       dataset.set_next_index(it, index)
-- 
2.43.0


From 76dcec8199ad5849c742e5031454ba7748ed72bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 11/46] fix: close exhausted iterators kept by interleave

---
 grain/_src/python/dataset/transformations/interleave.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index a48b964..12a23b0 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -400,6 +400,9 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     for iterator in self._iterators_in_use:
       if iterator is not None:
         iterator.close()
+    for exhausted in self._exhausted_iterators:
+      if exhausted is not None:
+        exhausted[1].close()
 
   def start_prefetch(self):
     for it in self._iterators_in_use:
-- 
2.43.0


From 3e1263059361b5f6c17613396add5382fe4ad274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 12/46] fix: retry the failed element after an error of a
 prefetched read

The element was dropped from the buffer although the position did not advance:
elements returned by later calls were correct but the iterator ended with an
IndexError. set_state with an invalid position also no longer changes the
position that is read ahead.
---
 .../dataset/transformations/prefetch.py       | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 6483038..c96740e 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -261,12 +261,21 @@ class PrefetchDatasetIterator(dataset.DatasetIterator[T]):
           element = self._buffer.popleft()
           # Prefetch elements until the buffer is full again.
           self._fill_buffer()
-          element = element.result()
+          try:
+            element = element.result()
+          except BaseException:
+            # The element was not returned, the next call has to retry it.
+            self._clear_buffer()
+            raise
         else:
           # In case prefetch buffer size was decreased, we still want to consume
           # the already prefetched elements.
           if self._buffer:
-            element = self._buffer.popleft().result()
+            try:
+              element = self._buffer.popleft().result()
+            except BaseException:
+              self._clear_buffer()
+              raise
           else:
             element = self._stats.record_bytes_consumed(
                 self._map_parent[self._next_returned_index]
@@ -287,7 +296,6 @@ class PrefetchDatasetIterator(dataset.DatasetIterator[T]):
   def set_state(self, state):
     with self._lock:
       self._next_returned_index = state["next_index"]
-      self._next_buffered_index = self._next_returned_index
       if (
           self._next_returned_index < 0
           or self._next_returned_index > self._dataset_length
@@ -297,10 +305,15 @@ class PrefetchDatasetIterator(dataset.DatasetIterator[T]):
             f" range for dataset of length {self._dataset_length}."
         )
 
-      # Cancel all pending futures in the buffer.
-      while self._buffer:
-        future = self._buffer.popleft()
-        future.cancel()
+      self._clear_buffer()
+
+  def _clear_buffer(self):
+    """Drops everything in the buffer to restart from the next element."""
+    self._next_buffered_index = self._next_returned_index
+    # Cancel all pending futures in the buffer.
+    while self._buffer:
+      future = self._buffer.popleft()
+      future.cancel()
 
   def _get_next_index(self) -> int:
     return self._next_returned_index
-- 
2.43.0


From e1c4195c80432e40280168f704a3743ab5a85571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 13/46] fix: report elements and errors that can not be sent
 between processes

Elements and exceptions that can not be pickled were dropped by the feeder
thread of the queue and the consumer waited forever. An exception that could
not be unpickled was raised, but the next call waited forever.
---
 .../transformations/process_prefetch.py       | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 76d5dd8..d2d02f3 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -22,8 +22,12 @@ from multiprocessing import queues
 from multiprocessing import sharedctypes
 from multiprocessing import synchronize
 from multiprocessing import util
+import os
+import pickle
 import queue
+import sys
 import time
+import traceback
 from typing import Any, TypeVar
 import weakref
 
@@ -192,6 +196,32 @@ class ProcessPrefetchIterDataset(dataset.IterDataset[T]):
     return dataset.get_element_spec(self._parent)
 
 
+def _abort_on_queue_feeder_error(e: Exception, obj: Any) -> None:
+  """Stops the process because an element could not be sent to its consumer.
+
+  The consumer would otherwise wait for the element forever.
+
+  Args:
+    e: The error.
+    obj: The element that could not be sent.
+  """
+  del obj
+  traceback.print_exception(e)
+  sys.stderr.flush()
+  os._exit(1)  # pylint: disable=protected-access
+
+
+def _ensure_picklable(e: Exception) -> Exception:
+  """Returns `e` or its replacement if it can not be sent between processes."""
+  try:
+    pickle.loads(pickle.dumps(e))
+    return e
+  except Exception:  # pylint: disable=broad-exception-caught
+    return RuntimeError(
+        "".join(traceback.format_exception_only(type(e), e)).strip()
+    )
+
+
 def _put_dataset_elements_in_buffer(
     pickled_parse_debug_flags_fn: bytes,
     pickled_worker_init_fn: bytes,
@@ -216,6 +246,7 @@ def _put_dataset_elements_in_buffer(
   """Prefetches elements in a separate process."""
   global _is_in_worker_process
   _is_in_worker_process = True
+  buffer._on_queue_feeder_error = _abort_on_queue_feeder_error  # pylint: disable=protected-access  # pytype: disable=attribute-error
   try:
     parse_debug_flags_fn = cloudpickle.loads(pickled_parse_debug_flags_fn)
     parse_debug_flags_fn(debug_flags)
@@ -265,7 +296,7 @@ def _put_dataset_elements_in_buffer(
                 None,
                 None,
                 None,
-                e,
+                _ensure_picklable(e),
                 traceback_util.PicklableTraceback.from_traceback(
                     e.__traceback__
                 ),
@@ -300,7 +331,7 @@ def _put_dataset_elements_in_buffer(
             None,
             None,
             None,
-            e,
+            _ensure_picklable(e),
             traceback_util.PicklableTraceback.from_traceback(e.__traceback__),
         ),
         buffer,
@@ -536,6 +567,10 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
                 "crash."
             )
           break
+        except Exception as e:  # pylint: disable=broad-exception-caught
+          # What was received can not be unpickled.
+          element, state, next_index = None, None, None
+          err, err_traceback = e, None
         if isinstance(element, _SetStateIsDone):
           self._set_state_count -= 1
         elif self._set_state_count == 0:
-- 
2.43.0


From 644ee09a73e5536820af2295083c8cb64c7653f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 14/46] fix: do not close file descriptors of shared memory
 twice

If an array in a reference cycle was garbage collected, the finalizer of its
shared memory closed the file descriptor concurrently with asynchronous
deletion. The second close could hit an unrelated file opened in between, e.g.
the pipe of a prefetch queue, after which the consumer waited forever.
---
 grain/_src/python/ipc/shared_memory_array.py | 22 ++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index 8dab940..265bb1b 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -42,6 +42,24 @@ class SharedMemoryArrayMetadata:
     shm.unlink()
 
 
+class _SharedMemory(shared_memory.SharedMemory):
+  """Shared memory that can be closed by multiple threads at the same time.
+
+  If an array that is part of a reference cycle gets garbage collected, the
+  finalizer of its shared memory runs concurrently with asynchronous deletion.
+  Closing the same file descriptor twice would close an unrelated file that was
+  opened in between.
+  """
+
+  def __init__(self, *args, **kwargs):
+    self._close_lock = threading.RLock()
+    super().__init__(*args, **kwargs)
+
+  def close(self) -> None:
+    with self._close_lock:
+      super().close()
+
+
 def _del_shm(shm: shared_memory.SharedMemory, unlink: bool) -> None:
   shm.close()
   if unlink:
@@ -71,7 +89,7 @@ class SharedMemoryArray(np.ndarray):
   ):
     # See https://numpy.org/doc/stable/user/basics.subclassing.html
     size = math.prod(shape) * np.dtype(dtype).itemsize
-    shm = shared_memory.SharedMemory(create=True, size=size)
+    shm = _SharedMemory(create=True, size=size)
     return cls.from_shared_memory(shm, shape, dtype)
 
   def __array_finalize__(self, obj):
@@ -94,7 +112,7 @@ class SharedMemoryArray(np.ndarray):
   def from_metadata(
       cls, metadata: SharedMemoryArrayMetadata
   ) -> SharedMemoryArray:
-    shm = shared_memory.SharedMemory(metadata.name)
+    shm = _SharedMemory(metadata.name)
     return cls.from_shared_memory(shm, metadata.shape, metadata.dtype)
 
   @property
-- 
2.43.0


From 521648f2a33a3403f34008b2062585bcf452fcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 15/46] fix: batch into shared memory like into regular memory

Elements that are wider than the first one failed to be batched (or lost
precision with parallel batching) and empty arrays failed to be allocated if
the output is placed into shared memory by mp_prefetch.
---
 .../python/dataset/transformations/batch.py   | 57 ++++++-------------
 1 file changed, 18 insertions(+), 39 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 98ad4de..24b908d 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -92,24 +92,7 @@ class _MakeBatchParallel:
     if not self._output_to_shared_memory:
       return np.stack(xs)
 
-    first_arg = np.asanyarray(xs[0])
-    shape, dtype = (len(xs),) + first_arg.shape, first_arg.dtype
-    if dtype.hasobject:
-      return np.stack(xs)
-    # For string dtypes, np.stack with a pre-allocated out= array would
-    # silently truncate strings longer than the first element's width.
-    # Fall back to safe np.stack (which infers max-width dtype) + copy.
-    if dtype.kind in ("U", "S"):
-      stacked = np.stack(xs)
-      shm_arr = shared_memory_array.SharedMemoryArray(
-          stacked.shape, dtype=stacked.dtype
-      )
-      np.copyto(shm_arr, stacked, casting="no")
-      return shm_arr
-
-    return np.stack(
-        xs, out=shared_memory_array.SharedMemoryArray(shape, dtype=dtype)
-    )
+    return _stack_to_shared_memory(xs)
 
   def __call__(self, values: Sequence[T]) -> T:
     def _batch_fn(*xs: Sequence[T]) -> T:
@@ -120,7 +103,8 @@ class _MakeBatchParallel:
         return self._stack(xs)
       xs = cast(Sequence[np.ndarray], xs)
       first_arg = xs[0]
-      shape, dtype = (len(xs),) + first_arg.shape, first_arg.dtype
+      shape = (len(xs),) + first_arg.shape
+      dtype = np.result_type(*(x.dtype for x in xs))
       # For string dtypes, the parallel path would silently truncate strings
       # because the output array dtype is inferred from the first element only.
       # Fall back to the serial _stack path which handles strings correctly.
@@ -174,6 +158,20 @@ class _MakeBatchParallel:
       self._parallel_batch_executor = None
 
 
+def _stack_to_shared_memory(xs: Sequence[Any]) -> np.ndarray:
+  """Same as `np.stack` but puts the result into shared memory if possible."""
+  arrays = [np.asanyarray(x) for x in xs]
+  shape = (len(arrays),) + arrays[0].shape
+  # The result must be able to hold all elements: they can be wider than the
+  # first one, in particular strings.
+  dtype = np.result_type(*(a.dtype for a in arrays))
+  if dtype.hasobject or math.prod(shape) == 0:
+    return np.stack(arrays)
+  return np.stack(
+      arrays, out=shared_memory_array.SharedMemoryArray(shape, dtype=dtype)
+  )
+
+
 def make_batch(
     values: Sequence[T], *, output_to_shared_memory: bool = False
 ) -> T:
@@ -190,26 +188,7 @@ def make_batch(
   stacking_function = lambda *xs: np.stack(xs)
   if output_to_shared_memory:
 
-    def shm_stacking_function(*args):
-      first_arg = np.asanyarray(args[0])
-      shape, dtype = (len(args),) + first_arg.shape, first_arg.dtype
-      if dtype.hasobject:
-        return np.stack(args)
-      # For string dtypes, np.stack with a pre-allocated out= array would
-      # silently truncate strings longer than the first element's width.
-      # Fall back to safe np.stack (which infers max-width dtype) + copy.
-      if dtype.kind in ("U", "S"):
-        stacked = np.stack(args)
-        shm_arr = shared_memory_array.SharedMemoryArray(
-            stacked.shape, dtype=stacked.dtype
-        )
-        np.copyto(shm_arr, stacked, casting="no")
-        return shm_arr
-      return np.stack(
-          args, out=shared_memory_array.SharedMemoryArray(shape, dtype=dtype)
-      )
-
-    stacking_function = shm_stacking_function
+    stacking_function = lambda *xs: _stack_to_shared_memory(xs)
 
   try:
     return tree_lib.map_structure(stacking_function, *values)
-- 
2.43.0


From 77e0153df97349f30b89a1488504f4abe553aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 16/46] fix: free shared memory of batches that are not sent to
 another process

After mp_prefetch was applied, batches were put into shared memory also when
the parent dataset was iterated directly, and nothing unlinked it. Same for
batches that a worker dropped because of an error.
---
 .../_src/python/dataset/transformations/batch.py  | 15 +++++++++++----
 grain/_src/python/ipc/shared_memory_array.py      |  7 ++++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 24b908d..213caec 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -118,7 +118,7 @@ class _MakeBatchParallel:
       if not self._output_to_shared_memory or dtype.hasobject:
         out = np.empty(shape, dtype=dtype)
       else:
-        out = shared_memory_array.SharedMemoryArray(shape, dtype=dtype)
+        out = _empty_shared_memory(shape, dtype)
 
       # For each input array, submit a parallel task to the thread pool to copy
       # the data into the corresponding slice of the output array.
@@ -167,9 +167,16 @@ def _stack_to_shared_memory(xs: Sequence[Any]) -> np.ndarray:
   dtype = np.result_type(*(a.dtype for a in arrays))
   if dtype.hasobject or math.prod(shape) == 0:
     return np.stack(arrays)
-  return np.stack(
-      arrays, out=shared_memory_array.SharedMemoryArray(shape, dtype=dtype)
-  )
+  return np.stack(arrays, out=_empty_shared_memory(shape, dtype))
+
+
+def _empty_shared_memory(
+    shape: tuple[int, ...], dtype: np.dtype
+) -> shared_memory_array.SharedMemoryArray:
+  """Returns an array that frees its memory unless sent to another process."""
+  out = shared_memory_array.SharedMemoryArray(shape, dtype=dtype)
+  out.unlink_on_del()
+  return out
 
 
 def make_batch(
diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index 265bb1b..f664e21 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -208,7 +208,12 @@ class SharedMemoryArray(np.ndarray):
 def _copy_leaf_to_shm(leaf: Any, min_size: int = 0) -> Any:
   """Copies `leaf` to shared memory if it's a big enough numpy array."""
   if isinstance(leaf, SharedMemoryArray):
-    return leaf.metadata
+    if isinstance(leaf.base, mmap.mmap):
+      # From now on the receiver is responsible for unlinking.
+      leaf._unlink_on_del = False  # pylint: disable=protected-access
+      return leaf.metadata
+    # The memory of a view belongs to another array.
+    leaf = np.array(leaf)
   if (
       not isinstance(leaf, np.ndarray)
       or leaf.dtype.hasobject
-- 
2.43.0


From 8c61c2f7ec95b74d543d09738e255c3f6ac61d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 17/46] fix: free copied leaves if the rest can not be copied
 to shared memory

---
 grain/_src/python/ipc/shared_memory_array.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index f664e21..b588b2a 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -16,7 +16,6 @@
 from __future__ import annotations
 
 import dataclasses
-import functools
 import math
 import mmap
 from multiprocessing import pool
@@ -230,9 +229,20 @@ def _copy_leaf_to_shm(leaf: Any, min_size: int = 0) -> Any:
 
 def copy_to_shm(struct: Any, min_size: int = 0) -> Any:
   """Copies leaf ndarrays of the structure to shared memory."""
-  return tree_lib.map_structure(
-      functools.partial(_copy_leaf_to_shm, min_size=min_size), struct
-  )
+  copied = []
+
+  def copy_leaf(leaf: Any) -> Any:
+    result = _copy_leaf_to_shm(leaf, min_size=min_size)
+    copied.append(result)
+    return result
+
+  try:
+    return tree_lib.map_structure(copy_leaf, struct)
+  except BaseException:
+    # E.g. out of memory: no one is going to receive the copied leaves.
+    for leaf in copied:
+      _unlink_shm_if_metadata(leaf)
+    raise
 
 
 def _open_leaf_from_shm(leaf: Any) -> Any:
-- 
2.43.0


From f376585d1bd9d7e43d06a3ce1d8ebfc62619b6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:24 +0000
Subject: [PATCH 18/46] fix: close() of a prefetch iterator must not wait
 forever for a stuck worker

Closing an interleaved or thread-prefetched pipeline over multiprocess
prefetch joined the prefetch thread, which waits for the worker process, before
closing the process prefetch iterator that kills a stuck worker.
---
 .../_src/python/dataset/transformations/prefetch.py | 13 ++++++++++---
 .../dataset/transformations/process_prefetch.py     | 10 ++++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index c96740e..77c6780 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -51,6 +51,9 @@ _prefetch_ready_elements = grain_monitoring.EventMetric(
 
 T = TypeVar("T")
 
+# Timeout for a prefetch thread to finish when its iterator is closed.
+_CLOSE_JOIN_TIMEOUT_S = 25
+
 
 def _initialize_prefetch_stats(
     iterator: dataset.DatasetIterator[Any],
@@ -676,7 +679,9 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
   def close(self):
     """Stops the iterator. No further calls to the iterator are expected."""
     self._closed = True
-    self._stop_prefetch()
+    # Do not wait forever for a parent that makes no progress, e.g. because its
+    # worker process is stuck: closing the parent terminates the worker.
+    self._stop_prefetch(join_timeout=_CLOSE_JOIN_TIMEOUT_S)
     if isinstance(self._maybe_nonnative_parent, dataset.DatasetIterator):
       self._maybe_nonnative_parent.close()
 
@@ -687,7 +692,9 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       except queue.Empty:
         return
 
-  def _stop_prefetch(self, clear_buffer: bool = True):
+  def _stop_prefetch(
+      self, clear_buffer: bool = True, join_timeout: float | None = None
+  ):
     """Stops the prefetching thread if it's currently running."""
     if self._prefetch_thread is None:
       return
@@ -708,7 +715,7 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       # 3.13 as daemon threads can hang during interpreter shutdown. See
       # https://github.com/python/cpython/issues/123940#issuecomment-2976446309
       if self._prefetch_thread is not None:
-        self._prefetch_thread.join()
+        self._prefetch_thread.join(timeout=join_timeout)
     self._prefetch_thread = None
 
     if clear_buffer:
diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index d2d02f3..dd8d0f5 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -638,7 +638,9 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
 
   def _stop_prefetch(self):
     """Stops the prefetching process if it's currently running."""
-    if self._prefetch_process is None:
+    # A thread that is stuck in `__next__` may stop the process concurrently.
+    prefetch_process = self._prefetch_process
+    if prefetch_process is None:
       return
 
     if self._unregister_fn is not None:
@@ -649,12 +651,12 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
 
     # Not joining here will cause the children to be zombie after they finish.
     # Need to join or call active_children.
-    self._prefetch_process.join(timeout=_PROCESS_KILL_TIMEOUT_S)
+    prefetch_process.join(timeout=_PROCESS_KILL_TIMEOUT_S)
 
     # In case all our attempts to terminate the system fails, we forcefully
     # kill the child processes.
-    if self._prefetch_process.is_alive():
-      self._prefetch_process.kill()
+    if prefetch_process.is_alive():
+      prefetch_process.kill()
     else:
       _clear_queue_and_maybe_unlink_shm(self._buffer)
     self._prefetch_process = None
-- 
2.43.0


From 7ad62e551b56570728a3c5f6a61eda6a68bcf6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 19/46] fix: repeated set_state of multiprocess prefetch must
 not block forever

set_state clears previous requests from its queue, but those that the queue's
feeder thread has not sent yet can not be removed.  The sixth of them waited
for a free slot of a queue that nobody reads before the worker is started.
---
 .../python/dataset/transformations/process_prefetch.py     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index dd8d0f5..8eda2b9 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -625,7 +625,12 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       self._set_state_count -= num_removed
       self._set_state_request_count.value -= num_removed
     set_state_queue = self._set_state_queue
-    set_state_queue.put(state_or_index)
+    try:
+      set_state_queue.put(state_or_index, timeout=_QUEUE_WAIT_TIMEOUT_S)
+    except queue.Full:
+      # Previous calls had not been sent yet when the queue was cleared. There
+      # may be no process that takes them from the queue.
+      return self._request_set_state(state_or_index)
     # Signal the prefetch process to start processing set_state calls.
     with self._set_state_request_lock():
       if self._set_state_queue is not set_state_queue:
-- 
2.43.0


From bb8fbe30d09e1e628458884018d207c1b06d9644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:39 +0000
Subject: [PATCH 20/46] fix: timeouts of variable-size queues must not depend
 on the wall clock

---
 grain/_src/python/ipc/variable_size_queue.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/ipc/variable_size_queue.py b/grain/_src/python/ipc/variable_size_queue.py
index 1bfa7ae..86e4a0c 100644
--- a/grain/_src/python/ipc/variable_size_queue.py
+++ b/grain/_src/python/ipc/variable_size_queue.py
@@ -90,12 +90,12 @@ class VariableSizeMultiprocessingQueue(queues.Queue):
         res = self._recv_bytes()
     else:
       if block:
-        deadline = time.time() + timeout
+        deadline = time.monotonic() + timeout
       if not self._rlock.acquire(block, timeout):
         raise queue.Empty
       try:
         if block:
-          timeout = deadline - time.time()
+          timeout = deadline - time.monotonic()
           if not self._poll(timeout):
             raise queue.Empty
         elif not self._poll():
@@ -151,14 +151,14 @@ class VariableSizeQueue(queue.Queue):
 
     deadline = None
     if timeout is not None:
-      deadline = time.time() + timeout
+      deadline = time.monotonic() + timeout
 
     with self._cond:
       while self.qsize() >= self._max_size:
         if deadline is None:
           self._cond.wait()
           continue
-        remaining = deadline - time.time()
+        remaining = deadline - time.monotonic()
         if remaining <= 0:
           raise queue.Full
         if not self._cond.wait(remaining):
-- 
2.43.0


From 40d52c61b9e82489630965740e1bbf5c97f47a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:19 +0000
Subject: [PATCH 21/46] fix: growing a variable-size queue must cancel a
 pending shrink

---
 grain/_src/python/ipc/variable_size_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/ipc/variable_size_queue.py b/grain/_src/python/ipc/variable_size_queue.py
index 86e4a0c..1f08b2c 100644
--- a/grain/_src/python/ipc/variable_size_queue.py
+++ b/grain/_src/python/ipc/variable_size_queue.py
@@ -67,7 +67,10 @@ class VariableSizeMultiprocessingQueue(queues.Queue):
     with self._resize_lock:
       delta = max_size - self._max_size_val.value
       if delta > 0:
-        for _ in range(delta):
+        # Slots that were still to be given up can be kept.
+        kept = min(delta, self._pending_shrink.value)
+        self._pending_shrink.value -= kept
+        for _ in range(delta - kept):
           self._sem.release()
         self._max_size_val.value = max_size
       elif delta < 0:
-- 
2.43.0


From e6c4054ddfa13a5154d381ca6076a9634a3aab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:15 +0000
Subject: [PATCH 22/46] fix: setting shard states of interleave must not
 re-read exhausted datasets

---
 .../dataset/transformations/interleave.py     | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 12a23b0..d183108 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -141,6 +141,16 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
             continue
       with timer:
         if self._next_index_in_datasets < len(self._datasets):
+          # A future state of `None` marks a dataset that was exhausted before
+          # the shard states were set.
+          if (
+              self._next_index_in_datasets in self._future_states
+              and self._future_states[self._next_index_in_datasets] is None
+          ):
+            del self._future_states[self._next_index_in_datasets]
+            next(self._prefetch_ds_iter).close()
+            self._next_index_in_datasets += 1
+            continue
           self._iterators_in_use[self._next_index_in_cycle] = next(
               self._prefetch_ds_iter
           )
@@ -224,7 +234,12 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
       # means the current shard has not yet started to be iterated on or have a
       # future state has been saved for it.
       if i >= next_index_in_datasets:
-        if i in self._future_states:
+        if i in self._future_states and self._future_states[i] is None:
+          shard_states[i] = {
+              "exhausted": 1,
+              "state": self._get_iterator_start_state(i),  # pylint: disable=protected-access
+          }
+        elif i in self._future_states:
           shard_states[i] = {
               "exhausted": 0,
               "state": self._future_states[i],
@@ -326,6 +341,10 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     next_index_in_datasets = (
         max(iterators_in_use_indices) + 1 if iterators_in_use_indices else 0
     )
+    # Exhausted shards that have not been passed yet must not be read again.
+    for indx in range(next_index_in_datasets, len(shard_states)):
+      if shard_states[indx]["exhausted"]:
+        future_states[indx] = None
 
     # This is the case where the cycle length is greater than the number of
     # non-exhausted shards. We will just go back through the datasets to fill
-- 
2.43.0


From 10415b9668d7a7fb5afdcc5ee5d61af8029252fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:01 +0000
Subject: [PATCH 23/46] fix: a rejected set_state must not change the position
 of prefetch

---
 .../python/dataset/transformations/prefetch.py     | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 77c6780..fe5540d 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -298,16 +298,14 @@ class PrefetchDatasetIterator(dataset.DatasetIterator[T]):
 
   def set_state(self, state):
     with self._lock:
-      self._next_returned_index = state["next_index"]
-      if (
-          self._next_returned_index < 0
-          or self._next_returned_index > self._dataset_length
-      ):
+      # Validate first: a rejected state must not change the position.
+      next_index = state["next_index"]
+      if next_index < 0 or next_index > self._dataset_length:
         raise IndexError(
-            f"Checkpoint `next_index` {self._next_returned_index} is out of"
-            f" range for dataset of length {self._dataset_length}."
+            f"Checkpoint `next_index` {next_index} is out of range for dataset"
+            f" of length {self._dataset_length}."
         )
-
+      self._next_returned_index = next_index
       self._clear_buffer()
 
   def _clear_buffer(self):
-- 
2.43.0


From f3c0b59a034d9b7fe011cce41bfdbcd1bfa2fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:01 +0000
Subject: [PATCH 24/46] fix: windows of WindowShuffleMapDataset must not reach
 past the end of an epoch

If the number of elements was not a multiple of the window size, the last window
took elements of the next epoch: some elements were returned twice and others not
at all.
---
 .../_src/python/dataset/transformations/shuffle.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/shuffle.py b/grain/_src/python/dataset/transformations/shuffle.py
index 15b8696..c04686c 100644
--- a/grain/_src/python/dataset/transformations/shuffle.py
+++ b/grain/_src/python/dataset/transformations/shuffle.py
@@ -110,15 +110,21 @@ class WindowShuffleMapDataset(dataset.MapDataset[T]):
     return "WindowShuffleMapDataset"
 
   def _shuffled_index(self, index: int) -> int:
-    window_index, index_in_window = divmod(index, self._window_size)
-    seed = self._seed + window_index
+    length = len(self._parent)
+    epoch, index_in_epoch = divmod(index, length)
+    window_in_epoch, index_in_window = divmod(index_in_epoch, self._window_size)
+    window_start = window_in_epoch * self._window_size
+    # The last window of an epoch can be smaller than the others.
+    window_size = min(self._window_size, length - window_start)
+    windows_per_epoch = -(-length // self._window_size)
+    seed = self._seed + epoch * windows_per_epoch + window_in_epoch
     shuffled_index_in_window = index_shuffle.index_shuffle(
         index_in_window,
-        max_index=self._window_size - 1,
+        max_index=window_size - 1,
         seed=seed,
         rounds=4,
     )
-    return shuffled_index_in_window + window_index * self._window_size
+    return shuffled_index_in_window + window_start + epoch * length
 
   def __getitem__(self, index):
     if isinstance(index, slice):
-- 
2.43.0


From 3d2453360393e6afcf9519e24c5e5a1a1b03b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 25/46] fix: seeds of windowed shuffles must stay within 32
 bits

A large seed made the iteration fail at the window where seed plus window number
exceeded 32 bits.
---
 grain/_src/python/dataset/transformations/shuffle.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/shuffle.py b/grain/_src/python/dataset/transformations/shuffle.py
index c04686c..a605b6c 100644
--- a/grain/_src/python/dataset/transformations/shuffle.py
+++ b/grain/_src/python/dataset/transformations/shuffle.py
@@ -117,7 +117,10 @@ class WindowShuffleMapDataset(dataset.MapDataset[T]):
     # The last window of an epoch can be smaller than the others.
     window_size = min(self._window_size, length - window_start)
     windows_per_epoch = -(-length // self._window_size)
-    seed = self._seed + epoch * windows_per_epoch + window_in_epoch
+    # index_shuffle expects a 32-bit seed.
+    seed = (
+        self._seed + epoch * windows_per_epoch + window_in_epoch
+    ) % 2**32
     shuffled_index_in_window = index_shuffle.index_shuffle(
         index_in_window,
         max_index=window_size - 1,
@@ -216,7 +219,9 @@ class _WindowShuffleDatasetIterator(dataset.DatasetIterator[T]):
       # End of the parent iterator, nothing else to process.
       self._parent_exhausted = True
     self._window = _reshuffle_window(
-        window=self._window, seed=self._global_seed + self._window_index
+        window=self._window,
+        # index_shuffle expects a 32-bit seed.
+        seed=(self._global_seed + self._window_index) % 2**32,
     )
 
   @stats.record_next_duration_if_output
-- 
2.43.0


From 8c79904df8f21d1d9abcda10e8b5b66a8eacbf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:49 +0000
Subject: [PATCH 26/46] fix: interleave must close exhausted iterators

---
 grain/_src/python/dataset/transformations/interleave.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index d183108..a3e9f7a 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -129,11 +129,18 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
             self._exhausted_iterator_state[self._next_index_in_cycle] = (
                 iterator_to_use.get_state()
             )
+            # Exhausted iterators that are not kept must not stay open until the
+            # next garbage collection.
+            iterator_to_close = iterator_to_use
             if self._keep_iterators_after_stop_iteration:
+              kept = self._exhausted_iterators[self._next_index_in_cycle]
+              iterator_to_close = None if kept is None else kept[1]
               self._exhausted_iterators[self._next_index_in_cycle] = (
                   self._iterators_in_use_indices[self._next_index_in_cycle],
                   iterator_to_use,
               )
+            if iterator_to_close is not None:
+              iterator_to_close.close()
             self._iterators_in_use[self._next_index_in_cycle] = None
             self._next_index_in_cycle = (
                 self._next_index_in_cycle + 1
-- 
2.43.0


From 3af05ec665a74c930fb80624973791b9fc684543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:35 +0000
Subject: [PATCH 27/46] fix: initial states of mp_prefetch must be those of the
 worker's slice

---
 .../transformations/process_prefetch.py       | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 8eda2b9..88f3752 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 
 from collections.abc import Callable, Sequence
 import contextlib
+import copy
 import functools
 from multiprocessing import queues
 from multiprocessing import sharedctypes
@@ -721,6 +722,25 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     return f"ProcessPrefetchDatasetIterator(buffer_size={self._buffer_size})"
 
 
+def _copy_dataset_graph(ds: dataset.IterDataset[T]) -> dataset.IterDataset[T]:
+  """Returns a copy of the datasets in the graph, sharing everything else."""
+  dataset_types = (dataset.MapDataset, dataset.IterDataset)
+  memo = {}
+  to_visit = [ds]
+  while to_visit:
+    node = to_visit.pop()
+    to_visit.extend(node.parents)
+    for value in vars(node).values():
+      children = value.values() if isinstance(value, dict) else value
+      if not node.parents or not (
+          isinstance(value, dataset_types)
+          or isinstance(value, (tuple, list, dict))
+          and any(isinstance(child, dataset_types) for child in children)
+      ):
+        memo[id(value)] = value
+  return copy.deepcopy(ds, memo)
+
+
 class _LazyWorkerSliceIterDataset(dataset.IterDataset[T]):
   """Applies slice to the parent dataset in the worker process."""
 
@@ -735,12 +755,15 @@ class _LazyWorkerSliceIterDataset(dataset.IterDataset[T]):
     self._sequential_slice = sequential_slice
 
   def __iter__(self) -> dataset.DatasetIterator[T]:
+    parent = self._parent
     if not _is_in_worker_process:
-      return self._parent.__iter__()
+      # The dataset is shared with other workers. The iterator may only be used
+      # to get its state, which can depend on the slice.
+      parent = _copy_dataset_graph(parent)
     prefetch._set_slice_iter_dataset(
-        self._parent, self._slice, self._sequential_slice
+        parent, self._slice, self._sequential_slice
     )
-    return self._parent.__iter__()
+    return parent.__iter__()
 
   @property
   def _element_spec(self) -> Any:
-- 
2.43.0


From 48ecfd3bf4d78754fb9c9b133dc9f60e5214e264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:16 +0000
Subject: [PATCH 28/46] fix: a failed get_state of interleave must not repeat
 datasets

---
 .../python/dataset/transformations/interleave.py     | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index a3e9f7a..8442cf5 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -203,13 +203,15 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
               start_prefetch=self._started,
           )
         self._iterators_in_use[i] = it
-        iterators_in_use_states[i] = it.get_state()
         self._iterators_in_use_indices[i] = self._next_index_in_datasets
         self._next_index_in_datasets += 1
-    if not self._started:
-      self._prefetch_ds_iter.set_state(
-          {"next_index": self._next_index_in_datasets}
-      )
+        # If any of the iterators below fails, the ones that have been created
+        # remain in use and must not be created again.
+        if not self._started:
+          self._prefetch_ds_iter.set_state(
+              {"next_index": self._next_index_in_datasets}
+          )
+        iterators_in_use_states[i] = it.get_state()
     # Use int instead of bool as it is friendly for Pathways remote python.
     exhausted = [
         int(self._exhausted_iterator_state[i] is not None)
-- 
2.43.0


From 32a51b530b058114d6482bc0a4a5b1dd2710787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:44 +0000
Subject: [PATCH 29/46] fix: an error of a component must not end a mixture or
 skip its turn

---
 grain/_src/python/dataset/transformations/mix.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/mix.py b/grain/_src/python/dataset/transformations/mix.py
index d73e261..2f56835 100644
--- a/grain/_src/python/dataset/transformations/mix.py
+++ b/grain/_src/python/dataset/transformations/mix.py
@@ -218,17 +218,21 @@ class _MixedDatasetIterator(dataset.DatasetIterator[T]):
       input_index, _ = _dataset_and_key_of_next_element(
           self._index, self._proportions
       )
-    self._index += 1
     try:
       elem = next(self._parents[input_index])
     except Exception as e:
-      # Turn on stop signal as soon as the end of any dataset is reached.
-      self._stop = True
+      if isinstance(e, StopIteration):
+        # Turn on stop signal as soon as the end of any dataset is reached. Any
+        # other error doesn't end the mixture: the next call asks the same
+        # parent again.
+        self._index += 1
+        self._stop = True
       if sys.version_info >= (3, 11):
         e.add_note(
             f"Exception caught while processing dataset @ {input_index=}"
         )
       raise e
+    self._index += 1
     return self._stats.record_output_spec(elem)
 
   def get_state(self):
-- 
2.43.0


From d5b8b9117cd42d7aef33df59f0132f9ee845d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:44 +0000
Subject: [PATCH 30/46] fix: zero-length elements must not exceed
 max_sequences_per_bin of best-fit packing

---
 .../dataset/transformations/packing_packed_batch.py   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/packing_packed_batch.py b/grain/_src/python/dataset/transformations/packing_packed_batch.py
index 56f8ae1..4adedba 100644
--- a/grain/_src/python/dataset/transformations/packing_packed_batch.py
+++ b/grain/_src/python/dataset/transformations/packing_packed_batch.py
@@ -419,13 +419,12 @@ class BestFitPackedBatch(PackedBatch[_T]):
     new_free_cells = free_cells_matrix + element_lengths[:, np.newaxis]
 
     if self._max_sequences_per_bin is not None:
-      # Invalidate bins that have reached the max sequence limit. Adding the
+      # Invalidate bins that have reached the max sequence limit. Exceeding the
       # capacity ensures they fail the subsequent length check.
-      max_sequence_mask = np.where(
-          self._num_examples_per_row < self._max_sequences_per_bin, 0, 1
-      )
-      new_free_cells = (
-          new_free_cells + max_sequence_mask * self._capacities[:, np.newaxis]
+      new_free_cells = np.where(
+          self._num_examples_per_row < self._max_sequences_per_bin,
+          new_free_cells,
+          self._capacities[:, np.newaxis] + 1,
       )
     fittable_mask = np.all(
         new_free_cells <= self._capacities[:, np.newaxis], axis=0
-- 
2.43.0


From a28d27b9dafa602029058c7047faea173e941f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:44 +0000
Subject: [PATCH 31/46] fix: datasets accessed with visualization on must be
 picklable

---
 grain/_src/python/dataset/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/stats.py b/grain/_src/python/dataset/stats.py
index 985bb39..70719e5 100644
--- a/grain/_src/python/dataset/stats.py
+++ b/grain/_src/python/dataset/stats.py
@@ -793,7 +793,7 @@ class _VisualizationStats(Stats):
     self._reported_lock = threading.Lock()
 
   def __reduce__(self):
-    return _VisualizationStats, (self._config.name, self._parents)
+    return _VisualizationStats, (self._config, self._parents)
 
   @contextlib.contextmanager
   def record_self_time(self, *, num_elements: int = 1, offset_ns: int = 0):
-- 
2.43.0


From fee1458d22facfc183b1c9155d9c6e1f70eccd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:44 +0000
Subject: [PATCH 32/46] fix: index_shuffle lost the last index when max_index
 is a power of two

---
 .../_src/python/experimental/index_shuffle/index_shuffle.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/experimental/index_shuffle/index_shuffle.cc b/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
index b031fe7..046f211 100644
--- a/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
+++ b/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
@@ -35,7 +35,6 @@ limitations under the License.
 
 #include <algorithm>
 #include <bitset>
-#include <cmath>
 #include <cstdint>
 #include <random>
 #include <vector>
@@ -115,7 +114,10 @@ uint64_t index_shuffle(const uint64_t index, const uint64_t max_index,
   // Block size must be large enough to represent max_index and even (since
   // word size is half of it). We force at least 16 bits as minimum block size
   // since we observed pattern in the permutations below.
-  int block_size = static_cast<int>(std::ceil(std::log2(max_index)));
+  int block_size = 0;
+  for (uint64_t x = max_index; x > 0; x >>= 1) {
+    ++block_size;
+  }
   block_size = std::max(block_size + block_size % 2, kMinBlockSize);
   assert(block_size > 0 && block_size % 2 == 0 && block_size <= 64);
   // rounds should be in [4, 1024] and number of rounds must be even.
-- 
2.43.0


From 2c0eaaa60a212a74f392fc87424cd2d4aa0470f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:45 +0000
Subject: [PATCH 33/46] fix: remainders that are split again must keep the
 offset of every feature

---
 .../transformations/packing_concat_then_split.py      | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index 236ec35..61e6017 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -375,17 +375,18 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
           return element
         new_tokens_in_buffer[key] = sequence_length
       else:
+        # Remainders of earlier splits start at an offset.
+        if element.slices[key] == _EMPTY_SLICE:
+          start_index = 0
+        else:
+          start_index = element.slices[key][0]
         if sequence_length > available_tokens:
           needs_splitting = True
-          if element.slices[key] == _EMPTY_SLICE:
-            start_index = 0
-          else:
-            start_index = element.slices[key][0]
           split_points[key] = start_index + available_tokens
           new_tokens_in_buffer[key] = available_tokens
         else:
           # No splitting.
-          split_points[key] = sequence_length
+          split_points[key] = start_index + sequence_length
           new_tokens_in_buffer[key] = sequence_length
 
     if needs_splitting:
-- 
2.43.0


From 13ca1eaef0f145d279ba06dcb8695ea03d3f772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:45 +0000
Subject: [PATCH 34/46] fix: BOS of an empty sequence must not overwrite its
 neighbour

---
 .../python/dataset/transformations/packing_concat_then_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index 61e6017..c6e40e3 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -313,7 +313,7 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
               " ConcatThenSplitPackDatasetIterator."
           )
         values[start:end] = sequence
-        if replace_with_bos:
+        if replace_with_bos and end > start:
           values[start] = self._config.bos_token_id
         if not is_meta_feature:
           assert segment_ids is not None
-- 
2.43.0


From f832beed5205bcb0e9cbc267eafff3d3fc269ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:45 +0000
Subject: [PATCH 35/46] fix: scalars of split elements must not be packed twice

---
 .../dataset/transformations/packing_concat_then_split.py     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index c6e40e3..98552d5 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -182,10 +182,13 @@ class _CtsElement:
 
   def get_sliced_features(self, key: str) -> Mapping[str, Any]:
     feature = self.features[key]
-    if np.ndim(feature) != 0 and key in self.slices:
+    if key in self.slices:
       sl = self.slices[key]
       if sl != _EMPTY_SLICE:
         start, stop = self.slices[key]
+        if np.ndim(feature) == 0:
+          # Scalars are treated as arrays of size 1.
+          feature = np.asarray(feature)[np.newaxis]
         return feature[start:stop]
     return feature
 
-- 
2.43.0


From a1dd5cb43b789f4c9f431c7fc5b9eb83c2bce8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:06 +0000
Subject: [PATCH 36/46] fix: resume TFRecord iterators at the record whose read
 failed, reject next() after close()

---
 grain/_src/python/dataset/sources/tfrecord_dataset.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/grain/_src/python/dataset/sources/tfrecord_dataset.py b/grain/_src/python/dataset/sources/tfrecord_dataset.py
index 5f7561e..486922b 100644
--- a/grain/_src/python/dataset/sources/tfrecord_dataset.py
+++ b/grain/_src/python/dataset/sources/tfrecord_dataset.py
@@ -39,6 +39,15 @@ class _TFRecordReader:
 
   def __next__(self) -> bytes:
     """Reads the next record from the reader."""
+    start = self._reader.tell()
+    try:
+      return self._read_record()
+    except Exception:
+      # The next attempt must not start in the middle of this record.
+      self._reader.seek(start)
+      raise
+
+  def _read_record(self) -> bytes:
     # Read the length and the length mask of the tf_record (uint64 and uint32
     # respectively)
     buf_length_expected = _UNIT64_SIZE_IN_BYTES + _UNIT32_SIZE_IN_BYTES
@@ -86,6 +95,7 @@ class _TFRecordDatasetIterator(dataset.DatasetIterator[T]):
     self._reader = _TFRecordReader(path)
 
   def __next__(self) -> T:
+    self._assert_not_closed()
     return next(self._reader)
 
   def get_state(self) -> dict[str, int]:
-- 
2.43.0


From f6903c4095db3b8d56d274e396b87e3397bb547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:06 +0000
Subject: [PATCH 37/46] fix: keep the position of Parquet iterators when a read
 fails, allow files without row groups

---
 .../python/dataset/sources/parquet_dataset.py | 39 ++++++++++---------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/grain/_src/python/dataset/sources/parquet_dataset.py b/grain/_src/python/dataset/sources/parquet_dataset.py
index 6b31d60..971cec8 100644
--- a/grain/_src/python/dataset/sources/parquet_dataset.py
+++ b/grain/_src/python/dataset/sources/parquet_dataset.py
@@ -42,27 +42,30 @@ class _ParquetDatasetIterator(dataset.DatasetIterator[T]):
       **read_kwargs,
   ):
     super().__init__()
-    self._row_group = row_group
-    self._index_within_row_group = index_within_row_group
     self._pq_path = path
     self._pq_file = pq.ParquetFile(self._pq_path, **read_kwargs)
-    self._np_table = {}
-    self._row_group_len = 0
-    self._read_row_group_to_np_table()
-
-  def _read_row_group_to_np_table(self):
-    table = self._pq_file.read_row_group(self._row_group)
-    self._row_group_len = len(table)
-    self._np_table = {}
-    for i in range(table.num_columns):
-      self._np_table[table.field(i).name] = table.column(i).to_numpy()
+    self._read_row_group_to_np_table(row_group, index_within_row_group)
+
+  def _read_row_group_to_np_table(self, row_group: int, index: int):
+    """Moves to a row of a row group; a failed read leaves the position as is."""
+    np_table = {}
+    row_group_len = 0
+    # Files without rows may have no row group at all.
+    if row_group < self._pq_file.num_row_groups:
+      table = self._pq_file.read_row_group(row_group)
+      row_group_len = len(table)
+      for i in range(table.num_columns):
+        np_table[table.field(i).name] = table.column(i).to_numpy()
+    self._np_table = np_table
+    self._row_group_len = row_group_len
+    self._row_group = row_group
+    self._index_within_row_group = index
 
   def __next__(self):
+    self._assert_not_closed()
     if self._index_within_row_group >= self._row_group_len:
       if self._row_group < self._pq_file.num_row_groups - 1:
-        self._row_group += 1
-        self._index_within_row_group = 0
-        self._read_row_group_to_np_table()
+        self._read_row_group_to_np_table(self._row_group + 1, 0)
         return self.__next__()
       else:
         raise StopIteration()
@@ -80,9 +83,9 @@ class _ParquetDatasetIterator(dataset.DatasetIterator[T]):
     }
 
   def set_state(self, state):
-    self._row_group = state["row_group"]
-    self._index_within_row_group = state["index_within_row_group"]
-    self._read_row_group_to_np_table()
+    self._read_row_group_to_np_table(
+        state["row_group"], state["index_within_row_group"]
+    )
 
 
 class ParquetIterDataset(dataset.IterDataset[T]):
-- 
2.43.0


From 82dd1dc3376633f2f7776c1787c65ce397d6b291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:06 +0000
Subject: [PATCH 38/46] fix: end interleave over no datasets, e.g. for workers
 without a file

---
 grain/_src/python/dataset/transformations/interleave.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 8442cf5..8c0f45a 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -100,6 +100,9 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     self._started = True
     timer = stats.Timer()
     _ = self._stats  # eagerly initialize stats
+    if not self._cycle_length:
+      # There are no datasets, e.g. more workers than files.
+      raise StopIteration
     while True:
       if iterator_to_use := self._iterators_in_use[self._next_index_in_cycle]:
         try:
-- 
2.43.0


From c521742dc78f7e60da59f5322f690dc8a546889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:06 +0000
Subject: [PATCH 39/46] fix: keep the elements of a shuffle window that is
 incomplete because of an error

---
 .../python/dataset/transformations/shuffle.py | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/shuffle.py b/grain/_src/python/dataset/transformations/shuffle.py
index a605b6c..0aafde8 100644
--- a/grain/_src/python/dataset/transformations/shuffle.py
+++ b/grain/_src/python/dataset/transformations/shuffle.py
@@ -206,40 +206,46 @@ class _WindowShuffleDatasetIterator(dataset.DatasetIterator[T]):
     self._window_index: int = 0
     self._pos_in_window = 0
     self._window: list[T] = []
+    # Elements of a window that is not complete, e.g. because of an error in the
+    # parent, or `None` if no window is being filled.
+    self._incomplete_window: list[T] | None = None
     self._parent_window_start_iter_state = self._parent.get_state()
     self._parent_exhausted = False
 
   def _fill_and_shuffle_window(self):
     # Window should be empty at this point.
-    self._window = []
+    window = self._incomplete_window
     try:
-      for _ in range(self._window_size):
-        self._window.append(next(self._parent))
+      while len(window) < self._window_size:
+        window.append(next(self._parent))
     except StopIteration:
       # End of the parent iterator, nothing else to process.
       self._parent_exhausted = True
+    self._incomplete_window = None
     self._window = _reshuffle_window(
-        window=self._window,
+        window=window,
         # index_shuffle expects a 32-bit seed.
         seed=(self._global_seed + self._window_index) % 2**32,
     )
+    # Removed previously processed elements from the window.
+    for _ in range(min(self._pos_in_window, len(self._window))):
+      self._window.pop()
 
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
     self._assert_not_closed()
     # Window is empty, fill up the next window.
-    if not self._window:
+    while not self._window:
       if self._parent_exhausted:
         raise StopIteration
-      # Checkpoints require reshuffling the window regardless the progress
-      # within it. Store the parent window start.
-      self._parent_window_start_iter_state = self._parent.get_state()
+      if self._incomplete_window is None:
+        # Checkpoints require reshuffling the window regardless the progress
+        # within it. Store the parent window start.
+        self._parent_window_start_iter_state = self._parent.get_state()
+        self._incomplete_window = []
+        self._pos_in_window = 0
       self._fill_and_shuffle_window()
-      self._pos_in_window = 0
-    # If the window is empty after reshuffling means no elements are left.
-    if not self._window:
-      raise StopIteration
     self._pos_in_window += 1
     result = self._window.pop()
     if not self._window:
@@ -263,10 +269,9 @@ class _WindowShuffleDatasetIterator(dataset.DatasetIterator[T]):
     self._window_index = state["window_index"]
     self._pos_in_window = state["pos_in_window"]
     self._parent_exhausted = False
+    self._window = []
+    self._incomplete_window = []
     self._fill_and_shuffle_window()
-    # Removed previously processed elements from the window.
-    for _ in range(min(self._pos_in_window, len(self._window))):
-      self._window.pop()
 
   def __str__(self) -> str:
     return "WindowShuffleDatasetIterator"
-- 
2.43.0


From 7041796bdad66544833cb921be79ec12fc6d0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:06 +0000
Subject: [PATCH 40/46] fix: restart the epoch after a failed attempt in
 RepeatIterDataset

---
 .../python/dataset/transformations/repeat.py    | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/repeat.py b/grain/_src/python/dataset/transformations/repeat.py
index 050098b..5f84b56 100644
--- a/grain/_src/python/dataset/transformations/repeat.py
+++ b/grain/_src/python/dataset/transformations/repeat.py
@@ -96,6 +96,8 @@ class _RepeatDatasetIterator(dataset.DatasetIterator[T]):
     self._num_epochs = num_epochs
     self._epoch = 0
     self._parent_starting_state = self._parent.get_state()
+    # Whether the parent has to be set to its starting state first.
+    self._restart_parent = False
     # Check for ProcessPrefetchDatasetIterator and InterleaveDatasetIterator and
     # ensure processes/iterators are not reset on StopIteration. This is needed
     # to avoid recreating the worker processes on each epoch.
@@ -116,6 +118,10 @@ class _RepeatDatasetIterator(dataset.DatasetIterator[T]):
     if self._epoch == self._num_epochs:
       raise StopIteration
     while True:
+      if self._restart_parent:
+        with timer:
+          self._parent.set_state(self._parent_starting_state)
+          self._restart_parent = False
       try:
         elem = next(self._parent)
         with self._stats.record_self_time(offset_ns=timer.value()):
@@ -126,14 +132,21 @@ class _RepeatDatasetIterator(dataset.DatasetIterator[T]):
           if self._num_epochs is not None and self._epoch == self._num_epochs:
             raise StopIteration from exc
           else:
-            self._parent.set_state(self._parent_starting_state)
+            # If it fails, the next attempt has to start over.
+            self._restart_parent = True
 
   def get_state(self):
-    return {"parent": self._parent.get_state(), "epoch": self._epoch}
+    parent_state = (
+        self._parent_starting_state
+        if self._restart_parent
+        else self._parent.get_state()
+    )
+    return {"parent": parent_state, "epoch": self._epoch}
 
   def set_state(self, state):
     self._epoch = state["epoch"]
     self._parent.set_state(state["parent"])
+    self._restart_parent = False
 
   def __str__(self) -> str:
     return f"_RepeatDatasetIterator(num_epochs={self._num_epochs})"
-- 
2.43.0


From dd889e3802519318cf8532e292e0912ef3333ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:06 +0000
Subject: [PATCH 41/46] fix: rebuild the in-memory cache completely after an
 error in the parent

---
 grain/_src/python/dataset/transformations/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/cache.py b/grain/_src/python/dataset/transformations/cache.py
index 82b38c3..7ff80fc 100644
--- a/grain/_src/python/dataset/transformations/cache.py
+++ b/grain/_src/python/dataset/transformations/cache.py
@@ -74,11 +74,12 @@ class _InMemoryCacheDatasetIterator(dataset.DatasetIterator[T]):
       with timer:
         self._parent.set_state(self._starting_state)
         self._cache = []
-        self._rebuild_cache = False
       for _ in range(self._position):
         val = next(self._parent)
         with timer:
           self._cache.append(val)
+      # If an element failed, the next attempt has to start over.
+      self._rebuild_cache = False
     try:
       val = next(self._parent)
       with self._stats.record_self_time(offset_ns=timer.value()):
-- 
2.43.0


From 9ae6ed2d9a9283f21a170ed4d258634ba45fe257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:52 +0000
Subject: [PATCH 42/46] fix: restart a dataset of an interleave whose saved
 state could not be set

---
 .../dataset/transformations/interleave.py     | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 8c0f45a..0c23149 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -161,23 +161,27 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
             next(self._prefetch_ds_iter).close()
             self._next_index_in_datasets += 1
             continue
-          self._iterators_in_use[self._next_index_in_cycle] = next(
-              self._prefetch_ds_iter
-          )
+          iterator = next(self._prefetch_ds_iter)
+          # For elastic iterators, we might have a future state saved for this
+          # dataset iterator from which to resume from.
+          if self._next_index_in_datasets in self._future_states:
+            try:
+              iterator.set_state(
+                  self._future_states[self._next_index_in_datasets]
+              )
+            except BaseException:
+              # The next attempt has to create the iterator again.
+              iterator.close()
+              self._prefetch_ds_iter.set_state(
+                  {"next_index": self._next_index_in_datasets}
+              )
+              raise
+            del self._future_states[self._next_index_in_datasets]
+          self._iterators_in_use[self._next_index_in_cycle] = iterator
           self._exhausted_iterator_state[self._next_index_in_cycle] = None
           self._iterators_in_use_indices[self._next_index_in_cycle] = (
               self._next_index_in_datasets
           )
-          # For elastic iterators, we might have a future state saved for this
-          # dataset iterator from which to resume from.
-          if (
-              self._next_index_in_datasets in self._future_states
-              and self._iterators_in_use[self._next_index_in_cycle]
-          ):
-            future_state = self._future_states.pop(self._next_index_in_datasets)
-            self._iterators_in_use[self._next_index_in_cycle].set_state(
-                future_state
-            )
           self._next_index_in_datasets += 1
         elif not any(self._iterators_in_use):
           raise StopIteration
-- 
2.43.0


From 588c28944039006fc0051c2a0b7ebb304cf8df61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:46 +0000
Subject: [PATCH 43/46] fix: keep the elements produced before a worker of
 ProcessPrefetch failed

---
 grain/_src/python/dataset/transformations/process_prefetch.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 88f3752..0081d01 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -325,7 +325,6 @@ def _put_dataset_elements_in_buffer(
         # block reference that has to be cleaned up.
         shared_memory_array.unlink_shm(element)
   except Exception as e:  # pylint: disable=broad-except
-    _clear_queue_and_maybe_unlink_shm(buffer)
     _clear_queue_and_maybe_unlink_shm(set_state_queue)
     grain_queue.add_element_to_queue(  # pytype: disable=wrong-arg-types
         (
-- 
2.43.0


From fe25d1fc3aec1b5c75cb680a84f0c0c9a33ebb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:24 +0000
Subject: [PATCH 44/46] fix: iterators must not share the batch of
 PackAndBatchOperation

A second iterator with the same operation continued with the last batch of the first; an empty input raised AttributeError.
---
 .../experimental/example_packing/packing.py   | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/grain/_src/python/experimental/example_packing/packing.py b/grain/_src/python/experimental/example_packing/packing.py
index 6f2df2e..043c422 100644
--- a/grain/_src/python/experimental/example_packing/packing.py
+++ b/grain/_src/python/experimental/example_packing/packing.py
@@ -15,7 +15,7 @@ can't be added, we construct a new batch to which the element is added.
 """
 
 import dataclasses
-from typing import Any, Generic, Iterator, TypeVar, Union, cast
+from typing import Any, Generic, Iterator, TypeVar, cast
 
 from absl import logging
 from grain._src.core import tree_lib
@@ -202,8 +202,6 @@ class PackAndBatchOperation(Generic[_T]):
   length_struct: Any  # PyTree[int]
   batch_size: int
   max_sequences_per_bin: int | None = None
-  # We don't know input shapes and corresponding buffer shapes until __call__.
-  _cur_batch: Union[_PackedBatch, None] = None
 
   def __post_init__(self):
     logging.error(
@@ -214,10 +212,13 @@ class PackAndBatchOperation(Generic[_T]):
   def __call__(
       self, input_iterator: Iterator[record.Record[_T]]
   ) -> Iterator[record.Record[tuple[_T, _T, _T]]]:
+    # We don't know input shapes and corresponding buffer shapes until the first
+    # element. Iterators do not share the batch, they may use the same operation.
+    cur_batch = None
     for element in input_iterator:
       # Use `element` to set dtypes + trailing dimensions.
-      if self._cur_batch is None:  # pytype: disable=attribute-error
-        self._cur_batch = _PackedBatch(
+      if cur_batch is None:
+        cur_batch = _PackedBatch(
             element.data,
             self.batch_size,
             self.length_struct,
@@ -225,19 +226,20 @@ class PackAndBatchOperation(Generic[_T]):
         )
 
       # Try adding element to the current packed batch.
-      element_added_to_batch = self._cur_batch.try_add_to_batch(element)
+      element_added_to_batch = cur_batch.try_add_to_batch(element)
 
       # When we have a full batch, yield the current packed data,
       # and then start a new batch with this element.
       if not element_added_to_batch:
-        yield self._cur_batch.get_packed_batch()  # Main yield
-        self._cur_batch = _PackedBatch(
+        yield cur_batch.get_packed_batch()  # Main yield
+        cur_batch = _PackedBatch(
             element.data,
             self.batch_size,
             self.length_struct,
             self.max_sequences_per_bin,
         )
-        self._cur_batch.try_add_to_batch(element)
+        cur_batch.try_add_to_batch(element)
 
     # Final batch
-    yield self._cur_batch.get_packed_batch()
+    if cur_batch is not None:
+      yield cur_batch.get_packed_batch()
-- 
2.43.0


From a4f65120a4a7fe9bac803f6abcb8cf5d740d8b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:04 +0000
Subject: [PATCH 45/46] fix: continue reporting statistics after an idle period

The reporting threads end when no element has been processed for two minutes
and were never started again: the execution summary stopped at that point and
the buffers of recorded times grew without bound.
---
 grain/_src/python/dataset/stats.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/dataset/stats.py b/grain/_src/python/dataset/stats.py
index 70719e5..783f21d 100644
--- a/grain/_src/python/dataset/stats.py
+++ b/grain/_src/python/dataset/stats.py
@@ -861,8 +861,28 @@ class _ExecutionStats(_VisualizationStats):
   def _should_report(self):
     return time.time() - self._last_update_time < _REPORTING_TIMEOUT_SEC
 
+  def _stop_reporting(self) -> bool:
+    """Lets the next processed element start a new reporting thread.
+
+    Returns whether the calling reporting thread should end, it should not if
+    an element was processed in the meantime.
+    """
+    with self._reporting_thread_init_lock:
+      if self._should_report():
+        return False
+      self._reporting_thread = None
+      return True
+
+  def _stop_dispatching_summary(self) -> bool:
+    """Same as `_stop_reporting` for the summary dispatcher thread."""
+    with self._summary_dispatcher_thread_init_lock:
+      if self._should_report():
+        return False
+      self._summary_dispatcher_thread = None
+      return True
+
   def _reporting_loop(self):
-    while self._should_report():
+    while self._should_report() or not self._stop_reporting():
       time.sleep(_REPORTING_PERIOD_SEC)
       # A node can be marked as non-output after the corresponding
       # transformation started processing elements -- we do not control the
@@ -878,7 +898,7 @@ class _ExecutionStats(_VisualizationStats):
       raise ValueError(
           "Worker failed to report summary, `stats_out_queue` is None"
       )
-    while self._should_report():
+    while self._should_report() or not self._stop_dispatching_summary():
       time.sleep(_REPORTING_PERIOD_SEC)
       try:
         stats_queue.put(self._get_execution_summary())
@@ -890,7 +910,7 @@ class _ExecutionStats(_VisualizationStats):
 
   def _logging_execution_summary_loop(self) -> None:
     """Logs the execution summary periodically."""
-    while self._should_report():
+    while self._should_report() or not self._stop_dispatching_summary():
       time.sleep(_LOG_EXECUTION_SUMMARY_PERIOD_SEC)
       # A node can be marked as non-output after the corresponding
       # transformation started processing elements -- we do not control the
-- 
2.43.0


From bd6ea7a678b3f0a5ba229cf66fdf669459c62654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:04 +0000
Subject: [PATCH 46/46] fix: count elements processed before the first one is
 returned

The statistics of an iterator were initialized after its parents had processed
the first elements, which replaced the statistics of the parents and lost what
they had counted.
---
 grain/_src/python/dataset/stats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/stats.py b/grain/_src/python/dataset/stats.py
index 783f21d..fb720a8 100644
--- a/grain/_src/python/dataset/stats.py
+++ b/grain/_src/python/dataset/stats.py
@@ -318,9 +318,12 @@ def record_next_duration_if_output(next_fn):
 
   @functools.wraps(next_fn)
   def wrapper(iterator, *args, **kwargs):
+    # Initializing the statistics replaces those of the parents, which has to
+    # happen before the parents process any elements.
+    iterator_stats = iterator._stats  # pylint:disable=protected-access
     start_time = time.perf_counter_ns()
     result = next_fn(iterator, *args, **kwargs)
-    if iterator._stats._is_output:  # pylint:disable=protected-access
+    if iterator_stats._is_output:  # pylint:disable=protected-access
       next_duration_ns = time.perf_counter_ns() - start_time
       _next_duration_ns_histogram.Record(next_duration_ns)
     return result
-- 
2.43.0

