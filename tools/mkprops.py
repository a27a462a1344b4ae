"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json
import os
import sys

D = "grain/_src/python/dataset/"
T = D + "transformations/"
IPC = "grain/_src/python/ipc/"
P = []


def p(id_, title, statement, over, text, why, files, mech, state=(), observe=(),
      hook=None):
  assert len(title) <= 80, title
  P.append({
      "id": id_, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {
          "files": files,
          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
          "observe_at": list(observe) or ["DatasetIterator.__next__"],
          "hook_needed": hook}})


p("P01", "Output of a pipeline does not depend on scheduling or speed",
  "Iterating a pipeline yields exactly the documented sequence of elements - "
  "every surviving element once, in the defined order, then StopIteration, and "
  "again StopIteration afterwards - whatever the interleaving of the reader "
  "threads, prefetch threads, interleave threads and worker processes, and "
  "however slow individual reads and user functions are.",
  ["schedules", "programs", "inputs"],
  "All pipelines over the public MapDataset and IterDataset transformations, "
  "all thread interleavings, all delays of user code, stalls of threads and "
  "jumps of the wall clock.",
  "Unit tests run each stage once under the OS scheduler with fast functions; "
  "the races of buffers that drain, refill and end while a stage is closed or "
  "extended are not reached, and combinations of stages are sampled sparsely.",
  [T + f for f in ("prefetch.py", "process_prefetch.py", "interleave.py",
                   "batch.py", "filter.py", "map.py", "flatmap.py", "mix.py",
                   "rebatch.py", "repeat.py", "limit.py", "shuffle.py",
                   "zip.py", "cache.py", "slice.py", "source.py")] +
  [D + "dataset.py"],
  [("ordered deque of futures, refilled before it is drained",
    T + "prefetch.py: PrefetchDatasetIterator"),
   ("single producer thread and a queue whose entries carry the state",
    T + "prefetch.py: ThreadPrefetchDatasetIterator"),
   ("round robin over a fixed cycle of slots", T + "interleave.py"),
   ("one ordered queue per worker", T + "process_prefetch.py")])

p("P02", "Checkpoints restore exactly",
  "A state captured at any moment of an iteration and restored at any later "
  "moment - into the same iterator, in whatever condition it is, into a new "
  "iterator of the same pipeline, directly or after a JSON round trip, once or "
  "many times - makes the iterator produce exactly the elements that followed "
  "the capture, none lost, none repeated, none changed.",
  ["programs", "histories", "schedules", "inputs"],
  "All pipelines, all programs of advances, captures, restores and prefetch "
  "starts on several iterators, all interleavings with the background threads "
  "and processes.",
  "Tests capture and restore at rest, mostly each state once into a fresh or "
  "unstarted iterator of a one-stage pipeline.",
  [T + f for f in ("prefetch.py", "process_prefetch.py", "interleave.py",
                   "flatmap.py", "packing.py", "packing_concat_then_split.py",
                   "rebatch.py", "repeat.py", "shuffle.py", "cache.py",
                   "mix.py", "zip.py", "batch.py", "filter.py", "limit.py")],
  [("state travels with each buffered element", T + "prefetch.py"),
   ("set_state resets buffers and restarts the producer", T + "prefetch.py"),
   ("state recorded by the worker with each element, replay in the worker on "
    "set_state", T + "process_prefetch.py"),
   ("future states of unopened iterators", T + "interleave.py")],
  observe=["DatasetIterator.get_state", "DatasetIterator.set_state",
           "DatasetIterator.__next__"])

p("P03", "Captured states are immutable, pure and JSON serialisable values",
  "Capturing a state never changes what the iterator returns and gives the "
  "same value when repeated without an advance; a captured state never changes "
  "afterwards, whatever is done with any iterator, including restoring that "
  "very state; every state can be written as JSON.",
  ["programs", "histories", "schedules"],
  "All pipelines and all points of an iteration including before the first and "
  "after the last element.",
  "An aliased buffer or list inside a state shows only when the state is kept "
  "while the iterator moves on, which tests that restore at once do not do.",
  [T + f for f in ("interleave.py", "flatmap.py", "packing.py",
                   "packing_concat_then_split.py", "rebatch.py", "prefetch.py",
                   "process_prefetch.py", "mix.py", "zip.py", "shuffle.py",
                   "repeat.py", "cache.py")],
  [("copies of nested states", T + "interleave.py: get_state"),
   ("counters instead of live objects", T + "packing.py")],
  observe=["DatasetIterator.get_state"])

p("P04", "Multiprocess prefetch is transparent",
  "Wrapping a pipeline in multiprocess prefetch changes neither its elements "
  "nor their contents: with one worker the sequence is that of the unwrapped "
  "pipeline, with n workers it is the round robin of the n worker shards, with "
  "0 workers it is the pipeline itself, and checkpoints taken or restored "
  "while workers run ahead stay exact.",
  ["configurations", "schedules", "programs"],
  "All numbers of workers, buffer sizes, sequential and strided slicing, "
  "worker init functions, multithread prefetch, bursts of restores with "
  "requests in flight, slow workers and slow queues.",
  "Process tests take seconds each, so a handful of timings is ever seen; "
  "the race of a restore with elements already in flight needs an exact one.",
  [T + "process_prefetch.py", T + "prefetch.py", T + "source.py",
   T + "interleave.py", "grain/_src/python/grain_logging.py"],
  [("request counter distinguishing elements before and after a set_state",
    T + "process_prefetch.py"),
   ("slices pushed to the sources", T + "prefetch.py: "
    "MultiprocessPrefetchIterDataset")])

p("P05", "Death of a worker process is reported and never corrupts the output",
  "If a worker process dies at any instant, by any signal or exit code, the "
  "consumer gets either the remaining correct elements or an exception within "
  "a bounded time - never a hang, a wrong, repeated or skipped element, or a "
  "premature end - and afterwards the last captured state restores exactly in "
  "a new iterator or, once restored, in the same one.",
  ["crash_points", "schedules", "fault_sequences"],
  "All instants of worker death including inside user code, while it holds "
  "shared locks, during start, during set_state and shutdown.",
  "Tests kill one idle worker once.",
  [T + "process_prefetch.py"],
  [("liveness check of the worker while waiting", T + "process_prefetch.py"),
   ("fresh IPC primitives for a replacement worker",
    T + "process_prefetch.py: _create_ipc_primitives")],
  observe=["DatasetIterator.__next__", "DatasetIterator.set_state"])

p("P06", "Exceptions of user code surface at their position and nothing else is lost",
  "An exception raised by a data source or a user function is re-raised by "
  "next() with its type and message exactly after all elements that precede "
  "it, whichever thread or process it was raised in; it never turns into an "
  "end of iteration, a hang or a skipped element (an exception that cannot be "
  "pickled arrives from a worker process as one carrying its type and message; "
  "an element that cannot be sent between processes is reported as an error).  "
  "Restoring a state captured before the error continues exactly, and a read "
  "of a source that failed transiently can be retried by next() without losing "
  "its position.",
  ["inputs", "fault_sequences", "schedules"],
  "All pipelines, positions, exception types (including queue.Empty, "
  "TimeoutError and exceptions that do not survive pickling), transient and "
  "permanent, with every interleaving.",
  "Tests raise from the first element of single-stage pipelines.",
  [T + "prefetch.py", T + "process_prefetch.py", T + "interleave.py",
   T + "map.py", T + "filter.py", T + "batch.py", D + "dataset.py"],
  [("exceptions travel through the buffers in order", T + "prefetch.py"),
   ("exceptions pickled through the worker queue", T + "process_prefetch.py")])

p("P07", "close() and interpreter exit always finish and leave nothing running",
  "close() - at any moment, repeated, after a failure, with slow, stalled or "
  "dead workers - returns in bounded time; afterwards advancing raises "
  "ValueError, and no worker process or prefetch thread of the iterator stays "
  "alive.  Dropping an iterator or exiting the interpreter with iterators open "
  "finishes in bounded time and leaves no worker process behind either.",
  ["programs", "schedules", "fault_sequences"],
  "All pipelines and moments, including full buffers, blocked producers, a "
  "pending restore, worker start-up and several open iterators.",
  "A blocked producer at the moment of close needs an exact interleaving; "
  "tests close idle pipelines.",
  [T + "prefetch.py", T + "process_prefetch.py", T + "interleave.py",
   D + "dataset.py", D + "elastic_iterator.py"],
  [("stop flag checked by producers that time out on full queues",
    T + "prefetch.py"),
   ("join with timeout, then kill", T + "process_prefetch.py"),
   ("weak reference and atexit hooks", T + "process_prefetch.py")],
  observe=["DatasetIterator.close", "DatasetIterator.__next__",
           "live processes and threads"])

p("P08", "Shared memory elements are intact and leave no segment behind",
  "Arrays that travel from workers through shared memory are equal, in value, "
  "shape and type, to what the pipeline computed, stay valid and unchanged for "
  "as long as the consumer holds them or a view of them, even after the "
  "iterator is closed, and once all of them have been dropped and the iterator "
  "was drained or closed with live workers no shared memory segment remains, "
  "and no file descriptor was closed twice.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "All element structures and array types (mixed, empty, strided, structured), "
  "min_shm_size, batching into shared memory, direct iteration of the same "
  "dataset, numbers of held elements, release orders, reference cycles, "
  "restores that discard elements in flight, close at any moment, and failures "
  "to allocate shared memory in a worker.",
  "Tests check one array; reuse or early unlink of a segment shows only when "
  "an element is held across later ones.",
  [IPC + "shared_memory_array.py", T + "process_prefetch.py", T + "batch.py",
   T + "source.py"],
  [("segment unlinked when the last view is dropped",
    IPC + "shared_memory_array.py"),
   ("copy_to_shm / open_from_shm / unlink_shm", T + "process_prefetch.py")],
  observe=["array contents over time", "POSIX shared memory namespace"])

p("P09", "Read-ahead is bounded by the configured buffers",
  "The number of elements a pipeline has read or computed ahead of the consumer "
  "never exceeds what its options allow: nothing before the first next() "
  "unless prefetching was started explicitly, at most the prefetch buffer per "
  "reader, buffer size plus one per prefetch thread, twice that per worker "
  "process, and the datasets of the cycle and the make-iterator buffer per "
  "interleave.  At most the configured number of threads is ever inside the "
  "source or the functions at once, an idle consumer finds the buffers filled, and "
  "reading stops after close().",
  ["schedules", "configurations", "programs"],
  "All buffer sizes, thread counts, stage combinations, slow consumers and "
  "restores.",
  "Tests look at values, hardly ever at how far a producer ran ahead while "
  "the consumer sleeps.",
  [T + "prefetch.py", T + "process_prefetch.py", T + "interleave.py"],
  [("bounded deque and queues", T + "prefetch.py"),
   ("bounded multiprocessing queue", T + "process_prefetch.py")],
  observe=["calls into the source and user functions"])

p("P10", "Resizable queues keep order, lose nothing and respect their limit",
  "A variable-size queue (between threads or processes) delivers every item "
  "whose put succeeded exactly once and per producer in order, never holds "
  "more items than its current limit except for the surplus present when the "
  "limit was lowered, and once the limit is raised or items are taken, blocked "
  "putters proceed; a put or get with timeout returns in time.",
  ["schedules", "programs"],
  "All programs of puts, gets, timeouts and resizes by several threads and "
  "processes.",
  "Tests resize while nothing else happens.",
  [IPC + "variable_size_queue.py", IPC + "queue.py"],
  [("condition notified on growth", "variable_size_queue.py"),
   ("semaphore released or pending shrink", "variable_size_queue.py")],
  observe=["put, get, qsize, set_max_size"])

p("P11", "Elastic re-sharding processes every element exactly once",
  "When an elastic job is checkpointed and resumed with a different number of "
  "shards, at any step and any number of times, the elements returned over "
  "its whole history by all shards together are exactly those of the "
  "pipeline, each once, and every shard's batches keep their documented "
  "contents.",
  ["histories", "configurations", "schedules"],
  "All sequences of shard counts, steps taken by each shard, dataset lengths "
  "not divisible by them, and checkpoints written after steps or at the end.",
  "Tests re-shard once between two fixed counts.",
  [D + "elastic_iterator.py", T + "interleave.py"],
  [("global index in the state", D + "elastic_iterator.py"),
   ("per-shard states distributed over iterators",
    T + "interleave.py: set_shard_states")],
  observe=["ElasticIterator.__next__/get_state/set_state"])

p("P12", "DataLoader yields each record its sampler defines exactly once",
  "Across all shards and worker processes a DataLoader produces exactly the "
  "records its sampler defines - each record of an epoch once, transformed in "
  "the order of the operations, the workers taking turns - for every worker "
  "count, buffer size, thread count and drop_remainder choice; a state "
  "captured anywhere restores exactly; several iterators of one loader do not "
  "influence each other; a state of a different worker count, or "
  "of a sampler or data source with a different representation, is rejected "
  "and leaves the iterator as it was.",
  ["configurations", "programs", "schedules"],
  "All samplers, shard options, worker counts, operations and checkpoint "
  "programs.",
  "Tests fix one or two worker counts and checkpoint at one position.",
  ["grain/_src/python/data_loader.py", "grain/_src/python/samplers.py",
   "grain/_src/core/sharding.py", "grain/_src/python/load.py",
   "grain/_src/python/operations.py",
   "grain/_src/python/experimental/example_packing/packing.py"],
  [("strided indices per shard and worker",
    "data_loader.py: _SamplerMapDataset"),
   ("conversion between loader and pipeline state",
    "data_loader.py: _DataLoaderStateDatasetIterator")],
  observe=["DataLoaderIterator.__next__/get_state/set_state"])

p("P13", "A completed checkpoint save is durable, exact and restorable",
  "Once saving an iterator's state has completed without error, loading it - "
  "by another process, after a host crash of the writer that follows the "
  "documented commit - restores exactly the state at the moment save was "
  "called, even if the iterator kept moving while the save ran; per-process "
  "files never mix up processes; a missing or damaged file gives an error, "
  "never a silently different position, and the iterator of such a failed load "
  "continues where it was.",
  ["crash_points", "fault_sequences", "schedules"],
  "All write errors, short and torn writes, crashes at any I/O step, "
  "concurrent saves of several processes, and advances during background "
  "saves and loads.",
  "Tests save and load on a healthy disk with nothing else running.",
  ["grain/_src/python/checkpoint/handler.py",
   "grain/_src/python/checkpoint/base.py",
   "grain/_src/python/checkpoint/elastic_checkpoint.py",
   D + "dataset.py", "grain/_src/python/data_loader.py"],
  [("state captured before the coroutine is returned",
    D + "dataset.py: DatasetIterator.save"),
   ("file name derived from process index and count",
    "checkpoint/handler.py")],
  observe=["files", "iterator position after load"])

p("P14", "Read parameters never change the output",
  "Changing the number of read threads or the size of the prefetch buffer - by "
  "the autotuning hooks while iterating, or between capturing a state and "
  "restoring it in a pipeline with other thread counts and buffer sizes - "
  "neither loses, repeats nor reorders elements; parameters chosen by "
  "pick_performance_config stay within the limits it is given and do not "
  "change the output either.",
  ["configurations", "schedules", "programs"],
  "All values including 0 and shrinking below the present fill, at any moment.",
  "Tests retune at rest and check only the final list.",
  [T + "prefetch.py", T + "prefetch_autotune.py", T + "interleave.py"],
  [("executor swapped under the buffer",
    T + "prefetch.py: PrefetchDatasetIterator._set_num_threads"),
   ("set_prefetch_buffer_size", T + "prefetch.py")])

p("P15", "Interleave round-robins over at most cycle_length open iterators",
  "Interleaving datasets returns each element of each dataset exactly once, in "
  "round robin order over at most cycle_length open datasets with exhausted "
  "ones replaced in order; unless opening one fails, no more datasets are open "
  "than the cycle plus the make-iterator buffer, and each dataset's iterator is "
  "closed once it is exhausted; a failure to open a dataset or to capture a "
  "state changes nothing about what comes next; and all of it holds from every "
  "restored state and under every interleaving of its background threads.",
  ["schedules", "inputs", "programs"],
  "All numbers of datasets including empty ones, cycle lengths, thread counts "
  "and buffer sizes; captures and restores at every position.",
  "Tests compare output of a few fixed sizes under one schedule.",
  [T + "interleave.py"],
  [("slots and a prefetched supply of started iterators",
    T + "interleave.py")])

p("P16", "Random transforms are reproducible",
  "The randomness given to a random transform depends only on the seed and the "
  "element's position, so outputs are identical in every run, under every "
  "thread and process interleaving, for random access in any order, after "
  "retries and after restoring; different positions, and different seeds, get "
  "different streams.",
  ["schedules", "programs", "inputs"],
  "All seeds, positions, orders of access, concurrent accesses from several "
  "threads (which share pooled generators) and restores.",
  "A generator leaking between two threads needs two calls overlapping inside "
  "the user function.",
  [D + "base.py", D + "dataset.py", T + "map.py", T + "shuffle.py"],
  [("pooled generators reset to (seed, position)", D + "dataset.py: RngPool"),
   ("position counter in the iterator state", T + "map.py")])

p("P17", "Shuffles are permutations and windows bound the displacement",
  "Shuffling returns every element exactly once per epoch, an identical order "
  "for an identical seed and different orders for different epochs; a windowed "
  "shuffle moves no element out of its window; this holds when read by many "
  "threads in any order, across repeats and for every restored position.",
  ["inputs", "schedules", "programs"],
  "All lengths, seeds, windows, epochs, access orders, interleavings and "
  "captures.",
  "Tests check a few lengths sequentially.",
  [T + "shuffle.py", "grain/_src/python/experimental/index_shuffle"],
  [("stateless permutation by index", "experimental/index_shuffle"),
   ("window buffer refilled from the parent", T + "shuffle.py")])

p("P18", "Mixtures keep component order and proportions",
  "A mixture interleaves its components so that each component's elements "
  "appear in their own order, no element is lost or repeated before the "
  "mixture ends, and in every prefix the share of each component differs from "
  "its weight (kept to two decimals) by less than one element per component; a weighted mixture ends "
  "with its shortest component (relative to its weight), concatenation and "
  "selection maps return exactly the selected elements, and a strict zip of "
  "components of different lengths ends with an error at their first "
  "difference; random access, batched "
  "reads, iteration with many threads, retries after an error and restores all "
  "agree.",
  ["inputs", "schedules", "programs"],
  "All numbers of components, weights, lengths, selection maps, "
  "interleavings, errors, captures and restores.",
  "Tests use two or three fixed weights.",
  [T + "mix.py", T + "zip.py"],
  [("deterministic selection by accumulated weight", T + "mix.py")])

p("P19", "Batching and packing conserve every token",
  "Batching, re-batching, first-fit and best-fit packing and concat-then-split "
  "return every row or token of every input exactly once, unmodified, in the "
  "documented order, in outputs of the documented shape, with segment ids and "
  "positions that reconstruct the inputs - for several features of different "
  "lengths at once, under every interleaving, and when captured and restored "
  "at every output.",
  ["inputs", "programs", "schedules"],
  "All lengths (shorter, equal to and longer than the target), features, bin "
  "counts, drop_remainder choices and restore points.",
  "Tests compare a few hand written examples.",
  [T + "batch.py", T + "rebatch.py", T + "packing.py",
   T + "packing_packed_batch.py", T + "packing_concat_then_split.py"],
  [("packed batch with segment ids", T + "packing_packed_batch.py"),
   ("remainders carried in the state", T + "packing_concat_then_split.py")])

p("P20", "Random access is consistent under concurrency",
  "Indexing a MapDataset from any number of threads at once returns, for each "
  "index, the same element as a sequential access, in any order and number of "
  "times, including datasets with random, windowed, mixed and filtered stages, "
  "and never raises because of another thread.",
  ["schedules", "programs", "inputs"],
  "All map pipelines, thread counts, orders of access and interleavings.",
  "Tests index from one thread.",
  [D + "dataset.py", T + "map.py", T + "shuffle.py", T + "mix.py",
   T + "filter.py", T + "source.py", D + "stats.py"],
  [("stateless computation by index", T + "map.py"),
   ("generator pool with a lock", D + "dataset.py: RngPool")],
  observe=["MapDataset.__getitem__"])

p("P21", "Instrumentation never changes the output",
  "Debug mode, execution tracking, output element-spec checks, profiling and "
  "stats reporting change neither the elements, their order, the states nor "
  "the termination of a pipeline, whatever the interleaving of the reporting "
  "threads with the pipeline. While execution tracking is on, the execution "
  "summary counts every element a stage processes from the first call of "
  "next on exactly once, within "
  "seconds of its processing, however long the iteration has paused and "
  "whether it runs for seconds or hours; the exported metrics count every "
  "read of a data source and its bytes exactly once.",
  ["configurations", "schedules", "programs"],
  "All pipelines, instrumentation settings, reporting moments and captures.",
  "Tests run instrumented single-stage pipelines for a few elements without "
  "the reporter firing in between.",
  [D + "stats.py", D + "stats_utils.py", D + "dataset.py", D + "base.py"],
  [("recording context managers around __next__ and __getitem__",
    D + "stats.py"), ("weakly referencing reporter threads", D + "stats.py")])

p("P22", "next-index checkpoints agree with positions",
  "Where supported, the reported next index equals the number of elements "
  "returned, and setting the next index to i makes the iterator continue with "
  "element i, at any moment of an iteration, forward or backward, mixed with "
  "ordinary captures and restores.",
  ["programs", "schedules", "inputs"],
  "All supported pipelines and programs.",
  "Tests set one index on a fresh iterator.",
  [D + "dataset.py", T + "prefetch.py", T + "process_prefetch.py",
   T + "interleave.py", T + "batch.py", T + "map.py"],
  [("get_next_index / set_next_index", D + "dataset.py")],
  observe=["get_next_index", "set_next_index"])

p("P23", "A job survives host crashes without losing or repeating elements",
  "A training job that checkpoints durably every few steps, is killed at any "
  "point and restarted from its last committed checkpoint on a fresh host - "
  "any number of times - consumes, counted from the checkpoint it resumed "
  "from, exactly the sequence an uninterrupted job would consume, in each of "
  "its shards.",
  ["crash_points", "histories", "schedules"],
  "All crash points (while writing, between write and commit, inside worker "
  "start-up), pipelines and DataLoaders, worker counts and several hosts.",
  "No test crashes anything between checkpoints.",
  ["grain/_src/python/checkpoint/handler.py", D + "dataset.py",
   T + "process_prefetch.py", "grain/_src/python/data_loader.py"],
  [("states hold everything needed to resume", D + "dataset.py"),
   ("states written as JSON text", "grain/_src/python/checkpoint/handler.py")],
  observe=["sequence of consumed elements over all incarnations"])


p("P24", "Built-in sources return every record exactly once, also when reads fail",
  "Iterating TFRecord files, Parquet files (several of them round robin over at "
  "most 16), lists in shared memory and ranges returns every record exactly "
  "once, unmodified and in order, whatever the sizes of records, files and row "
  "groups, zero included, under transformations, interleaving, threads and "
  "workers - more workers than files included - and with slow and short reads. "
  "A captured state restores exactly in any iterator. A failing open, read or "
  "restore is reported; repeating next() continues with the same record and "
  "repeating the restore succeeds. A TFRecord file that ends inside of a record "
  "gives an error after its complete records, each time, never another record "
  "nor an ordinary end.",
  ["inputs", "fault_sequences", "schedules", "programs"],
  "All file contents, buffer sizes, moments of read errors, delays and short "
  "reads, programs of advances, captures and restores, and schedules.",
  "Tests read a few well-formed files to the end from a disk that never fails, "
  "is never slow and always returns as many bytes as were asked for.",
  [D + "sources/tfrecord_dataset.py", D + "sources/parquet_dataset.py",
   "grain/_src/python/data_sources.py", T + "interleave.py", T + "repeat.py",
   T + "cache.py", T + "shuffle.py"],
  [("records framed by their length", D + "sources/tfrecord_dataset.py"),
   ("row group and row within it", D + "sources/parquet_dataset.py"),
   ("interleaving of one iterator per file", T + "interleave.py")],
  observe=["DatasetIterator.__next__", "get_state", "set_state"])

p("P25", "Parallel calls keep order, respect num_workers and stop after an error",
  "run_in_parallel makes each call exactly once with its own arguments and "
  "returns the results in the order of the arguments, however long the calls "
  "take. Never more than num_workers calls run at once, and num_workers of them "
  "do run side by side. If calls raise, the error of the first one is raised, "
  "and calls that have not begun by then are not made. When it returns or "
  "raises, no call is running and no thread is left. This holds for nested and "
  "concurrent uses.",
  ["schedules", "inputs", "fault_sequences"],
  "All numbers of calls and workers, durations, failing calls, nestings and "
  "interleavings of the pool's threads.",
  "Tests call trivial functions that finish in the order they were submitted.",
  ["grain/_src/core/parallel.py"],
  [("pool of threads; results by position of the future; cancellation",
    "grain/_src/core/parallel.py")],
  observe=["run_in_parallel", "starts and ends of calls"])


# Properties outside the reach of this family: id -> reason.
NA = {
}

LEVEL_NOTE = {}


def main():
  root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for e in P:
      f.write(json.dumps(e) + "\n")
  claimed = sys.argv[1].split(",")
  note = (
      "Seeded simulation of the real code (working tree of /repo) under a "
      "deterministic scheduler with injected faults: a violation is a real "
      "execution and replays exactly; absence is only for the seeds explored "
      "(quick about 1-2 thousand runs, thorough tens of thousands). Trusts the "
      "simulated OS (locks, clocks, processes, pipes, shared memory, files), "
      "CPython's own Python libraries and the reference model in "
      "dst/pipeline.py.")
  man = {
      "version": 1,
      "setup_cmd": "./run selftest 2",
      "checks": [{
          "property": e["id"],
          "quick_cmd": "./check %s" % e["id"],
          "thorough_cmd": "VERIF_TIER=thorough ./check %s" % e["id"],
          "evidence_file": "evidence/%s.json" % e["id"],
          "technique": "deterministic simulation with fault injection "
                       "(seeded schedule and fault search)",
          "level": "exploration", "level_note": note,
      } for e in P if e["id"] in claimed],
      "not_applicable": [{
          "property": e["id"],
          "reason": NA.get(e["id"], "check not built yet")}
          for e in P if e["id"] not in claimed],
      "notes": "See DESIGN.md. Known findings and fixed defects: "
               "known_findings.json.",
  }
  with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")


main()
