"""Deterministic scheduler: real Python threads, one running at a time.

`install()` must run before grain (and before `concurrent.futures`, `logging`,
`multiprocessing`) is imported.  It replaces the blocking primitives of the
standard library -- `threading.Lock/RLock`, thread start/exit, `SimpleQueue`,
`time.*`, `os.getpid` -- with versions that are driven by a `Kernel` when a
simulation is active, and that behave like plain uncontended primitives when
none is (the importing process is single threaded).

Everything built on them (Condition, Event, Semaphore, queue.Queue,
ThreadPoolExecutor, multiprocessing.pool.ThreadPool, multiprocessing.Queue with
its feeder thread) is the unmodified standard-library code.

A simulated run is a function of (scenario, decision source, fault plan): at
every scheduling point the kernel asks the decision source which runnable
thread goes next, or whether the earliest timer fires although threads are
runnable (any thread may be arbitrarily slow).
"""

import _thread
import bisect
import math
import os
import queue
import random
import sys
import threading
import time

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_time = time.time
_real_monotonic = time.monotonic
_real_perf = time.perf_counter
_real_time_ns = time.time_ns
_real_monotonic_ns = time.monotonic_ns
_real_perf_ns = time.perf_counter_ns
_real_sleep = time.sleep
_real_getpid = os.getpid
REAL_EXIT = os._exit

KERNEL = None  # the active Kernel or None
EPOCH_NS = 1_700_000_000 * 10**9

SEQ = [0]  # creation counter behind deterministic hashes; reset per run

RUN, BLOCKED, DEAD = 0, 1, 2
FAIR_LIMIT = 4000
EARLY_NS = 2 * 10**9
EARLY_MAX = 60


class SimDeadlock(Exception):
  pass


class HarnessError(BaseException):
  """A defect of the harness (never reported as a violation)."""


class Task:
  """A simulated thread."""

  __slots__ = (
      "tid", "name", "proc", "baton", "status", "deadline", "timed_out",
      "waiting", "sentinels", "prio", "stalled_until", "obj", "ident",
  )

  def __init__(self, tid, name, proc):
    self.tid = tid
    self.name = name
    self.proc = proc
    self.baton = _real_allocate()
    self.baton.acquire()
    self.status = RUN
    self.deadline = None
    self.timed_out = False
    self.waiting = None
    self.sentinels = []
    self.prio = 0
    self.stalled_until = 0
    self.obj = None
    self.ident = None


class Proc:
  """A simulated OS process: a group of threads with its own globals."""

  def __init__(self, pid, name, parent=None):
    self.pid = pid
    self.name = name
    self.parent = parent
    self.exitcode = None
    self.alive = True
    self.daemon = False
    self.saved = None  # swapped-out process globals
    self.waiters = []
    self.children = []
    self.threads = []
    self.main = None
    self.handles = set()


class Decisions:
  """Seeded decision source.  Records every non-default choice."""

  def __init__(self, spec):
    self.spec = dict(spec)
    self.record = {}
    self.replay = None
    if "replay" in spec:
      self.replay = {int(k): v for k, v in spec["replay"]}
      self._keys = sorted(self.replay)
    self.rng = random.Random("sched:%s" % spec.get("seed", 0))
    self.policy = spec.get("policy", "random")
    self.p = spec.get("p", 0.2)
    self.early = spec.get("early", 0.0)
    self.nprio = 0
    self.change = []
    if self.policy == "pct" and self.replay is None:
      d = spec.get("depth", 4)
      horizon = spec.get("horizon", 3000)
      self.change = sorted(self.rng.randrange(horizon) for _ in range(d))

  def new_task(self, task):
    task.prio = self.rng.random()

  def demote(self, task):
    self.nprio -= 1
    task.prio = self.nprio

  def next_after(self, step):
    """Step of the next preemptive decision."""
    if self.replay is not None:
      i = bisect.bisect_right(self._keys, step)
      return self._keys[i] if i < len(self._keys) else 1 << 60
    if self.policy == "pct":
      while self.change and self.change[0] <= step:
        self.change.pop(0)
      # Check priorities at every point: newly runnable threads may preempt.
      return step + 1
    if self.policy == "rr":
      return step + max(1, int(1 / max(self.p, 1e-3)))
    if self.p >= 1:
      return step + 1
    # geometric gap
    u = self.rng.random()
    gap = 1 + int(math.log(max(u, 1e-12)) / math.log(1 - self.p))
    return step + max(1, gap)

  def choose(self, step, cands, cur_runnable, ntimer):
    """Returns an index in cands (cands[0] is the default)."""
    n = len(cands)
    total = n + ntimer
    if self.replay is not None:
      c = self.replay.get(step, 0)
      if c >= total:
        c = 0
      if c:
        self.record[step] = c
      return c
    if total <= 1:
      return 0
    if ntimer and n and self.early and self.rng.random() < self.early:
      c = n
    elif n == 0:
      c = 0
    elif self.policy == "pct":
      if self.change and self.change[0] <= step and cur_runnable:
        self.nprio -= 1
        cands[0].prio = self.nprio
      c = max(range(n), key=lambda i: (cands[i].prio, -i))
    elif self.policy == "rr":
      c = 1 if (cur_runnable and n > 1) else 0
    else:
      c = self.rng.randrange(n)
    if c:
      self.record[step] = c
    return c


class Kernel:

  def __init__(self, decisions, step_limit=400_000, line_mode=False):
    self.dec = decisions
    self.now = 0
    self.wall_skew = 0
    self.steps = 0
    self.tasks = []
    self.procs = []
    self.next_pid = 1000
    self.switches = 0
    self.fair_base = 0
    self.in_kernel = 0
    self.step_limit = step_limit
    self.line_mode = line_mode
    self.hash = 0
    self.trace = []
    self.trace_on = False
    self.events = []  # notable events (fault firings, op boundaries)
    self.faults = []  # pending [(step, fn, desc)]
    self.fired = {}
    self.finish_cb = None  # called with (kind, detail) on deadlock/budget
    self.timer_fires = 0
    self.early_fires = 0
    self.spawn_fail = None  # callable(name) -> bool
    self.swap = []  # [(get, put, factory)] per-process interpreter globals
    self.uncaught = []
    self.pairs = set()
    self.op_deadline_steps = None
    self.op_deadline_time = None
    self.op_name = None
    self.next_decision = 1 << 60
    self.next_event = 1 << 60
    self.max_tasks = 0
    self.frozen = False

  # -- setup --------------------------------------------------------------
  def boot(self):
    p = self.new_proc("main", None)
    t = self._new_task("main", p)
    t.ident = _thread.get_ident()
    p.main = t
    self.cur = t
    self._set_next()

  def new_proc(self, name, parent):
    self.next_pid += 1
    p = Proc(self.next_pid, name, parent)
    self.procs.append(p)
    if parent is not None:
      parent.children.append(p)
    return p

  def _new_task(self, name, proc):
    t = Task(len(self.tasks), name, proc)
    self.tasks.append(t)
    proc.threads.append(t)
    self.dec.new_task(t)
    self.max_tasks = max(
        self.max_tasks, sum(1 for x in self.tasks if x.status != DEAD))
    return t

  def add_fault(self, step, fn, desc):
    self.faults.append((step, len(self.faults), fn, desc))
    self.faults.sort(key=lambda f: (f[0], f[1]))
    self._set_event()

  def note(self, *ev):
    self.events.append((self.steps, self.now // 1000) + ev)
    self.hash = hash_mix(self.hash, *ev)

  def count(self, kind, n=1):
    self.fired[kind] = self.fired.get(kind, 0) + n

  def _set_next(self):
    self.next_decision = self.dec.next_after(self.steps)
    self._set_event()

  def _set_event(self):
    n = self.next_decision
    if self.faults and self.faults[0][0] < n:
      n = self.faults[0][0]
    f = self.fair_base + FAIR_LIMIT
    if f < n:
      n = f
    self.next_event = n

  # -- scheduling ---------------------------------------------------------
  def point(self):
    """A scheduling point of the running thread."""
    if self.in_kernel:
      return
    self.steps += 1
    self.now += 1000
    if self.steps >= self.next_event:
      self._event()

  def _runnable(self):
    """Runnable tasks; the current one (if runnable) first."""
    now = self.now
    cur = self.cur
    first = []
    after, before = [], []
    ct = cur.tid
    for t in self.tasks:
      if t.status != RUN:
        continue
      if t.stalled_until > now:
        continue
      if t is cur:
        first.append(t)
      elif t.tid > ct:
        after.append(t)
      else:
        before.append(t)
    return first + after + before

  def _earliest(self):
    best = None
    for t in self.tasks:
      if t.status == BLOCKED and t.deadline is not None:
        key = t.deadline if t.stalled_until <= t.deadline else t.stalled_until
        if best is None or key < best[0]:
          best = (key, t)
      elif t.status == RUN and t.stalled_until > self.now:
        key = t.stalled_until
        if best is None or key < best[0]:
          best = (key, t)
    return best

  def _early(self):
    """The timer that may fire although threads are runnable.

    Any thread can be slow for a while, so a short timeout may expire first;
    timeouts longer than EARLY_NS are never beaten by running threads, and the
    number of such expiries per run is bounded.
    """
    if not self.dec.early or self.early_fires >= EARLY_MAX:
      return None
    e = self._earliest()
    if e is None or e[0] - self.now > EARLY_NS:
      return None
    return e

  def _fire_due(self):
    for t in self.tasks:
      if (t.status == BLOCKED and t.deadline is not None
          and t.deadline <= self.now):
        self._wake(t, True)

  def _wake(self, t, timed_out=False):
    if t.status == BLOCKED:
      t.status = RUN
      t.timed_out = timed_out
      t.deadline = None
      t.waiting = None

  def _check_budget(self):
    if self.frozen:
      return
    if self.steps > self.step_limit:
      self.fail("step-limit", "step limit %d exceeded" % self.step_limit)
    if self.op_deadline_steps is not None:
      if self.steps > self.op_deadline_steps:
        self.fail("op-steps", self.op_name)
      if self.now > self.op_deadline_time:
        self.fail("op-time", self.op_name)

  def fail(self, kind, detail):
    self.in_kernel += 1
    self.finish_cb(kind, detail)
    REAL_EXIT(97)

  def _event(self):
    self.in_kernel += 1
    try:
      self._check_budget()
      killed_self = False
      while self.faults and self.faults[0][0] <= self.steps:
        _, _, fn, desc = self.faults.pop(0)
        res = fn()
        if res is not None:
          self.count(desc if res is True else res)
      self._fire_due()
      if self.cur.status == RUN:
        fair = self.steps - self.fair_base >= FAIR_LIMIT
        if self.steps >= self.next_decision or fair:
          cands = self._runnable()
          cur_ok = bool(cands) and cands[0] is self.cur
          e = self._early()
          if fair:
            self.fair_base = self.steps
            self.dec.demote(self.cur)
          if fair and cur_ok and len(cands) > 1:
            i = 1
          elif fair and cur_ok and self._earliest() is not None:
            # Nothing else can run: a spinning thread lets time pass.
            i = len(cands)
            e = self._earliest()
          else:
            i = self.dec.choose(self.steps, cands, cur_ok, 1 if e else 0)
          if not cands or i >= len(cands):
            nxt = self._advance(e or self._earliest(), bool(cands))
          else:
            nxt = cands[i]
          self._set_next()
        else:
          nxt = self.cur
          if nxt.stalled_until > self.now:
            nxt = self._pick_blocked()
      else:
        nxt = self._pick_blocked()
      self._set_event()
    finally:
      self.in_kernel -= 1
    self._switch(nxt)

  def _advance(self, e, early):
    """Moves the clock to the earliest timer and returns a runnable task."""
    while True:
      if e is None:
        self.fail("deadlock", self.describe())
      key, t = e
      if key > self.now:
        self.now = key
      self.timer_fires += 1
      if early:
        self.early_fires += 1
      self._fire_due()
      self._check_budget()
      r = self._runnable()
      if t in r:
        return t
      if r:
        return r[0]
      e = self._earliest()

  def _pick_blocked(self):
    """Chooses the next task when the current one cannot continue."""
    self._check_budget()
    self._fire_due()
    cands = self._runnable()
    if not cands:
      return self._advance(self._earliest(), False)
    e = self._early()
    if len(cands) == 1 and not e:
      return cands[0]
    i = self.dec.choose(self.steps, cands, cands[0] is self.cur, 1 if e else 0)
    if i >= len(cands):
      return self._advance(e, True)
    return cands[i]

  def _switch(self, nxt):
    cur = self.cur
    if nxt is cur:
      return
    self.switches += 1
    self.fair_base = self.steps
    self._set_event()
    self.hash = (self.hash * 1000003 ^ (nxt.tid * 7919 + self.steps)) & (
        (1 << 61) - 1)
    if self.trace_on:
      self.trace.append((self.steps, nxt.tid))
    self.cur = nxt
    if nxt.proc is not cur.proc:
      self._swap_globals(cur.proc, nxt.proc)
    nxt.baton.release()
    if cur.status != DEAD:
      cur.baton.acquire()
    else:
      self._dead_switch(cur)

  def _dead_switch(self, cur):
    if cur.waiting == "exit":
      return
    # Killed while running: this OS thread must never execute again.
    cur.baton.acquire()
    while True:
      cur.baton.acquire()

  def _swap_globals(self, old, new):
    if not self.swap:
      return
    saved = []
    for get, _, _ in self.swap:
      saved.append(get())
    old.saved = saved
    if new.saved is None:
      new.saved = [factory() for _, _, factory in self.swap]
    for (_, put, _), a, b in zip(self.swap, saved, new.saved):
      if a is not b:
        put(b)

  def block(self, waiting, timeout_ns=None):
    """Blocks the current task; returns True if woken, False on timeout."""
    if self.in_kernel:
      raise HarnessError("blocking inside the kernel: %r" % (waiting,))
    cur = self.cur
    self.in_kernel += 1
    self.steps += 1
    self.now += 1000
    cur.status = BLOCKED
    cur.waiting = waiting
    cur.timed_out = False
    cur.deadline = None if timeout_ns is None else self.now + max(
        0, timeout_ns)
    try:
      if self.faults and self.faults[0][0] <= self.steps:
        while self.faults and self.faults[0][0] <= self.steps:
          _, _, fn, desc = self.faults.pop(0)
          res = fn()
          if res is not None:
            self.count(desc if res is True else res)
        self._set_event()
      nxt = self._pick_blocked()
      if self.steps >= self.next_decision:
        self._set_next()
    finally:
      self.in_kernel -= 1
    if nxt is cur:
      return not cur.timed_out
    self._switch(nxt)
    return not cur.timed_out

  def sleep(self, seconds):
    if seconds <= 0:
      self.point()
      return
    self.block("sleep", int(seconds * 1e9))

  # -- threads ------------------------------------------------------------
  def spawn(self, func, args, kwargs, name, proc=None):
    if proc is None:  # a new process must have its first thread to be killed
      self.point()
    if self.spawn_fail is not None and self.spawn_fail(name):
      self.count("thread_start_failure")
      raise RuntimeError("can't start new thread")
    t = self._new_task(name, proc or self.cur.proc)
    ready = _real_allocate()
    ready.acquire()

    holder = [func, args, kwargs]

    def run():
      func, args, kwargs = holder
      holder.clear()
      t.ident = _thread.get_ident()
      ready.release()
      t.baton.acquire()
      try:
        func(*args, **kwargs)
      except SystemExit:
        pass
      except HarnessError as e:
        self.fail("harness", repr(e))
      except BaseException as e:  # pylint: disable=broad-except
        import traceback
        self.uncaught.append(traceback.format_exc())
        del e
      func = args = kwargs = None
      self.task_exit()

    try:
      _real_start(run, ())
    except RuntimeError as e:
      self.fail("harness", "cannot start a real thread: %r" % (e,))
    func = args = kwargs = None
    ready.acquire()
    self.point()
    return t

  def task_exit(self):
    cur = self.cur
    for lock in cur.sentinels:
      if lock._locked:
        lock._force_release()
    cur.sentinels = []
    self.in_kernel += 1
    self.steps += 1
    cur.status = DEAD
    cur.waiting = "exit"
    cur.deadline = None
    nxt = self._pick_blocked()
    self.in_kernel -= 1
    self._switch(nxt)

  def kill_proc(self, proc, exitcode):
    """SIGKILL semantics: no unwinding; only external state survives."""
    if not proc.alive:
      return False
    proc.alive = False
    proc.exitcode = exitcode
    for t in proc.threads:
      if t.status != DEAD:
        t.status = DEAD
        t.waiting = "killed"
        t.deadline = None
    for w in proc.waiters:
      self._wake(w)
    proc.waiters = []
    return True

  def die_now(self):
    """The current task belongs to a process that was just killed."""
    self.in_kernel += 1
    nxt = self._pick_blocked()
    self.in_kernel -= 1
    self._switch(nxt)
    raise HarnessError("dead task resumed: %s waiting=%r procs=%r" % (
        self.cur.name, self.cur.waiting, [(p.name, p.alive) for p in self.procs]))

  def stall(self, task, seconds):
    task.stalled_until = self.now + int(seconds * 1e9)

  # -- diagnostics --------------------------------------------------------
  def describe(self):
    import traceback
    frames = sys._current_frames()
    out = []
    for t in self.tasks:
      if t.status == DEAD:
        continue
      out.append("T%d %s [%s] %s waiting=%r deadline=%s" % (
          t.tid, t.name, t.proc.name, ("RUN", "BLOCKED", "DEAD")[t.status],
          t.waiting if isinstance(t.waiting, str) else type(t.waiting).__name__,
          t.deadline))
      f = frames.get(t.ident)
      if f is not None:
        st = traceback.extract_stack(f)
        for fr in st[-40:]:
          if "/dst/kernel.py" in fr.filename:
            continue
          out.append("    %s:%d %s" % (fr.filename, fr.lineno, fr.name))
    return "\n".join(out)


def hash_mix(h, *parts):
  for p in parts:
    for b in str(p).encode():
      h = (h * 1000003 ^ b) & ((1 << 61) - 1)
  return h


# ---------------------------------------------------------------------------
# Primitives
# ---------------------------------------------------------------------------
class SimLock:
  """threading.Lock."""

  __slots__ = ("_locked", "_waiters", "_seq", "__weakref__")

  def __init__(self):
    self._locked = False
    self._waiters = None
    SEQ[0] += 1
    self._seq = SEQ[0]

  def __hash__(self):  # deterministic order in sets
    return self._seq

  def acquire(self, blocking=True, timeout=-1):
    k = KERNEL
    if k is None or k.in_kernel:
      if not self._locked:
        self._locked = True
        return True
      if not blocking:
        return False
      raise HarnessError("lock contention outside the simulation")
    if not blocking and timeout != -1:
      raise ValueError("can't specify a timeout for a non-blocking call")
    k.point()
    if not self._locked:
      self._locked = True
      return True
    if not blocking:
      return False
    deadline = None
    if timeout is not None and timeout >= 0:
      deadline = k.now + int(timeout * 1e9)
    while True:
      if self._waiters is None:
        self._waiters = []
      self._waiters.append(k.cur)
      left = None if deadline is None else deadline - k.now
      if left is not None and left <= 0:
        self._waiters.remove(k.cur)
        return False
      woken = k.block(self, left)
      if not self._locked:
        self._locked = True
        if self._waiters and k.cur in self._waiters:
          self._waiters.remove(k.cur)
        return True
      if not woken:
        if self._waiters and k.cur in self._waiters:
          self._waiters.remove(k.cur)
        return False

  def release(self):
    if not self._locked:
      raise RuntimeError("release unlocked lock")
    self._locked = False
    k = KERNEL
    if k is None:
      return
    if self._waiters:
      ws, self._waiters = self._waiters, None
      for w in ws:
        if w.waiting is self:
          k._wake(w)
    k.point()

  def _force_release(self):
    self._locked = False
    if self._waiters:
      ws, self._waiters = self._waiters, None
      for w in ws:
        if w.waiting is self:
          KERNEL._wake(w)

  def locked(self):
    return self._locked

  def __enter__(self):
    self.acquire()
    return True

  def __exit__(self, *a):
    self.release()

  def _at_fork_reinit(self):
    self._locked = False
    self._waiters = None

  def __repr__(self):
    return "<SimLock %s>" % ("locked" if self._locked else "unlocked")


def _me():
  k = KERNEL
  return k.cur if k is not None else None


class SimRLock:
  """threading.RLock."""

  __slots__ = ("_block", "_owner", "_count", "__weakref__")

  def __init__(self):
    self._block = SimLock()
    self._owner = None
    self._count = 0

  def acquire(self, blocking=True, timeout=-1):
    me = _me() or "main"
    if self._owner is me:
      self._count += 1
      return True
    if self._block.acquire(blocking, timeout):
      self._owner = me
      self._count = 1
      return True
    return False

  __enter__ = acquire

  def release(self):
    if self._owner is not (_me() or "main"):
      raise RuntimeError("cannot release un-acquired lock")
    self._count -= 1
    if not self._count:
      self._owner = None
      self._block.release()

  def __exit__(self, *a):
    self.release()

  def _is_owned(self):
    return self._owner is (_me() or "main")

  def _release_save(self):
    state = (self._count, self._owner)
    self._count = 0
    self._owner = None
    self._block.release()
    return state

  def _acquire_restore(self, state):
    self._block.acquire()
    self._count, self._owner = state

  def _recursion_count(self):
    return self._count if self._is_owned() else 0

  def _at_fork_reinit(self):
    self._block._at_fork_reinit()
    self._owner = None
    self._count = 0


def _start_new_thread(func, args=(), kwargs=None):
  k = KERNEL
  if k is None:
    return _real_start(func, args, kwargs or {})
  obj = getattr(func, "__self__", None)
  name = getattr(obj, "_name", None) or getattr(func, "__name__", "thread")
  t = k.spawn(func, args, kwargs or {}, name)
  t.obj = obj
  return t.tid + 1


def _set_sentinel():
  k = KERNEL
  lock = SimLock()
  if k is not None:
    k.cur.sentinels.append(lock)
  return lock


def _time():
  k = KERNEL
  if k is None:
    return _real_time()
  k.now += 1000
  return (EPOCH_NS + k.now + k.wall_skew) / 1e9


def _time_ns():
  k = KERNEL
  if k is None:
    return _real_time_ns()
  k.now += 1000
  return EPOCH_NS + k.now + k.wall_skew


def _mono():
  k = KERNEL
  if k is None:
    return _real_monotonic()
  k.now += 1000
  return (10**12 + k.now) / 1e9


def _mono_ns():
  k = KERNEL
  if k is None:
    return _real_monotonic_ns()
  k.now += 1000
  return 10**12 + k.now


def _sleep(s):
  k = KERNEL
  if k is None:
    return _real_sleep(s)
  if s < 0:
    raise ValueError("sleep length must be non-negative")
  k.sleep(s)


def _getpid():
  k = KERNEL
  if k is None:
    return _real_getpid()
  return k.cur.proc.pid


def _yield_():
  k = KERNEL
  if k is not None:
    k.point()


_installed = False


def install():
  global _installed
  if _installed:
    return
  _installed = True
  for m in ("concurrent.futures.thread", "multiprocessing.util", "logging"):
    if m in sys.modules:
      raise HarnessError("%s imported before kernel.install()" % m)
  _thread.allocate_lock = _thread.allocate = _thread.LockType = SimLock
  _thread.RLock = SimRLock
  _thread.start_new_thread = _thread.start_new = _start_new_thread
  _thread._set_sentinel = _set_sentinel
  threading.Lock = threading._allocate_lock = SimLock
  threading.RLock = SimRLock
  threading._CRLock = SimRLock
  threading._RLock = SimRLock
  threading._PyRLock = SimRLock
  threading._start_new_thread = _start_new_thread
  threading._set_sentinel = _set_sentinel
  threading._active_limbo_lock = SimRLock()
  threading._shutdown_locks_lock = SimLock()
  threading._time = _mono
  # Deterministic hash so that sets of threads iterate in creation order.
  real_init = threading.Thread.__init__

  def thread_init(self, *a, **kw):
    SEQ[0] += 1
    self.__dict__["_sim_seq"] = SEQ[0]
    real_init(self, *a, **kw)

  threading.Thread.__init__ = thread_init
  threading.Thread.__hash__ = lambda self: self.__dict__.get("_sim_seq", 0)
  threading.excepthook = _excepthook
  time.time = _time
  time.time_ns = _time_ns
  time.monotonic = time.perf_counter = _mono
  time.monotonic_ns = time.perf_counter_ns = _mono_ns
  time.sleep = _sleep
  queue.time = _mono
  queue.SimpleQueue = queue._PySimpleQueue
  os.getpid = _getpid


def _excepthook(args):
  k = KERNEL
  if k is not None:
    k.uncaught.append("%s: %s in %s" % (
        args.exc_type.__name__, args.exc_value,
        getattr(args.thread, "name", "?")))


# ---------------------------------------------------------------------------
# Line-level preemption inside grain
# ---------------------------------------------------------------------------
_TOOL = 3


def _on_line(code, line):
  k = KERNEL
  if k is not None and k.line_mode and not k.in_kernel:
    k.steps += 1
    k.now += 100
    if k.steps >= k.next_event:
      k._event()


def instrument_lines(prefix, skip=("_test.py",)):
  """Turns on LINE events for every function whose file is under prefix."""
  import gc
  import types
  mon = sys.monitoring
  mon.use_tool_id(_TOOL, "dst")
  mon.register_callback(_TOOL, mon.events.LINE, _on_line)
  seen = set()
  todo = []
  for o in gc.get_objects():
    if isinstance(o, types.FunctionType):
      todo.append(o.__code__)
  n = 0
  while todo:
    c = todo.pop()
    if id(c) in seen:
      continue
    seen.add(id(c))
    for const in c.co_consts:
      if isinstance(const, types.CodeType):
        todo.append(const)
    if c.co_filename.startswith(prefix) and not c.co_filename.endswith(skip):
      mon.set_local_events(_TOOL, c, mon.events.LINE)
      n += 1
  return n


def set_kernel(k):
  global KERNEL
  KERNEL = k
