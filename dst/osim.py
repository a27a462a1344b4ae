"""Simulated operating system underneath the real `multiprocessing` package.

Queues with their feeder threads, Event/Semaphore/Value, contexts, Process,
ThreadPool, SharedMemory and grain's own code are the unmodified real code; the
system calls they end in are replaced:

  sem_open/sem_wait/...    -> SemLock over the kernel
  pipe/read/write/poll     -> SimConnection (byte stream, 64 KiB, blocking)
  spawn/waitpid/kill       -> SimPopen (a process is a group of threads with its
                              own interpreter globals, SIGKILL does not unwind)
  shm_open/mmap/shm_unlink -> counted segments, poisoned on close
  mmap of Value arenas     -> anonymous mmap

`install()` is called once in the zygote, after `kernel.install()` and before
grain is imported; `attach(kernel)` per run after grain is imported.
"""

import ctypes
import errno
import io
import mmap as real_mmap
import os
import pickle
import sys
import threading

from dst import kernel as K

_real_close = os.close


def k():
  return K.KERNEL


def _err(no, name=""):
  return OSError(no, os.strerror(no), name) if name else OSError(
      no, os.strerror(no))


# ---------------------------------------------------------------------------
# Semaphores
# ---------------------------------------------------------------------------
class _Sem:
  __slots__ = ("value", "waiters", "kind", "maxvalue", "name")

  def __init__(self, kind, value, maxvalue, name):
    self.kind = kind
    self.value = value
    self.maxvalue = maxvalue
    self.name = name
    self.waiters = []


class SimSemLock:
  """Replacement of `_multiprocessing.SemLock`."""

  SEM_VALUE_MAX = 2147483647

  def __init__(self, kind, value, maxvalue, name, unlink):
    os_ = k().os
    if os_.fail("sem"):
      raise _err(errno.ENOSPC)
    self._sem = _Sem(kind, value, maxvalue, name)
    os_.sem_seq += 1
    self.handle = os_.sem_seq
    self.name = name
    self.kind = kind
    self.maxvalue = maxvalue
    self._n = 0
    self._owner = None
    os_.sems[name] = self._sem
    os_.sem_created += 1

  @classmethod
  def _rebuild(cls, handle, kind, maxvalue, name):
    os_ = k().os
    if name not in os_.sems:
      raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
    self = cls.__new__(cls)
    self._sem = os_.sems[name]
    self.handle = handle
    self.kind = kind
    self.maxvalue = maxvalue
    self.name = name
    self._n = 0
    self._owner = None
    return self

  def acquire(self, block=True, timeout=None):
    kr = k()
    if self.kind == 0 and self._owner is kr.cur and self._n > 0:
      self._n += 1
      return True
    kr.point()
    sem = self._sem
    deadline = None
    if block and timeout is not None:
      deadline = kr.now + int(max(0.0, timeout) * 1e9)
    while sem.value <= 0:
      if not block:
        return False
      left = None if deadline is None else deadline - kr.now
      if left is not None and left <= 0:
        return False
      sem.waiters.append(kr.cur)
      kr.block(self, left)
      if kr.cur in sem.waiters:
        sem.waiters.remove(kr.cur)
    sem.value -= 1
    self._owner = kr.cur
    self._n += 1
    return True

  def release(self):
    kr = k()
    sem = self._sem
    if self.kind == 0:
      if not (self._owner is kr.cur and self._n > 0):
        raise AssertionError(
            "attempt to release recursive lock not owned by thread")
      if self._n > 1:
        self._n -= 1
        return
    elif sem.value >= self.maxvalue:
      raise ValueError("semaphore or lock released too many times")
    sem.value += 1
    self._n -= 1
    ws, sem.waiters = sem.waiters, []
    for w in ws:
      if w.status == K.BLOCKED and isinstance(w.waiting, SimSemLock):
        kr._wake(w)
    kr.point()

  def __enter__(self):
    return self.acquire()

  def __exit__(self, *a):
    self.release()

  def _count(self):
    return self._n

  def _is_mine(self):
    return self._n > 0 and self._owner is k().cur

  def _get_value(self):
    return self._sem.value

  def _is_zero(self):
    return self._sem.value == 0

  def _after_fork(self):
    self._n = 0


def _sem_unlink(name):
  os_ = k().os
  if name not in os_.sems:
    raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
  del os_.sems[name]
  os_.sem_unlinked += 1


# ---------------------------------------------------------------------------
# Pipes
# ---------------------------------------------------------------------------
PIPE_CAP = 65536
PIPE_BUF = 4096


class _Pipe:
  __slots__ = ("buf", "nread", "nwrite", "waiters")

  def __init__(self):
    self.buf = bytearray()
    self.nread = 0
    self.nwrite = 0
    self.waiters = []

  def wake(self, kr):
    if self.waiters:
      ws, self.waiters = self.waiters, []
      for w in ws:
        if w.status == K.BLOCKED:
          kr._wake(w)


def _make_conn_class(connection):

  class SimConnection(connection.Connection):
    """Connection over a simulated pipe."""

    def _close(self):
      kr = k()
      if kr is None:
        return
      kr.os.close_fd(self._handle)

    def _end(self):
      e = k().os.fds.get(self._handle)
      if e is None:
        raise _err(errno.EBADF)
      return e

    def _send(self, buf):
      kr = k()
      kr.point()
      pipe, _, _ = self._end()
      data = bytes(buf)
      atomic = len(data) <= PIPE_BUF
      while data:
        if pipe.nread == 0:
          raise BrokenPipeError(errno.EPIPE, os.strerror(errno.EPIPE))
        room = PIPE_CAP - len(pipe.buf)
        if room <= 0 or (atomic and room < len(data)):
          pipe.waiters.append(kr.cur)
          kr.block("pipe-write")
          continue
        pipe.buf += data[:room]
        data = data[room:]
        pipe.wake(kr)
      kr.point()

    def _recv(self, size):
      kr = k()
      kr.point()
      pipe, _, _ = self._end()
      out = io.BytesIO()
      left = size
      while left > 0:
        if pipe.buf:
          chunk = bytes(pipe.buf[:left])
          del pipe.buf[:left]
          out.write(chunk)
          left -= len(chunk)
          pipe.wake(kr)
          continue
        if pipe.nwrite == 0:
          if left == size:
            raise EOFError
          raise OSError("got end of file during message")
        pipe.waiters.append(kr.cur)
        kr.block("pipe-read")
      return out

    def _ready(self):
      pipe, _, _ = self._end()
      return bool(pipe.buf) or pipe.nwrite == 0

    def _poll(self, timeout):
      return bool(_wait([self], timeout))

    def __repr__(self):
      return "<SimConnection>"

  SimConnection.__qualname__ = "SimConnection"
  return SimConnection


class Sentinel:
  __slots__ = ("proc",)

  def __init__(self, proc):
    self.proc = proc


def _wait(object_list, timeout=None):
  """multiprocessing.connection.wait."""
  kr = k()
  kr.point()
  object_list = list(object_list)
  deadline = None
  if timeout is not None:
    deadline = kr.now + int(max(0.0, timeout) * 1e9)
  while True:
    ready = []
    for o in object_list:
      if isinstance(o, Sentinel):
        if not o.proc.alive:
          ready.append(o)
      elif o._ready():
        ready.append(o)
    if ready:
      return ready
    left = None if deadline is None else deadline - kr.now
    if left is not None and left <= 0:
      return []
    pipes = []
    for o in object_list:
      if isinstance(o, Sentinel):
        o.proc.waiters.append(kr.cur)
      else:
        p = o._end()[0]
        p.waiters.append(kr.cur)
        pipes.append(p)
    kr.block("poll", left)
    for p in pipes:
      if kr.cur in p.waiters:
        p.waiters.remove(kr.cur)
    for o in object_list:
      if isinstance(o, Sentinel) and kr.cur in o.proc.waiters:
        o.proc.waiters.remove(kr.cur)


def _pipe(duplex=True):
  kr = k()
  if kr.os.fail("pipe"):
    raise _err(errno.EMFILE)
  p = _Pipe()
  cls = _State.conn_class
  if duplex:
    raise K.HarnessError("duplex pipes are not modelled")
  r = cls(kr.os.new_fd(p, "r", kr.cur.proc), writable=False)
  w = cls(kr.os.new_fd(p, "w", kr.cur.proc), readable=False)
  return r, w


def _rebuild_conn(token, readable, writable):
  kr = k()
  fd = kr.os.claim(token, kr.cur.proc)
  return _State.conn_class(fd, readable, writable)


def _reduce_conn(conn):
  from multiprocessing import context
  popen = context.get_spawning_popen()
  if popen is None:
    raise RuntimeError("connections can only be pickled while spawning")
  token = popen.inherit(conn._end())
  return _rebuild_conn, (token, conn.readable, conn.writable)


# ---------------------------------------------------------------------------
# Processes
# ---------------------------------------------------------------------------
class SimPopen:
  """Replacement of popen_spawn_posix.Popen."""

  method = "spawn"

  def __init__(self, process_obj):
    from multiprocessing import context
    from multiprocessing import reduction
    kr = k()
    kr.point()
    self.returncode = None
    self.finalizer = None
    self._tokens = []
    fp = io.BytesIO()
    context.set_spawning_popen(self)
    try:
      try:
        reduction.dump(process_obj, fp)
      finally:
        context.set_spawning_popen(None)
      if kr.os.fail("spawn"):
        raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
    except BaseException:
      for t in self._tokens:
        kr.os.drop_token(t)
      raise
    name = process_obj._name
    n = len(kr.procs)
    self._proc = proc = kr.new_proc("proc%d" % n, kr.cur.proc)
    proc.daemon = process_obj.daemon
    proc.label = name
    self.pid = proc.pid
    self.sentinel = Sentinel(proc)
    delay = kr.os.startup_delay(n)
    for t in self._tokens:
      kr.os.tokens[t][1] = proc
    data = fp.getvalue()
    kr.os.note_spawn(proc)
    kr.spawn(_child_main, (proc, data, delay), {}, "main", proc)
    kr.point()

  def inherit(self, end):
    t = k().os.make_token(end)
    self._tokens.append(t)
    return t

  def duplicate_for_child(self, fd):
    return fd

  def poll(self, flag=None):
    kr = k()
    kr.point()
    if self.returncode is None and not self._proc.alive:
      self.returncode = self._proc.exitcode
    return self.returncode

  def wait(self, timeout=None):
    if self.returncode is None:
      if not _wait([self.sentinel], timeout):
        return None
      return self.poll()
    return self.returncode

  def terminate(self):
    self._signal(-15)

  def kill(self):
    self._signal(-9)

  def _signal(self, code):
    kr = k()
    kr.point()
    if self.returncode is None and self._proc.alive:
      kr.os.signals.append((self._proc.pid, code))
      kr.os.kill(self._proc, code)
      kr.point()

  def close(self):
    pass


def _child_main(proc, data, delay):
  kr = k()
  code = 1
  try:
    if delay:
      kr.sleep(delay)
    obj = None
    try:
      obj = pickle.loads(data)
    except BaseException as e:  # pylint: disable=broad-except
      kr.os.stderr.append("%s: cannot unpickle process: %r" % (proc.name, e))
    data = None
    if obj is not None:
      code = obj._bootstrap(parent_sentinel=None)
  except K.HarnessError:
    raise
  except BaseException as e:  # pylint: disable=broad-except
    kr.os.stderr.append("%s: %r" % (proc.name, e))
  kr.os.kill(proc, code)
  kr.die_now()


# ---------------------------------------------------------------------------
# Shared memory
# ---------------------------------------------------------------------------
_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int,
                       ctypes.c_int, ctypes.c_int, ctypes.c_long]
POISON = 0xDB


class PoisonMmap(real_mmap.mmap):
  """mmap whose pages turn into poison instead of faulting after close()."""

  def close(self):
    kr = k()
    if kr is None:
      return
    o = kr.os
    if self not in o.open_maps:
      return
    info = o.open_maps.pop(self)
    n = len(self)
    c = ctypes.c_char.from_buffer(self)
    addr = ctypes.addressof(c)
    del c
    r = _libc.mmap(addr, n, 3, 0x32, -1, 0)  # MAP_PRIVATE|ANON|FIXED
    if r != addr:
      raise K.HarnessError("cannot poison mapping")
    ctypes.memset(addr, POISON, n)
    o.graveyard.append(self)
    o.maps_closed += 1

  def __hash__(self):
    return id(self)

  def __eq__(self, other):
    return self is other


class _ShmSeg:
  __slots__ = ("name", "fd", "size", "linked", "creator", "unlinker")

  def __init__(self, name, fd, creator):
    self.name = name
    self.fd = fd
    self.size = 0
    self.linked = True
    self.creator = creator
    self.unlinker = None


class _FakePosixShm:

  @staticmethod
  def shm_open(path, flags, mode=0o777):
    kr = k()
    kr.point()
    o = kr.os
    if flags & os.O_EXCL:
      if o.fail("shm_open"):
        raise _err(errno.EMFILE, path)
      if path in o.shm:
        raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
      fd = os.memfd_create("dst")
      seg = _ShmSeg(path, fd, kr.cur.proc)
      o.shm[path] = seg
      o.shm_created += 1
      o.shm_live_max = max(o.shm_live_max, len(o.shm))
    else:
      seg = o.shm.get(path)
      if seg is None:
        o.shm_missing.append((kr.steps, kr.cur.proc.name, path, "open"))
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
      if o.fail("shm_attach"):
        raise _err(errno.EMFILE, path)
    o.fd_seq += 1
    o.shm_fds[o.fd_seq] = seg
    return o.fd_seq

  @staticmethod
  def shm_unlink(path):
    kr = k()
    kr.point()
    o = kr.os
    seg = o.shm.pop(path, None)
    if seg is None:
      o.shm_missing.append((kr.steps, kr.cur.proc.name, path, "unlink"))
      raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
    seg.linked = False
    seg.unlinker = kr.cur.proc
    o.shm_unlinked += 1


class _Stat:

  def __init__(self, size):
    self.st_size = size


class _ShmOs:
  """The part of `os` that multiprocessing.shared_memory uses."""

  O_CREAT = os.O_CREAT
  O_EXCL = os.O_EXCL
  O_RDWR = os.O_RDWR
  name = os.name

  def ftruncate(self, fd, size):
    o = k().os
    seg = o.shm_fds[fd]
    if o.fail("shm_truncate"):
      raise _err(errno.ENOSPC)
    os.ftruncate(seg.fd, size)
    seg.size = size

  def fstat(self, fd):
    return _Stat(k().os.shm_fds[fd].size)

  def close(self, fd):
    kr = k()
    if kr is None:
      return
    kr.point()
    if kr.os.shm_fds.pop(fd, None) is None:
      # In reality this would close whatever file has the number by now.
      kr.os.bad_closes.append((kr.steps, kr.cur.proc.name, kr.cur.name, fd))
      raise _err(errno.EBADF)
    kr.point()

  def __getattr__(self, n):
    return getattr(os, n)


class _ShmMmap:

  @staticmethod
  def mmap(fd, size):
    o = k().os
    seg = o.shm_fds[fd]
    if o.fail("shm_mmap"):
      raise _err(errno.ENOMEM)
    m = PoisonMmap(seg.fd, size)
    o.open_maps[m] = seg
    return m


def _shm_filename():
  o = k().os
  o.shm_seq += 1
  return "/psm_%08x" % o.shm_seq


# ---------------------------------------------------------------------------
# Value arenas
# ---------------------------------------------------------------------------
class SimArena:

  def __init__(self, size, fd=-1):
    self.size = size
    self.fd = fd
    self.buffer = real_mmap.mmap(-1, size)
    o = k().os
    self._id = len(o.arenas)
    o.arenas.append(self)


def _reduce_arena(a):
  return _rebuild_arena, (a._id,)


def _rebuild_arena(i):
  return k().os.arenas[i]


# ---------------------------------------------------------------------------
class _FinalizerRegistry:
  """util._finalizer_registry: one dictionary per simulated process."""

  def _d(self):
    kr = k()
    if kr is None:
      return _State.base_finalizers
    p = kr.cur.proc
    d = kr.os.finalizers.get(p.pid)
    if d is None:
      d = kr.os.finalizers[p.pid] = {}
    return d

  def __getitem__(self, key):
    return self._d()[key]

  def __setitem__(self, key, v):
    self._d()[key] = v

  def __delitem__(self, key):
    del self._d()[key]

  def __contains__(self, key):
    return key in self._d()

  def __iter__(self):
    return iter(self._d())

  def __len__(self):
    return len(self._d())

  def get(self, key, default=None):
    return self._d().get(key, default)

  def clear(self):
    self._d().clear()


class _State:
  conn_class = None
  base_finalizers = {}
  swap = None


class OS:
  """Per-run operating system state."""

  def __init__(self, kr):
    self.kr = kr
    self.sems = {}
    self.sem_seq = 0
    self.sem_created = 0
    self.sem_unlinked = 0
    self.fds = {}
    self.fd_seq = 1000
    self.tokens = {}
    self.token_seq = 0
    self.shm = {}
    self.shm_fds = {}
    self.shm_seq = 0
    self.shm_created = 0
    self.shm_unlinked = 0
    self.shm_missing = []
    self.bad_closes = []
    self.shm_live_max = 0
    self.open_maps = {}
    self.graveyard = []
    self.maps_closed = 0
    self.arenas = []
    self.finalizers = {}
    self.stderr = []
    self.signals = []
    self.fail_plan = {}  # kind -> set of call numbers that fail
    self.calls = {}
    self.delays = []
    self.spawned = []
    self.on_spawn = None
    self.killed = []

  def fail(self, kind):
    if kind.startswith("shm_") and self.kr.cur.proc.parent is None:
      return False  # allocations in workers
    n = self.calls.get(kind, 0)
    self.calls[kind] = n + 1
    plan = self.fail_plan.get(kind)
    if plan and n in plan:
      self.kr.count("fail_" + kind)
      self.kr.note("fail", kind, n)
      return True
    return False

  def startup_delay(self, n):
    if self.delays:
      d = self.delays[n % len(self.delays)]
      if d:
        self.kr.count("slow_process_start")
      return d
    return 0

  def note_spawn(self, proc):
    self.spawned.append(proc)
    if self.on_spawn:
      self.on_spawn(proc)

  def new_fd(self, pipe, mode, proc):
    self.fd_seq += 1
    self.fds[self.fd_seq] = (pipe, mode, proc)
    if mode == "r":
      pipe.nread += 1
    else:
      pipe.nwrite += 1
    return self.fd_seq

  def close_fd(self, fd):
    e = self.fds.pop(fd, None)
    if e is None:
      return
    pipe, mode, _ = e
    self._drop(pipe, mode)

  def _drop(self, pipe, mode):
    if mode == "r":
      pipe.nread -= 1
    else:
      pipe.nwrite -= 1
    if pipe.nread == 0 or pipe.nwrite == 0:
      pipe.wake(self.kr)

  def make_token(self, end):
    pipe, mode, _ = end
    self.token_seq += 1
    if mode == "r":
      pipe.nread += 1
    else:
      pipe.nwrite += 1
    self.tokens[self.token_seq] = [(pipe, mode), None]
    return self.token_seq

  def claim(self, token, proc):
    (pipe, mode), _ = self.tokens.pop(token)
    self._drop_quiet(pipe, mode)
    return self.new_fd(pipe, mode, proc)

  def _drop_quiet(self, pipe, mode):
    if mode == "r":
      pipe.nread -= 1
    else:
      pipe.nwrite -= 1

  def drop_token(self, token):
    e = self.tokens.pop(token, None)
    if e:
      self._drop(*e[0])

  def kill(self, proc, code):
    """Terminates a process; its descriptors close, nothing else is undone."""
    kr = self.kr
    if not proc.alive:
      return False
    kr.kill_proc(proc, code)
    for t in [t for t, e in self.tokens.items() if e[1] is proc]:
      self.drop_token(t)
    for fd in [fd for fd, e in self.fds.items() if e[2] is proc]:
      self.close_fd(fd)
    self.killed.append((proc.pid, code))
    return True


# ---------------------------------------------------------------------------
_installed = False


def install():
  """Patches multiprocessing.  Call after kernel.install()."""
  global _installed
  if _installed:
    return
  _installed = True
  import _multiprocessing
  import logging
  logging._acquireLock = lambda: None
  logging._releaseLock = lambda: None
  _multiprocessing.SemLock = SimSemLock
  _multiprocessing.sem_unlink = _sem_unlink
  import concurrent.futures.thread as cft
  from multiprocessing import connection
  from multiprocessing import context
  from multiprocessing import heap
  from multiprocessing import pool
  from multiprocessing import process
  from multiprocessing import queues
  from multiprocessing import reduction
  from multiprocessing import resource_tracker
  from multiprocessing import shared_memory
  from multiprocessing import sharedctypes
  from multiprocessing import synchronize
  from multiprocessing import util
  from multiprocessing import dummy
  from multiprocessing import popen_spawn_posix
  assert synchronize.SemLock._rand is not None
  synchronize.sem_unlink = _sem_unlink

  class Counter:

    def __init__(self):
      self.n = 0

    def __iter__(self):
      return self

    def __next__(self):
      o = k().os
      o.sem_seq += 1
      return "sem%06d" % o.sem_seq

  synchronize.SemLock._rand = Counter()
  _State.conn_class = _make_conn_class(connection)
  connection.Pipe = _pipe
  connection.wait = _wait
  pool.wait = _wait
  reduction.register(_State.conn_class, _reduce_conn)
  for cls in (context.SpawnProcess, context.ForkProcess,
              context.ForkServerProcess):
    cls._Popen = staticmethod(SimPopen)
  context.Process._Popen = staticmethod(SimPopen)
  heap.Arena = SimArena
  reduction.register(SimArena, _reduce_arena)
  for n in ("register", "unregister"):
    setattr(resource_tracker, n, lambda name, rtype: None)
  resource_tracker.ensure_running = lambda: None
  resource_tracker.getfd = lambda: -1
  shared_memory._posixshmem = _FakePosixShm
  shared_memory.os = _ShmOs()
  shared_memory.mmap = _ShmMmap
  shared_memory._make_filename = _shm_filename
  shared_memory.resource_tracker = resource_tracker
  # util
  reg = _FinalizerRegistry()
  _State.base_finalizers.update(util._finalizer_registry)
  util._finalizer_registry = reg
  d = util.Finalize.__call__.__defaults__
  util.Finalize.__call__.__defaults__ = (d[0], reg, d[2], os.getpid)
  util._close_stdin = lambda: None
  process.BaseProcess._after_fork = staticmethod(lambda: None)

  def proc_hash(self):
    s = self.__dict__.get("_sim_seq")
    if s is None:
      K.SEQ[0] += 1
      s = self.__dict__["_sim_seq"] = K.SEQ[0]
    return s

  process.BaseProcess.__hash__ = proc_hash
  queues.Queue._on_queue_feeder_error = staticmethod(_feeder_error)
  os.kill = _forbidden_kill
  os._exit = _sim_exit


def _forbidden_kill(pid, sig):
  kr = k()
  if kr is None:
    raise K.HarnessError("os.kill outside the simulation")
  for p in kr.procs:
    if p.pid == pid:
      kr.os.kill(p, -int(sig))
      if kr.cur.status == K.DEAD:
        kr.die_now()
      return
  raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))


def _sim_exit(code):
  kr = k()
  if kr is None or kr.cur is None or kr.in_kernel:
    K.REAL_EXIT(code)
  if kr.cur.proc is kr.procs[0]:
    raise K.HarnessError("os._exit in the main process")
  kr.count("worker_abort")
  kr.os.kill(kr.cur.proc, int(code))
  kr.die_now()


def _feeder_error(e, obj):
  k().os.stderr.append("feeder: %r" % (e,))
  k().count("feeder_error")


def _glob(mod, name, factory):
  d = mod.__dict__
  return (lambda: d[name]), (lambda v: d.__setitem__(name, v)), factory


def _attr(obj, name, factory):
  return ((lambda: getattr(obj, name)), (lambda v: setattr(obj, name, v)),
          factory)


def build_swap():
  """Interpreter globals that every simulated process has its own copy of."""
  import itertools
  import weakref
  import concurrent.futures.thread as cft
  from multiprocessing import context
  from multiprocessing import heap
  from multiprocessing import process
  from multiprocessing import util
  swap = [
      _glob(process, "_current_process", lambda c=type(process._current_process): c()),
      _glob(process, "_parent_process", lambda: None),
      _glob(process, "_process_counter", lambda: itertools.count(1)),
      _glob(process, "_children", set),
      _glob(util, "_exiting", lambda: False),
      _glob(cft, "_shutdown", lambda: False),
      _glob(cft, "_threads_queues", weakref.WeakKeyDictionary),
      _glob(cft, "_global_shutdown_lock", K.SimLock),
      _glob(threading, "_shutdown_locks", set),
      _glob(threading, "_SHUTTING_DOWN", lambda: False),
      _glob(threading, "_shutdown_locks_lock", K.SimLock),
      _glob(threading, "_active_limbo_lock", K.SimRLock),
      _attr(context._default_context, "_actual_context", lambda: None),
      _attr(heap.BufferWrapper, "_heap", heap.Heap),
  ]
  try:
    from absl import flags
    for n in flags.FLAGS:
      if n.startswith("grain_py"):
        f = flags.FLAGS[n]
        for a in ("_value", "present", "using_default_value"):
          if hasattr(f, a):
            v = getattr(f, a)
            swap.append(_attr(f, a, lambda v=v: v))
  except ImportError:
    pass
  # Module globals and class attributes that grain code assigns, and its module
  # and class level locks: every process has its own (found from the bytecode,
  # so that renaming them does not matter).
  locks = (K.SimLock, K.SimRLock)
  plain = (bool, int, float, str, bytes, type(None))
  for name, mod in sorted(sys.modules.items()):
    if not name.startswith("grain.") or mod is None or "_test" in name:
      continue
    stored = _stored(mod)
    for g, v in sorted(mod.__dict__.items(), key=lambda kv: kv[0]):
      if isinstance(v, locks):
        swap.append(_glob(mod, g, type(v)))
      elif g in stored[0] and isinstance(v, plain):
        swap.append(_glob(mod, g, lambda v=v: v))
      elif isinstance(v, type) and v.__module__ == mod.__name__:
        for a, w in sorted(v.__dict__.items()):
          if isinstance(w, locks):
            swap.append(_attr(v, a, type(w)))
          elif (v.__name__, a) in stored[1] and isinstance(w, plain):
            swap.append(_attr(v, a, lambda w=w: w))
  return swap


def _stored(mod):
  """Names of globals, and (class, attribute) pairs, assigned by functions."""
  import dis
  import types
  names, attrs = set(), set()
  todo = []
  for v in list(mod.__dict__.values()):
    if isinstance(v, types.FunctionType) and v.__module__ == mod.__name__:
      todo.append((v.__code__, None))
    elif isinstance(v, type) and v.__module__ == mod.__name__:
      for w in v.__dict__.values():
        own = v.__name__ if isinstance(w, classmethod) else None
        w = getattr(w, "__func__", w)
        w = getattr(w, "fget", w)
        if isinstance(w, types.FunctionType):
          todo.append((w.__code__, own))
  while todo:
    c, own = todo.pop()
    prev = None
    for const in c.co_consts:
      if isinstance(const, types.CodeType):
        todo.append((const, own))
    for ins in dis.get_instructions(c):
      if ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
        names.add(ins.argval)
      elif ins.opname == "STORE_ATTR" and prev is not None:
        if prev.opname == "LOAD_GLOBAL":
          attrs.add((prev.argval, ins.argval))
        elif own and prev.opname.startswith("LOAD_") and prev.argval == "cls":
          attrs.add((own, ins.argval))
      if ins.opname != "CACHE":
        prev = ins
  return names, attrs


def prepare():
  """After grain is imported, in the zygote."""
  from multiprocessing import heap
  _State.swap = build_swap()
  try:
    import absl.logging as al
    al._absl_logger.log = lambda *a, **kw: None
  except ImportError:
    pass
  import logging
  logging.disable(logging.CRITICAL)
  _own_finalizers()


def _own_finalizers():
  """Iterators are finalized only by the simulated process that made them.

  All simulated processes share one heap.  Garbage of one process, possibly one
  that was killed while its threads held locks, must not be finalized by the
  garbage collector that happens to run in another one.
  """
  from grain._src.python.dataset import dataset
  cls = dataset.DatasetIterator
  fin = cls.__dict__.get("__del__")
  if fin is None or "__new__" in cls.__dict__:
    return

  def new(c, *args, **kwargs):
    del args, kwargs
    self = object.__new__(c)
    k = K.KERNEL
    if k is not None:
      self.__dict__["_dst_proc"] = k.cur.proc
    return self

  def finalize(self):
    k = K.KERNEL
    proc = self.__dict__.get("_dst_proc")
    if k is not None and proc is not None and proc is not k.cur.proc:
      return
    fin(self)

  cls.__new__ = new
  cls.__del__ = finalize


def attach(kr):
  """Gives a new kernel a fresh operating system."""
  from multiprocessing import heap
  kr.os = OS(kr)
  kr.swap = _State.swap
  for get, put, factory in kr.swap:
    pass
  heap.BufferWrapper._heap = heap.Heap.__new__(heap.Heap)


def start(kr):
  """Once the kernel is current: initialise the main process's heap."""
  from multiprocessing import heap
  heap.BufferWrapper._heap = heap.Heap()
