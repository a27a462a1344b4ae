"""User code of the simulated pipelines: sources and functions.

Every call goes through `W.call(site, key)`, which is a scheduling point, is
recorded, and is where planned user-level faults happen: slow calls,
exceptions (transient or permanent), and death of the executing process.
All simulated processes live in one real process, so `W` sees every call.
"""

import collections
from concurrent import futures
import queue

import numpy as np

from dst import kernel as K


class UserError(Exception):
  """Raised by user code on request of the fault plan."""


class UserKeyError(KeyError):
  pass


class UserOSError(OSError):
  pass


class KwError(Exception):
  """An exception that pickles but cannot be rebuilt from its args."""

  def __init__(self, site, key, *, note):
    super().__init__("%s:%s:%s" % (site, key, note))


class LocalStateError(Exception):
  """Cannot be pickled."""

  def __init__(self, msg):
    super().__init__(msg)
    self.context = lambda: msg


ERRORS = {
    "UserError": UserError,
    "LocalStateError": LocalStateError,
    "Empty": queue.Empty,
    "Full": queue.Full,
    "TimeoutError": TimeoutError,
    "IndexError": IndexError,
    "AssertionError": AssertionError,
    "CancelledError": futures.CancelledError,
    "EOFError": EOFError,
    "BrokenPipeError": BrokenPipeError,
    "NotImplementedError": NotImplementedError,
    "AttributeError": AttributeError,
    "ValueError": ValueError,
    "KeyError": UserKeyError,
    "OSError": UserOSError,
    "RuntimeError": RuntimeError,
    "TypeError": TypeError,
    "MemoryError": MemoryError,
}


class World:

  def __init__(self, plan=None):
    plan = plan or {}
    self.delays = plan.get("delays", {})  # "site:key" -> seconds
    self.errors = plan.get("errors", {})  # "site:key" -> [type, times]
    self.kills = plan.get("kills", {})  # "site:key" -> exit code
    self.slow_sites = plan.get("slow_sites", {})
    self.calls = 0
    self.reads = []  # (site, key) in order, all processes
    self.read_count = collections.Counter()
    self.raised = []
    self.raised_by = []
    self.on_call = {}  # call number -> [fn]
    self.in_flight = {}
    self.max_in_flight = {}
    self.record = True
    self.rng_seen = []
    self.inits = []
    self.hook = None
    self.unhook = None

  def call(self, site, key):
    if self.hook is None:
      return self._call(site, key)
    if K.KERNEL is None:
      return
    self.hook(site, key)
    try:
      self._call(site, key)
    finally:
      self.unhook(site)

  def _call(self, site, key):
    k = K.KERNEL
    if k is None:
      return
    k.point()
    n = self.calls
    self.calls = n + 1
    fns = self.on_call.pop(n, None)
    if fns:
      for fn in fns:
        fn()
    if self.record:
      self.reads.append((site, key))
      self.read_count[(site, key)] += 1
    sk = "%s:%s" % (site, key)
    if self.slow_sites:
      d = self.slow_sites.get(site)
      if d:
        k.sleep(d)
    if self.delays:
      d = self.delays.get(sk)
      if d:
        k.count("slow_user_call")
        k.sleep(d)
    if self.kills:
      e = self.kills.get(sk)
      if e is not None and k.cur.proc.parent is not None:
        code, times = e
        if times:
          e[1] -= 1
          k.count("kill_in_user_code" if code < 0 else "exit_in_user_code")
          k.note("kill", sk)
          k.os.kill(k.cur.proc, code)
          k.die_now()
    if self.errors:
      e = self.errors.get(sk)
      if e is not None:
        kind, times = e
        if times:
          e[1] -= 1
          k.count("user_exception")
          self.raised.append((sk, kind, k.cur.proc.name))
          self.raised_by.append((sk, id(k.cur)))
          if kind == "BadElement":
            raise _Bad()
          if kind == "KwError":
            raise KwError(site, key, note="planned")
          raise ERRORS[kind]("planned:" + sk)


W = World()


def make(kind, v):
  """Element number v of the given kind."""
  if kind == "int":
    return v
  if kind == "arr":
    return np.full((4,), v, dtype=np.int64)
  if kind == "big":
    return np.full((64 + v % 3,), v, dtype=np.int32)
  if kind == "dict":
    return {"a": np.full((3,), v, dtype=np.int64), "b": v,
            "s": "s%d" % v}
  if kind == "nest":
    return {"x": {"y": np.arange(v % 4 + 1, dtype=np.float32) + v,
                  "z": (np.int32(v), [np.full((2, 2), v % 251, dtype=np.uint8)])}}
  if kind == "seq":  # variable length sequences for packing
    n = v % 5 + 1
    return {"t": np.arange(n, dtype=np.int64) + v * 100}
  if kind == "pad":  # large picklable, not shared memory
    return {"b": v, "s": "x" * (20000 + v % 7)}
  if kind == "zoo":  # one array of every kind, fixed shapes
    m = v % 97
    return {
        "b": v, "bool": np.array([m % 2 == 0, True]),
        "f2": np.full((3, 2), m, np.float16),
        "c": np.array([m + 1j]), "d": np.datetime64("2020-01-01") + np.arange(m, m + 2),
        "s": np.array([(m, m / 2)], dtype=[("p", "<i4"), ("q", "<f8")]),
        "o": np.array([m, None, "x"], dtype=object),
        "z": np.array(m, dtype=np.int16), "e": np.zeros((0, 3), np.float32),
        "fo": np.asfortranarray(np.arange(6).reshape(2, 3) + m),
        "nc": (np.arange(12) + m)[::3], "be": np.arange(3, dtype=">i4") + m,
        "u": np.array(["a" * (m % 4 + 1), "b"]), "by": b"q" * (m % 3),
        "ro": _readonly(np.arange(5, dtype=np.uint8) + m % 9)}
  if kind == "mixed":  # types that differ between elements
    return {"b": v, "m": v if v % 3 else v + 0.5,
            "a": np.full((2,), v, np.int32 if v % 2 else np.float64),
            "w": np.full((1,), v + (1 << 40 if v % 5 == 4 else 0),
                         np.int64 if v % 5 == 4 else np.int16)}
  if kind == "empty":
    return {"b": v, "x": np.zeros((0,), np.int64)}
  if kind == "page":  # larger than one page
    return {"b": v, "x": np.arange(3000, dtype=np.int64) + v,
            "y": np.full((70, 71), v, np.int32)}
  if kind.startswith("F:"):
    return features(kind[2:], v)
  raise ValueError(kind)


def features(desc, v):
  """A record of features of different lengths: "a:i:0-5,b:f:2-2,m:o"."""
  out = {}
  for j, f in enumerate(desc.split(",")):
    name, typ, *lens = f.split(":")
    n = 0
    if lens:
      lo, hi = lens[0].split("-")
      lo, hi = int(lo), int(hi)
      n = lo + (v * 7 + j * 3 + v * v * (j + 1) // 3) % (hi - lo + 1)
    first = v * 1000 + j * 100 + 1
    if typ == "i":
      out[name] = np.arange(first, first + n, dtype=np.int64)
    elif typ == "f":
      out[name] = (np.arange(n) + first % 4001 + 0.5).astype(np.float32)
    elif typ == "m":  # trailing dimension
      out[name] = (np.arange(2 * n).reshape(n, 2) + first).astype(np.int32)
    elif typ == "s":  # scalar
      out[name] = first
    elif typ == "o":
      out[name] = "o%d" % v
    else:
      raise ValueError(f)
  return out


def _readonly(a):
  a.flags.writeable = False
  return a


def ident(x):
  """A number derived from the element, for filters and faults."""
  if isinstance(x, dict):
    if "b" in x:
      return ident(x["b"])
    return ident(x[sorted(x)[0]])
  if isinstance(x, (tuple, list)):
    return ident(x[0]) if len(x) else 0
  if isinstance(x, bytes):
    return len(x)
  a = np.asarray(x)
  if a.size == 0:
    return 0
  if a.dtype.kind in "biuf":
    return int(a.reshape(-1)[0])
  return 0


def views(x):
  """Slices of the arrays of an element, which keep only their base alive."""
  def f(v):
    if isinstance(v, np.ndarray) and v.ndim:
      return v[v.shape[0] // 2:]
    return v
  return tmap(f, x)


def tmap(fn, x):
  if isinstance(x, dict):
    return {k: tmap(fn, v) for k, v in x.items()}
  if isinstance(x, tuple):
    return tuple(tmap(fn, v) for v in x)
  if isinstance(x, list):
    return [tmap(fn, v) for v in x]
  return fn(x)


def affine(x, a):
  def f(v):
    if isinstance(v, str):
      return v + "+"
    if isinstance(v, np.ndarray):
      if v.dtype.kind not in "iuf":
        return np.array(v)
      return np.array(v) + np.asarray(a, dtype=v.dtype)
    if isinstance(v, (int, float, np.generic)):
      return v + a
    return v
  return tmap(f, x)


class Source:
  """RandomAccessDataSource."""

  def __init__(self, site, n, kind, base):
    self.site = site
    self.n = n
    self.kind = kind
    self.base = base

  def __len__(self):
    return self.n

  def __getitem__(self, i):
    W.call(self.site, int(i))
    return make(self.kind, self.base + int(i))

  def __repr__(self):
    return "Source(%s)" % self.site


class _Bad(Exception):
  pass


class Unsendable:
  """An element that cannot be sent to another process."""

  def __init__(self, n):
    self.n = n

  def __reduce__(self):
    raise TypeError("planned: cannot be pickled")


class MapFn:

  def __init__(self, site, a):
    self.site = site
    self.a = a

  def __repr__(self):
    return "fn<%s>" % self.site

  def __call__(self, x):
    try:
      W.call(self.site, ident(x))
    except _Bad:
      return Unsendable(ident(x))
    return affine(x, self.a)


class MapIdxFn:

  def __init__(self, site):
    self.site = site

  def __repr__(self):
    return "fn<%s>" % self.site

  def __call__(self, i, x):
    W.call(self.site, ident(x))
    return (int(i), x)


class FilterFn:

  def __init__(self, site, mod, rem):
    self.site = site
    self.mod = mod
    self.rem = rem

  def __repr__(self):
    return "fn<%s>" % self.site

  def __call__(self, x):
    W.call(self.site, ident(x))
    keep = ident(x) % self.mod != self.rem
    return np.bool_(keep) if len(self.site) % 2 else keep


def draws(x, rng, mode):
  """What user code does with its generator; `mode` says how much of it."""
  pre = None
  if mode == "half":  # leaves half a word in the generator's buffer
    pre = int(rng.integers(1 << 31, dtype=np.uint32))
  elif mode == "norm":
    pre = float(rng.standard_normal())
  elif mode == "perm":
    pre = tuple(int(v) for v in rng.permutation(6))
  a = int(rng.integers(1 << 40))
  k = K.KERNEL
  if k is not None:
    k.point()
  b = int(rng.integers(1 << 40))
  if mode == "var":  # a different number of draws for different elements
    rng.random(abs(ident(x)) % 5)
  elif mode == "tail":
    rng.integers(1 << 20, dtype=np.uint32)
  return (x, a, b) if pre is None else (x, a, b, pre)


class RandomMapFn:

  def __init__(self, site, mode=None):
    self.site = site
    self.mode = mode

  def __repr__(self):
    return "fn<%s>" % self.site

  def __call__(self, x, rng):
    W.call(self.site, ident(x))
    return draws(x, rng, self.mode)


class RandomMapIdxFn(RandomMapFn):
  pass


class FlatFn:
  """transforms.FlatMap (subclassed in pipeline.py)."""


class Poison:
  """Stands for an element whose computation raises (reference model only)."""

  def __init__(self, kind, text=None):
    self.kind = kind
    self.text = text  # part of the message of an error raised by grain


class WorkerInit:

  def __init__(self, site):
    self.site = site

  def __call__(self, i, n):
    W.inits.append((i, n))
    W.call(self.site, i)


def canon(x):
  """Structure-preserving comparable form of an element."""
  if x is None:
    return None
  if isinstance(x, dict):
    return ("d", tuple((k, canon(x[k])) for k in sorted(x)))
  if isinstance(x, tuple):
    return ("t", tuple(canon(v) for v in x))
  if isinstance(x, list):
    return ("l", tuple(canon(v) for v in x))
  if isinstance(x, np.ndarray):
    a = np.asarray(x)
    return ("a", str(a.dtype.descr) if a.dtype.names else a.dtype.str, a.shape, a.tobytes() if not a.dtype.hasobject
            else repr(a.tolist()))
  if isinstance(x, np.generic):
    return ("a", x.dtype.str, (), x.tobytes())
  if isinstance(x, (bool, int, float, str, bytes)):
    return x
  if hasattr(x, "__dict__"):
    return ("o", type(x).__name__, canon(dict(x.__dict__)))
  return ("r", repr(x))


def diff(a, b, path=""):
  """The first difference of two canonical forms."""
  if a == b:
    return None
  if (isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] and
      a and a[0] in ("d", "t", "l") and len(a) == len(b) == 2):
    if len(a[1]) != len(b[1]):
      return "%s: %d/%d entries" % (path, len(a[1]), len(b[1]))
    for i, (u, v) in enumerate(zip(a[1], b[1])):
      if u != v:
        if a[0] == "d":
          if u[0] != v[0]:
            return "%s: keys %r/%r" % (path, u[0], v[0])
          return diff(u[1], v[1], "%s[%r]" % (path, u[0]))
        return diff(u, v, "%s[%d]" % (path, i))
  return "%s: got %s, expected %s" % (path, str(a)[:150], str(b)[:150])


def show(x, limit=160):
  """Short printable form."""
  def f(v):
    if isinstance(v, np.ndarray):
      a = np.asarray(v)
      if a.size > 6 and (a == a.reshape(-1)[0]).all():
        return "arr%s*%s" % (list(a.shape), a.reshape(-1)[0])
      return "arr%s" % (a.tolist(),)
    if isinstance(v, str) and len(v) > 20:
      return v[:8] + "..%d" % len(v)
    return v
  s = repr(tmap(f, x))
  return s if len(s) <= limit else s[:limit] + "..."


def set_world(w):
  global W
  W = w
