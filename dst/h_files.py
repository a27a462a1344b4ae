"""P24: sources that grain itself provides: TFRecord and Parquet files, lists in
shared memory, ranges.

Files live in the world's disk.  TFRecord files are read through a raw file of
the simulator under CPython's own buffered reader (short reads, slow reads and
errors at planned reads); Parquet files through pyarrow on their bytes, with one
disk operation for every open and every row group.
"""

import errno
import functools
import io
import struct

import grain
from grain._src.python import data_sources
from grain._src.python.dataset.sources import parquet_dataset
from grain._src.python.dataset.sources import tfrecord_dataset
import numpy as np
import pyarrow as pa
import pyarrow.parquet as pq

from dst import kernel as K
from dst import pipeline as P
from dst import runner
from dst import world as WM
from dst.engine import Violation

PREFIX = "/dst-simulated-disk/"


def disk():
  return WM.W.__dict__.setdefault("disk", {})


def disk_op(path, kind):
  """One operation of the simulated disk; returns a bound for the bytes read."""
  k = K.KERNEL
  if k is None:
    return None
  k.point()
  n = WM.W.__dict__.setdefault("disk_ops", {}).get(path, 0)
  WM.W.disk_ops[path] = n + 1
  io_plan = WM.W.__dict__.get("io") or {}
  f = (io_plan.get(path[len(PREFIX):]) or {}).get(str(n))
  if f is None:
    return None
  if isinstance(f, (int, float)):
    k.count("slow_disk_" + kind)
    k.sleep(f)
    return None
  if f[0] == "short":
    k.count("short_read")
    return f[1]
  k.count("disk_%s_%s" % (kind, f[0]))
  k.count("user_exception")
  k.note("disk", kind, f[0], path)
  raise OSError(getattr(errno, f[0]), "planned: simulated " + f[0], path)


class Raw(io.RawIOBase):
  """A file of the simulated disk."""

  def __init__(self, path, piece):
    self.path, self.piece = path, piece
    disk_op(path, "open")
    if path not in disk():
      raise FileNotFoundError(errno.ENOENT, "No such file", path)
    self.data = disk()[path]
    self.pos = 0
    self.out = WM.W.__dict__.setdefault("disk_open", {})
    self.out[id(self)] = path

  def readable(self):
    return True

  def seekable(self):
    return True

  def seek(self, offset, whence=0):
    base = (0, self.pos, len(self.data))[whence]
    self.pos = base + offset
    return self.pos

  def tell(self):
    return self.pos

  def readinto(self, b):
    most = disk_op(self.path, "read")
    n = min(len(b), self.piece or len(b), most or len(b))
    chunk = self.data[self.pos:self.pos + n]
    b[:len(chunk)] = chunk
    self.pos += len(chunk)
    return len(chunk)

  def close(self):
    self.out.pop(id(self), None)
    super().close()


def sim_open(path, mode="r", *args, **kw):
  if not str(path).startswith(PREFIX):
    return open(path, mode, *args, **kw)
  assert mode == "rb", mode
  buf, piece = WM.W.__dict__.get("disk_buf") or (8192, 0)
  return io.BufferedReader(Raw(str(path), piece), buf)


class SimParquetFile:
  """pyarrow's reader on the simulated disk."""

  def __init__(self, path, **kw):
    self.path = str(path)
    disk_op(self.path, "open")
    self.f = pq.ParquetFile(pa.BufferReader(disk()[self.path]), pre_buffer=False,
                            **kw)

  def read_row_group(self, i, *args, **kw):
    disk_op(self.path, "read")
    kw.setdefault("use_threads", False)
    return self.f.read_row_group(i, *args, **kw)

  def __getattr__(self, name):
    return getattr(self.f, name)


class _PQ:
  ParquetFile = SimParquetFile


tfrecord_dataset.open = sim_open
parquet_dataset.pq = _PQ


# -- contents --------------------------------------------------------------
def record(name, i, n):
  """Record i of a TFRecord file: n bytes, zeros included."""
  word = ("%s.%d;" % (name, i)).encode() + bytes([0, i % 256, 255, 10])
  return (word * (n // len(word) + 1))[:n]


def tfr_bytes(name, lens, cut=None):
  out = []
  for i, n in enumerate(lens):
    r = record(name, i, n)
    out.append(struct.pack("<QI", n, (i * 7919) % 2**32) + r +
               struct.pack("<I", (n * 104729 + i) % 2**32))
  data = b"".join(out)
  return data if cut is None else data[:cut]


def row(name, i, base):
  v = base + i
  return {"b": np.int64(v), "f": np.float64(v / 4), "s": "%s.%d" % (name, i)}


@functools.lru_cache(64)
def pq_bytes(name, groups, base):
  """A Parquet file whose row groups have the given numbers of rows."""
  schema = pa.schema([("b", pa.int64()), ("f", pa.float64()), ("s", pa.string())])
  sink = io.BytesIO()
  i = 0
  with pq.ParquetWriter(sink, schema) as w:
    for n in groups:
      rows = [row(name, j, base) for j in range(i, i + n)]
      w.write_table(pa.table({k: [r[k] for r in rows] for k in ("b", "f", "s")},
                             schema=schema), row_group_size=max(n, 1))
      i += n
  return sink.getvalue()


def tfr_complete(lens, cut):
  """Records that end before `cut`, and whether the cut is inside of one."""
  if cut is None:
    return len(lens), False
  a = 0
  for i, n in enumerate(lens):
    if a + n + 16 > cut:
      return i, a != cut
    a += n + 16
  return len(lens), False


# -- pipelines ---------------------------------------------------------------
def _b_tfr(self, name, lens, cut=None):
  path = PREFIX + name
  disk()[path] = tfr_bytes(name, lens, cut)
  return tfrecord_dataset.TFRecordIterDataset(path)


def _m_tfr(self, name, lens, cut=None):
  return [record(name, i, n) for i, n in enumerate(
      lens[:tfr_complete(lens, cut)[0]])]


def _b_pq(self, files, kw=None):
  paths = []
  for name, groups, base in files:
    paths.append(PREFIX + name)
    disk()[paths[-1]] = pq_bytes(name, tuple(groups), base)
  return parquet_dataset.ParquetIterDataset(
      paths[0] if len(paths) == 1 and (kw or {}).get("single") else paths)


def _m_pq(self, files, kw=None):
  sl = self.sl or self.seq
  if sl is not None:
    files = files[sl[0]::sl[1]]
  lists = [[row(name, i, base) for i in range(sum(groups))]
           for name, groups, base in files]
  return P.interleave_lists(lists, 16) if lists else []


def value(v, j):
  return [v, "s%d" % v, v + 0.5, v % 2 == 0, None, b"b%d" % v][
      (v * 7 + v // 6 + j) % 6]


def _b_shm(self, n, base, j):
  vals = [value(base + i, j) for i in range(n)]
  if K.KERNEL is None:  # reference evaluation
    return grain.MapDataset.source(vals).map(_Box())
  src = data_sources.SharedMemoryDataSource(vals)
  WM.W.__dict__.setdefault("shm_sources", []).append(src)
  return grain.MapDataset.source(src).map(_Box())


class _Box:
  """Tells types apart."""

  def __call__(self, x):
    WM.W.call("box", 0)
    return boxed(x)


def boxed(x):
  return {"b": len(repr(x)), "x": x, "t": type(x).__name__}


def _m_shm(self, n, base, j):
  # None is no element.
  return self._seq([None if v is None else boxed(v) for v in (
      value(base + i, j) for i in range(n))])


def _b_rng(self, a, z, st):
  return grain.MapDataset.source(data_sources.RangeDataSource(a, z, st))


def _m_rng(self, a, z, st):
  return self._seq(list(range(a, z, st)))


P.MAP_OPS |= {"shmsrc", "rngsrc"}
P.Builder._tfr, P.Model._tfr = _b_tfr, _m_tfr  # pylint: disable=protected-access
P.Builder._pq, P.Model._pq = _b_pq, _m_pq  # pylint: disable=protected-access
P.Builder._shmsrc, P.Model._shmsrc = _b_shm, _m_shm  # pylint: disable=protected-access
P.Builder._rngsrc, P.Model._rngsrc = _b_rng, _m_rng  # pylint: disable=protected-access


# -- program ------------------------------------------------------------------
class Program(runner.Program):
  """Adds retried restores, and files that end in the middle of a record."""

  def op_rset(self, h, s):
    """A restore that fails leaves the iterator where it was; it is repeated."""
    hd, st = self.hs.get(h), self.ss.get(s)
    if hd is None or st is None or hd.closed:
      return
    for _ in range(100):
      try:
        self.call("set_state", lambda: hd.it.set_state(st.state), 240)
      except Exception as e:  # pylint: disable=broad-except
        if "planned" not in str(e):
          self.fail("unexpected-exception", "set_state raised %s: %s" % (
              type(e).__name__, str(e)[:300]))
        self.ctx.probe("failed_restores")
        if self.scn.get("atomic_set"):
          # The failed restore changed nothing.
          self.op_rnext(h, 1)
        continue
      hd.pos, hd.failed, hd.ended = st.pos, False, False
      self.ctx.probe("restores")
      return
    self.fail("error-persists", "set_state keeps failing")

  def op_rnew(self, h):
    """Opening a file may fail; it is opened again."""
    for _ in range(100):
      try:
        it = self.call("iter()", lambda: iter(self.dataset()), 240)
      except Exception as e:  # pylint: disable=broad-except
        if "planned" not in str(e):
          self.fail("unexpected-exception", "iter() raised %s: %s" % (
              type(e).__name__, str(e)[:300]))
        self.ctx.probe("failed_opens")
        continue
      self.hs[h] = runner.H(it, 0)
      return
    self.fail("error-persists", "iter() keeps failing")

  def op_rget(self, h, s):
    """Captures, which may read, too."""
    hd = self.hs.get(h)
    if hd is None or hd.closed:
      return
    for _ in range(100):
      try:
        st = self.call("get_state", hd.it.get_state, 240)
      except Exception as e:  # pylint: disable=broad-except
        if "planned" not in str(e):
          self.fail("unexpected-exception", "get_state raised %s: %s" % (
              type(e).__name__, str(e)[:300]))
        self.ctx.probe("failed_captures")
        continue
      self.ss[s] = runner.S(st, hd.pos)
      self.ctx.probe("states")
      return
    self.fail("error-persists", "get_state keeps failing")

  def op_truncated(self, h):
    """The file ends inside of a record: an error there, again and again."""
    hd = self.hs[h]
    while hd.pos < len(self.exp):
      if not self.step(h):
        self.fail("lost-elements", "no element %d of a truncated file" % hd.pos)
    for _ in range(3):
      try:
        x = self.call("next", lambda: next(hd.it), runner.NEXT_S)
      except StopIteration:
        self.fail("truncated-file-ends", "a file that ends inside of record %d "
                  "ends the iteration" % hd.pos)
      except ValueError as e:
        if "TFRecord" not in str(e):
          raise
        self.ctx.probe("truncations_reported")
        continue
      self.fail("wrong-element", "a record that is not complete: %s" %
                WM.show(x))


def harness(scn, ctx):
  ctx.w.io = scn.get("io")
  ctx.w.disk_buf = scn.get("buf")
  exp, inf = runner.expected(scn)
  runner.arm_faults(scn, ctx)
  p = Program(scn, ctx, exp, inf)
  try:
    p.run(scn["ops"])
    p.finish()
  finally:
    for s in ctx.w.__dict__.get("shm_sources", []):
      try:
        s.unlink()
      except OSError:
        pass
  ctx.probe("disk_operations", sum(ctx.w.__dict__.get("disk_ops", {}).values()))
