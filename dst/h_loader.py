"""P12: DataLoader programs against a model computed from indices alone."""

import functools
import sys

import grain
import grain.experimental
from grain._src.python import operations as gops
import numpy as np

from dst import kernel as K
from dst import pipeline as P
from dst import runner
from dst import world as WM
from dst.engine import Violation

CAP = 120  # local records an infinite sampler is followed for


class MapT(grain.transforms.Map):

  def __init__(self, site, a):
    self.fn = WM.MapFn(site, a)

  def map(self, element):
    return self.fn(element)


class FilterT(grain.transforms.Filter):

  def __init__(self, site, mod, rem):
    self.fn = WM.FilterFn(site, mod, rem)

  def filter(self, element):
    return self.fn(element)


class RandomT(grain.transforms.RandomMap):

  def __init__(self, site):
    self.fn = WM.RandomMapFn(site)

  def random_map(self, element, rng):
    return self.fn(element, rng)


class ListBatch:
  """A user's batch function."""

  def __call__(self, values):
    return list(values)


class Ragged(grain.transforms.Map):
  """Sequences of different lengths."""

  def __init__(self, length):
    self.length = length

  def map(self, element):
    return {"t": np.full((element * 7 % self.length + 1,), element, np.int32),
            "u": np.full((element * 5 % self.length + 1, 2), element, np.float32)}


def packed(recs, batch, length, most):
  """First-fit packing of whole batches."""
  fn = Ragged(length)
  out, rows = [], []

  def flush():
    res = []
    for shape in ((), (), ()):
      res.append({})
    for k in ("t", "u"):
      tail = {"t": (), "u": (2,)}[k]
      v = np.zeros((batch, length) + tail, {"t": np.int32, "u": np.float32}[k])
      seg = np.zeros((batch, length), np.int32)
      pos = np.zeros((batch, length), np.int32)
      for r, row in enumerate(rows):
        a = 0
        for j, e in enumerate(row):
          z = a + len(e[k])
          v[r, a:z] = e[k]
          seg[r, a:z] = j + 1
          pos[r, a:z] = np.arange(z - a)
          a = z
      res[0][k], res[1][k], res[2][k] = v, seg, pos
    out.append(tuple(res))

  for x in recs:
    e = fn.map(x)
    for attempt in range(2):
      for row in rows:
        if (most is None or len(row) < most) and all(
            sum(len(y[k]) for y in row) + len(e[k]) <= length for k in e):
          row.append(e)
          break
      else:
        if len(rows) < batch:
          rows.append([e])
        else:
          flush()
          rows = []
          continue
      break
  if rows:
    flush()
  return out


def build_op(o):
  if o[0] == "map":
    return MapT(o[1], o[2])
  if o[0] == "filter":
    return FilterT(*o[1:])
  if o[0] == "rand":
    return RandomT(o[1])
  if o[0] == "flat":
    return P.FlatFn(o[1], o[2])
  if o[0] == "batch":
    return grain.transforms.Batch(o[1], drop_remainder=bool(o[2]))
  if o[0] == "lbatch":
    return grain.transforms.Batch(
        o[1], drop_remainder=bool(o[2]), batch_fn=ListBatch())
  if o[0] == "obatch":
    return gops.BatchOperation(o[1], drop_remainder=bool(o[2]))
  if o[0] == "omap":
    return gops.MapOperation(WM.MapFn(o[1], o[2]))
  if o[0] == "ofilter":
    return gops.FilterOperation(WM.FilterFn(*o[1:]))
  if o[0] == "pack":
    return [Ragged(o[2]), grain.experimental.PackAndBatchOperation(
        length_struct={"t": o[2], "u": o[2]}, batch_size=o[1],
        max_sequences_per_bin=o[3])]
  raise K.HarnessError("op %r" % (o,))


def options(sh):
  if sh is None:
    return grain.sharding.NoSharding()
  return grain.sharding.ShardOptions(sh[0], sh[1], drop_remainder=bool(sh[2]))


class NoLen:
  """A user's sampler: indices up to an IndexError, no length."""

  def __init__(self, sampler):
    self.sampler = sampler

  def __getitem__(self, i):
    return self.sampler[i]

  def __repr__(self):
    return "NoLen(%r)" % (self.sampler,)


def build_sampler(c, sh):
  s = c["sampler"]
  if s[0] == "seq":
    return grain.samplers.SequentialSampler(
        c["n"], shard_options=options(sh), seed=s[1])
  return grain.samplers.IndexSampler(
      c["n"], shard_options=options(sh), shuffle=bool(s[1]), num_epochs=s[2],
      seed=s[3])


def read_options(c):
  return (None if c["read"] is None else
          grain.ReadOptions(num_threads=c["read"][0],
                            prefetch_buffer_size=c["read"][1]))


def build(c):
  src = WM.Source(c["src"], c["n"], c["kind"], c["base"])
  ts = []
  for o in c["tf"]:
    o = build_op(o)
    ts += o if isinstance(o, list) else [o]
  if c["api"] == "load":
    s = c["sampler"]
    kw = {}
    if ts and c["tf"][-1][0] == "batch":
      ts.pop()
      kw = {"batch_size": c["tf"][-1][1],
            "drop_remainder": bool(c["tf"][-1][2])}
    return grain.load(
        src, num_epochs=s[2], shuffle=bool(s[1]), seed=s[3],
        shard_options=options(c["shard"]), transformations=ts,
        worker_count=c["w"], read_options=read_options(c), **kw)
  smp = build_sampler(c, c["shard"])
  return grain.DataLoader(
      data_source=src, sampler=NoLen(smp) if c.get("nolen") else smp,
      operations=ts,
      worker_count=c["w"], worker_buffer_size=c["buf"],
      shard_options=None if c.get("shard_in_sampler") else options(c["shard"]),
      read_options=read_options(c))


# -- model ------------------------------------------------------------------
def keys(c):
  """Record keys and generators' keys of the shard's local indices."""
  n, s = c["n"], c["sampler"]
  i, cnt, drop = c["shard"] or (0, 1, 0)
  if s[0] == "seq":
    total = n // cnt * cnt if drop else n
    idx = list(range(i, total, cnt))
    return idx, idx, (s[1] if s[1] is not None else None), False
  _, shuffle, epochs, seed = s
  if drop:
    q = n // cnt
    a, z = i * q, (i + 1) * q
  else:
    a, z = P.even_split(n, i, cnt)
  size = z - a
  if epochs is None:
    m = CAP
  else:
    total = (n // cnt * cnt if drop else n) * epochs
    m = len(range(i, total, cnt))
  if shuffle:
    # The permutation is the sampler's (its laws are checked separately).
    sm = build_sampler(c, c["shard"])
    ks = [int(sm[j * cnt + i].record_key) for j in range(m)]
    for e in range(0, m, size):
      part = ks[e:e + size]
      full = sorted(part) == list(range(a, z))
      if not (full or (len(part) < size and len(set(part)) == len(part) and
                       set(part) <= set(range(a, z)))):
        raise Violation("not-a-permutation", "epoch %d of shard %s draws records "
                        "%s instead of %d..%d" % (e // size, c["shard"], part, a,
                                                  z - 1))
  else:
    ks = [a + j % size for j in range(m)] if size else []
  return ks, [j * cnt + i for j in range(m)], seed, epochs is None


class Rec:
  __slots__ = ("x", "rng")

  def __init__(self, x, rng):
    self.x, self.rng = x, rng


def apply_ops(c, recs):
  for o in c["tf"]:
    if o[0] in ("map", "omap"):
      recs = [Rec(WM.affine(r.x, o[2]), r.rng) for r in recs]
    elif o[0] in ("filter", "ofilter"):
      recs = [r for r in recs if WM.ident(r.x) % o[2] != o[3]]
    elif o[0] == "rand":
      fn = WM.RandomMapFn(o[1])
      recs = [Rec(fn(r.x, r.rng), r.rng) for r in recs]
    elif o[0] == "flat":
      recs = [Rec((r.x, j), None) for r in recs
              for j in range(abs(WM.ident(r.x)) % (o[2] + 1))]
    elif o[0] == "pack":
      recs = [Rec(x, None) for x in packed([r.x for r in recs], *o[1:])]
    else:
      out = []
      for a in range(0, len(recs), o[1]):
        part = [r.x for r in recs[a:a + o[1]]]
        if len(part) < o[1] and o[2]:
          break
        out.append(Rec(part if o[0] == "lbatch" else P._default_batch(part),
                       None))
      recs = out
  return [r.x for r in recs]


def expected(c):
  ks, idx, seed, infinite = keys(c)
  recs = []
  for k, i in zip(ks, idx):
    rng = None
    if seed is not None:
      rng = np.random.Generator(np.random.Philox(key=seed + i))
    recs.append(Rec(WM.make(c["kind"], c["base"] + k), rng))
  w = c["w"]
  if w == 0:
    out = apply_ops(c, recs)
    if infinite:
      out = out[:-1]  # A last partial batch.
    return out, infinite
  lists = [apply_ops(c, recs[j::w]) for j in range(w)]
  if infinite:
    m = min(len(l) for l in lists) - 1
    return [l[j] for j in range(max(m, 0)) for l in lists], True
  return P.interleave_lists(lists, w), False


def sampler_laws(c):
  """Across shards every record is drawn once per epoch."""
  n, s = c["n"], c["sampler"]
  _, cnt, drop = c["shard"] or (0, 1, 0)
  if s[0] == "seq":
    epochs = 1
  else:
    epochs = s[2] or 2
  q = n // cnt
  if n % cnt and not drop and epochs > 1:
    return  # Epochs of shards of different sizes do not end together.
  got = []
  for i in range(cnt):
    sh = None if c["shard"] is None else [i, cnt, drop]
    sm = build_sampler(c, sh)
    per = q if drop or n % cnt == 0 else (q + (i < n % cnt))
    for e in range(epochs):
      if len(got) <= e:
        got.append([])
      for j in range(e * per, (e + 1) * per):
        got[e].append(int(sm[j * cnt + i].record_key))
    if s[0] != "seq" and s[2] is None:
      continue
    total = (n // cnt * cnt if drop else n) * epochs
    if len(sm) != total:
      raise Violation("sampler-length", "the sampler's length is %d, expected %d"
                      % (len(sm), total))
  for e, ks in enumerate(got):
    want = n // cnt * cnt if drop else n
    if len(set(ks)) != len(ks) or len(ks) != want or not set(ks) <= set(range(n)):
      raise Violation("records-not-once", "epoch %d over %d shards of %d records "
                      "draws %s" % (e, cnt, n, sorted(ks)))


class Wrapped:
  """DataLoaderIterator with states as JSON types."""

  def __init__(self, it):
    self.it = it

  def __next__(self):
    return next(self.it)

  def get_state(self):
    s = self.it.get_state()
    if not isinstance(s, bytes):
      raise Violation("state-type", "get_state() returned %r" % type(s))
    return {"bytes": s.decode()}

  def set_state(self, s):
    self.it.set_state(s["bytes"].encode())

  def start_prefetch(self):
    self.it.start_prefetch()


class Loader:

  def __init__(self, dl):
    self.dl = dl

  def __iter__(self):
    return Wrapped(iter(self.dl))


class Prog(runner.Program):

  def op_close(self, h):
    """DataLoader iterators are released by dropping them."""
    hd = self.hs.get(h)
    if hd is not None:
      hd.closed = True
      self.op_del(h)

  def op_badset(self, h, how):
    """A state of another loader is rejected and changes nothing."""
    hd = self.hs.get(h)
    if hd is None or hd.failed:
      return
    c = dict(self.scn["dl"])
    if how == "workers":
      c["w"] = c["w"] + 1
    elif how == "records":
      c["n"] = c["n"] + (c["shard"] or [0, 1])[1] * 2
    elif how == "source":
      c["src"] = "other"
    elif how == "sampler":
      if c["sampler"][0] != "idx" or c["sampler"][2] is None:
        return
      c["sampler"] = ["idx", c["sampler"][1], c["sampler"][2] + 1,
                      c["sampler"][3]]
    st = self.call("build", lambda: iter(Loader(build(c))), 120)
    other = self.call("get_state", st.get_state, 240)
    try:
      self.call("set_state", lambda: hd.it.set_state(other), 240)
    except ValueError:
      self.ctx.probe("foreign_states_rejected")
      return
    except Exception as e:  # pylint: disable=broad-except
      self.fail("foreign-state", "set_state with a state of other %s raised %s: "
                "%s, not ValueError" % (how, type(e).__name__, str(e)[:200]))
    self.fail("foreign-state", "a state of a loader with other %s was accepted" %
              how)


def harness(scn, ctx):
  c = scn["dl"]
  kr = K.KERNEL
  K.set_kernel(None)
  saved, WM.W.record = WM.W.record, False
  try:
    sampler_laws(c)
    out, infinite = expected(c)
    exp = [WM.canon(x) for x in out]
  finally:
    K.set_kernel(kr)
    WM.W.record = saved
  runner.arm_faults(scn, ctx)
  p = Prog(dict(scn, spec=["opts"]), ctx, exp, infinite,
           mk=lambda: Loader(build(c)))
  p.run(scn["ops"])
  p.finish()
