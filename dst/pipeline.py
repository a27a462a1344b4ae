"""Pipeline specifications: builder of the real dataset and reference model.

A specification is a nested JSON list.  `build(spec)` constructs the real grain
pipeline; `Model().ev(spec)` computes the documented output as a plain list
without threads, processes or iterators.  Operations whose output is defined by
a seeded pseudo-random choice (shuffle, mix, packing, random_map) are evaluated
by the real operation applied, sequentially and outside any simulation, to the
model's list; their conservation laws are checked separately (`laws`).
"""

import functools
import itertools
import zlib

import grain
from grain._src.core import transforms
from grain._src.python.dataset import base
from grain._src.python.dataset import dataset
from grain._src.python.dataset.transformations import packing as _packing  # pylint: disable=unused-import
from grain._src.python.dataset.transformations import prefetch
from grain._src.python.dataset.transformations import process_prefetch
from grain.experimental import BestFitPackIterDataset
from grain.experimental import BOSHandling
from grain.experimental import CacheIterDataset
from grain.experimental import ConcatThenSplitIterDataset
from grain.experimental import FirstFitPackIterDataset
from grain.experimental import FlatMapIterDataset
from grain.experimental import FlatMapMapDataset
from grain.experimental import InterleaveIterDataset
from grain.experimental import LimitIterDataset
from grain.experimental import RebatchIterDataset
from grain.experimental import RepeatIterDataset
from grain.experimental import ThreadPrefetchIterDataset
from grain.experimental import WindowShuffleIterDataset
from grain.experimental import WindowShuffleMapDataset
from grain.experimental import ZipIterDataset
from grain.experimental import ZipMapDataset
import numpy as np

from dst import world as WM
from dst.world import FilterFn, MapFn, MapIdxFn, RandomMapFn, Source, WorkerInit

INF_CAP = 160  # elements of an infinite repeat that the model materialises

MAP_OPS = {"range", "src", "map", "mapidx", "filter", "batch", "shuffle",
           "slice", "repeat", "concat", "mixm", "zipm", "wshufm", "flatm",
           "rmap", "rmapidx", "select", "seed", "pbatch", "reidx"}
OPAQUE_MAP = {"shuffle", "mixm", "wshufm", "rmap", "select"}


class FlatFn(transforms.FlatMap):
  """Deterministic flat map: element v becomes (v % (k + 1)) copies."""

  def __init__(self, site, k):
    self.site = site
    self.max_fan_out = k

  def flat_map(self, element):
    v = WM.ident(element)
    WM.W.call(self.site, v)
    return [(element, j) for j in range(abs(v) % (self.max_fan_out + 1))]


class MapT(transforms.Map):

  def __init__(self, fn):
    self.fn = fn

  def map(self, element):
    return self.fn(element)


class MapIdxT(transforms.MapWithIndex):

  def __init__(self, fn):
    self.fn = fn

  def map_with_index(self, index, element):
    return self.fn(index, element)


class FilterT(transforms.Filter):

  def __init__(self, fn):
    self.fn = fn

  def filter(self, element):
    return self.fn(element)


class RandomMapT(transforms.RandomMap):

  def __init__(self, fn):
    self.fn = fn

  def random_map(self, element, rng):
    return self.fn(element, rng)


def as_class(site):
  """Half of the functions are instances of grain's transform classes."""
  return zlib.crc32(b"class" + str(site).encode()) & 1


class ListSource:

  def __init__(self, items):
    self.items = items

  def __len__(self):
    return len(self.items)

  def __getitem__(self, i):
    return self.items[i]


class ListIterDataset(dataset.IterDataset):
  """Custom user source without random access (positions as state)."""

  def __init__(self, site, items):
    super().__init__()
    self.site = site
    self.items = items

  def __iter__(self):
    return _ListIterator(self.site, self.items)


class _ListIterator(dataset.DatasetIterator):

  def __init__(self, site, items):
    super().__init__()
    self.site = site
    self.items = items
    self.pos = 0
    self.busy = False

  def __next__(self):
    self._assert_not_closed()
    if self.busy:
      WM.W.in_flight[self.site] = WM.W.in_flight.get(self.site, 0) + 1
    self.busy = True
    try:
      if self.pos >= len(self.items):
        raise StopIteration
      if self.site is not None:
        WM.W.call(self.site, self.pos)
      x = self.items[self.pos]
      self.pos += 1
    finally:
      self.busy = False
    return x

  def get_state(self):
    return {"pos": self.pos}

  def set_state(self, state):
    if self.site is not None and (
        "%s!:%s" % (self.site, state["pos"]) in WM.W.errors):
      WM.W.call(self.site + "!", state["pos"])
    self.pos = state["pos"]

  def _get_next_index(self):
    return self.pos

  def _set_next_index(self, index):
    self.pos = index


class IterSourceDataset(dataset.IterDataset):
  """Like ListIterDataset, generated by rule (cheap to pickle)."""

  def __init__(self, site, n, kind, base_):
    super().__init__()
    self.site, self.n, self.kind, self.base = site, n, kind, base_

  def __iter__(self):
    return _ListIterator(self.site, _Gen(self.n, self.kind, self.base))


class _Gen:

  def __init__(self, n, kind, base_):
    self.n, self.kind, self.base = n, kind, base_

  def __len__(self):
    return self.n

  def __getitem__(self, i):
    return WM.make(self.kind, self.base + i)


def read_options(nt, buf):
  if nt is None:
    return None
  return grain.ReadOptions(num_threads=nt, prefetch_buffer_size=buf)


class Builder:
  """Builds the real pipeline."""

  def __init__(self, slow_init=None):
    self.worker_init = slow_init

  def b(self, s):
    op = s[0]
    return getattr(self, "_" + op)(*s[1:])

  # MapDataset ------------------------------------------------------------
  def _range(self, n):
    return grain.MapDataset.range(n)

  def _src(self, site, n, kind, base_):
    return grain.MapDataset.source(Source(site, n, kind, base_))

  def _map(self, p, site, a):
    if as_class(site):
      return self.b(p).apply(MapT(MapFn(site, a)))
    return self.b(p).map(MapFn(site, a))

  def _mapidx(self, p, site):
    if as_class(site):
      return self.b(p).apply([MapIdxT(MapIdxFn(site))])
    return self.b(p).map_with_index(MapIdxFn(site))

  def _filter(self, p, site, mod, rem):
    if as_class(site):
      return self.b(p).apply((FilterT(FilterFn(site, mod, rem)),))
    return self.b(p).filter(FilterFn(site, mod, rem))

  def _batch(self, p, bs, drop):
    if bs % 2:
      return self.b(p).apply(transforms.Batch(bs, drop_remainder=bool(drop)))
    return self.b(p).batch(bs, drop_remainder=bool(drop))

  def _shuffle(self, p, seed):
    return self.b(p).shuffle(seed=seed)

  def _slice(self, p, a, z, st):
    return self.b(p).slice(slice(a, z, st))

  def _reidx(self, p, idx):
    return self.b(p).slice(list(idx))

  def _repeat(self, p, r, reseed=1):
    if not reseed:
      return self.b(p).repeat(r, reseed_each_epoch=False)
    return self.b(p).repeat(r)

  def _seed(self, p, s):
    return self.b(p).seed(s)

  _iseed = _seed

  def _select(self, ps, order):
    return grain.MapDataset.select_from_datasets(
        [self.b(p) for p in ps], SelectFn(order))

  def _pbatch(self, p, bs, pad):
    return self.b(p).batch(bs, batch_fn=functools.partial(
        grain.experimental.batch_and_pad, batch_size=bs, pad_value=pad))

  _ipbatch = _pbatch

  def _concat(self, ps):
    return grain.MapDataset.concatenate([self.b(p) for p in ps])

  def _mixm(self, ps, w):
    return grain.MapDataset.mix([self.b(p) for p in ps], weights=w)

  def _zipm(self, ps):
    return ZipMapDataset([self.b(p) for p in ps])

  def _wshufm(self, p, win, seed):
    return WindowShuffleMapDataset(self.b(p), window_size=win, seed=seed)

  def _flatm(self, p, site, k):
    if as_class(site):
      return self.b(p).apply(FlatFn(site, k))
    return FlatMapMapDataset(self.b(p), FlatFn(site, k))

  def _rmap(self, p, site, seed, mode=None):
    fn = RandomMapFn(site, mode)
    if as_class(site):
      fn = RandomMapT(fn)
      if seed is None:
        return self.b(p).apply(fn)
    return self.b(p).random_map(fn, seed=seed)

  # IterDataset -----------------------------------------------------------
  def _iter(self, p, nt, buf):
    return self.b(p).to_iter_dataset(read_options(nt, buf))

  def _itern(self, p, nt, buf):
    return self.b(p).to_iter_dataset(read_options(nt, buf), allow_nones=True)

  def _isrc(self, site, n, kind, base_):
    return IterSourceDataset(site, n, kind, base_)

  _imap = _map
  _ifilter = _filter
  _imapidx = _mapidx
  _irmap = _rmap

  _ibatch = _batch

  def _rebatch(self, p, bs, drop):
    return RebatchIterDataset(self.b(p), bs, drop_remainder=bool(drop))

  def _tpref(self, p, buf):
    return ThreadPrefetchIterDataset(self.b(p), prefetch_buffer_size=buf)

  def _mp(self, p, w, buf, seq, init=None):
    inner = self.b(p)
    WM.W.inner = inner
    return inner.mp_prefetch(
        grain.multiprocessing.MultiprocessingOptions(
            num_workers=w, per_worker_buffer_size=buf),
        worker_init_fn=WorkerInit(init) if init else None,
        sequential_slice=bool(seq))

  def _pp(self, p, buf):
    return process_prefetch.ProcessPrefetchIterDataset(self.b(p), buf)

  def _mtp(self, p, t, buf):
    return prefetch.multithread_prefetch(
        self.b(p), num_threads=t, buffer_size=buf)

  def _interleave(self, ps, cycle, nmit, mib, ibs):
    return InterleaveIterDataset(
        [self.b(p) for p in ps], cycle_length=cycle,
        num_make_iter_threads=nmit, make_iter_buffer_size=mib,
        iter_buffer_size=ibs)

  def _imix(self, ps, w):
    return grain.IterDataset.mix([self.b(p) for p in ps], weights=w)

  def _imixd(self, ps, w):
    keys = ["k%d" % i for i in range(len(ps))]
    return grain.IterDataset.mix(
        dict(zip(keys, [self.b(p) for p in ps])),
        weights=dict(zip(keys, w)) if w is not None else None)

  def _izip(self, ps, strict):
    return ZipIterDataset([self.b(p) for p in ps], strict=bool(strict))

  def _irepeat(self, p, r):
    return RepeatIterDataset(self.b(p), r)

  def _limit(self, p, n):
    return LimitIterDataset(self.b(p), n)

  def _iflat(self, p, site, k):
    if as_class(site):
      return self.b(p).apply([FlatFn(site, k)])
    return FlatMapIterDataset(self.b(p), FlatFn(site, k))

  def _wshuf(self, p, win, seed):
    return WindowShuffleIterDataset(self.b(p), window_size=win, seed=seed)

  def _cache(self, p):
    return CacheIterDataset(self.b(p))

  def _opts(self, p, o):
    o = dict(o)
    if "etm" in o:
      o["execution_tracking_mode"] = base.ExecutionTrackingMode(o.pop("etm"))
    return dataset.WithOptionsIterDataset(
        self.b(p), base.DatasetOptions(**o))

  def _ffpack(self, p, length, bins, seed, shuf):
    return FirstFitPackIterDataset(
        self.b(p), length_struct={"t": length}, num_packing_bins=bins,
        seed=seed, shuffle_bins=bool(shuf))

  def _bfpack(self, p, length, bins, seed, shuf):
    return BestFitPackIterDataset(
        self.b(p), length_struct={"t": length}, num_packing_bins=bins,
        seed=seed, shuffle_bins=bool(shuf))

  def _cts(self, p, length, bos):
    return ConcatThenSplitIterDataset(
        self.b(p), length_struct={"t": length},
        bos_handling=(BOSHandling.REPLACE_FIRST_TOKEN_WITH_BOS if bos
                      else BOSHandling.DO_NOTHING),
        bos_token_id=1 if bos else None,
        bos_features=("t",) if bos else ())


  def _gpack(self, p, c):
    d = self.b(p)
    if c["algo"] == "cts":
      return ConcatThenSplitIterDataset(
          d, length_struct=dict(c["len"]), meta_features=tuple(c["meta"]),
          split_full_length_features=bool(c["split_full"]),
          bos_handling=(BOSHandling.REPLACE_FIRST_TOKEN_WITH_BOS if c["bosf"]
                        else BOSHandling.DO_NOTHING),
          bos_features=tuple(c["bosf"]),
          bos_token_id=c["bos"] if c["bosf"] else None)
    cls = {"ff": FirstFitPackIterDataset, "bf": BestFitPackIterDataset}[
        c["algo"]]
    kw = {}
    if c.get("align"):
      kw["pack_alignment_struct"] = dict(c["align"])
    if c.get("pad"):
      kw["padding_struct"] = dict(c["pad"])
    return cls(d, length_struct=dict(c["len"]), num_packing_bins=c["bins"],
               seed=c["seed"], shuffle_bins=bool(c["shuf"]),
               shuffle_bins_group_by_feature=c.get("group"),
               meta_features=tuple(c["meta"]),
               max_sequences_per_bin=c.get("maxseq"), **kw)


class SelectFn(base.DatasetSelectionMap):
  """User-defined selection: (dataset, index) pairs in a fixed order."""

  def __init__(self, order):
    self.order = order

  def __len__(self):
    return len(self.order)

  def __getitem__(self, i):
    return tuple(self.order[i % len(self.order)])


def build(spec):
  return Builder().b(spec)


# ---------------------------------------------------------------------------
def _default_batch(items):
  x = items[0]
  if isinstance(x, dict):
    return {k: _default_batch([i[k] for i in items]) for k in x}
  if isinstance(x, tuple):
    return tuple(_default_batch([i[j] for i in items]) for j in range(len(x)))
  if isinstance(x, list):
    return [_default_batch([i[j] for i in items]) for j in range(len(x))]
  return np.stack([np.asarray(i) for i in items])


def _tree_cat(parts):
  x = parts[0]
  if isinstance(x, dict):
    return {k: _tree_cat([i[k] for i in parts]) for k in x}
  if isinstance(x, tuple):
    return tuple(_tree_cat([i[j] for i in parts]) for j in range(len(x)))
  if isinstance(x, list):
    return [_tree_cat([i[j] for i in parts]) for j in range(len(x))]
  return np.concatenate(parts, axis=0)


def _tree_slice(x, a, z):
  return WM.tmap(lambda v: v[a:z], x)


def _first_leaf(x):
  if isinstance(x, dict):
    return _first_leaf(x[sorted(x)[0]])
  if isinstance(x, (tuple, list)):
    return _first_leaf(x[0])
  return x


def interleave_lists(lists, cycle):
  """Round robin over at most `cycle` open lists; slots refill in order."""
  cycle = min(cycle, len(lists))
  if not cycle:
    return []
  slots = [None] * cycle
  nxt = 0
  out = []
  i = 0
  while True:
    if slots[i] is not None:
      lst, pos = slots[i]
      if pos < len(lst):
        out.append(lst[pos])
        slots[i] = (lst, pos + 1)
      else:
        slots[i] = None
      i = (i + 1) % cycle
      continue
    if nxt < len(lists):
      slots[i] = (lists[nxt], 0)
      nxt += 1
    elif all(s is None for s in slots):
      return out
    else:
      i = (i + 1) % cycle


def even_split(n, i, count):
  q, r = divmod(n, count)
  a = i * q + min(i, r)
  return a, a + q + (1 if i < r else 0)


class At:
  """Reference for random access: the element at any index, later epochs too.

  Seeded choices (the permutation of a shuffle, the selection of a mixture,
  default seeds) are taken from the real stage applied to a range; how they
  compose with the other stages and with epochs is modelled here.
  """

  BIG = 1 << 40

  def __init__(self):
    self.perm = {}
    self.built = {}
    self.lens = {}

  def real(self, s):
    k = repr(s)
    if k not in self.built:
      self.built[k] = build(s)
    return self.built[k]

  def list(self, s, n=None):
    if n is None:
      n = self.len(s)
      n = n if n < 20_000 else INF_CAP  # infinite
    return [self.at(s, i) for i in range(n)]

  def len(self, s):
    k = repr(s)
    if k not in self.lens:
      self.lens[k] = self._len(s)
    return self.lens[k]

  def _len(self, s):
    op = s[0]
    if op == "range":
      return s[1]
    if op == "src":
      return s[2]
    if op in ("batch", "pbatch"):
      n, bs = self.len(s[1]), s[2]
      return n // bs if op == "batch" and s[3] else -(-n // bs)
    if op == "slice":
      return len(range(self.len(s[1]))[s[2]:s[3]:s[4]])
    if op == "reidx" or op == "select":
      return len(s[2])
    if op == "repeat":
      return self.len(s[1]) * s[2]
    if op == "concat":
      return sum(self.len(p) for p in s[1])
    if op == "mixm":
      return len(self.mix(s))
    if op == "zipm":
      return self.len(s[1][0])
    if op == "flatm":
      return self.len(s[1]) * s[3]
    if op in ("map", "mapidx", "filter", "seed", "shuffle", "wshufm", "rmap",
              "rmapidx"):
      return self.len(s[1])
    return len(self.real(s))

  def mix(self, s):
    k = repr(s)
    if k not in self.perm:
      self.perm[k] = grain.MapDataset.mix(
          [grain.MapDataset.range(c * self.BIG, c * self.BIG + self.len(p))
           for c, p in enumerate(s[1])], weights=s[2])
      # The selection does not depend on the lengths of the components.
      self.perm[k, "sel"] = grain.MapDataset.mix(
          [grain.MapDataset.range(c * self.BIG, (c + 1) * self.BIG)
           for c, p in enumerate(s[1])], weights=s[2])
    return self.perm[k]

  def at(self, s, i):
    return getattr(self, "_" + s[0], self._fallback)(s, i)

  def _fallback(self, s, i):
    return self.real(s)[i]

  def _range(self, s, i):
    return i % s[1]

  def _src(self, s, i):
    return WM.make(s[3], s[4] + i % s[2])

  def _map(self, s, i):
    x = self.at(s[1], i)
    return None if x is None else WM.affine(x, s[3])

  def _mapidx(self, s, i):
    x = self.at(s[1], i)
    return None if x is None else (i, x)

  def _filter(self, s, i):
    x = self.at(s[1], i)
    return x if x is not None and WM.ident(x) % s[3] != s[4] else None

  def _batch(self, s, i):
    n, bs = self.len(s[1]), s[2]
    e, j = divmod(i, self.len(s))
    part = [self.at(s[1], e * n + q)
            for q in range(j * bs, min(n, j * bs + bs))]
    return _default_batch(part)

  def _pbatch(self, s, i):
    n, bs = self.len(s[1]), s[2]
    e, j = divmod(i, self.len(s))
    part = [self.at(s[1], e * n + q)
            for q in range(j * bs, min(n, j * bs + bs))]
    return Model()._pad_batches(part, bs, s[3])[0]

  def _slice(self, s, i):
    n = self.len(s[1])
    e, j = divmod(i, self.len(s))
    return self.at(s[1], range(n)[s[2]:s[3]:s[4]][j] + e * n)

  def _reidx(self, s, i):
    e, j = divmod(i, len(s[2]))
    return self.at(s[1], s[2][j] + e * self.len(s[1]))

  def _repeat(self, s, i):
    if len(s) > 3 and not s[3]:
      i %= self.len(s[1])
    return self.at(s[1], i)

  def _seed(self, s, i):
    if unseeded(s[1]):
      return self._fallback(s, i)
    return self.at(s[1], i)

  def _concat(self, s, i):
    e, j = divmod(i, self.len(s))
    for p in s[1]:
      n = self.len(p)
      if j < n:
        return self.at(p, e * n + j)
      j -= n

  def _select(self, s, i):
    c, j = s[2][i % len(s[2])]
    return self.at(s[1][c], j)

  def _mixm(self, s, i):
    self.mix(s)
    c, j = divmod(self.perm[repr(s), "sel"][i], self.BIG)
    return self.at(s[1][c], j)

  def _zipm(self, s, i):
    return tuple(self.at(p, i) for p in s[1])

  def _flatm(self, s, i):
    j, part = divmod(i, s[3])
    x = self.at(s[1], j)
    if x is None or part >= abs(WM.ident(x)) % (s[3] + 1):
      return None
    return (x, part)

  def _permuted(self, s, i, make):
    n = self.len(s[1])
    e, j = divmod(i, n)
    k = repr(s[2:]), s[0], n
    if k not in self.perm:
      self.perm[k] = build(make(["range", n]))
    return self.at(s[1], e * n + self.perm[k][i])

  def _shuffle(self, s, i):
    if s[2] is None:
      return self._fallback(s, i)
    return self._permuted(s, i, lambda r: ["shuffle", r, s[2]])

  def _wshufm(self, s, i):
    return self._permuted(s, i, lambda r: ["wshufm", r, s[2], s[3]])

  def _rmap(self, s, i):
    x = self.at(s[1], i)
    if x is None:
      return None
    seed = s[3]
    if seed is None:
      seed = self.real(s)._default_seed  # pylint: disable=protected-access
    return WM.draws(x, stream(seed, i), s[4] if len(s) > 4 else None)


def stream(seed, index):
  """The generator random_map passes to the function at `index`."""
  g = np.random.Philox(seed)
  st = g.state
  st["state"]["counter"] = np.array([0, 0, 0, index], dtype=np.uint64)
  st["buffer"] = np.zeros(4, dtype=np.uint64)
  st["buffer_pos"] = 4
  st["has_uint32"] = 0
  st["uinteger"] = 0
  g.state = st
  return np.random.Generator(g)


def unseeded(s):
  """Whether a stage takes the default seed of the pipeline."""
  return any((t[0] == "shuffle" and t[2] is None) or
             (t[0] == "rmap" and t[3] is None) for t in walk(s))


class Model:
  """Reference semantics."""

  def __init__(self, index=0, count=1, seq=None, sl=None):
    self.index = index
    self.count = count
    self.seq = seq  # (i, n): sequential slice pushed to the source
    self.sl = sl  # (i, n): strided slice at the map/iter boundary
    self.infinite = False

  def child(self, **kw):
    m = Model(self.index, self.count, self.seq, self.sl)
    for k, v in kw.items():
      setattr(m, k, v)
    return m

  def ev(self, s):
    return getattr(self, "_" + s[0])(*s[1:])

  # MapDataset: lists with None for dropped elements ----------------------
  def evm(self, s):
    if self.seq is None:
      return At().list(s)
    return self.ev(s)

  def _range(self, n):
    r = list(range(n))
    return self._seq(r)

  def _seq(self, r):
    if self.seq is None:
      return r
    a, z = even_split(len(r), *self.seq)
    return r[a:z]

  def _src(self, site, n, kind, base_):
    return self._seq([WM.make(kind, base_ + i) for i in range(n)])

  def _map(self, p, site, a):
    return [None if x is None else WM.affine(x, a) for x in self.evm(p)]

  def _mapidx(self, p, site):
    return [None if x is None else (i, x) for i, x in enumerate(self.evm(p))]

  def _filter(self, p, site, mod, rem):
    return [x if x is not None and WM.ident(x) % mod != rem else None
            for x in self.evm(p)]

  def _batch(self, p, bs, drop):
    return self._batches(self.evm(p), bs, drop)

  def _batches(self, xs, bs, drop):
    out = []
    for i in range(0, len(xs), bs):
      part = xs[i:i + bs]
      if len(part) < bs and drop:
        break
      out.append(_default_batch(part))
    return out

  def _slice(self, p, a, z, st):
    return self.evm(p)[a:z:st]

  def _reidx(self, p, idx):
    xs = self.evm(p)
    return [xs[i] for i in idx]

  def _repeat(self, p, r, reseed=1):
    return self.evm(p) * r

  def _seed(self, p, s):
    return self.evm(p)

  def _iseed(self, p, s):
    return self.ev(p)

  def _pad_batches(self, xs, bs, pad):
    out = []
    for i in range(0, len(xs), bs):
      part = _default_batch(xs[i:i + bs])
      def f(v):
        if len(v) == bs:
          return v
        fill = np.full((bs - len(v),) + v.shape[1:], pad, v.dtype)
        return np.concatenate([v, fill])
      out.append(WM.tmap(f, part))
    return out

  def _pbatch(self, p, bs, pad):
    return self._pad_batches(self.evm(p), bs, pad)

  def _ipbatch(self, p, bs, pad):
    return self._pad_batches(self.ev(p), bs, pad)

  def _select(self, *a):
    return self._opq(["select", *a])

  def _concat(self, ps):
    return [x for p in ps for x in self.evm(p)]

  def _zipm(self, ps):
    return [tuple(t) for t in zip(*[self.evm(p) for p in ps])]

  def _flatm(self, p, site, k):
    out = []
    for x in self.evm(p):
      n = 0 if x is None else abs(WM.ident(x)) % (k + 1)
      for j in range(k):
        out.append((x, j) if j < n else None)
    return out

  def _shuffle(self, *a):
    return self._opq(["shuffle", *a])

  def _mixm(self, *a):
    return self._opq(["mixm", *a])

  def _wshufm(self, *a):
    return self._opq(["wshufm", *a])

  def _rmap(self, *a):
    return self._opq(["rmap", *a])

  def _opq(self, s):
    if self.seq is not None:
      raise WM.K.HarnessError("sequential slice of an opaque map op")
    ds = build(s)
    return [ds[i] for i in range(min(len(ds), INF_CAP))]

  # IterDataset -----------------------------------------------------------
  def _iter(self, p, nt, buf):
    xs = self.evm(p)
    if self.sl is not None:
      xs = xs[self.sl[0]::self.sl[1]]
    return [x for x in xs if x is not None]

  def _itern(self, p, nt, buf):
    xs = self.evm(p)
    return xs if self.sl is None else xs[self.sl[0]::self.sl[1]]

  def _isrc(self, site, n, kind, base_):
    return [WM.make(kind, base_ + i) for i in range(n)]

  def _imap(self, p, site, a):
    return [None if x is None else WM.affine(x, a) for x in self.ev(p)]

  def _ifilter(self, p, site, mod, rem):
    return [x for x in self.ev(p) if WM.ident(x) % mod != rem]

  def _imapidx(self, p, site):
    return [None if x is None else (i, x) for i, x in enumerate(self.ev(p))]

  def _irmap(self, p, site, seed, mode=None):
    if seed is None:
      seed = build(["irmap", p, site, None])._default_seed  # pylint: disable=protected-access
    out = []
    for j, x in enumerate(self.ev(p)):
      if x is None:
        out.append(None)
        continue
      rng = stream(seed, self.index + j * self.count)
      out.append(WM.draws(x, rng, mode))
    return out

  def _ibatch(self, p, bs, drop):
    return self._batches(self.ev(p), bs, drop)

  def _rebatch(self, p, bs, drop):
    xs = self.ev(p)
    rows = [(x, j) for x in xs for j in range(len(_first_leaf(x)))]
    out = []
    for i in range(0, len(rows), bs):
      part = rows[i:i + bs]
      if len(part) < bs and drop:
        break
      out.append(_tree_cat([_tree_slice(x, j, j + 1) for x, j in part]))
    return out

  def _tpref(self, p, buf):
    return self.ev(p)

  def _mp(self, p, w, buf, seq, init=None):
    if w == 0:
      return self.ev(p)
    shards = []
    for i in range(w):
      m = self.child(index=i, count=w)
      if w > 1:
        if seq:
          m.seq = (i, w)
        else:
          m.sl = (i, w)
      shards.append(m.ev(p))
    return interleave_lists(shards, w)

  def _pp(self, p, buf):
    return self.ev(p)

  def _mtp(self, p, t, buf):
    return self._mp(p, t, buf, False)

  def _interleave(self, ps, cycle, nmit, mib, ibs):
    m = self
    if self.sl is not None:
      ps = ps[self.sl[0]::self.sl[1]]
      m = self.child(sl=None)
    lists = []
    for p in ps:
      if p[0] in MAP_OPS:
        lists.append([x for x in m.evm(p) if x is not None])
      else:
        lists.append(m.ev(p))
    return interleave_lists(lists, cycle)

  def _seqop(self, make, lists):
    ds = make([ListIterDataset(None, l) for l in lists])
    return list(ds)

  def _imix(self, ps, w):
    return self._seqop(lambda d: grain.IterDataset.mix(d, weights=w),
                       [self.ev(p) for p in ps])

  def _imixd(self, ps, w):
    keys = ["k%d" % i for i in range(len(ps))]
    return self._seqop(
        lambda d: grain.IterDataset.mix(
            dict(zip(keys, d)),
            weights=dict(zip(keys, w)) if w is not None else None),
        [self.ev(p) for p in ps])

  def _izip(self, ps, strict):
    return [tuple(t) for t in zip(*[self.ev(p) for p in ps])]

  def _irepeat(self, p, r):
    xs = self.ev(p)
    if r is None:
      self.infinite = True
      return list(itertools.islice(itertools.cycle(xs), INF_CAP)) if xs else []
    return xs * r

  def _limit(self, p, n):
    return self.ev(p)[:n]

  def _iflat(self, p, site, k):
    return [(x, j) for x in self.ev(p)
            for j in range(abs(WM.ident(x)) % (k + 1))]

  def _wshuf(self, p, win, seed):
    return self._seqop(
        lambda d: WindowShuffleIterDataset(d[0], window_size=win, seed=seed),
        [self.ev(p)])

  def _cache(self, p):
    return self.ev(p)

  def _opts(self, p, o):
    return self.ev(p)

  def _ffpack(self, p, *a):
    return self._pack("ffpack", p, a)

  def _bfpack(self, p, *a):
    return self._pack("bfpack", p, a)

  def _cts(self, p, *a):
    return self._pack("cts", p, a)

  def _gpack(self, p, *a):
    return self._pack("gpack", p, a)

  def _pack(self, op, p, a):
    lst = ListIterDataset(None, self.ev(p))

    class B(Builder):

      def _lst(self):
        return lst

    return list(B().b([op, ["lst"], *a]))


class PoisonModel(Model):
  """The model when the calls in `errors` raise: elements may be Poison."""

  def __init__(self, errors, **kw):
    super().__init__(**kw)
    self.errors = errors

  def child(self, **kw):
    m = PoisonModel(self.errors, index=self.index, count=self.count,
                    seq=self.seq, sl=self.sl)
    for k, v in kw.items():
      setattr(m, k, v)
    return m

  def hit(self, site, key):
    e = self.errors.get("%s:%s" % (site, key))
    return WM.Poison(e[0]) if e else None

  def evm(self, s):
    return self.ev(s)

  def _src(self, site, n, kind, base_):
    xs = [self.hit(site, i) or WM.make(kind, base_ + i) for i in range(n)]
    return self._seq(xs)

  def _isrc(self, site, n, kind, base_):
    return [self.hit(site, i) or WM.make(kind, base_ + i) for i in range(n)]

  def _ap(self, xs, site, fn):
    out = []
    for i, x in enumerate(xs):
      if x is None or isinstance(x, WM.Poison):
        out.append(x)
      else:
        out.append(self.hit(site, WM.ident(x)) or fn(i, x))
    return out

  def _map(self, p, site, a):
    return self._ap(self.evm(p), site, lambda i, x: WM.affine(x, a))

  _imap = _map

  def _mapidx(self, p, site):
    return self._ap(self.evm(p), site, lambda i, x: (i, x))

  _imapidx = _mapidx

  def _filter(self, p, site, mod, rem):
    return self._ap(self.evm(p), site,
                    lambda i, x: x if WM.ident(x) % mod != rem else None)

  def _ifilter(self, p, site, mod, rem):
    return [x for x in self._filter(p, site, mod, rem) if x is not None]

  def _batches(self, xs, bs, drop):
    out = []
    for i in range(0, len(xs), bs):
      part = xs[i:i + bs]
      bad = [x for x in part if isinstance(x, WM.Poison)]
      if len(part) < bs and drop and not bad:
        break
      out.append(bad[0] if bad else _default_batch(part))
    return out

  def _batch(self, p, bs, drop):
    xs = self.evm(p)
    if drop:
      xs = xs[:len(xs) // bs * bs]  # random access: the tail is never read
    return self._batches(xs, bs, drop)

  def _rebatch(self, p, bs, drop):
    rows = []
    for x in self.ev(p):
      if isinstance(x, WM.Poison):
        rows.append(x)
      else:
        rows += [(x, j) for j in range(len(_first_leaf(x)))]
    out = []
    for i in range(0, len(rows), bs):
      part = rows[i:i + bs]
      bad = [x for x in part if isinstance(x, WM.Poison)]
      if bad:
        out.append(bad[0])
        break
      if len(part) < bs and drop:
        break
      out.append(_tree_cat([_tree_slice(x, j, j + 1) for x, j in part]))
    return out

  def _tuples(self, lists):
    out = []
    for t in zip(*lists):
      bad = [x for x in t if isinstance(x, WM.Poison)]
      out.append(bad[0] if bad else tuple(t))
    return out

  def _zipm(self, ps):
    return self._tuples([self.evm(p) for p in ps])

  def _izip(self, ps, strict):
    lists = [self.ev(p) for p in ps]
    # Components are advanced in order: the first to end hides later errors.
    out = []
    for i in itertools.count():
      row = []
      for j, xs in enumerate(lists):
        if i >= len(xs):
          if strict and j:
            return out + [WM.Poison("StrictZip", "argument %d is shorter" % (
                j + 1))]
          for k, ys in enumerate(lists[1:] if strict else []):
            if i < len(ys):
              if isinstance(ys[i], WM.Poison):
                return out + [ys[i]]
              return out + [WM.Poison("StrictZip", "argument %d is longer" % (
                  k + 2))]
          return out
        if isinstance(xs[i], WM.Poison):
          return out + [xs[i]]
        row.append(xs[i])
      out.append(tuple(row))

  def _flatm(self, p, site, k):
    out = []
    for x in self.evm(p):
      bad = x if isinstance(x, WM.Poison) else (
          None if x is None else self.hit(site, WM.ident(x)))
      n = 0 if x is None or bad else abs(WM.ident(x)) % (k + 1)
      for j in range(k):
        out.append(bad or ((x, j) if j < n else None))
    return out

  def _iflat(self, p, site, k):
    out = []
    for x in self.ev(p):
      bad = x if isinstance(x, WM.Poison) else self.hit(site, WM.ident(x))
      if bad:
        out.append(bad)
      else:
        out += [(x, j) for j in range(abs(WM.ident(x)) % (k + 1))]
    return out

  def _shuffle(self, p, seed):
    return self._perm(["shuffle", ["range", 0], seed], self.evm(p))

  def _wshufm(self, p, win, seed):
    return self._perm(["wshufm", ["range", 0], win, seed], self.evm(p))

  def _perm(self, s, xs):
    s[1] = ["range", len(xs)]
    ds = build(s)
    return [xs[ds[i]] for i in range(len(xs))]

  def _mp(self, p, w, buf, seq, init=None):
    if w == 0:
      return self.ev(p)
    shards = []
    for i in range(w):
      m = self.child(index=i, count=w)
      if w > 1:
        if seq:
          m.seq = (i, w)
        else:
          m.sl = (i, w)
      xs = m.ev(p)
      bad = self.hit(init, i) if init else None
      shards.append([bad] if bad else xs)
    return interleave_lists(shards, w)


def opaque(s):
  if s[0] in OPAQUE_MAP:
    return True
  if s[0] == "repeat" and contains(s[1], {"mapidx"}):
    return True
  return any(opaque(c) for c in children(s))


def children(s):
  out = []
  for a in s[1:]:
    if isinstance(a, list) and a and isinstance(a[0], str):
      out.append(a)
    elif isinstance(a, list) and a and isinstance(a[0], list):
      out.extend(c for c in a if c and isinstance(c[0], str))
  return out


def sequential(s):
  """The same pipeline without threads, processes and read-ahead."""
  if not isinstance(s, list) or not s:
    return s
  if s[0] in ("iter", "itern"):
    return [s[0], sequential(s[1]), 0, 0]
  if s[0] in ("tpref", "cache"):
    return sequential(s[1])
  if isinstance(s[0], list):
    return [sequential(a) for a in s]
  return [s[0]] + [sequential(a) if isinstance(a, list) else a for a in s[1:]]


def contains(s, ops):
  return s[0] in ops or any(contains(c, ops) for c in children(s))


def walk(s):
  yield s
  for c in children(s):
    yield from walk(c)
