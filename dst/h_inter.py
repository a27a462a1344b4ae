"""P15: interleave.

Datasets of every shape are interleaved; each dataset knows which of its
iterators are open, so that besides the order of the elements (an independent
round robin) the set of open iterators can be judged: when an iterator is made,
and, once the background threads are idle, at every position of the run.
"""

import gc
import weakref

import grain
from grain._src.python.dataset import dataset
from grain.experimental import InterleaveIterDataset
from grain.experimental import RepeatIterDataset
from grain.experimental import ThreadPrefetchIterDataset

from dst import kernel as K
from dst import pipeline as P
from dst import runner
from dst import world as WM
from dst.engine import Violation

T = None  # Tracker of the current run.


class Tracker:

  def __init__(self, scn):
    self.scn = scn
    self.live = {}  # id -> (dataset, weak reference)
    self.n = 0
    self.made = 0
    self.bad = None
    self.limit = None
    self.peak = 0

  def add(self, ds, it):
    self.n += 1
    self.made += 1
    key = self.n
    self.live[key] = (ds, K.KERNEL.cur.proc)
    def gone(_, live=self.live, key=key):
      live.pop(key, None)
    it.ref = (key, weakref.ref(it, gone))
    self.refs = getattr(self, "refs", {})
    self.refs[key] = it.ref[1]
    me = K.KERNEL.cur.proc
    mine = sum(p is me for _, p in self.live.values())
    self.peak = max(self.peak, mine)
    if K.KERNEL.fired.get("user_exception"):
      return  # iterators that could not be set up live until they are collected
    if self.limit is not None and mine > self.limit and not self.bad:
      self.bad = ("too-many-open", "%d datasets are open (%s) when dataset %d is "
                  "opened; the options allow %d" % (mine, sorted(
                      d for d, p in self.live.values() if p is me), ds, self.limit))

  def close(self, it):
    self.live.pop(it.ref[0], None)

  def open(self):
    me = K.KERNEL.cur.proc
    return sorted(d for d, p in self.live.values() if p is me)


class TrackDataset(dataset.IterDataset):

  def __init__(self, num, site, n, kind):
    super().__init__()
    self.num, self.site, self.n, self.kind = num, site, n, kind

  def __iter__(self):
    return TrackIterator(self)


class TrackIterator(P._ListIterator):

  def __init__(self, ds):
    super().__init__(ds.site, P._Gen(ds.n, ds.kind, 1000 * ds.num))
    WM.W.call("open", ds.num)
    self.num = ds.num
    self.ref = (None, None)
    if T is not None and K.KERNEL is not None:
      T.add(ds.num, self)

  def close(self):
    if T is not None:
      T.close(self)
    super().close()

  def __next__(self):
    if self._closed:
      raise ValueError("closed")
    return super().__next__()


def make(num, e):
  """e: [how, n, kind, ...]."""
  how, n, kind = e[:3]
  if how == "iter":
    return TrackDataset(num, "q%d" % num, n, kind)
  if how == "rep":
    return RepeatIterDataset(TrackDataset(num, "q%d" % num, n, kind), e[3])
  if how == "tpref":
    return ThreadPrefetchIterDataset(TrackDataset(num, "q%d" % num, n, kind),
                                     prefetch_buffer_size=e[3])
  if how == "map":
    return grain.MapDataset.source(WM.Source("s%d" % num, n, kind, 1000 * num))
  if how == "mapf":
    return grain.MapDataset.source(
        WM.Source("s%d" % num, n, kind, 1000 * num)).filter(
            WM.FilterFn("f%d" % num, 3, 1))
  if how == "maprep":
    return grain.MapDataset.source(
        WM.Source("s%d" % num, n, kind, 1000 * num)).repeat(e[3])
  if how == "nest":
    return InterleaveIterDataset(
        [make(num * 10 + 1000 + j, x) for j, x in enumerate(e[3])],
        cycle_length=e[4])
  raise K.HarnessError(how)


def elements(num, e):
  how, n, kind = e[:3]
  if how == "nest":
    return P.interleave_lists(
        [elements(num * 10 + 1000 + j, x) for j, x in enumerate(e[3])], e[4])
  xs = [WM.make(kind, 1000 * num + i) for i in range(n)]
  if how in ("rep", "maprep"):
    return xs * e[3]
  if how == "mapf":
    return [x for x in xs if WM.ident(x) % 3 != 1]
  return xs


class MakeDataset:
  """Makes the dataset of a file, like a user's make_source."""

  def __init__(self, lists):
    self.lists = lists

  def __call__(self, i):
    WM.W.call("make", int(i))
    return make(int(i), self.lists[int(i)])


def build(scn):
  lists = scn["lists"]
  if scn["lazy"]:
    ds = grain.MapDataset.range(len(lists)).map(MakeDataset(lists))
  else:
    ds = [make(i, e) for i, e in enumerate(lists)]
  ds = InterleaveIterDataset(
      ds, cycle_length=scn["cycle"], num_make_iter_threads=scn["nmit"],
      make_iter_buffer_size=scn["mib"], iter_buffer_size=scn["ibs"])
  for o in scn["outer"]:
    if o[0] == "rep":
      ds = RepeatIterDataset(ds, o[1])
    elif o[0] == "map":
      ds = ds.map(WM.MapFn("m", o[1]))
    elif o[0] == "tpref":
      ds = ThreadPrefetchIterDataset(ds, prefetch_buffer_size=o[1])
    elif o[0] == "mp":
      ds = ds.mp_prefetch(grain.multiprocessing.MultiprocessingOptions(
          num_workers=o[1], per_worker_buffer_size=o[2]))
  return ds


def expected(scn):
  def outer(xs, ops):
    for j, o in enumerate(ops):
      if o[0] == "rep":
        xs = xs * o[1]
      elif o[0] == "map":
        xs = [WM.affine(x, o[1]) for x in xs]
    return xs
  lists = [elements(i, e) for i, e in enumerate(scn["lists"])]
  ops = scn["outer"]
  for j, o in enumerate(ops):
    if o[0] == "mp" and o[1] > 0:
      w = o[1]
      shards = [outer(P.interleave_lists(lists[i::w], scn["cycle"])
                      if lists[i::w] else [], ops[:j]) for i in range(w)]
      return [WM.canon(x) for x in outer(P.interleave_lists(shards, w), ops[j + 1:])]
  return [WM.canon(x) for x in outer(
      P.interleave_lists(lists, scn["cycle"]), ops)]


def in_use(lens, cycle, r):
  """Datasets in the cycle after r elements, the next one, and lost ones."""
  cycle = min(cycle, len(lens))
  slots = [None] * cycle
  taken = [0] * len(lens)
  nxt = i = n = 0
  while n < r:
    if slots[i] is not None:
      j = slots[i]
      if taken[j] < lens[j]:
        taken[j] += 1
        n += 1
      else:
        slots[i] = None
      i = (i + 1) % cycle
    elif nxt < len(lens):
      slots[i] = nxt
      nxt += 1
    elif all(x is None for x in slots):
      break
    else:
      i = (i + 1) % cycle
  return [x for x in slots if x is not None], nxt


class Program(runner.Program):

  def op_settle(self, h):
    """Background threads are idle: which datasets are open?"""
    hd = self.hs.get(h)
    if hd is None or hd.failed:
      return
    self.k.sleep(15.0)
    gc.collect()
    open_ = T.open()
    scn = self.scn
    if hd.closed:
      if open_:
        self.fail("open-after-close", "datasets %s are still open after close()" %
                  open_)
      self.ctx.probe("settled_after_close")
      return
    used, nxt = in_use(self.lens, scn["cycle"], hd.pos)
    cycle = min(scn["cycle"], len(self.lens))
    ahead = scn["mib"] if scn["nmit"] and scn["mib"] else 0
    if hd.ended:
      used = []
    may = set(used) | set(range(nxt, nxt + ahead))
    if self.touched or hd.pos < cycle:
      # Capturing a state opens the whole cycle.
      may |= set(range(max(cycle, nxt) + ahead)) - set(range(nxt)) | set(used)
    extra = [d for d in open_ if d not in may]
    if extra:
      self.fail("exhausted-still-open", "datasets %s are open at position %d; the "
                "cycle holds %s, next is %d" % (extra, hd.pos, used, nxt))
    if len(open_) != len(set(open_)):
      self.fail("opened-twice", "open iterators: %s" % open_)
    self.ctx.probe("settled")

  def op_get(self, h, s):
    self.touched = True
    hd = self.hs.get(h)
    before = hd.failed if hd else None
    super().op_get(h, s)
    if hd and not before and hd.failed:
      hd.failed = False  # a failed capture leaves the iterator as it was
      self.ctx.probe("failed_captures")

  def on_next_error(self, hd, e):
    if "planned" in str(e) and self.k.fired.get("user_exception"):
      # Opening a dataset failed; the iterator stays at its position.
      self.ctx.probe("open_errors_surfaced")
      return
    super().on_next_error(hd, e)

  def step(self, h):
    hd = self.hs.get(h)
    for _ in range(12):
      n = self.ctx.probes.get("open_errors_surfaced", 0)
      if super().step(h):
        return True
      if self.ctx.probes.get("open_errors_surfaced", 0) == n:
        return False
    self.fail("error-repeats", "more errors than calls failed")


def harness(scn, ctx):
  global T
  T = Tracker(scn)
  exp = expected(scn)
  runner.arm_faults(scn, ctx)
  p = Program(scn, ctx, exp, mk=lambda: build(scn))
  p.lens = [len(elements(i, e)) for i, e in enumerate(scn["lists"])]
  p.touched = False
  if scn.get("bound"):
    cycle = min(scn["cycle"], len(p.lens))
    T.limit = cycle + (scn["mib"] if scn["nmit"] and scn["mib"] else 0)
  try:
    for i, op in enumerate(scn["ops"]):
      p.run([op])
      if T.bad:
        p.opi = i
        raise Violation(*T.bad)
    p.finish()
    if T.bad:
      raise Violation(*T.bad)
    ctx.probe("datasets_opened", T.made)
    p.hs.clear()
    gc.collect()
    ctx.k.sleep(30)
    if T.open():
      raise Violation("open-after-close", "datasets %s are still open after all "
                      "iterators were closed" % T.open())
  finally:
    T = None
