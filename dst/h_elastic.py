"""P11: histories of an elastic job over changing shard counts.

The shards of one incarnation of the job run in the main thread in an arbitrary
order; the threads and workers of their pipelines are scheduled by the simulator.
The model is the set of consumed elements: a position for datasets with random
access, a counter per dataset for interleaved ones.
"""

import json

import grain
from grain._src.python.checkpoint import handler
from grain._src.python.dataset import elastic_iterator

from dst import kernel as K
from dst import pipeline as P
from dst import runner
from dst import vfs
from dst import world as WM
from dst.engine import Violation


def quiet(fn):
  """Runs model code outside the simulation."""
  kr = K.KERNEL
  K.set_kernel(None)
  saved, WM.W.record = WM.W.record, False
  try:
    return fn()
  finally:
    K.set_kernel(kr)
    WM.W.record = saved


class DiskError(Exception):
  """A planned disk error came out of the library."""


class Job:

  def __init__(self, scn, ctx):
    self.scn = scn
    self.ctx = ctx
    self.k = ctx.k
    self.its = []
    self.ckpt = None  # (kind, payload, model snapshot, c)
    self.saves = 0

  def call(self, name, fn, seconds=400):
    self.ctx.op(name, seconds)
    n = self.disk_errors()
    try:
      return fn()
    except OSError as e:
      if "simulated" in str(e) and self.disk_errors() > n:
        raise DiskError(str(e)) from e
      raise
    finally:
      self.ctx.op_done()

  def disk_errors(self):
    return sum(n for f, n in self.k.fired.items() if f.startswith("disk_"))

  def make(self, ph, i):
    ro = grain.ReadOptions(num_threads=ph["read"][0],
                           prefetch_buffer_size=ph["read"][1])
    mp = None
    if ph.get("mp"):
      mp = grain.MultiprocessingOptions(num_workers=ph["mp"][0],
                                        per_worker_buffer_size=ph["mp"][1])
    return elastic_iterator.ElasticIterator(
        P.build(self.scn["spec"]), ph["G"],
        grain.sharding.ShardOptions(i, ph["c"]), read_options=ro,
        multiprocessing_options=mp)

  def again(self, what, fn):
    """Repeats a call while it fails as planned."""
    while True:
      try:
        return self.call(what, fn)
      except Exception as e:  # pylint: disable=broad-except
        if "planned" not in str(e):
          raise
        self.ctx.probe("resumed_after_transient_error")

  def path(self):
    self.saves += 1
    d = vfs.SimPath("simfs://ckpt/%d" % self.saves)
    d.mkdir(parents=True, exist_ok=True)
    return d

  def run(self):
    for n, ph in enumerate(self.scn["phases"]):
      self.k.note("phase", n, ph["c"], ph["G"])
      self.ph = ph
      if not self.start(ph):
        continue
      self.steps(ph)
      if ph.get("save"):
        self.save(ph)
      if ph["end"] == "close":
        for it in self.its:
          self.call("close", it.close)
      self.its = []
      it = None
      self.ctx.probe("phases")
      if ph["c"] > 1:
        self.ctx.probe("phases_with_shards")

  def start(self, ph):
    for attempt in range(4):
      its = [self.call("build", lambda i=i: self.make(ph, i))
             for i in range(ph["c"])]
      for j in range(ph.get("warm", 0)):
        # A used iterator is restored.
        try:
          self.call("next", lambda: next(its[j % len(its)]))
        except StopIteration:
          pass
      try:
        if self.ckpt is None and ph.get("warm"):
          its = [self.call("build", lambda i=i: self.make(ph, i))
                 for i in range(ph["c"])]
        if self.ckpt is not None:
          self.load(ph, its)
          self.ctx.probe("restores")
          if self.ckpt[3] != ph["c"]:
            self.ctx.probe("restores_with_other_shard_count")
        self.its = its
        self.restored()
        return True
      except DiskError:
        self.ctx.probe("loads_failed_by_disk")
        continue
      except Exception as e:  # pylint: disable=broad-except
        if "planned" not in str(e):
          raise
        self.ctx.probe("loads_failed_in_user_code")
    return False


class MapJob(Job):

  def __init__(self, scn, ctx):
    super().__init__(scn, ctx)
    self.xs = quiet(lambda: P.Model().evm(scn["spec"]))
    self.g = 0

  def restored(self):
    self.g = self.ckpt[2] if self.ckpt else 0

  def batches(self, ph, i):
    b = ph["G"] // ph["c"]
    xs = self.xs[self.g + i::ph["c"]]
    return [WM.canon(P._default_batch(xs[j:j + b]))
            for j in range(0, len(xs) - b + 1, b)]

  def take(self, i, exp, j):
    try:
      x = self.call("next", lambda: next(self.its[i]))
    except StopIteration:
      if j < len(exp):
        raise Violation("lost-elements", "shard %d of %d ended after %d of %d "
                        "batches (global index %d)" % (
                            i, self.ph["c"], j, len(exp), self.g))
      return False
    if j >= len(exp):
      raise Violation("extra-element", "shard %d of %d returned %s after its %d "
                      "batches" % (i, self.ph["c"], WM.show(x), len(exp)))
    if WM.canon(x) != exp[j]:
      raise Violation("wrong-element", "batch %d of shard %d of %d, global batch "
                      "size %d, from global index %d: got %s; %s" % (
                          j, i, self.ph["c"], self.ph["G"], self.g, WM.show(x),
                          WM.diff(WM.canon(x), exp[j])))
    self.ctx.probe("elements")
    return True

  def steps(self, ph):
    exp = quiet(lambda: [self.batches(ph, i) for i in range(ph["c"])])
    pos = [0] * ph["c"]
    if ph["steps"] is None:
      live = list(range(ph["c"]))
      n = 0
      while live:
        i = live[ph["order"][n % len(ph["order"])] % len(live)]
        n += 1
        if self.take(i, exp[i], pos[i]):
          pos[i] += 1
        else:
          live.remove(i)
      self.ctx.probe("drained")
      return
    n = min(ph["steps"], (len(self.xs) - self.g) // ph["G"])
    rest = []
    for s in range(n):
      rest += list(range(ph["c"]))
    k = 0
    while rest:
      i = rest.pop(ph["order"][k % len(ph["order"])] % len(rest))
      k += 1
      self.take(i, exp[i], pos[i])
      pos[i] += 1
      if ph.get("recheck") == k:
        self.recheck(i, exp[i], pos[i])
    self.g += n * ph["G"]

  def recheck(self, i, exp, j):
    """Same shard: capture, run ahead, restore."""
    st = json.loads(json.dumps(self.call("get_state", self.its[i].get_state)))
    self.take(i, exp, j)
    self.call("set_state", lambda: self.its[i].set_state(st))
    self.ctx.probe("same_shard_restores")

  def save(self, ph):
    sts = [self.call("get_state", it.get_state) for it in self.its]
    if any(s != sts[0] for s in sts):
      raise Violation("states-differ", "shards that advanced equally have the "
                      "states %r" % (sts,))
    if ph["save"] == "handler":
      d = self.path()
      try:
        for i, it in enumerate(self.its):
          vfs.set_host(i, ph["c"])
          self.call("save", lambda: handler.CheckpointHandler().save(d, it))
      except DiskError:
        self.ctx.probe("saves_failed_by_disk")
        return
      finally:
        vfs.set_host(0, 1)
      self.ckpt = ("handler", (d, sts[0]), self.g, ph["c"])
      return
    st = sts[ph.get("from", 0) % len(sts)]
    self.ckpt = ("state", json.dumps(st), self.g, ph["c"])

  def load(self, ph, its):
    kind, pl = self.ckpt[:2]
    if kind == "handler" and self.ckpt[3] == ph["c"]:
      try:
        for i, it in enumerate(its):
          vfs.set_host(i, ph["c"])
          self.call("restore", lambda: handler.CheckpointHandler().restore(
              pl[0], it))
      finally:
        vfs.set_host(0, 1)
      return
    for it in its:
      st = pl[1] if kind == "handler" else json.loads(pl)
      self.call("set_state", lambda: it.set_state(st))


class IterJob(Job):

  def __init__(self, scn, ctx):
    super().__init__(scn, ctx)
    spec = scn["spec"]
    ops = []
    while spec[0] != "interleave":
      ops.append(spec)
      spec = spec[1]

    def lists():
      out = []
      for kid in spec[1]:
        s = kid if kid[0] not in P.MAP_OPS else ["iter", kid, 0, 0]
        for o in reversed(ops):
          s = [o[0], s] + o[2:]
        out.append(P.Model().ev(s))
      return out
    self.lists = quiet(lists)
    self.where = {}
    for d, xs in enumerate(self.lists):
      for p, x in enumerate(xs):
        i = int(WM.ident(x))
        if i in self.where:
          raise K.HarnessError("ambiguous elements")
        self.where[i] = (d, p)
    self.done = [0] * len(self.lists)

  def restored(self):
    self.done = list(self.ckpt[2]) if self.ckpt else [0] * len(self.lists)

  def rows(self, x):
    if isinstance(x, dict):
      return [int(v) for v in x["b"]]
    if x.ndim == 1:
      return [int(v) for v in x]
    return [int(v) for v in x[:, 0]]

  def take(self, i):
    ph = self.ph
    mine = [d for d in range(len(self.lists)) if d % ph["c"] == i]
    try:
      x = self.again("next", lambda: next(self.its[i]))
    except StopIteration:
      left = [d for d in mine if self.done[d] < len(self.lists[d])]
      if left:
        raise Violation("lost-elements", "shard %d of %d ended; of dataset %d it "
                        "returned %d of %d elements" % (
                            i, ph["c"], left[0], self.done[left[0]],
                            len(self.lists[left[0]])))
      return False
    ids = self.rows(x) if ph["G"] else [int(WM.ident(x))]
    els = []
    for e in ids:
      if e not in self.where:
        raise Violation("wrong-element", "shard %d of %d returned %s" % (
            i, ph["c"], WM.show(x)))
      d, p = self.where[e]
      if d not in mine:
        raise Violation("foreign-element", "shard %d of %d returned element %d of "
                        "dataset %d, which belongs to shard %d" % (
                            i, ph["c"], p, d, d % ph["c"]))
      if p != self.done[d]:
        raise Violation("repeated-element" if p < self.done[d] else "lost-elements",
                        "shard %d of %d returned element %d of dataset %d; %d of "
                        "its elements had been returned" % (
                            i, ph["c"], p, d, self.done[d]))
      self.done[d] += 1
      els.append(self.lists[d][p])
    want = P._default_batch(els) if ph["G"] else els[0]
    if WM.canon(want) != WM.canon(x):
      raise Violation("wrong-element", "got %s; %s" % (
          WM.show(x), WM.diff(WM.canon(x), WM.canon(want))))
    if ph["G"] and len(ids) != ph["G"] // ph["c"]:
      if len(ids) > ph["G"] // ph["c"] or any(
          self.done[d] < len(self.lists[d]) for d in mine):
        raise Violation("batch-size", "a batch of %d rows instead of %d before the "
                        "shard's end" % (len(ids), ph["G"] // ph["c"]))
    self.ctx.probe("elements")
    return True

  def steps(self, ph):
    if ph["steps"] is None:
      live = list(range(ph["c"]))
      n = 0
      while live:
        i = live[ph["order"][n % len(ph["order"])] % len(live)]
        n += 1
        if not self.take(i):
          live.remove(i)
      if self.done != [len(x) for x in self.lists]:
        raise Violation("lost-elements", "all shards ended after %s of %s" % (
            self.done, [len(x) for x in self.lists]))
      self.ctx.probe("drained")
      return
    for j, i in enumerate(ph["order"][:ph["steps"]]):
      self.take(i % ph["c"])
      if ph.get("recheck") == j:
        self.recheck(i % ph["c"])

  def recheck(self, i):
    st = json.loads(json.dumps(self.call("get_state", self.its[i].get_state)))
    saved = list(self.done)
    self.take(i)
    self.again("set_state", lambda: self.its[i].set_state(st))
    self.done = saved
    self.ctx.probe("same_shard_restores")

  def save(self, ph):
    n = ph["c"] if ph.get("torn") is None else ph["torn"] % ph["c"]
    if ph["save"] == "handler":
      d = self.path()
      try:
        for i in range(n):
          vfs.set_host(i, ph["c"])
          self.call("save", lambda: handler.CheckpointHandler().save(
              d, self.its[i]))
      except DiskError:
        self.ctx.probe("saves_failed_by_disk")
        return
      finally:
        vfs.set_host(0, 1)
      if n == ph["c"]:
        self.ckpt = ("handler", d, list(self.done), ph["c"])
      else:
        self.ctx.probe("uncommitted_saves")
      return
    merged = {}
    for it in self.its[:n]:
      st = self.call("get_shard_states", it.get_shard_states)
      for key, v in st.items():
        if key in merged:
          raise Violation("shard-keys", "two shards returned a state of dataset %s"
                          % key)
        merged[key] = v
    if n < ph["c"]:
      self.ctx.probe("uncommitted_saves")
      return
    if sorted(merged) != list(range(len(self.lists))):
      raise Violation("shard-keys", "states of datasets %s of %d were returned" % (
          sorted(merged), len(self.lists)))
    states = [self.call("get_state", it.get_state) for it in self.its]
    self.ckpt = ("shards", json.dumps([merged, states]), list(self.done), ph["c"])

  def load(self, ph, its):
    kind, pl = self.ckpt[:2]
    c = ph["c"]
    if kind == "handler":
      try:
        for i, it in enumerate(its):
          vfs.set_host(i, c)
          self.call("restore", lambda: handler.CheckpointHandler().restore(pl, it))
      finally:
        vfs.set_host(0, 1)
      return
    merged, states = json.loads(pl)
    for i, it in enumerate(its):
      if c == self.ckpt[3] and ph.get("plain"):
        self.call("set_state", lambda: it.set_state(states[i]))
        continue
      mine = {k: v for k, v in merged.items() if int(k) % c == i}
      if not ph.get("strkeys"):
        mine = {int(k): v for k, v in mine.items()}
      self.call("set_shard_states", lambda: it.set_shard_states(mine))


def harness(scn, ctx):
  runner.arm_faults(scn, ctx)
  ctx.k.vfs.plan = json.loads(json.dumps((scn.get("os") or {}).get("vfs") or {}))
  job = (MapJob if scn["mode"] == "map" else IterJob)(scn, ctx)
  job.run()
