"""P10: variable-size queues under concurrent puts, gets and resizes.

Producers and consumers are threads or worker processes of the simulated system,
the main thread resizes.  Every operation is recorded at its invocation and its
return; bounds on the number of held items follow from the history alone.
"""

import multiprocessing
import queue
import threading

from dst import kernel as K
from dst import runner
from dst.engine import Violation

H = None  # History of the current run.


class Op:
  __slots__ = ("kind", "item", "ok", "maybe", "t0", "s0", "s1", "timeout")


class History:

  def __init__(self, size, mp, slack):
    self.k = K.KERNEL
    self.mp = mp
    self.slack = slack
    self.done_puts = self.done_gets = 0
    self.puts, self.gets = [], []  # in progress
    self.limit = size
    self.target = None
    self.bound = size
    self.bad = None
    self.accepted = {}
    self.received = []
    self.live = {}

  def lower(self):
    return self.done_puts - self.done_gets - len(self.gets)

  def upper(self):
    return self.done_puts + len(self.puts) - self.done_gets

  def limits(self):
    if self.target is None:
      return self.limit, self.limit
    return min(self.limit, self.target), max(self.limit, self.target)

  def tick(self):
    lo, hi = self.limits()
    self.bound = max(hi, min(self.bound, self.upper()))
    held = self.lower()
    if held > self.bound:
      self.fail("over-limit", "at least %d items are in the queue, its limit "
                "allows %d" % (held, self.bound))
    for p in self.puts:
      if held + 1 <= hi:
        p.ok = True
      if self.upper() - 1 >= lo:
        p.maybe = True
    for g in self.gets:
      if held + 1 <= 0:
        g.maybe = True

  def fail(self, kind, msg):
    if self.bad is None:
      self.bad = (kind, msg)

  def begin(self, kind, item, timeout):
    o = Op()
    o.kind, o.item, o.timeout = kind, item, timeout
    o.ok = o.maybe = False
    o.t0, o.s0 = self.k.now, self.k.steps
    (self.puts if kind == "put" else self.gets).append(o)
    self.tick()
    return o

  def end(self, o, res, item=None):
    """res: "ok", "full", "empty" or "stopped"."""
    o.s1 = self.k.steps
    took = (self.k.now - o.t0) / 1e9
    if (o.timeout is not None and took > o.timeout + self.slack and
        not self.k.early_fires):
      self.fail("late-return", "%s with timeout %s returned after %.3f s" % (
          o.kind, o.timeout, took))
    if o.kind == "put":
      self.puts.remove(o)
      if res == "ok":
        self.done_puts += 1
        self.accepted[o.item] = o
        if not o.ok:
          self.fail("put-over-limit", "put(%s) succeeded although the queue was "
                    "full all the time" % (o.item,))
      elif res == "full" and not o.maybe:
        self.fail("spurious-full", "put(%s) raised Full although the queue never "
                  "was full" % (o.item,))
    else:
      self.gets.remove(o)
      if res == "ok":
        self.done_gets += 1
        o.item = tuple(item)
        self.received.append(o)
      elif res == "empty" and not o.maybe and not self.mp:
        self.fail("spurious-empty", "get() raised Empty although the queue never "
                  "was empty")
    self.tick()


def run_ops(q, name, ops):
  """The actor's program; runs in a thread or a worker process."""
  from grain._src.python.ipc import queue as gq
  h = H
  k = K.KERNEL
  n = 0
  for op in ops:
    a = op[0]
    if a == "sleep":
      k.sleep(op[1])
      continue
    if a in ("put", "addq"):
      item = (name, n)
      n += 1
      mode = op[1]
      if a == "addq":
        end = k.now + int(mode * 1e9)
        o = h.begin("put", item, mode + 0.5)
        r = gq.add_element_to_queue(item, q, lambda: k.now >= end)
        h.end(o, "ok" if r else "stopped")
        continue
      o = h.begin("put", item, mode if mode and mode > 0 else None)
      try:
        if mode is None:
          q.put(item)
        elif mode == 0:
          q.put(item, block=False)
        elif mode == -1:
          q.put_nowait(item)
        else:
          q.put(item, timeout=mode)
        h.end(o, "ok")
      except queue.Full:
        h.end(o, "full")
    else:
      mode = op[1]
      if a == "getq":
        end = k.now + int(mode * 1e9)
        o = h.begin("get", None, mode + 0.5)
        r = gq.get_element_from_queue(q, lambda: k.now >= end)
        if type(r) is tuple:
          h.end(o, "ok", r)
        else:
          h.end(o, "stopped")
        continue
      o = h.begin("get", None, mode if mode and mode > 0 else None)
      try:
        if mode is None:
          x = q.get()
        elif mode == 0:
          x = q.get(block=False)
        elif mode == -1:
          x = q.get_nowait()
        else:
          x = q.get(timeout=mode)
        h.end(o, "ok", x)
      except queue.Empty:
        h.end(o, "empty")
  h.live.pop(name, None)


def child(q, name, ops):
  run_ops(q, name, ops)


def harness(scn, ctx):
  global H
  from grain._src.python.ipc import variable_size_queue as vq
  runner.arm_faults(scn, ctx)
  k = ctx.k
  mp = scn["mp"]
  slack = 1.0 + sum(f[3] for f in scn.get("faults", []) if f[0] == "stall")
  H = h = History(scn["size"], mp, slack)
  ctx.op("build", 60)
  if mp:
    mctx = multiprocessing.get_context("spawn")
    q = vq.VariableSizeMultiprocessingQueue(scn["size"], mctx)
  else:
    q = vq.VariableSizeQueue(scn["size"])
  ths = []
  blocking = 0
  for i, a in enumerate(scn["actors"]):
    h.live[i] = a
    blocking += sum(1 for o in a["ops"] if o == ["get", None])
    if mp and a["proc"]:
      t = mctx.Process(target=child, args=(q, i, a["ops"]), daemon=True)
    else:
      t = threading.Thread(target=run_ops, args=(q, i, a["ops"]), daemon=True)
    ths.append(t)
  for t in ths:
    t.start()
  ctx.op_done()

  def check():
    if h.bad:
      raise Violation(*h.bad)

  def resize(n):
    h.target = n
    h.tick()
    ctx.op("set_max_size", 60 + slack)
    q.set_max_size(n)
    ctx.op_done()
    h.limit, h.target = n, None
    h.tick()
    ctx.probe("resizes")

  for op in scn["main"]:
    k.note("op", *op)
    if op[0] == "size":
      resize(op[1])
    else:
      run_ops(q, "m%d" % k.steps, [op])
    check()

  puts = sum(1 for a in scn["actors"] for o in a["ops"] if o[0] in ("put", "addq"))
  if scn["settle"] == "raise":
    # Raised beyond everything that is held or waiting: all putters proceed.
    resize(puts + blocking + 5)
    k.sleep(400 + 10 * slack)
    check()
    stuck = [o.item for o in h.puts]
    if stuck:
      raise Violation("putter-stuck", "puts of %s are still blocked long after the "
                      "limit was raised to %d, with %d items held at most" % (
                          stuck, h.limit, h.upper()))
    ctx.probe("raise_checks")
  # Whoever waits for items gets them, whoever waits for room gets it.
  k.dec.early = 0.0  # From here on timeouts only expire when nothing can run.
  ctx.op("settling", 10000 + 100 * slack)
  if h.limit == 0:
    resize(1)
  idle = serial = total = 0
  while idle < 2 or any(t.is_alive() for t in ths) or (
      h.done_gets < h.done_puts and idle < 60):
    if idle >= 4 and h.gets and not h.puts:
      # Somebody waits for an item.
      item = ("x", serial)
      serial += 1
      o = h.begin("put", item, 1.0)
      try:
        q.put(item, timeout=1.0)
        h.end(o, "ok")
      except queue.Full:
        h.end(o, "full")
      k.sleep(1.0)
      idle = 0
      total += 1
    o = h.begin("get", None, 1.0)
    try:
      x = q.get(timeout=1.0)
      h.end(o, "ok", x)
      idle = 0
    except queue.Empty:
      h.end(o, "empty")
      idle += 1
      total += 1
    check()
    if idle > 200 or total > 2000:
      raise Violation("stuck", "operations that never finish: %r" % (
          [(o.kind, o.item) for o in h.puts + h.gets],))
  for t in ths:
    t.join()
  ctx.op_done()
  check()
  judge(h)
  ctx.probe("items", len(h.accepted))
  if mp:
    ctx.op("close", 60 + slack)
    q.close()
    q.join_thread()
    ctx.op_done()


def judge(h):
  seen = {}
  for o in h.received:
    if o.item in seen:
      raise Violation("duplicate-item", "%s was received twice" % (o.item,))
    if o.item not in h.accepted:
      raise Violation("phantom-item", "%s was received but its put failed" % (
          o.item,))
    seen[o.item] = o
  lost = [i for i in h.accepted if i not in seen]
  if lost:
    raise Violation("lost-item", "%s were put but never received" % lost[:5])
  by = {}
  for (p, n), o in seen.items():
    by.setdefault(p, []).append((n, o))
  for p, xs in by.items():
    xs.sort(key=lambda x: x[0])
    for i, (n, a) in enumerate(xs):
      for m, b in xs[i + 1:]:
        if b.s1 < a.s0:
          raise Violation("reordered", "item %d of producer %s was received before "
                          "item %d" % (m, p, n))
