"""P09: how far pipelines read ahead of their consumer.

For a pipeline and a number r of requested elements, `Bound.up` gives the largest
number of calls of every user function and source that its options allow, and
`Bound.low` the number of calls whose results the first r elements consumed.
Every user call is checked against the bound at the moment it is made.
"""

from dst import kernel as K
from dst import pipeline as P
from dst import runner
from dst import world as WM
from dst.engine import Violation

BIG = 10 ** 9


def add(a, b):
  for k, v in b.items():
    a[k] = a.get(k, 0) + v
  return a


class Bound:
  """up/low: number of calls per site for r requested elements."""

  def __init__(self, model=None):
    self.m = model or P.Model()

  def sub(self, **kw):
    return Bound(self.m.child(**kw))

  def call(self, s, r, up):
    return getattr(self, "_" + s[0])(s, r, up)

  # cost of computing one index of a MapDataset
  def cost(self, s):
    op = s[0]
    if op == "range":
      return {}
    if op == "src":
      return {s[1]: 1}
    c = dict(self.cost(s[1]))
    if op in ("map", "mapidx", "filter", "rmap"):
      c[s[2]] = 1
    elif op == "batch":
      c = {k: v * s[2] for k, v in c.items()}
    elif op not in ("shuffle", "slice", "repeat"):
      raise K.HarnessError("cost of " + op)
    return c

  def positions(self, xs, keep, r, up):
    """Number of inputs needed for r outputs (all, if there are fewer)."""
    if r <= 0:
      return 0
    n = 0
    for i, x in enumerate(xs):
      if keep(x):
        n += 1
        if n == r:
          return i + 1
    return len(xs) + 1 if up else len(xs)  # up to and including the end

  def _iter(self, s, r, up):
    _, p, nt, buf = s
    xs = self.m.evm(p)
    if self.m.sl is not None:
      xs = xs[self.m.sl[0]::self.m.sl[1]]
    t = self.positions(xs, lambda x: x is not None, r, up)
    if up and nt and buf:
      t += buf
    t = min(t, len(xs))
    return {k: v * t for k, v in self.cost(p).items()}

  def _isrc(self, s, r, up):
    return {s[1]: min(r, s[2])}

  def _one(self, s, r, up):
    c = self.call(s[1], r, up)
    n = len(self.m.ev(s[1]))
    c[s[2]] = min(r, n)
    return c

  _imap = _imapidx = _irmap = _one

  def _ifilter(self, s, r, up):
    xs = self.m.ev(s[1])
    t = self.positions(xs, lambda x: WM.ident(x) % s[3] != s[4], r, up)
    c = self.call(s[1], t, up)
    c[s[2]] = min(t, len(xs))
    return c

  def _ibatch(self, s, r, up):
    return self.call(s[1], r * s[2], up)

  def _limit(self, s, r, up):
    return self.call(s[1], min(r, s[2]), up)

  def _opts(self, s, r, up):
    return self.call(s[1], r, up)

  def _izip(self, s, r, up):
    c = {}
    if not up:
      r = min(r, len(self.m.ev(s)))
    # Every request past the end asks the first parents for one more element,
    # like the builtin zip.
    for p in s[1]:
      add(c, self.call(p, r, up))
    return c

  def _tpref(self, s, r, up):
    return self.call(s[1], r + s[2] + 1 if up and s[2] else r, up)

  def taken(self, lists, cycle, r, up):
    """Elements taken from each list, and lists opened, for r outputs."""
    cycle = min(cycle, len(lists))
    slots = [None] * cycle
    taken = [0] * len(lists)
    nxt = i = n = 0
    while n < r:
      if slots[i] is not None:
        j = slots[i]
        if taken[j] < len(lists[j]):
          taken[j] += 1
          n += 1
        else:
          slots[i] = None
        i = (i + 1) % cycle
        continue
      if nxt < len(lists):
        slots[i] = nxt
        nxt += 1
      elif all(x is None for x in slots):
        break
      else:
        i = (i + 1) % cycle
    if up:  # The end of a list is found by one more request.
      taken = [n + (n == len(l)) for n, l in zip(taken, lists)]
    return taken, nxt

  def _interleave(self, s, r, up):
    _, ps, cycle, nmit, mib, ibs = s
    ps = [p if p[0] not in P.MAP_OPS else ["iter", p, 0, 0] for p in ps]
    lists = [self.m.ev(p) for p in ps]
    taken, opened = self.taken(lists, cycle, r, up)
    c = {}
    opened = max(opened, min(cycle, len(ps))) + (mib if nmit and mib else 0)
    for j, p in enumerate(ps):
      if up and j >= opened:
        break
      add(c, self.call(p, taken[j] + ibs + 1 if up and ibs else taken[j], up))
    return c

  def _mp(self, s, r, up):
    _, p, w, buf = s[:4]
    seq = s[4] if len(s) > 4 else 0
    if w == 0:
      return self.call(p, r, up)
    subs = []
    for i in range(w):
      kw = dict(index=i, count=w)
      if w > 1:
        kw["seq" if seq else "sl"] = (i, w)
      subs.append(self.sub(**kw))
    lists = [b.m.ev(p) for b in subs]
    taken, _ = self.taken(lists, w, r, up)
    ahead = 2 * buf + 2 if s[0] == "mp" else buf + 1
    c = {}
    for i, b in enumerate(subs):
      add(c, b.call(p, taken[i] + ahead if up else taken[i], up))
    return c

  _mtp = _mp


def threads(s, mult=1, out=None):
  """Largest number of threads in each user function at once."""
  out = {} if out is None else out
  op = s[0]
  if op == "iter":
    for k in Bound().cost(s[1]):
      out[k] = max(s[2] if s[2] and s[3] else 1, 1) * mult
    return out
  if op in ("mp", "mtp"):
    mult *= max(1, s[2])
  if op == "isrc":
    out[s[1]] = mult
  elif op in ("imap", "ifilter", "imapidx", "irmap"):
    out[s[2]] = mult
  elif op == "interleave":
    for p in s[1]:
      threads(p, mult, out)
  for c in P.children(s) if op != "interleave" else ():
    threads(c, mult, out)
  return out


class Reader:

  def __init__(self, scn, ctx):
    self.ctx = ctx
    self.k = ctx.k
    self.spec = scn["spec"]
    self.exp, _ = runner.expected(scn)
    self.start = 0  # position this segment began at
    self.req = 0  # position requested so far
    self.ends = 0  # ends of iteration seen
    self.past = {}  # allowance of earlier segments
    self.n = {}
    self.active = {}
    self.started = False
    self.bad = None
    self.cache = {}
    self.restored = False
    self.thr = threads(self.spec)
    ctx.w.hook = self.on_call
    ctx.w.unhook = self.on_return

  def off(self, fn):
    k = K.KERNEL
    K.set_kernel(None)
    try:
      return fn()
    finally:
      K.set_kernel(k)

  def bound(self, r, up):
    key = (r, up)
    if key not in self.cache:
      self.cache[key] = self.off(lambda: Bound().call(self.spec, r, up))
    return self.cache[key]

  def allowed(self, site):
    hi = self.bound(self.req + self.ends, True).get(site, 0)
    lo = self.bound(self.start, False).get(site, 0)
    return self.past.get(site, 0) + hi - lo

  def on_call(self, site, key):
    n = self.n[site] = self.n.get(site, 0) + 1
    a = self.active[site] = self.active.get(site, 0) + 1
    if self.bad:
      return
    if not self.started:
      self.bad = ("read-before-start", "%s(%s) was called before any element was "
                  "requested or prefetching was started" % (site, key))
    elif n > self.allowed(site):
      self.bad = ("read-too-far-ahead", "call number %d of %s (element %s) with "
                  "position %d requested; the options allow %d" % (
                      n, site, key, self.req, self.allowed(site)))
    elif a > self.thr.get(site, BIG) and not self.restored:
      self.bad = ("too-many-threads", "%d threads are inside %s, the options "
                  "allow %d" % (a, site, self.thr[site]))

  def on_return(self, site):
    self.active[site] -= 1

  def check(self):
    if self.bad:
      raise Violation(*self.bad)

  def segment(self, pos):
    """The iterator continues at pos."""
    for site in set(self.bound(self.req, True)) | set(self.past):
      self.past[site] = self.allowed(site)
    self.start = self.req = pos
    self.restored = True


def harness(scn, ctx):
  rd = Reader(scn, ctx)
  runner.arm_faults(scn, ctx)
  ctx.op("build", 60)
  ds = P.build(scn["spec"])
  it = iter(ds)
  ctx.op_done()
  states, pos, ended = {}, 0, False
  k = ctx.k
  for i, op in enumerate(scn["ops"]):
    k.note("op", *op)
    name = op[0]
    if name == "next":
      for _ in range(op[1] if not ended else 0):
        rd.started = True
        rd.req = max(rd.req, pos + 1)
        ctx.op("next", runner.NEXT_S)
        try:
          x = next(it)
        except StopIteration:
          ctx.op_done()
          if pos != len(rd.exp):
            raise Violation("lost-elements", "end at %d of %d" % (
                pos, len(rd.exp))) from None
          ended = True
          rd.ends += 1
          break
        ctx.op_done()
        if WM.canon(x) != rd.exp[pos]:
          raise Violation("wrong-element", "at position %d" % pos)
        pos += 1
        ctx.probe("elements")
        rd.check()
    elif name == "sleep":
      k.sleep(op[1])
    elif name == "start":
      rd.started = True
      ctx.op("start_prefetch", 60)
      it.start_prefetch()
      ctx.op_done()
    elif name == "get":
      ctx.op("get_state", 60)
      if not rd.started:
        rd.restored = True  # opens iterators without starting them
      states[op[1]] = (it.get_state(), pos)
      ctx.op_done()
    elif name == "set":
      if op[1] not in states:
        continue
      st, p = states[op[1]]
      ctx.op("set_state", 120)
      rd.segment(p)
      pos, ended = p, False
      it.set_state(st)
      ctx.op_done()
      ctx.probe("restores")
    elif name == "full":
      # An idle consumer: the buffers fill up.
      k.sleep(op[1])
      rd.check()
      if rd.started and not rd.restored and 0 < scn.get("fills", 0) <= pos:
        end = rd.bound(BIG, True)
        for site in rd.bound(rd.req, True):
          if site[0] not in "sq" or rd.allowed(site) >= end[site]:
            continue
          want = rd.allowed(site)
          if rd.n.get(site, 0) != want:
            raise Violation("buffer-not-filled", "op %d: %d calls of %s after an "
                            "idle time at position %d, the buffers have room for "
                            "%d" % (i, rd.n.get(site, 0), site, pos, want))
        ctx.probe("fill_checks")
    elif name == "close":
      ctx.op("close", 300)
      it.close()
      ctx.op_done()
      k.sleep(12)
      n = dict(rd.n)
      k.sleep(30)
      if n != rd.n:
        raise Violation("read-after-close", "user code is still called long after "
                        "close(): %r, then %r" % (n, rd.n))
      ctx.probe("closes")
      break
    rd.check()
    ctx.probe("bound_checks")
  ctx.op("close", 300)
  it.close()
  ctx.op_done()
  rd.check()
