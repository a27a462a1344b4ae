"""Seeded generation of pipelines and operation programs."""

from dst import pipeline as P

PACKS = ("ffpack", "bfpack", "cts")


class G:
  """Builds one pipeline specification."""

  def __init__(self, rng, max_n=24, kinds=None):
    self.r = rng
    self.site = 0
    self.max_n = max_n
    self.kinds = kinds or ["int", "arr", "dict", "nest", "big"]

  def s(self, p):
    self.site += 1
    return "%s%d" % (p, self.site)

  def n(self, lo=0):
    r = self.r
    return r.choice([lo, max(lo, 1), r.randint(lo, 4), r.randint(lo, 9),
                     r.randint(lo, self.max_n), r.randint(lo, self.max_n)])

  def src(self, kind=None, lo=0):
    kind = kind or self.r.choice(self.kinds)
    base = self.r.choice([0, 100, 1000])
    if kind == "int" and self.r.random() < 0.2:
      return ["range", self.n(lo)]
    return ["src", self.s("s"), self.n(lo), kind, base]

  def map_chain(self, p, depth, kind, simple=False, sparse=False, ops=None):
    """Returns (spec, sparse)."""
    r = self.r
    for _ in range(depth):
      if ops:
        op = r.choice(ops)
      elif simple:
        op = r.choice(["map", "map", "filter"])
      else:
        op = r.choice(["map", "map", "filter", "shuffle", "slice", "repeat",
                       "mapidx", "batch", "wshufm", "flatm", "rmap", "reidx"])
      if op == "map":
        p = ["map", p, self.s("m"), r.randint(1, 9)]
      elif op == "filter":
        p = ["filter", p, self.s("f"), r.choice([2, 3, 4]), r.randint(0, 1)]
        sparse = True
      elif op == "shuffle":
        p = ["shuffle", p, r.randint(0, 999)]
      elif op == "slice":
        p = ["slice", p, r.randint(0, 3), None, r.randint(1, 3)]
      elif op == "reidx":
        n = P.At().len(p)
        if n:
          p = ["reidx", p, [r.randrange(n) for _ in range(r.randint(1, 12))]]
      elif op == "repeat":
        p = ["repeat", p, r.randint(1, 3)]
      elif op == "mapidx":
        if kind == "seq":
          continue
        p = ["mapidx", p, self.s("i")]
        kind = "tuple"
      elif op == "batch":
        if sparse or kind in ("seq", "nest", "big", "tuple", "rmap", "batched"):
          continue
        p = ["batch", p, r.randint(1, 4), r.randint(0, 1)]
        kind = "batched"
      elif op == "wshufm":
        if sparse:
          continue
        p = ["wshufm", p, r.randint(1, 6), r.randint(0, 99)]
      elif op == "flatm":
        if kind == "seq" or P.contains(p, {"flatm"}):
          continue
        p = ["flatm", p, self.s("fl"), r.randint(1, 3)]
        sparse = True
        kind = "tuple"
      elif op == "rmap":
        if kind == "seq":
          continue
        p = ["rmap", p, self.s("r"), r.randint(0, 99)]
        kind = "rmap"
    self.kind = kind
    return p, sparse

  def ropts(self):
    r = self.r
    t = r.random()
    if t < 0.12:
      return 0, 0
    if t < 0.2:
      return 0, r.randint(1, 3)
    nt = r.choice([1, 1, 2, 3, 5])
    return nt, r.choice([1, 2, 3, 5, 8])

  def iter_base(self, depth=2, kind=None, simple=False, lo=0, ops=None):
    kind = kind or self.r.choice(self.kinds)
    p, sparse = self.map_chain(self.src(kind, lo), self.r.randint(0, depth),
                               kind, simple, ops=ops)
    nt, buf = self.ropts()
    return ["iter", p, nt, buf]

  def with_nones(self, index_ok=False):
    """Pipelines that keep the elements that a filter removed, as None."""
    r = self.r
    n = self.n(1)
    p = ["filter", ["src", self.s("s"), n, "int", 100], self.s("f"),
         r.choice([2, 3]), r.randint(0, 1)]
    if r.random() < 0.4:
      p = r.choice([["shuffle", p, 3], ["map", p, self.s("m"), 2],
                    ["repeat", p, 2], ["slice", p, 1, None, 2]])
    p = ["itern", p, *self.ropts()]
    self.kind = "none"
    p = self.iter_ops(p, r.randint(1, 3), ["imap", "imapidx", "irmap", "tpref",
                                           "irmap"])
    t = r.random()
    if t < 0.2 and not index_ok:
      p = self.mp(p, seq=0)
    elif t < 0.3:
      p = ["pp", p, r.randint(1, 3)]
    ops = ["tpref", "imap"] if index_ok else ["tpref", "limit", "irepeat", "imap"]
    return self.iter_ops(p, r.randint(0, 1), ops)

  def isrc(self, kind=None, lo=0):
    kind = kind or self.r.choice(self.kinds)
    self.kind = kind
    return ["isrc", self.s("q"), self.n(lo), kind,
            self.r.choice([0, 100, 1000])]

  def iter_any(self, kind=None, lo=0, depth=2):
    if self.r.random() < 0.3:
      return self.isrc(kind, lo)
    return self.iter_base(depth, kind, lo=lo)

  def iter_ops(self, p, depth, ops, kind=None):
    """Applies `depth` iterator stages drawn from ops."""
    r = self.r
    for _ in range(depth):
      op = r.choice(ops)
      if op == "imap":
        p = ["imap", p, self.s("m"), r.randint(1, 9)]
      elif op == "ifilter":
        p = ["ifilter", p, self.s("f"), r.choice([2, 3, 4]), r.randint(0, 1)]
      elif op == "imapidx":
        p = ["imapidx", p, self.s("i")]
        self.kind = "tuple"
      elif op == "irmap":
        p = ["irmap", p, self.s("r"), r.randint(0, 99)]
        self.kind = "rmap"
      elif op == "ibatch":
        if self.kind not in ("int", "arr", "dict"):
          continue
        p = ["ibatch", p, r.randint(1, 4), r.randint(0, 1)]
        self.kind = "batched"
      elif op == "rebatch":
        if self.kind not in ("int", "arr"):
          continue
        p = ["rebatch", ["ibatch", p, r.randint(1, 4), 0], r.randint(1, 5),
             r.randint(0, 1)]
        self.kind = "batched"
      elif op == "tpref":
        p = ["tpref", p, r.choice([0, 1, 1, 2, 3, 5])]
      elif op == "irepeat":
        p = ["irepeat", p, r.choice([None, 1, 2, 3])]
        if p[2] is None:
          return p
      elif op == "limit":
        p = ["limit", p, r.randint(1, 20)]
      elif op == "iflat":
        if P.contains(p, {"iflat", "flatm"}):
          continue
        p = ["iflat", p, self.s("fl"), r.randint(1, 3)]
        self.kind = "tuple"
      elif op == "wshuf":
        p = ["wshuf", p, r.randint(1, 6), r.randint(0, 99)]
      elif op == "cache":
        p = ["cache", p]
      elif op == "opts":
        p = ["opts", p, {}]
    return p

  def pack(self, p):
    r = self.r
    op = r.choice(PACKS)
    if op == "cts":
      return ["cts", p, r.randint(3, 9), r.randint(0, 1)]
    return [op, p, r.randint(5, 12), r.randint(1, 4), r.randint(0, 99),
            r.randint(0, 1)]

  def mp(self, p, w=None, buf=None, seq=None, init=None):
    r = self.r
    w = r.choice([1, 2, 2, 3]) if w is None else w
    buf = r.choice([1, 1, 2, 3]) if buf is None else buf
    e = ["mp", p, w, buf, 0 if seq is None else seq]
    if init:
      e.append(init)
    return e


ITER_OPS = ["imap", "imap", "ifilter", "imapidx", "irmap", "ibatch", "rebatch",
            "rebatch",
            "tpref", "tpref", "irepeat", "limit", "iflat", "wshuf", "cache"]
LIGHT_OPS = ["imap", "ifilter", "tpref", "ibatch", "limit", "imapidx"]


def random_pipeline(rng, mp_prob=0.25, max_n=20, ops=None, depth=3,
                    nones=True):
  """A broad random pipeline."""
  ops = ops or ITER_OPS
  g = G(rng, max_n)
  if nones and rng.random() < 0.03:
    return g.with_nones()
  t = rng.random()
  if t < mp_prob:
    g.max_n = min(max_n, 14)
    base = g.iter_base(2)
    base = g.iter_ops(base, rng.randint(0, 2),
                      [o for o in ops if o not in ("irepeat", "cache")])
    t = rng.random()
    if t < 0.14:
      p = ["pp", base, rng.choice([1, 1, 2, 3])]
    elif t < 0.78 or P.contains(base, {"wshuf"}):
      p = g.mp(base, seq=0)
    else:
      p = ["mtp", base, rng.choice([1, 2, 3]), rng.choice([1, 2])]
    p = g.iter_ops(p, rng.randint(0, 2), [o for o in ops if o not in (
        "cache",)])
    return p
  if t < mp_prob + 0.12:
    kids = [g.iter_any(rng.choice(g.kinds)) for _ in range(rng.randint(1, 5))]
    p = ["interleave", kids, rng.randint(1, 4), rng.choice([1, 1, 2, 3]),
         rng.choice([1, 1, 2]), rng.choice([1, 1, 2, 3])]
    g.kind = "mixed"
    return g.iter_ops(p, rng.randint(0, 2),
                      [o for o in ops if o not in ("ibatch", "rebatch")])
  if t < mp_prob + 0.20:
    kids = [g.iter_any("int") for _ in range(rng.randint(2, 3))]
    p = ["imix", kids, [rng.randint(1, 3) for _ in kids]]
    g.kind = "mixed"
    return g.iter_ops(p, rng.randint(0, 2),
                      [o for o in ops if o not in ("ibatch", "rebatch")])
  if t < mp_prob + 0.26:
    kids = [g.iter_any() for _ in range(rng.randint(2, 3))]
    p = ["izip", kids, 0]
    g.kind = "tuple"
    return g.iter_ops(p, rng.randint(0, 2), ops)
  if t < mp_prob + 0.34:
    base = g.iter_any("seq")
    g.kind = "seq"
    base = g.iter_ops(base, rng.randint(0, 1), ["imap", "tpref", "ifilter",
                                                "limit", "wshuf"])
    p = g.pack(base)
    g.kind = "packed"
    return g.iter_ops(p, rng.randint(0, 1), ["tpref", "limit", "irepeat"])
  if t < mp_prob + 0.42:
    op = rng.choice(["concat", "mixm", "zipm"])
    kids = [g.src("int", 1 if op == "mixm" else 0)
            for _ in range(rng.randint(2, 3))]
    if op == "mixm":
      p = ["mixm", kids, [rng.randint(1, 3) for _ in kids]]
    else:
      p = [op, kids]
    if op == "zipm":
      n = g.n()
      kids = [["src", k[1] if k[0] == "src" else g.s("s"), n, "int", 100 * j]
              for j, k in enumerate(kids)]
      p = ["zipm", kids]
    kind = "tuple" if op == "zipm" else "int"
    p, _ = g.map_chain(p, rng.randint(0, 2), kind)
    nt, buf = g.ropts()
    return g.iter_ops(["iter", p, nt, buf], rng.randint(0, 2), ops)
  base = g.iter_any()
  return g.iter_ops(base, rng.randint(0, depth), ops)


# ---------------------------------------------------------------------------
def ops_checkpoint(rng, length, heavy=False):
  """A program of advances, captures and restores in arbitrary order."""
  ops = [["new", 0]]
  have, handles = [], [0]
  for _ in range(rng.randint(3, 7 if heavy else 10)):
    t = rng.random()
    h = rng.choice(handles)
    if t < 0.34:
      ops.append(["next", h, rng.choice([1, 1, 2, 3, rng.randint(1, length + 2)])])
    elif t < 0.56:
      s = len(have)
      have.append(s)
      ops.append(["get", h, s])
      if rng.random() < 0.5:
        ops.append(["json", s])
    elif t < 0.74 and have:
      ops.append(["set", h, rng.choice(have)])
      if rng.random() < 0.3:
        ops.append(["set", h, rng.choice(have)])
    elif t < 0.86 and have and len(handles) < 3:
      h = len(handles)
      handles.append(h)
      ops.append(["restore", h, rng.choice(have)])
    elif t < 0.9:
      ops.append(["get2", h])
    elif t < 0.93:
      ops.append(["start", h])
    elif t < 0.96:
      ops.append(["sleep", rng.choice([0.01, 1.5])])
    else:
      ops.append(["drain", h])
  if have and rng.random() < 0.7:
    ops.append(["set", 0, rng.choice(have)])
  ops.append(["drain", rng.choice(handles)])
  if rng.random() < 0.4:
    ops.append(["next", handles[-1], 2])
  return recapture(rng, ops)


def recapture(rng, ops):
  """States are also captured directly after a restore, and used later."""
  if rng.random() < 0.4:
    return ops
  top = max([op[2] for op in ops if op[0] == "get"], default=-1)
  out, new = [], []
  for op in ops:
    if new and op[0] in ("set", "restore") and rng.random() < 0.3:
      op = [op[0], op[1], rng.choice(new)]
    out.append(op)
    if op[0] in ("set", "restore") and rng.random() < 0.4:
      top += 1
      out.append(["get", op[1], top])
      new.append(top)
  if new and rng.random() < 0.8:
    h = rng.choice([op[1] for op in ops if op[0] in ("new", "restore")])
    out += [["set", h, rng.choice(new)], ["drain", h]]
  return out


def ops_sweep(rng, length):
  """Captures at every position, restores of many in used and new iterators."""
  ops = [["new", 0]]
  n = rng.randint(2, length)
  for j in range(n):
    ops.append(["get", 0, j])
    if rng.random() < 0.2:
      ops.append(["json", j])
    ops.append(["next", 0, 1])
  if rng.random() < 0.7:
    ops.append(["drain", 0])
  h = 0
  for _ in range(rng.randint(2, 5)):
    j = rng.randint(0, n - 1)
    if h == 0 or rng.random() < 0.4:
      h += 1
      ops.append(["restore", h, j])
    else:
      ops.append(["set", rng.randint(0, h), j])
      if rng.random() < 0.3:
        ops.append(["set", rng.randint(0, h), rng.randint(0, n - 1)])
    g = rng.randint(0, h)
    ops.append(["drain", h] if rng.random() < 0.6 else
               ["next", g, rng.randint(1, 4)])
    if rng.random() < 0.3:
      ops.append(["get", g, n])
      n += 1
  ops.append(["set", rng.randint(0, h), rng.randint(0, n - 1)])
  ops.append(["drain", rng.randint(0, h)])
  return recapture(rng, ops)


def delays_plan(rng, spec, prob=0.5):
  """Slow user functions and sources."""
  plan = {}
  if rng.random() < prob:
    sites = [s[i] for s in P.walk(spec) for i in (1, 2)
             if len(s) > i and isinstance(s[i], str) and s[0] != "opts"]
    if sites:
      d = {}
      for _ in range(rng.randint(1, 6)):
        d["%s:%d" % (rng.choice(sites), rng.randint(0, 24))] = rng.choice(
            [0.001, 0.05, 0.3, 2.0, 7.0])
      plan["delays"] = d
      if rng.random() < 0.2:
        plan["slow_sites"] = {rng.choice(sites): rng.choice([0.01, 0.2])}
  return plan


def stall_faults(rng, n=2, horizon=4000):
  out = []
  for _ in range(rng.randint(0, n)):
    out.append(["stall", rng.randint(1, horizon), rng.randint(0, 30),
                rng.choice([0.01, 0.5, 3.0, 11.0])])
  if rng.random() < 0.25:
    out.append(["skew", rng.randint(1, horizon), rng.choice(
        [-86400.0, -3.0, -0.2, 5.0, 3600.0, 1e7])])
  return out


def has_mp(spec):
  return P.contains(spec, {"mp", "pp"})


def simpler_specs(spec):
  """Structurally smaller pipelines (for minimisation)."""
  out = []
  kids = P.children(spec)
  for c in kids:
    if c[0] not in P.MAP_OPS or spec[0] in P.MAP_OPS:
      out.append(c)
  for i, a in enumerate(spec):
    if i == 0:
      continue
    if isinstance(a, list) and a and isinstance(a[0], str):
      for s in simpler_specs(a):
        if spec[0] in ("iter", "itern") and s[0] not in P.MAP_OPS:
          continue
        out.append(spec[:i] + [s] + spec[i + 1:])
    elif isinstance(a, list) and a and isinstance(a[0], list):
      if len(a) > 1:
        for j in range(len(a)):
          e = spec[:i] + [a[:j] + a[j + 1:]] + spec[i + 1:]
          if spec[0] in ("imix", "mixm"):
            w = spec[i + 1]
            e = spec[:i] + [a[:j] + a[j + 1:], w[:j] + w[j + 1:]]
          out.append(e)
      for j, c in enumerate(a):
        for s in simpler_specs(c):
          out.append(spec[:i] + [a[:j] + [s] + a[j + 1:]] + spec[i + 1:])
  op = spec[0]
  nums = {"range": [1], "src": [2], "isrc": [2], "mp": [2, 3], "pp": [2], "iter": [2, 3], "itern": [2, 3],
          "mtp": [2, 3], "tpref": [2], "interleave": [2, 3, 4, 5],
          "wshuf": [2], "limit": [2], "irepeat": [2], "ibatch": [2]}
  for i in nums.get(op, ()):
    v = spec[i]
    if isinstance(v, int) and v > 1:
      for w in {1, v // 2, v - 1}:
        if 0 < w < v:
          out.append(spec[:i] + [w] + spec[i + 1:])
  if op in ("src", "isrc") and spec[3] != "int":
    out.append(spec[:3] + ["int"] + spec[4:])
  return out
