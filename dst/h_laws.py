"""P16-P21: laws of the output itself, and agreement of every way to read it.

A run first evaluates the pipeline sequentially outside the simulation and
checks that output against the law the property states (an independent
reference where the documentation defines one, algebraic laws where a seeded
pseudo-random choice is involved).  The simulated run then reads the same
pipeline through concurrent random access and through iterators under faults,
captures and restores, and compares every element with the checked output.
"""

import itertools
import threading

from dst import kernel as K
from dst import packref
from dst import pipeline as P
from dst import runner
from dst import world as WM
from dst.engine import Violation


def outside(fn):
  """Evaluates `fn` without the simulator."""
  k = K.KERNEL
  K.set_kernel(None)
  saved, WM.W.record = WM.W.record, False
  try:
    return fn()
  finally:
    K.set_kernel(k)
    WM.W.record = saved


def law(ok, kind, msg, *args):
  if not ok:
    raise Violation("law-" + kind, msg % args if args else msg)


def bag(xs):
  out = {}
  for x in xs:
    out[x] = out.get(x, 0) + 1
  return out


def bag_diff(a, b):
  lost = [WM.canon(x) for x in a if a[x] > b.get(x, 0)]
  new = [x for x in b if b[x] > a.get(x, 0)]
  return "missing %s, unexpected %s" % (str(lost[:3])[:200], str(new[:3])[:200])


class Ref:
  """Sequential outputs of specifications, each evaluated once."""

  def __init__(self):
    self.maps = {}

  def map(self, spec, n):
    """The first n elements by index (past the length: later epochs)."""
    ds = P.build(spec)
    return [ds[i] for i in range(n)]

  def length(self, spec):
    return len(P.build(spec))

  def seq(self, spec):
    return list(itertools.islice(iter(P.build(P.sequential(spec))), P.INF_CAP))


def check_laws(scn, ctx):
  r = Ref()
  for l in scn.get("laws") or []:
    globals()["law_" + l[0]](r, ctx, *l[1:])
    ctx.probe("law_" + l[0])


# -- P16 -----------------------------------------------------------------
def pick(x):
  """The numbers drawn by every random stage of an element."""
  out = []
  while isinstance(x, tuple) and len(x) >= 3:
    out.append(tuple(x[1:3]))
    x = x[0]
  return out


FAR = [2**k for k in (8, 12, 16, 20, 24, 31, 32, 33, 40, 48, 56, 61)]


def law_draws(r, ctx, spec, stages, n, other, is_map):
  """Independent streams per position, stage and seed; order is irrelevant."""
  if is_map:
    xs = r.map(spec, n)
    ds = P.build(spec)
    back = [None] * n
    for i in reversed(range(n)):
      back[i] = ds[i]
      if i % 3 == 0:
        ds[(i * 7 + 1) % n]
    for i in range(n):
      law(WM.canon(back[i]) == WM.canon(xs[i]), "order",
          "element %d is %s in ascending and %s in descending order", i,
          WM.show(xs[i]), WM.show(back[i]))
  else:
    xs = r.seq(spec)[:n]
    back = r.seq(spec)[:n]
    law(WM.canon(back) == WM.canon(xs), "repeat", "two runs differ")
  picks = [pick(x) for x in xs]
  if is_map and n:
    # Positions of epochs far away have streams of their own, too.
    ds = P.build(spec)
    m = len(ds)
    for e in FAR:
      i = (n * 7919 + e) % m + m * (e // m + 1)
      x = ds[i]
      law(WM.canon(ds[i]) == WM.canon(x), "order", "ds[%d] differs when read "
          "again", i)
      xs = xs + [x]
      picks.append(pick(x))
  for j in range(stages):
    seen = {}
    for i, q in enumerate(picks):
      if xs[i] is None:
        continue
      law(len(q) == stages, "draws", "element %d has no draws: %s", i,
          WM.show(xs[i]))
      for h, v in enumerate(q[j]):
        law(v not in seen, "same-stream", "the draws at position %d and at "
            "position %s of stage %d are the same", i, seen.get(v), j)
        seen[v] = i
  for i, q in enumerate(picks):
    flat = [v for p in q for v in p]
    law(len(set(flat)) == len(flat), "same-stream",
        "two random stages got the same stream at position %d", i)
  if other is not None:
    ys = r.map(other, n) if is_map else r.seq(other)[:n]
    a = {v for x in xs for q in pick(x) for v in q}
    b = {v for x in ys for q in pick(x) for v in q}
    law(not a & b, "seed-ignored", "another seed gives the same draws: %s",
        sorted(a & b)[:3])


# -- P17 -----------------------------------------------------------------
def idents(xs):
  return [None if x is None else WM.canon(x) for x in xs]


def law_shuffle(r, ctx, base, spec, other, epochs):
  """Every epoch is a permutation of the base's epoch."""
  n = r.length(base)
  law(r.length(spec) == n, "length", "%d elements became %d", n,
      r.length(spec))
  if not n:
    return
  src = idents(r.map(base, n * epochs))
  out = idents(r.map(spec, n * epochs))
  law(out == idents(r.map(spec, n * epochs)), "repeat", "two runs differ")
  for e in range(epochs):
    a, b = bag(src[e * n:e * n + n]), bag(out[e * n:e * n + n])
    law(a == b, "permutation", "epoch %d is not a permutation: %s", e,
        bag_diff(a, b))
  if len(set(src[:n])) >= 16:
    for e in range(1, epochs):
      law(out[e * n:e * n + n] != out[:n], "same-order",
          "epochs 0 and %d have the same order", e)
    if other is not None:
      law(idents(r.map(other, n)) != out[:n], "seed-ignored",
          "another seed gives the same order")


def law_bigshuffle(r, ctx, n, seed, epoch, win):
  """Shuffles of datasets that are too long to be listed elsewhere.

  Up to 300,000 elements the whole epoch is read, beyond that positions that
  differ in single bits, which must come from different elements.
  """
  import grain  # pylint: disable=g-import-not-at-top
  ds = grain.MapDataset.range(n)
  if win:
    from grain._src.python.dataset.transformations import shuffle  # pylint: disable=g-import-not-at-top
    ds = shuffle.WindowShuffleMapDataset(ds, window_size=win, seed=seed)
  else:
    ds = ds.shuffle(seed)
  top = win or n
  if n <= 300_000:
    idx = range(n)
  else:
    idx = {0, 1, 2, top - 1, top - 2, top - 3, top // 2}
    for k in range(top.bit_length()):
      idx |= {1 << k, (1 << k) - 1, top - 1 - (1 << k), (top - 1) ^ (1 << k)}
    idx = sorted(i for i in idx if 0 <= i < top)
  out = [ds[epoch * n + i] for i in idx]
  law(all(0 <= x < n for x in out), "range", "elements outside the dataset")
  law(len(set(out)) == len(out), "permutation", "%d positions of a shuffle of "
      "%d return %d elements", len(out), n, len(set(out)))
  if win:
    law(all(x // win == i // win for x, i in zip(out, idx)), "window",
        "an element left its window of %d", win)


def law_epochs(r, ctx, spec, once, epochs, reseed, long):
  """repeat(): epochs of the repeated dataset are those of its parent."""
  n = r.length(once)
  law(r.length(spec) == n * epochs, "length", "%d * %d elements became %d", n,
      epochs, r.length(spec))
  xs = idents(r.map(spec, n * epochs))
  ref = idents(r.map(once, n * epochs)) if reseed else idents(
      r.map(once, n)) * epochs
  law(xs == ref, "epochs", "repeat(reseed_each_epoch=%s) does not return the "
      "epochs of its parent", bool(reseed))


def law_window(r, ctx, base, spec, win, epochs):
  """Nothing leaves its window; each window is permuted."""
  n = r.length(base)
  src = idents(r.map(base, n * epochs))
  out = idents(r.map(spec, n * epochs))
  for e in range(epochs):
    for w in range(0, n, win):
      lo, hi = e * n + w, e * n + min(w + win, n)
      a, b = bag(src[lo:hi]), bag(out[lo:hi])
      law(a == b, "window", "positions %d..%d of epoch %d are not a permutation "
          "of the window: %s", w, hi - e * n - 1, e, bag_diff(a, b))
  if win >= 16 and n >= 2 * win:
    pos = {x: i for i, x in enumerate(src)}
    if len(pos) == len(src):
      p = [pos[x] for x in out]
      law([v - win for v in p[win:2 * win]] != p[:win] or
          p[:win] != list(range(win)), "same-order", "no window is shuffled")


def law_iwindow(r, ctx, base, spec, win):
  src, out = idents(r.seq(base)), idents(r.seq(spec))
  law(len(src) == len(out) or len(src) >= P.INF_CAP, "length",
      "%d elements became %d", len(src), len(out))
  m = min(len(src), len(out)) // win * win if len(
      src) >= P.INF_CAP else len(src)
  for w in range(0, m, win):
    a, b = bag(src[w:w + win]), bag(out[w:w + win])
    law(a == b, "window", "elements %d..%d are not a permutation of the window: "
        "%s", w, w + win - 1, bag_diff(a, b))


def law_sampler(r, ctx, n, seed, epochs, shards, drop, shuffle):
  """The shards of IndexSampler partition a permutation of every epoch."""
  import grain  # pylint: disable=g-import-not-at-top
  from grain._src.core import sharding  # pylint: disable=g-import-not-at-top

  def keys(index, count, s=seed):
    opt = sharding.ShardOptions(index, count, drop_remainder=bool(drop))
    smp = grain.samplers.IndexSampler(
        num_records=n, shuffle=bool(shuffle), seed=s, num_epochs=epochs,
        shard_options=opt)
    out = []
    for i in itertools.count(index, count):
      try:
        out.append(smp[i].record_key)
      except IndexError:
        return out
      if len(out) > n * epochs + 5:
        raise Violation("law-length", "a shard of %d records in %d epochs has "
                        "more than %d elements" % (n, epochs, len(out)))

  per = [keys(i, shards) for i in range(shards)]
  law(per == [keys(i, shards) for i in range(shards)], "repeat",
      "two samplers with the same seed differ")
  if drop:
    each = n // shards
    law(all(len(p) == each * epochs for p in per), "shard-size",
        "shards of %d records have %s elements in %d epochs", n,
        [len(p) for p in per], epochs)
  sizes = [len(p) // epochs for p in per]
  law(all(len(p) == s * epochs for p, s in zip(per, sizes)), "shard-size",
      "sizes %s are no multiples of %d epochs", [len(p) for p in per], epochs)
  law(sum(sizes) == (n // shards * shards if drop else n), "shard-size",
      "%d records in %d shards: %s", n, shards, sizes)
  law(max(sizes) - min(sizes) <= 1, "shard-size", "uneven shards: %s", sizes)
  for e in range(epochs):
    ks = [k for p, s in zip(per, sizes) for k in p[e * s:e * s + s]]
    law(len(set(ks)) == len(ks), "permutation", "a record occurs twice in epoch "
        "%d: %s", e, sorted(ks))
    law(all(0 <= k < n for k in ks), "permutation", "no such record: %s",
        sorted(ks))
    if not drop:
      law(len(ks) == n, "permutation", "epoch %d has %d of %d records", e,
          len(ks), n)
  big = [p for p, s in zip(per, sizes) if s >= 16]
  if shuffle and big and epochs > 1:
    s = sizes[per.index(big[0])]
    law(big[0][:s] != big[0][s:2 * s], "same-order",
        "epochs 0 and 1 have the same order")


# -- P18 -----------------------------------------------------------------
def law_mix(r, ctx, comps, weights, spec, is_map):
  """Order, conservation, proportions and length of a mixture."""
  if is_map:
    parts = [idents(r.map(c, r.length(c))) for c in comps]
    n = r.length(spec)
    out = idents(r.map(spec, n))
  else:
    parts = [idents(r.seq(c)) for c in comps]
    out = idents(r.seq(spec))
    n = len(out)
  owner = {}
  for c, xs in enumerate(parts):
    for j, x in enumerate(xs):
      owner[x] = (c, j)
  if len(owner) != sum(len(p) for p in parts):
    raise K.HarnessError("components overlap")
  w = [float(x) for x in weights] if weights else [1.0] * len(comps)
  share = [x / sum(w) for x in w]
  count = [0] * len(comps)
  tol = len(comps)
  for k, x in enumerate(out):
    law(x in owner, "unknown-element", "position %d: %s is in no component", k,
        str(x)[:100])
    c, j = owner[x]
    law(j == count[c], "component-order", "position %d is element %d of "
        "component %d, expected element %d", k, j, c, count[c])
    count[c] += 1
    for d in range(len(comps)):
      want = (k + 1) * share[d]
      # Weights are represented as integers with two decimals at least.
      law(abs(count[d] - want) < tol + 0.012 * (k + 1) * share[d] +
          0.012 * want, "proportion", "after %d elements component %d has "
          "contributed %d; its weight %s of %s asks for %.2f", k + 1, d,
          count[d], w[d], w, want)
  if n >= P.INF_CAP:
    return
  if is_map:
    full = min(len(p) / s for p, s in zip(parts, share))
    law(n >= int(full * 0.98) - 1 and n <= full * 1.02 + 1, "length",
        "components of %s elements with weights %s give %d elements, not %.1f",
        [len(p) for p in parts], w, n, full)
  else:
    law(any(c == len(p) for c, p in zip(count, parts)), "length",
        "the mixture ends after %s of %s elements", count,
        [len(p) for p in parts])


def law_concat(r, ctx, comps, spec, epochs=1):
  """Every epoch is that of the components, one after the other."""
  lens = [r.length(c) for c in comps]
  parts = [idents(r.map(c, n * epochs)) for c, n in zip(comps, lens)]
  law(r.length(spec) == sum(lens), "length", "%s elements became %d", lens,
      r.length(spec))
  out = idents(r.map(spec, sum(lens) * epochs))
  want = [x for e in range(epochs) for p, n in zip(parts, lens)
          for x in p[e * n:e * n + n]]
  law(out == want, "concat", "concatenation of %s elements differs in %d "
      "epochs", lens, epochs)


def law_select(r, ctx, comps, order, spec):
  """Element i is the one the user's selection names."""
  law(r.length(spec) == len(order), "length", "%d selected, %d elements",
      len(order), r.length(spec))
  out = idents(r.map(spec, 2 * len(order)))
  parts = [idents(r.map(c, r.length(c))) for c in comps]
  want = [parts[c][i] for c, i in order] * 2
  law(out == want, "select", "the selection %s gives other elements", order)


# -- P19 -----------------------------------------------------------------
def law_pack(r, ctx, spec):
  """Reference packers: exact rows, in order unless bins are shuffled."""
  base, cfg = spec[1], spec[2]
  elems = r.seq(base)
  got = r.seq(spec)
  if len(elems) >= P.INF_CAP or len(got) >= P.INF_CAP:
    return
  ref = packref.pack(elems, cfg)
  law(len(got) == sum(len(b) for b in ref), "rows", "%d rows, expected %d",
      len(got), sum(len(b) for b in ref))
  i = 0
  for j, batch in enumerate(ref):
    part = got[i:i + len(batch)]
    a = [WM.canon(x) for x in batch]
    b = [WM.canon(x) for x in part]
    if cfg["algo"] != "cts" and cfg["shuf"]:
      a, b = sorted(a, key=repr), sorted(b, key=repr)
    for u, v in zip(a, b):
      law(u == v, "packed-row", "batch %d: %s", j, WM.diff(v, u))
    i += len(batch)
  law_tokens(elems, got, cfg)
  ctx.probe("packed_rows", len(got))


def law_tokens(elems, rows, cfg):
  """Every token occurs exactly once, found again through the segment ids."""
  import numpy as np  # pylint: disable=g-import-not-at-top
  for f in cfg["len"]:
    if f in cfg["meta"] or f in (cfg.get("bosf") or ()):
      continue
    want = [v for e in elems for v in np.atleast_1d(np.asarray(e[f]))]
    got = []
    for row in rows:
      sid, pos = row[f + "_segment_ids"], row[f + "_positions"]
      for v, s, p in zip(row[f], sid, pos):
        if s:
          got.append(v)
          law(p >= 0, "position", "negative position")
    a = bag(np.asarray(v).tobytes() for v in want)
    b = bag(np.asarray(v).tobytes() for v in got)
    law(a == b, "tokens", "feature %s: %d tokens of the input became %d", f,
        len(want), len(got))


# -- random access ---------------------------------------------------------
class Reader(threading.Thread):
  """Performs accesses; errors planned for its own calls are retried."""

  def __init__(self, ds, ops, exp, length, acc):
    super().__init__(daemon=True)
    self.ds, self.ops, self.exp, self.n, self.acc = ds, ops, exp, length, acc
    self.bad = None
    self.errors = []

  def run(self):
    self.task = id(K.KERNEL.cur)
    try:
      for op in self.ops:
        self.one(op)
    except Violation as e:
      self.bad = e

  def attempt(self, what, fn):
    while True:
      try:
        return fn()
      except StopIteration:
        raise
      except Exception as e:  # pylint: disable=broad-except
        if isinstance(e, K.HarnessError):
          raise
        if "planned:" not in str(e):
          raise Violation("unexpected-exception", "%s raised %s: %s" % (
              what, type(e).__name__, str(e)[:300])) from e
        self.errors.append((type(e).__name__, str(e)[:100]))
        if len(self.errors) > 200:
          raise Violation("error-persists", "%s keeps raising %s" % (what, e))

  def check(self, what, x, i):
    if WM.canon(x) != self.exp[i]:
      raise Violation("wrong-element", "%s = %s; difference at element%s" % (
          what, WM.show(x), WM.diff(WM.canon(x), self.exp[i])))
    self.acc[0] += 1

  def one(self, op):
    if op[0] == "i":
      i = op[1]
      self.check("ds[%d]" % i, self.attempt("ds[%d]" % i,
                                            lambda: self.ds[i]), i)
    elif op[0] == "bat":
      # What batching with experiments turned on reads with.
      many = getattr(self.ds, "_getitems", None)
      if many is None:
        return
      what = "batched access to %s" % op[1]
      xs = list(self.attempt(what, lambda: many(list(op[1]))))
      if len(xs) != len(op[1]):
        raise Violation("wrong-length", "%s returned %d elements" % (what, len(xs)))
      for x, i in zip(xs, op[1]):
        self.check(what + ", element %d" % i, x, i)
    elif op[0] == "sl":
      sub = self.ds[op[1]:op[2]:op[3]]
      idx = range(self.n)[op[1]:op[2]:op[3]]
      if len(sub) != len(idx):
        raise Violation("wrong-length", "len(ds[%r:%r:%r]) = %d, expected %d" % (
            op[1], op[2], op[3], len(sub), len(idx)))
      for j, i in enumerate(idx):
        what = "ds[%r:%r:%r][%d]" % (op[1], op[2], op[3], j)
        self.check(what, self.attempt(what, lambda j=j: sub[j]), i)
    elif op[0] == "it":
      it = iter(self.ds)
      i = 0
      done = 0
      while done < op[1]:
        while i < self.n and self.exp[i] is None:
          i += 1
        try:
          x = self.attempt("next(iter(ds))", lambda: next(it))
        except StopIteration:
          if i < self.n:
            raise Violation("lost-elements", "iteration ended at index %d of %d"
                            % (i, self.n)) from None
          return
        if i >= self.n:
          raise Violation("extra-element", "iteration returned %s after the end"
                          % WM.show(x))
        self.check("next(iter(ds)) at index %d" % i, x, i)
        i += 1
        done += 1
    elif op[0] == "len":
      if len(self.ds) != self.n:
        raise Violation("wrong-length", "len(ds) = %d, expected %d" % (
            len(self.ds), self.n))
    elif op[0] == "sleep":
      K.KERNEL.sleep(op[1])


def access(scn, ctx, exp, n):
  acc = [0]
  spec = scn["mspec"]
  ds = P.build(spec)
  ths = [Reader(ds, ops, exp, n, acc) for ops in scn["access"]]
  ctx.op("random access", 4000)
  for t in ths:
    t.start()
  for t in ths:
    t.join()
  ctx.op_done()
  for t in ths:
    if t.bad:
      raise t.bad
  ctx.probe("accesses", acc[0])
  ctx.probe("reader_threads", len(ths))
  # An error surfaces in the thread whose call failed, once.
  for t in ths:
    if any(op[0] == "it" for op in t.ops):
      continue  # iterators read ahead in other threads
    got = sorted(m.split("planned:")[1].strip("'\"") for _, m in t.errors)
    want = sorted(sk for sk, task in WM.W.raised_by if task == t.task)
    if [g.split()[0].rstrip("'\"") for g in got] != want:
      raise Violation("error-misplaced", "a thread's calls failed at %s but it "
                      "saw %s" % (want, got))
  ctx.probe("errors_surfaced", sum(len(t.errors) for t in ths))


def harness(scn, ctx):
  outside(lambda: check_laws(scn, ctx))
  runner.arm_faults(scn, ctx)
  conf = scn.get("config")
  if scn.get("access"):
    def ref():
      ds = P.build(scn["mspec"])
      top = max([len(ds)] + [op[1] + 1 for ops in scn["access"] for op in ops
                             if op[0] == "i"])
      at = P.At()
      n = at.len(scn["mspec"])
      law(len(ds) == n, "length", "len(ds) = %d, expected %d", len(ds), n)
      # All indices that are read, and some of several later epochs.
      top = min(max(top, 4 * n), top + 100)
      xs = []
      for i in range(top if n else 0):
        want, x = WM.canon(at.at(scn["mspec"], i)), WM.canon(ds[i])
        law(want == x, "model", "sequential access: ds[%d] (length %d): %s", i,
            n, WM.diff(x, want))
        xs.append(x)
      return xs, n
    exp, n = outside(ref)
    access(scn, ctx, exp, n)
  if scn.get("ops"):
    exp, inf = expected(scn)
    with_config(conf, lambda: program(scn, ctx, exp, inf))


def expected(scn):
  if scn.get("ref") == "real":
    def ev():
      xs = list(itertools.islice(iter(P.build(P.sequential(scn["spec"]))),
                                 P.INF_CAP))
      return [WM.canon(x) for x in xs]
    exp = outside(ev)
    return exp, len(exp) >= P.INF_CAP
  return runner.expected(scn)


def program(scn, ctx, exp, inf):
  mk = None
  if scn.get("touch"):
    mk = lambda: Touching(scn["touch"], ctx).b(scn["spec"])
  p = runner.Program(scn, ctx, exp, inf, mk)
  p.run(scn["ops"])
  p.finish()


class Touching(P.Builder):
  """Reads elements of the random access parts before their use."""

  def __init__(self, how, ctx):
    super().__init__()
    self.how = how
    self.ctx = ctx

  def _iter(self, p, nt, buf):
    ds = self.b(p)
    for i in range(self.how if len(ds) else 0):
      ds[i % len(ds)]  # pylint: disable=pointless-statement
    self.ctx.probe("touched_datasets")
    return ds.to_iter_dataset(P.read_options(nt, buf))


def with_config(conf, fn):
  if not conf:
    return fn()
  from grain._src.core import config as gc_  # pylint: disable=g-import-not-at-top
  old = {}
  for k, v in conf.items():
    old[k] = gc_.config.get_or_default(k)
    gc_.config.update(k, v)
  try:
    return fn()
  finally:
    for k, v in old.items():
      gc_.config.update(k, v)
