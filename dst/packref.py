"""Reference packers, written from the documentation of the transformations."""

import numpy as np


def length_of(v):
  return 1 if np.ndim(v) == 0 else len(v)


def empty_row(elem, cfg, fill):
  row = {}
  for f, n in cfg["len"].items():
    x = elem[f]
    shape, dt = (), np.int64 if isinstance(x, int) else np.asarray(x).dtype
    if np.ndim(x):
      shape = x.shape[1:]
    row[f] = np.full((n,) + shape, (fill or {}).get(f, 0), dt)
    if f not in cfg["meta"]:
      row[f + "_segment_ids"] = np.zeros(n, np.int32)
      row[f + "_positions"] = np.zeros(n, np.int32)
  return row


def put(row, cfg, f, start, v, seg):
  n = length_of(v)
  row[f][start:start + n] = v
  if f not in cfg["meta"]:
    row[f + "_segment_ids"][start:start + n] = seg
    row[f + "_positions"][start:start + n] = range(n)


def pack(elems, cfg):
  """List of batches (lists of rows)."""
  return cts(elems, cfg) if cfg["algo"] == "cts" else bins(elems, cfg)


def bins(elems, cfg):
  caps = cfg["len"]
  align = cfg.get("align") or {}
  most = cfg.get("maxseq")
  extra = [m for m in cfg["meta"] if m not in caps]
  out, cur = [], []

  def fits(b, e):
    if most is not None and len(b["items"]) >= most:
      return False
    return all(b["used"][f] + length_of(e[f]) <= n for f, n in caps.items())

  def render(b):
    row = empty_row(b["items"][0], cfg, cfg.get("pad"))
    used = {f: 0 for f in caps}
    for s, e in enumerate(b["items"], 1):
      for f in caps:
        put(row, cfg, f, used[f], e[f], s)
        k = align.get(f, 1)
        used[f] = -(-(used[f] + length_of(e[f])) // k) * k
    for m in extra:
      row[m] = [e[m] for e in b["items"] if m in e]
    return row

  for e in elems:
    ok = [b for b in cur if fits(b, e)]
    if ok and cfg["algo"] == "bf":
      # The tightest bin; the first one among equals.  An unused bin is the
      # loosest of all.
      best = max(sum(b["used"].values()) for b in ok)
      ok = [b for b in ok if sum(b["used"].values()) == best]
    if not ok:
      if len(cur) == cfg["bins"]:
        out.append([render(b) for b in cur])
        cur = []
      ok = [{"items": [], "used": {f: 0 for f in caps}}]
      cur.append(ok[0])
      if not fits(ok[0], e):
        raise ValueError("element does not fit an empty bin")
    b = ok[0]
    b["items"].append(e)
    for f in caps:
      k = align.get(f, 1)
      b["used"][f] = -(-(b["used"][f] + length_of(e[f])) // k) * k
  if cur:
    out.append([render(b) for b in cur])
  return out


def cts(elems, cfg):
  caps = cfg["len"]
  meta = cfg["meta"]
  body = [f for f in caps if f not in meta]
  it = iter(elems)
  out = []
  rest = None  # (element, {feature: (start, stop)})
  done = False

  def span(part, f):
    e, sl = part
    a, z = sl[f] if f in body else (0, length_of(e[f]))
    return e[f] if np.ndim(e[f]) == 0 and z > a else (
        np.atleast_1d(e[f])[a:z])

  def render(parts):
    row = empty_row(elems[0], cfg, None)
    for f in caps:
      end = 0
      for s, p in enumerate(parts, 1):
        v = span(p, f)
        put(row, cfg, f, end, v, s)
        if f in (cfg["bosf"] or ()) and length_of(v):
          row[f][end] = cfg["bos"]
        end += length_of(v)
    return row

  while not done:
    parts, through = [], []
    used = {f: 0 for f in caps}
    while True:
      if rest is not None:
        p, rest = rest, None
      else:
        try:
          e = next(it)
        except StopIteration:
          done = True
          break
        p = (e, {f: (0, length_of(e[f])) for f in body})
        lens = [(length_of(e[f]), n) for f, n in caps.items()]
        if not cfg["split_full"] and all(a <= n for a, n in lens) and any(
            a == n for a, n in lens):
          through.append(p)
          continue
      size = {f: length_of(span(p, f)) for f in caps}
      if any(size[f] > caps[f] - used[f] for f in meta):
        rest = p
        break
      if all(size[f] <= caps[f] - used[f] for f in caps):
        parts.append(p)
        for f in caps:
          used[f] += size[f]
        continue
      left, right = {}, {}
      for f in body:
        a, z = p[1][f]
        m = min(z, a + caps[f] - used[f])
        left[f], right[f] = (a, m), (m, z)
      if any(m > a for a, m in left.values()):
        parts.append((p[0], left))
        rest = (p[0], right)
      else:
        rest = p
      break
    rows = []
    if parts:
      rows.append(render(parts))
    rows += [render([p]) for p in through]
    if rows:
      out.append(rows)
  return out
