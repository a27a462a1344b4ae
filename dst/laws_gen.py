"""Scenario generation for P16-P21 (harness h_laws)."""

from dst import gen as G
from dst import pipeline as P

MODES = [None, None, "half", "norm", "perm", "var", "tail"]
ETM = 2  # STAGE_TIMING
KINDS = ["int", "arr", "dict"]


def src(rng, g, lo=0, hi=24, kind=None, base=None):
  n = rng.choice([lo, rng.randint(lo, max(lo, 5)), rng.randint(lo, hi),
                  rng.randint(lo, hi)])
  kind = kind or rng.choice(KINDS)
  if kind == "int" and base is None and rng.random() < 0.2:
    return ["range", n]
  return ["src", g.s("s"), n, kind, rng.choice([0, 100, 5000]) if base is None
          else base]


def accesses(rng, n, threads=None, top=None, slices=True):
  """Programs of concurrent readers."""
  out = []
  hot = rng.randrange(max(1, n))
  for _ in range(threads or rng.randint(2, 5)):
    ops = []
    for _ in range(rng.randint(2, 10)):
      t = rng.random()
      if not n:
        ops.append(["len"])
      elif t < 0.25:
        ops.append(["i", hot])
      elif t < 0.6:
        ops.append(["i", rng.randrange(n)])
      elif t < 0.7:
        m = top if top and rng.random() < 0.4 else n
        ops.append(["bat", [rng.randrange(m) for _ in range(rng.randint(1, 8))]])
      elif t < 0.8 and top and top > n:
        ops.append(["i", rng.randrange(n, top)])
      elif t < 0.86:
        ops.append(["it", rng.randint(1, 6)])
      elif t < 0.92 and slices:
        a = rng.randint(0, n)
        ops.append(["sl", a, min(n, a + rng.randint(0, 6)), rng.randint(1, 3)])
      elif t < 0.96:
        ops.append(["len"])
      else:
        ops.append(["sleep", rng.choice([0.001, 0.5])])
    out.append(ops)
  return out


def errors(rng, spec, plan, kinds=("UserError", "OSError", "ValueError",
                                   "RuntimeError", "KeyError", "AssertionError",
                                   "TimeoutError", "AttributeError")):
  sites = [s[i] for s in P.walk(spec) for i in (1, 2)
           if len(s) > i and isinstance(s[i], str)
           and s[0] not in ("opts", "gpack")]
  sites = [s for s in sites if ":" not in s]
  if sites:
    plan["errors"] = {
        "%s:%d" % (rng.choice(sites), rng.randint(0, 20)): [
            rng.choice(kinds), rng.randint(1, 2)]
        for _ in range(rng.randint(1, 5))}
  return plan


def programs(rng, spec):
  if rng.random() < 0.4:
    return G.ops_sweep(rng, rng.choice([4, 8, 14]))
  return G.ops_checkpoint(rng, 12, G.has_mp(spec))


def finish(rng, scn, mspec=None, ispec=None, n=0, top=None, err=True):
  """Adds concurrent access, or an iteration program, plus faults."""
  if mspec is not None and (ispec is None or rng.random() < 0.5):
    scn["mspec"] = mspec
    scn["access"] = accesses(rng, n, top=top)
    scn["plan"] = G.delays_plan(rng, mspec, 0.5)
    if err and rng.random() < 0.4:
      errors(rng, mspec, scn["plan"])
    scn["ops"] = []
    scn["nospec"] = True
  else:
    scn["spec"] = ispec
    scn["ops"] = programs(rng, ispec)
    scn["plan"] = G.delays_plan(rng, ispec, 0.4)
    scn["nospec"] = True
  scn["faults"] = G.stall_faults(rng, 1)
  return scn


# -- P16 -----------------------------------------------------------------
def p16(rng):
  g = G.G(rng, 24)
  if rng.random() < 0.06:
    spec = g.with_nones()
    return finish(rng, {"h": "laws", "laws": []}, None, spec)
  base = src(rng, g, lo=1, kind=rng.choice(["int", "dict", "arr"]))
  n = base[2] if base[0] == "src" else base[1]
  if rng.random() < 0.25:
    base = ["filter", base, g.s("f"), rng.choice([2, 3]), 0]
  if rng.random() < 0.3:
    base = ["map", base, g.s("m"), rng.randint(1, 9)]
  stages = rng.choice([1, 1, 2, 3])
  s0 = rng.randint(0, 2**31 - 1)
  s1 = (s0 + rng.choice([1, 7, 1 << 20])) % (1 << 31)
  explicit = rng.random() < 0.4
  sites = [g.s("r") for _ in range(stages)]
  modes = [rng.choice(MODES) for _ in range(stages)]
  shuf = rng.random() < 0.3
  sh_seed = rng.randint(0, 999)
  is_map = rng.random() < 0.6

  def make(s, it):
    p = base
    if not explicit:
      p = ["seed", p, s]
    if shuf:
      p = ["shuffle", p, None if not explicit else sh_seed]
    if it:
      p = ["iter", p, *ro]
    for j in range(stages):
      p = ["irmap" if it else "rmap", p, sites[j],
           s + 100 * j if explicit else None, modes[j]]
    return p

  ro = g.ropts()
  spec, other = make(s0, not is_map), make(s1, not is_map)
  epochs = rng.choice([1, 2, 3])
  scn = {"h": "laws", "laws": [
      ["draws", spec, stages, n * epochs, other, is_map]]}
  if is_map:
    ispec = ["iter", ["repeat", spec, epochs] if rng.random() < 0.4 else spec,
             *g.ropts()]
  else:
    ispec = spec
  # Iterator stages above: state restores must replay the streams.
  ispec = g.iter_ops(ispec, rng.randint(0, 2), ["imap", "tpref", "ifilter",
                                                "limit", "wshuf"])
  t = rng.random()
  if t < 0.09 and (is_map or explicit):
    ispec = ["mtp", ["iter", spec, 1, 2] if is_map else spec, rng.choice(
        [1, 2, 3]), rng.choice([1, 2])]
  elif t < 0.2 and (is_map or explicit):
    ispec = g.mp(ispec if not P.contains(ispec, {"wshuf", "limit"}) else (
        ["iter", spec, 1, 2] if is_map else spec), seq=0)
  elif t < 0.35:
    g.kind = "rmap"
    ispec = ["irepeat", ispec, rng.choice([1, 2, 3])]
  return finish(rng, scn, spec if is_map else None, ispec, n, n * epochs + 1)


# -- P17 -----------------------------------------------------------------
def p17(rng):
  g = G.G(rng, 30)
  t = rng.random()
  scn = {"h": "laws"}
  seed = rng.choice([0, 1, 41, 999, 2**31, 2**32 - 2, 2**32 - 1])
  other = rng.choice([2, 12345, 2**31 + 7])
  if t < 0.05:
    # Lengths around powers of two.
    k = rng.choice([16, 16, 17, 18, 20, 24, 31, 32, 33, 40, 48, 52, 53, 54, 61,
                    62])
    n = 2**k + rng.choice([-2, -1, 0, 1, 1, 2, 3])
    if rng.random() < 0.3:
      n = rng.randint(1, n)
    win = rng.choice([0, 0, rng.randint(1, n), 2**16 + 1])
    scn["laws"] = [["bigshuffle", n, seed, rng.choice([0, 1, 2]), win]]
    n = rng.randint(1, 20)
    spec = ["shuffle", ["src", "s1", n, "int", 0], seed]
    return finish(rng, scn, spec, None, n, n * 3)
  if t < 0.12:
    n = rng.randint(1, 40)
    shards = rng.choice([1, 1, 2, 3, 4, 7])
    drop = rng.randint(0, 1)
    if drop and n < shards:
      n = shards + n
    epochs = rng.randint(1, 3) if drop or n % shards == 0 else 1
    scn["laws"] = [["sampler", n, seed if seed < 2**32 else 0, epochs, shards,
                    drop, 1]]
    base = ["src", "s1", n, "int", 0]
    spec = ["shuffle", base, seed]
    return finish(rng, scn, spec, None, n, n * 3)
  base = src(rng, g, lo=rng.choice([0, 1, 16]), hi=40)
  n = base[2] if base[0] == "src" else base[1]
  if rng.random() < 0.2:
    base = ["map", base, g.s("m"), 3]
  epochs = rng.choice([1, 2, 3, 4])
  if t < 0.45:
    if rng.random() < 0.4:
      spec = ["shuffle", ["seed", base, seed % 1000], None]
      oth = ["shuffle", ["seed", base, other], None]
    else:
      spec, oth = ["shuffle", base, seed], ["shuffle", base, other]
    scn["laws"] = [["shuffle", base, spec, oth, epochs]]
    if rng.random() < 0.5:
      re = rng.randint(0, 1)
      rep = ["repeat", spec, epochs, re]
      scn["laws"].append(["epochs", rep, spec, epochs, re, 0])
      spec = rep
      n *= epochs
    if rng.random() < 0.3 and n:
      b2 = spec
      spec = ["slice", spec, 0, None, 1]
      scn["laws"].append(["shuffle", b2, ["shuffle", b2, other], None, 1])
  elif t < 0.75:
    win = rng.choice([1, 2, 3, 5, 8, 16, 17, 64])
    spec = ["wshufm", base, win, seed]
    scn["laws"] = [["window", base, spec, win, epochs]]
    if rng.random() < 0.4:
      re = rng.randint(0, 1)
      rep = ["repeat", spec, epochs, re]
      scn["laws"].append(["epochs", rep, spec, epochs, re, 0])
      spec = rep
      n *= epochs
  else:
    win = rng.choice([1, 2, 3, 5, 8, 16, 64])
    ib = rng.choice([["iter", base, *g.ropts()], ["isrc", g.s("q"), n, "int", 7]])
    if rng.random() < 0.3:
      ib = ["ifilter", ib, g.s("f"), rng.choice([2, 3]), 0]
    if rng.random() < 0.3:
      ib = ["irepeat", ib, rng.choice([2, 3])]
    spec = ["wshuf", ib, win, seed]
    scn["laws"] = [["iwindow", ib, spec, win]]
    if rng.random() < 0.3:
      spec = ["wshuf", spec, rng.choice([2, 4]), other]
    spec = g.iter_ops(spec, rng.randint(0, 2), ["tpref", "limit", "imapidx",
                                                "irepeat", "ifilter"])
    return finish(rng, scn, None, spec)
  ispec = g.iter_ops(["iter", spec, *g.ropts()], rng.randint(0, 1),
                     ["tpref", "imapidx", "wshuf"])
  if rng.random() < 0.15 and not P.contains(ispec, {"wshuf"}):
    ispec = g.mp(["iter", spec, 1, 2], seq=0)
  if rng.random() < 0.1:
    # Shuffles shard correctly under sequential slices, too.
    pass
  return finish(rng, scn, spec, ispec, n, n * 3 if n else 0)


# -- P18 -----------------------------------------------------------------
def weights(rng, k):
  t = rng.random()
  if t < 0.15:
    return None
  if t < 0.5:
    return [rng.randint(1, 5) for _ in range(k)]
  if t < 0.75:
    return [rng.choice([0.1, 0.25, 0.3, 0.333, 0.5, 0.7, 1.5, 2.0])
            for _ in range(k)]
  return [rng.choice([1, 10, 37, 100]) for _ in range(k)]


def strict_zip(rng):
  """Unequal lengths are an error of strict zips, wherever it is noticed."""
  g = G.G(rng, 24)
  n = rng.randint(0, 9)
  kids = []
  for j in range(rng.randint(1, 4)):
    m = n if rng.random() < 0.7 else max(0, n + rng.choice([-1, 1, 2]))
    b = 100 * j
    c = (["isrc", g.s("q"), m, "int", b] if rng.random() < 0.3 else
         ["iter", ["src", g.s("s"), m, "int", b], *g.ropts()])
    g.kind = "int"
    kids.append(g.iter_ops(c, rng.randint(0, 1), ["tpref", "imap", "limit"]))
  p = ["izip", kids, 1]
  g.kind = "tuple"
  p = g.iter_ops(p, rng.randint(0, 2), ["tpref", "imap", "imapidx", "ifilter"])
  if rng.random() < 0.2 and all(c[0] == "iter" for c in kids):
    p = g.mp(p, seq=0)
  ops = [["new", 0]]
  if rng.random() < 0.3:
    ops.append(["start", 0])
  for s in range(rng.randint(0, 3)):
    ops += [["get", 0, s], ["next", 0, rng.randint(0, 4)]]
    if rng.random() < 0.3:
      ops.append([rng.choice(["set", "restore"]), 0, rng.randint(0, s)])
  ops.append(["drain", 0])
  return {"h": "pipe", "spec": p, "ops": ops, "poison": 1, "faults":
          G.stall_faults(rng, 1), "plan": G.delays_plan(rng, p, 0.4)}


def p18(rng):
  if rng.random() < 0.06:
    return strict_zip(rng)
  g = G.G(rng, 24)
  k = rng.choice([1, 2, 2, 3, 3, 4, 6])
  w = weights(rng, k)
  scn = {"h": "laws"}
  is_map = rng.random() < 0.5

  def comp(j):
    n = rng.choice([1, 2, rng.randint(1, 8), rng.randint(1, 30)])
    p = ["src", g.s("s"), n, "int", 10000 * (j + 1)]
    if rng.random() < 0.2:
      p = ["shuffle", p, rng.randint(0, 99)]
    if rng.random() < 0.15 and is_map:
      p = ["rmap", p, g.s("r"), rng.randint(0, 9)]
    return p

  if is_map:
    comps = [comp(j) for j in range(k)]
    if rng.random() < 0.2:
      spec = ["concat", comps]
      scn["laws"] = [["concat", comps, spec, rng.choice([1, 2, 3])]]
    elif rng.random() < 0.15:
      order = [[j, i] for j, c in enumerate(comps) for i in range(
          P.build(c).__len__())]
      rng.shuffle(order)
      spec = ["select", comps, order]
      scn["laws"] = [["select", comps, order, spec]]
    else:
      spec = ["mixm", comps, w]
      scn["laws"] = [["mix", comps, w, spec, 1]]
    n = len(P.build(spec))
    mspec = spec
    if rng.random() < 0.3:
      mspec = rng.choice([["map", spec, g.s("m"), 2], ["shuffle", spec, 5],
                          ["repeat", spec, 2], ["repeat", spec, 3, 0],
                          ["slice", spec, 1, None, 2],
                          ["filter", spec, g.s("f"), 3, 1]])
    if rng.random() < 0.2:
      n = len(P.build(mspec))
      if n:
        mspec = ["reidx", mspec, [rng.randrange(n) for _ in range(
            rng.randint(1, 12))]]
    if rng.random() < 0.2 and len(P.build(mspec)):
      mspec = ["mixm", [mspec, ["src", g.s("s"), 9, "int", 900000]], [2, 1]]
    n = len(P.build(mspec))
    ispec = ["iter", mspec, *g.ropts()]
    ispec = g.iter_ops(ispec, rng.randint(0, 1), ["tpref", "imap", "limit"])
    if rng.random() < 0.12:
      ispec = g.mp(["iter", mspec, 1, 2], seq=0)
    if n:
      return finish(rng, scn, mspec, ispec, n, 2 * n)
    return finish(rng, scn, None, ispec)
  comps = []
  retry = rng.random() < 0.35
  for j in range(k):
    if retry or rng.random() < 0.4:
      n = rng.choice([0, 1, rng.randint(1, 8), rng.randint(1, 20)])
      c = ["isrc", g.s("q"), n, "int", 10000 * (j + 1)]
    else:
      c = ["iter", comp(j), *g.ropts()]
    g.kind = "int"
    c = g.iter_ops(c, rng.randint(0, 1), ["ifilter", "tpref", "wshuf", "limit"]
                   if not retry else ["tpref"] * 0 or ["limit"])
    if not retry and rng.random() < 0.15:
      c = ["irepeat", c, 2] if False else c
    comps.append(c)
  op = rng.choice(["imix", "imixd"])
  spec = [op, comps, w]
  scn["laws"] = [["mix", comps, w, spec, 0]]
  outer = spec
  if rng.random() < 0.25:
    outer = [rng.choice(["imix", "imixd"]),
             [spec, ["isrc", g.s("q"), rng.randint(0, 9), "int", 900000]],
             [rng.randint(1, 3), 1]]
  if retry:
    scn["spec"] = outer
    scn["ops"] = [["new", 0], ["retry", 0]]
    if rng.random() < 0.6:
      scn["ops"] = [["new", 0], ["rnext", 0, rng.randint(1, 9)], ["get", 0, 0],
                    ["rnext", 0, rng.randint(1, 6)], ["get", 0, 1],
                    rng.choice([["set", 0, 0], ["restore", 1, 1], ["set", 0, 1]]),
                    ["retry", 0], ["retry", 1]]
    scn["plan"] = errors(rng, outer, {})
    scn["nospec"] = True
    scn["faults"] = []
    return scn
  outer = g.iter_ops(outer, rng.randint(0, 2),
                     ["tpref", "imap", "imapidx", "limit", "wshuf", "irepeat"])
  if rng.random() < 0.12 and all(c[0] in ("iter",) for c in comps):
    outer = g.mp(spec, seq=0)
  return finish(rng, scn, None, outer)


# -- P19 -----------------------------------------------------------------
def p19(rng):
  g = G.G(rng, 24)
  scn = {"h": "laws", "nospec": True}
  t = rng.random()
  n = rng.choice([0, 1, 2, rng.randint(1, 12), rng.randint(4, 30),
                  rng.randint(4, 30)])
  if t < 0.2:
    return batches(rng, g, scn, n)
  if t < 0.27:
    return parallel_batches(rng, g, scn, n)
  algo = rng.choice(["ff", "bf", "cts"])
  k = rng.choice([1, 1, 2, 2, 3])
  lens, desc, meta, bosf = {}, [], [], []
  top = rng.choice([3, 6, 9, 12])
  for j in range(k):
    f = "abcd"[j]
    cap = rng.randint(1, 12) if j else top
    if algo == "cts":
      hi = rng.choice([cap, cap + 3, 2 * cap + 1, max(1, cap // 2)])
    else:
      hi = rng.choice([cap, cap, max(1, cap // 2), max(1, cap // 3)])
    lo = rng.choice([0, 1, 1, min(2, hi)])
    typ = rng.choice(["i", "i", "f", "m"])
    if rng.random() < 0.08:
      typ = "s"
    lens[f] = cap
    desc.append("%s:%s" % (f, typ) if typ == "s" else "%s:%s:%d-%d" % (
        f, typ, lo, hi))
  if rng.random() < 0.25:  # a sequence feature that is a meta feature
    cap = rng.randint(3, 12)
    lens["x"] = cap
    meta.append("x")
    desc.append("x:i:%d-%d" % (rng.randint(0, 1), rng.randint(1, min(3, cap))))
  c = {"algo": algo, "len": lens, "meta": meta}
  if algo == "cts":
    c["split_full"] = rng.randint(0, 1)
    if rng.random() < 0.3:
      bosf = [f for f in lens if f not in meta and rng.random() < 0.7 and
              not any(d.startswith(f + ":s") for d in desc)]
    c["bosf"], c["bos"] = bosf, rng.choice([-7, 3]) if bosf else None
  else:
    if rng.random() < 0.25:
      meta.append("y")
      desc.append("y:%s" % rng.choice(["s", "o"]))
    c["bins"] = rng.randint(1, 5)
    c["seed"] = rng.randint(0, 999)
    c["shuf"] = rng.randint(0, 1)
    if rng.random() < 0.2:
      c["align"] = {f: rng.choice([1, 2, 4]) for f in lens}
    if rng.random() < 0.2:
      c["pad"] = {f: rng.choice([-1, 0, 9]) for f in lens}
    if rng.random() < 0.3:
      c["maxseq"] = rng.randint(1, 3)
    if c["shuf"] and rng.random() < 0.2 and not c.get("pad"):
      one = [f for f in lens if any(d.startswith((f + ":i", f + ":s"))
                                    for d in desc)]
      if one:
        c["group"] = rng.choice(one)
  kind = "F:" + ",".join(desc)
  if rng.random() < 0.4:
    base = ["isrc", g.s("q"), n, kind, rng.choice([0, 3, 50])]
  else:
    base = ["iter", ["src", g.s("s"), n, kind, rng.choice([0, 3, 50])],
            *g.ropts()]
  if rng.random() < 0.2:
    base = ["tpref", base, rng.choice([1, 2])]
  if rng.random() < 0.15:
    base = ["wshuf", base, rng.randint(1, 5), 3]
  if rng.random() < 0.1:
    base = ["irepeat", base, 2]
  spec = ["gpack", base, c]
  scn["laws"] = [["pack", spec]]
  outer = spec
  g.kind = "packed"
  outer = g.iter_ops(outer, rng.randint(0, 1), ["tpref", "limit", "wshuf",
                                                "irepeat"])
  if rng.random() < 0.12 and not P.contains(base, {"isrc", "wshuf", "irepeat"}):
    outer = g.mp(spec, seq=0)
  scn["spec"] = outer
  scn["ops"] = programs(rng, outer)
  scn["plan"] = G.delays_plan(rng, base, 0.3)
  scn["faults"] = G.stall_faults(rng, 1)
  return scn


def batches(rng, g, scn, n):
  """batch, re-batch and padded batches against the reference model."""
  kind = rng.choice(["int", "arr", "dict", "F:a:i:3-3,b:f:2-2,c:s,d:m:2-2"])
  op = rng.choice(["ibatch", "rebatch", "rebatch", "pbatch", "ipbatch", "batch"])
  s = ["src", g.s("s"), n, kind, rng.choice([0, 100])]
  bs = rng.randint(1, 7)
  if op in ("batch", "pbatch"):
    x = rng.randint(0, 1) if op == "batch" else rng.choice([0, -1, 7])
    m = [op, s, bs, x]
    if rng.random() < 0.3:
      m = ["shuffle", m, 3]
    spec = ["iter", m, *g.ropts()]
    if rng.random() < 0.4:
      scn["laws"] = []
      ln = len(P.build(m))
      return finish(rng, scn, m, spec, ln, None)
  else:
    base = rng.choice([["iter", s, *g.ropts()], ["isrc", *s[1:]]])
    if rng.random() < 0.3:
      base = ["ifilter", base, g.s("f"), 3, 0]
    if op == "ibatch":
      spec = ["ibatch", base, bs, rng.randint(0, 1)]
    elif op == "ipbatch":
      spec = ["ipbatch", base, bs, rng.choice([0, -1, 7])]
    else:
      spec = ["rebatch", ["ibatch", base, rng.randint(1, 6), rng.randint(0, 1)],
              bs, rng.randint(0, 1)]
      if rng.random() < 0.3:
        spec = ["rebatch", spec, rng.randint(1, 6), rng.randint(0, 1)]
  g.kind = "batched"
  spec = g.iter_ops(spec, rng.randint(0, 1), ["tpref", "limit", "irepeat",
                                              "wshuf"])
  if rng.random() < 0.12 and spec[0] in ("ibatch", "rebatch") and not P.contains(
      spec, {"isrc"}):
    spec = g.mp(spec, seq=0)
  scn["laws"] = []
  scn["spec"] = spec
  scn["ops"] = programs(rng, spec)
  scn["plan"] = G.delays_plan(rng, spec, 0.3)
  scn["faults"] = G.stall_faults(rng, 1)
  return scn


def parallel_batches(rng, g, scn, n):
  """Batches whose elements are copied by a pool of threads."""
  s = ["src", g.s("s"), n, rng.choice(["arr", "page", "dict"]),
       rng.choice([0, 100])]
  p = ["ibatch", ["iter", s, *g.ropts()], rng.randint(2, 7), rng.randint(0, 1)]
  if rng.random() < 0.3:
    p[3] = 1
    p = ["ibatch", p, rng.randint(2, 3), 1]
  if rng.random() < 0.3:
    p = ["irepeat", p, 2]
  g.kind = "batched"
  if rng.random() < 0.3:
    p = g.iter_ops(p, 1, ["tpref", "limit"])
  elif rng.random() < 0.3:
    p = g.mp(p, seq=0)
  scn.update(laws=[], spec=p, ops=programs(rng, p),
             plan=G.delays_plan(rng, p, 0.2), faults=[],
             exp={"parallel": 1, "least": rng.choice([1, 2, 2, 4])})
  for _ in range(rng.choice([0, 1, 2, 4])):
    scn["faults"].append(["stall", rng.randint(0, 600), rng.randint(1, 9),
                          rng.choice([0.1, 3.0])])
  return scn


# -- P20 -----------------------------------------------------------------
def p20(rng):
  g = G.G(rng, 16)
  kind = rng.choice(["int", "int", "arr", "dict", "nest"])

  def chain(depth, kind, sparse=False):
    p, sp = g.map_chain(src(rng, g, lo=0, hi=16, kind=kind), depth, kind)
    return p, sp

  t = rng.random()
  if t < 0.5:
    spec, _ = chain(rng.randint(1, 5), kind)
  elif t < 0.6:
    spec = ["concat", [chain(rng.randint(0, 2), kind)[0]
                       for _ in range(rng.randint(1, 3))]]
  elif t < 0.75:
    parts = [c for c in (chain(rng.randint(0, 2), kind)[0]
                         for _ in range(rng.randint(1, 4)))
             if len(P.build(c))] or [["src", g.s("s"), 5, "int", 0]]
    spec = ["mixm", parts, weights(rng, len(parts))]
  elif t < 0.85:
    n = rng.randint(0, 9)
    spec = ["zipm", [["src", g.s("s"), n, rng.choice(KINDS), 100 * j]
                     for j in range(rng.randint(1, 3))]]
  elif t < 0.92:
    parts = [["src", g.s("s"), rng.randint(1, 6), "int", 100 * j]
             for j in range(rng.randint(1, 3))]
    order = [[j, i] for j, q in enumerate(parts) for i in range(q[2])
             if rng.random() < 0.8] or [[0, 0]]
    rng.shuffle(order)
    spec = ["select", parts, order]
  else:
    spec = ["seed", src(rng, g, lo=1, hi=16, kind=kind), rng.randint(0, 99)]
    for _ in range(rng.randint(1, 3)):
      spec = rng.choice([["shuffle", spec, None],
                         ["rmap", spec, g.s("r"), None, rng.choice(MODES)],
                         ["map", spec, g.s("m"), 1]])
  if rng.random() < 0.2 and not P.contains(spec, {"batch"}):
    spec = ["wshufm", spec, rng.randint(1, 6), rng.randint(0, 99)]
  if rng.random() < 0.25:
    spec = ["repeat", spec, rng.randint(1, 3), rng.randint(0, 1)]
  n = len(P.build(spec))
  if rng.random() < 0.2 and n:
    spec = ["reidx", spec, [rng.randrange(n) for _ in range(rng.randint(1, 14))]]
    n = len(spec[2])
    if rng.random() < 0.4:
      spec = ["repeat", spec, rng.randint(2, 3), rng.randint(0, 1)]
      n *= spec[2]
  top = 3 * n if n and rng.random() < 0.6 else None
  scn = {"h": "laws", "nospec": True, "mspec": spec, "ops": [],
         "access": accesses(rng, n, threads=rng.randint(2, 6), top=top),
         "plan": G.delays_plan(rng, spec, 0.5),
         "faults": G.stall_faults(rng, 2)}
  if rng.random() < 0.4:
    errors(rng, spec, scn["plan"])
  return scn


# -- P21 -----------------------------------------------------------------
def summary(rng):
  """Counts of the execution summary, across idle periods of any length."""
  g = G.G(rng, 24)
  p = src(rng, g, lo=1, hi=20, kind=rng.choice(["int", "dict", "arr"]))
  for _ in range(rng.randint(0, 3)):
    p = rng.choice([["map", p, g.s("m"), 1], ["mapidx", p, g.s("i")],
                    ["rmap", p, g.s("r"), 3, None], ["shuffle", p, 3]])
  p = ["repeat", p, 160]
  if rng.random() < 0.3:
    p = ["batch", p, rng.randint(1, 4), rng.randint(0, 1)]
  p = ["iter", p, *g.ropts()]
  g.kind = "tuple"
  p = g.iter_ops(p, rng.randint(0, 3), ["tpref", "imap", "imapidx",
                                        "wshuf"])
  p = ["opts", ["imap", p, g.s("m"), 1], {"etm": ETM}]
  ops = [["new", 0]]
  # A windowed shuffle restored before the first next() reads elements then.
  ops.append(["next", 0, rng.randint(1, 5)])
  if rng.random() < 0.5:
    ops += [["sleep", 20.0], ["summary", 0]]
  for s in range(rng.randint(0, 4)):
    ops += [["get", 0, s], ["next", 0, rng.randint(0, 6)]]
    if rng.random() < 0.3:
      ops.append(["set", 0, rng.randint(0, s)])
    if rng.random() < 0.6:
      ops.append(["sleep", rng.choice([1.0, 5.0, 61.0, 90.0, 118.0, 131.0,
                                       250.0])])
  ops += [["next", 0, 1], ["summary", 0]]
  plan = G.delays_plan(rng, p, 0.3)
  return {"h": "laws", "nospec": True, "config": {}, "spec": p, "ops": ops,
          "plan": plan, "faults": G.stall_faults(rng, 1)}


def p21(rng):
  if rng.random() < 0.08:
    return summary(rng)
  spec = G.random_pipeline(rng, 0.4, max_n=12)
  conf = {}
  t = rng.random()
  if t < 0.4:
    conf["py_debug_mode"] = True
  if rng.random() < (0.2 if conf else 0.5):
    conf["py_dataset_visualization_output_dir"] = ""
  inst = spec
  if not conf.get("py_debug_mode") or rng.random() < 0.3:
    o = {}
    if rng.random() < 0.8:
      o["etm"] = rng.choice([ETM, ETM, ETM, 1])
    if rng.random() < 0.4:
      o["filter_warn_threshold_ratio"] = rng.choice([0.0, 0.01, 0.5, None])
    if rng.random() < 0.2:
      o["min_shm_size"] = rng.choice([0, 100, 1 << 20])
    inst = ["opts", spec, o]
  scn = {"h": "laws", "nospec": True, "config": conf, "spec": inst}
  ops = G.ops_checkpoint(rng, 12, G.has_mp(spec)) if rng.random() < 0.6 else (
      G.ops_sweep(rng, 6))
  # The reporters wake up between the operations.
  out = []
  for op in ops:
    out.append(op)
    if rng.random() < 0.25:
      out.append(["sleep", rng.choice([1.0, 5.0, 6.5, 62.0, 130.0])])
  gets = [o[2] for o in out if o[0] == "get"]
  if gets and rng.random() < 0.6:
    # States do not depend on the instrumentation.
    scn["spec2"] = spec
    out.append(["restore2", 9, rng.choice(gets)])
    out.append(["drain", 9])
  if rng.random() < 0.3:
    out.append(["close", 0])
    out.append(["sleep", rng.choice([10.0, 200.0])])
  scn["ops"] = out
  scn["plan"] = G.delays_plan(rng, spec, 0.3)
  scn["faults"] = G.stall_faults(rng, 1)
  if rng.random() < 0.3:
    scn["touch"] = rng.randint(1, 3)
  return scn
