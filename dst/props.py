"""The properties: scenario generators, harness choice, evidence text."""

import json

from dst import gen as G
from dst import h_elastic
from dst import h_files
from dst import h_par
from dst import h_inter
from dst import h_job
from dst import h_laws
from dst import h_loader
from dst import h_queue
from dst import h_reads
from dst import laws_gen
from dst import pipeline as P
from dst import runner

HARNESSES = {"pipe": runner.harness, "reads": h_reads.harness, "queue": h_queue.harness,
             "loader": h_loader.harness, "elastic": h_elastic.harness,
             "job": h_job.harness, "inter": h_inter.harness,
             "laws": h_laws.harness, "files": h_files.harness, "par": h_par.harness}

REAL = [
    "grain Python code from the working tree of /repo (all of grain/_src)",
    "concurrent.futures, queue, threading.Thread/Condition/Event/Semaphore, "
    "multiprocessing.Queue/Event/Value/Process/pool.ThreadPool/SharedMemory "
    "(CPython's Python code)", "numpy, cloudpickle, tree libraries",
]
STUBS = [
    "OS threads' scheduling and locks (kernel.SimLock), clocks and sleeping",
    "processes: spawn/waitpid/kill (thread groups with their own interpreter "
    "globals), pipes, POSIX semaphores, shm_open/mmap/unlink",
    "user data sources and functions (generated)",
]
ASSUME = [
    "preemption happens at synchronisation operations, user-code calls and, in "
    "about a third of the runs, at every source line of grain; not inside C code",
    "a simulated process does not share interpreter state other than the "
    "globals grain assigns; third-party module globals are shared",
]


class Prop:
  h = "pipe"
  level = "exploration"
  quick = 2000
  thorough = 40000
  quick_s = 100
  thorough_s = 840
  real = REAL
  stubs = STUBS
  assumptions = ASSUME
  rule = ""

  def gen(self, rng, i, tier):
    raise NotImplementedError

  def fixed_scenarios(self):
    return []

  # minimisation hooks
  def shrinkers(self, scn):
    out = []
    for key in ("faults", "ops"):
      if scn.get(key):
        lo = 1 if key == "ops" and scn[key][0][0] == "new" else 0
        out.append((
            lambda q, key=key, lo=lo: q[key][lo:],
            lambda q, l, key=key, lo=lo: dict(q, **{key: q[key][:lo] + l})))
    plan = scn.get("plan") or {}
    for key in ("delays", "errors", "kills", "slow_sites"):
      if plan.get(key):
        out.append((
            lambda q, key=key: sorted((q.get("plan") or {}).get(
                key, {}).items()),
            lambda q, l, key=key: dict(q, plan=dict(
                q["plan"], **{key: dict(l)}))))
    return out

  def simplify(self, scn):
    out = []
    if scn.get("line"):
      out.append(dict(scn, line=False))
    if "spec" in scn and not scn.get("nospec"):
      for s in G.simpler_specs(scn["spec"]):
        out.append(dict(scn, spec=s))
    for i, o in enumerate(scn.get("ops") or []):
      if o[0] == "next" and len(o) > 2 and o[2] > 1 and scn["h"] == "pipe":
        ops = list(scn["ops"])
        ops[i] = ["next", o[1], o[2] // 2]
        out.append(dict(scn, ops=ops))
    if (scn.get("os") or {}).get("delays"):
      out.append(dict(scn, os=dict(scn["os"], delays=[])))
    return out[:64]


class P01(Prop):
  rule = "random pipelines"
  quick = 1500

  def gen(self, rng, i, tier):
    spec = G.random_pipeline(rng, 0.3)
    ops = [["new", 0], ["drain", 0], ["next", 0, 2]]
    if rng.random() < 0.3:
      ops = [["new", 0], ["new", 1], ["next", 0, 3], ["drain", 1],
             ["drain", 0]]
    return {"h": "pipe", "spec": spec, "ops": ops,
            "plan": G.delays_plan(rng, spec),
            "faults": G.stall_faults(rng),
            "os": {"delays": rng.choice([[], [0, 3.0], [8.0, 0, 0.1]])}}


class P02(Prop):
  rule = ("random pipelines and checkpoint programs; captures at every position "
          "and restores of any of them into new, used and ended iterators")
  quick = 4000

  def gen(self, rng, i, tier):
    if rng.random() < 0.35:
      spec = G.random_pipeline(rng, 0.05, max_n=rng.choice([4, 8, 12]))
      if rng.random() < 0.25 and not any(
          q[0] == "irepeat" and q[2] is None for q in P.walk(spec)):
        spec = G.G(rng, 8).iter_ops(spec, 1, ["cache", "irepeat", "wshuf",
                                              "limit", "tpref"])
        if rng.random() < 0.5 and not (spec[0] == "irepeat" and spec[2] is None):
          spec = G.G(rng, 8).iter_ops(spec, 1, ["irepeat", "limit", "imapidx"])
      return {"h": "pipe", "spec": spec,
              "ops": G.ops_sweep(rng, rng.choice([4, 8, 14])),
              "plan": G.delays_plan(rng, spec, 0.1),
              "faults": G.stall_faults(rng, 1)}
    spec = G.random_pipeline(rng, 0.25)
    return {"h": "pipe", "spec": spec,
            "ops": G.ops_checkpoint(rng, 12, G.has_mp(spec)),
            "plan": G.delays_plan(rng, spec, 0.3),
            "faults": G.stall_faults(rng, 1)}



class P03(Prop):
  """States are values: pure to take, immutable afterwards, serialisable."""
  rule = ("random pipelines; captures at random points of a run, states kept, "
          "JSON round trips, restores of one state several times")
  quick = 1500

  def gen(self, rng, i, tier):
    spec = G.random_pipeline(rng, 0.2)
    ops = [["new", 0]]
    k = rng.randint(2, 7)
    for j in range(k):
      ops.append(["next", 0, rng.choice([1, 1, 2, 3, 6])])
      ops.append(["get", 0, j])
      if rng.random() < 0.3:
        ops.append(["get2", 0])
      if rng.random() < 0.3:
        ops.append(["jsonable", j])
      if rng.random() < 0.25:
        ops.append(["set", 0, rng.randint(0, j)])
        if rng.random() < 0.5:
          ops.append(["get2", 0])
      if rng.random() < 0.15:
        ops.append(["sleep", 1.0])
    ops.append(["drain", 0])
    if rng.random() < 0.6:
      ops.append(["get", 0, k])
      ops.append(["jsonable", k])
    j = rng.randint(0, k - 1)
    for h in range(1, rng.randint(2, 3)):
      ops += [["restore", h, j], ["next", h, rng.choice([1, 3, 30])]]
    if rng.random() < 0.5:
      ops.append(["drain", 1])
    return {"h": "pipe", "spec": spec, "ops": ops,
            "plan": G.delays_plan(rng, spec, 0.3),
            "faults": G.stall_faults(rng, 1)}


class P04(Prop):
  """Multiprocess prefetch is transparent."""
  rule = ("pipelines whose outermost stages are mp_prefetch (1-4 workers) or "
          "multithread_prefetch; restores while workers run ahead")
  quick = 1100

  def gen(self, rng, i, tier):
    g = G.G(rng, rng.choice([5, 14, 30]))
    base = g.iter_base(2)
    base = g.iter_ops(base, rng.randint(0, 2),
                      ["imap", "ifilter", "imapidx", "ibatch", "tpref",
                       "limit", "irmap", "iflat"])
    if rng.random() < 0.85:
      seq = 0
      if rng.random() < 0.2 and seq_ok(base):
        seq = 1
      p = g.mp(base, w=rng.choice([0, 1, 2, 2, 3, 4]), seq=seq,
               init="init" if rng.random() < 0.3 else None)
      if rng.random() < 0.12:
        p = ["pp", base, rng.choice([1, 2, 3])]
    else:
      p = ["mtp", base, rng.choice([1, 2, 3]), rng.choice([1, 2])]
    p = g.iter_ops(p, rng.randint(0, 1), ["imap", "tpref", "irepeat", "limit"])
    ops = G.ops_checkpoint(rng, 10, True)
    if rng.random() < 0.4:
      # Bursts of restores with requests in flight.
      ops = [["new", 0], ["next", 0, rng.randint(0, 4)], ["get", 0, 0],
             ["next", 0, rng.randint(1, 5)], ["get", 0, 1]]
      for _ in range(rng.randint(1, 5)):
        ops.append(["set", 0, rng.randint(0, 1)])
        if rng.random() < 0.5:
          ops.append(["next", 0, rng.randint(1, 3)])
        if rng.random() < 0.2:
          ops.append(["sleep", rng.choice([0.01, 1.0, 3.0])])
      ops.append(["drain", 0])
      if rng.random() < 0.5:
        ops += [["set", 0, 1], ["drain", 0]]
    return {"h": "pipe", "spec": p, "ops": ops,
            "plan": G.delays_plan(rng, p, 0.5),
            "faults": G.stall_faults(rng, 2),
            "os": {"delays": rng.choice([[], [0, 3.0], [8.0, 0, 0.1]])}}


class P05(Prop):
  """Death of workers is reported."""
  rule = ("mp_prefetch pipelines; workers killed (SIGKILL, SIGSEGV, exit codes) "
          "at random scheduling points, inside user code and inside library "
          "code, followed by recovery from the last state")
  quick = 1100

  def gen(self, rng, i, tier):
    g = G.G(rng, rng.choice([6, 14, 24]))
    base = g.iter_base(2, lo=2)
    base = g.iter_ops(base, rng.randint(0, 1), ["imap", "ifilter", "tpref",
                                                "ibatch"])
    p = g.mp(base, w=rng.choice([1, 2, 2, 3]),
             init="init" if rng.random() < 0.3 else None)
    if rng.random() < 0.12:
      p = ["pp", base, rng.choice([1, 2, 3])]
    p = g.iter_ops(p, rng.randint(0, 1), ["imap", "tpref"])
    ops = [["new", 0]]
    have = []
    for _ in range(rng.randint(1, 4)):
      ops.append(["next", 0, rng.randint(1, 6)])
      if rng.random() < 0.6:
        have.append(len(have))
        ops.append(["get", 0, have[-1]])
      if rng.random() < 0.2 and have:
        ops.append(["set", 0, rng.choice(have)])
    t = rng.random()
    plan = G.delays_plan(rng, p, 0.3)
    faults = G.stall_faults(rng, 1)
    codes = [-9, -9, -11, -6, 1, 0, 3]
    if t < 0.3:
      ops.append(["kill", rng.randint(0, 3)])
    elif t < 0.55:
      faults.append(["kill", rng.randint(1, 3000), rng.randint(0, 3),
                     rng.choice([-9, -11])])
    elif t < 0.75:
      faults.append(["killcall", rng.randint(0, 40), rng.randint(0, 3),
                     rng.choice([-9, -11])])
    else:
      sites = [s[1] for s in P.walk(p) if s[0] == "src"] + [
          s[2] for s in P.walk(p) if s[0] in ("map", "imap")]
      if sites:
        site = rng.choice(sites)
        plan["kills"] = {"%s:%d" % (site, rng.randint(0, 12)): [
            rng.choice(codes), 1]}
    ops.append(["drain", 0])
    if rng.random() < 0.3:
      ops.append(["close", 0])
    if have and rng.random() < 0.4:
      ops += [["set", 0, have[-1]], ["drain", 0]]
    if have:
      ops += [["restore", 1, have[-1]], ["drain", 1]]
    else:
      ops += [["new", 1], ["drain", 1]]
    return {"h": "pipe", "spec": p, "ops": ops, "plan": plan,
            "faults": faults,
            "os": {"delays": rng.choice([[], [0, 3.0]])}}


ERR_KINDS = ["UserError", "UserError", "ValueError", "KeyError", "OSError",
             "RuntimeError", "Empty", "Full", "TimeoutError", "IndexError",
             "AssertionError", "CancelledError", "EOFError", "TypeError",
             "BrokenPipeError", "NotImplementedError", "MemoryError",
             "AttributeError", "KwError", "LocalStateError"]


class P06(Prop):
  """Exceptions of user code."""
  rule = ("random pipelines; user code raises at random calls, then is healed "
          "and states captured before are restored; transient read errors "
          "retried")
  quick = 1500

  def gen(self, rng, i, tier):
    g = G.G(rng, rng.choice([6, 12, 24]))
    if rng.random() < 0.15:
      return self.transient(rng, g)
    if rng.random() < 0.04:
      return self.unsendable(rng, g)
    if rng.random() < 0.14:
      return self.flaky(rng, g)
    mops = ["map", "map", "filter", "shuffle", "slice", "repeat", "mapidx",
            "batch", "flatm"]
    iops = ["imap", "ifilter", "imapidx", "ibatch", "rebatch", "tpref",
            "limit", "iflat", "irepeat"]
    t = rng.random()
    if t < 0.6:
      p = g.iter_base(2, lo=1, ops=mops) if rng.random() < 0.8 else g.isrc(
          None, 1)
      p = g.iter_ops(p, rng.randint(0, 2), [o for o in iops if
                                            o != "irepeat"])
      u = rng.random()
      if u < 0.45 and not P.contains(p, {"isrc"}):
        p = g.mp(p, init="init" if rng.random() < 0.25 else None)
      elif u < 0.55 and not P.contains(p, {"isrc"}):
        p = ["mtp", p, rng.choice([1, 2, 3]), rng.choice([1, 2])]
      p = g.iter_ops(p, rng.randint(0, 2), iops)
    elif t < 0.85:
      kids = [g.iter_base(1, lo=0, ops=["map", "filter"]) if rng.random() < 0.8
              else g.isrc() for _ in range(rng.randint(1, 4))]
      p = ["interleave", kids, rng.randint(1, 3), rng.choice([1, 2]),
           rng.choice([1, 2]), rng.choice([1, 2])]
      g.kind = "mixed"
      p = g.iter_ops(p, rng.randint(0, 2), ["imap", "ifilter", "imapidx",
                                            "tpref", "limit"])
    else:
      p = ["izip", [g.iter_base(1, lo=1, ops=["map", "filter"])
                    for _ in range(2)], 0]
      g.kind = "tuple"
      p = g.iter_ops(p, rng.randint(0, 1), ["imap", "tpref", "imapidx"])
    errors = {}
    for q in P.walk(p):  # In later epochs indices, and so the calls, differ.
      if q[0] == "repeat" and P.contains(q, {"mapidx"}):
        q[3:] = [0]
    sites = fault_sites(p)
    for _ in range(rng.choice([1, 1, 2, 3])):
      if not sites:
        break
      site, lo, hi = rng.choice(sites)
      errors["%s:%d" % (site, rng.randint(lo, hi))] = [
          rng.choice(ERR_KINDS), 1 << 40]
    plan = G.delays_plan(rng, p, 0.4)
    plan["errors"] = errors
    ops = [["new", 0]]
    s = 0
    if rng.random() < 0.2:
      ops.append(["start", 0])
    for _ in range(rng.randint(0, 3)):
      ops.append(["get", 0, s])
      s += 1
      ops.append(["next", 0, rng.choice([1, 2, 5])])
      if rng.random() < 0.15:
        ops.append(["set", 0, rng.randrange(s)])
      if rng.random() < 0.2:
        ops.append(["retune", 0, "buf", rng.choice([0, 0, 1, 3])])
    ops.append(["drain", 0])
    if rng.random() < 0.4:
      ops.append(["next", 0, 2])
    if rng.random() < 0.2 and s:
      ops += [["restore", 1, rng.randrange(s)], ["drain", 1]]
    ops.append(["heal"])
    if s:
      ops += [[rng.choice(["set", "restore"]), 0, rng.randrange(s)],
              ["drain", 0]]
    else:
      ops += [["new", 2], ["drain", 2]]
    return {"h": "pipe", "spec": p, "ops": ops, "plan": plan, "poison": 1,
            "retry": rng.random() < 0.5, "faults": G.stall_faults(rng, 1),
            "os": {"delays": rng.choice([[], [0, 3.0]])}}

  def unsendable(self, rng, g):
    """Workers produce elements that cannot be sent to the main process."""
    p = g.iter_base(1, lo=1, ops=["map", "filter", "shuffle"])
    site = g.s("m")
    p = g.mp(["imap", p, site, 1])
    b = ([s[4] for s in P.walk(p) if s[0] == "src"] or [0])[0]
    plan = G.delays_plan(rng, p, 0.4)
    plan["errors"] = {"%s:%d" % (site, b + rng.randint(0, 8)): [
        "BadElement", 1 << 40] for _ in range(2)}
    return {"h": "pipe", "spec": p, "plan": plan, "poison": 1, "retry": True,
            "ops": [["new", 0], ["drain", 0], ["next", 0, 1], ["close", 0]],
            "faults": G.stall_faults(rng, 1)}

  def flaky(self, rng, g):
    """Reads fail now and then; whatever fails is tried again."""
    def base():
      p = ["src", g.s("s"), rng.randint(1, 9), "int", 100 * g.site]
      if rng.random() < 0.3:
        p = ["map", p, g.s("m"), 3]
      if rng.random() < 0.2:
        p = ["filter", p, g.s("f"), 3, 0]
      if rng.random() < 0.2:
        p = ["shuffle", p, rng.randint(0, 9)]
      return ["iter", p, *g.ropts()]

    iops = ["tpref", "imap", "ifilter", "imapidx", "limit", "wshuf", "irepeat",
            "cache"]
    g.kind = "int"
    t = rng.random()
    if t < 0.5:
      p = base()
    elif t < 0.75:
      kids = [g.iter_ops(base(), rng.randint(0, 1), ["tpref", "wshuf", "limit"])
              for _ in range(rng.randint(1, 4))]
      p = ["interleave", kids, rng.randint(1, 4), rng.choice([1, 1, 2]),
           rng.choice([1, 1, 2]), rng.choice([1, 1, 3])]
    else:
      kids = [base() for _ in range(rng.randint(2, 3))]
      p = ["imix", kids, [rng.randint(1, 3) for _ in kids]]
    p = g.iter_ops(p, rng.randint(0, 3), iops)
    for q in P.walk(p):
      if q[0] == "irepeat" and q[2] is None:
        q[2] = rng.choice([2, 3])
    srcs = [q for q in P.walk(p) if q[0] == "src"]
    errors = {}
    for _ in range(rng.randint(1, 6)):
      q = rng.choice(srcs)
      errors["%s:%d" % (q[1], rng.randrange(q[2]))] = [
          rng.choice(ERR_KINDS[:-1]), rng.choice([1, 1, 1, 2, 3])]
    plan = G.delays_plan(rng, p, 0.4)
    plan["errors"] = errors
    ops = [["rnew", 0]]
    s = 0
    for _ in range(rng.randint(0, 3)):
      ops += [["rnext", 0, rng.choice([0, 1, 2, 5, 9])], ["rget", 0, s]]
      s += 1
      if rng.random() < 0.4:
        ops += [["rset", 0, rng.randrange(s)]]
    ops += [["rnext", 0, rng.randint(1, 200)]]
    if s and rng.random() < 0.5:
      ops += [["rnew", 1], ["rset", 1, rng.randrange(s)], ["rnext", 1, 200]]
    return {"h": "files", "spec": p, "ops": ops, "plan": plan,
            "faults": G.stall_faults(rng, 1)}

  def transient(self, rng, g):
    n = rng.randint(1, 12)
    p = ["src", g.s("s"), n, rng.choice(g.kinds), 100]
    if rng.random() < 0.5:
      p = ["map", p, g.s("m"), 3]
    if rng.random() < 0.3:
      p = ["filter", p, g.s("f"), 3, 0]
    nt, buf = g.ropts()
    err = "%s:%d" % (P.children(["x", p])[0][1] if p[0] == "src" else
                     [q[1] for q in P.walk(p) if q[0] == "src"][0],
                     rng.randrange(n))
    p = ["iter", p, nt, buf]
    p = g.iter_ops(p, rng.randint(0, 1), ["tpref", "imap", "ifilter", "limit"])
    ops = [["new", 0], ["next", 0, rng.randint(0, 4)], ["get", 0, 0]]
    if rng.random() < 0.4:
      ops.append(["retune", 0, rng.choice(["buf", "buf", "threads"]),
                  rng.choice([0, 0, 1, 2, 5])])
    ops += [["drain", 0], ["drain", 0], ["get", 0, 1], ["drain", 0],
            ["restore", 1, 1], ["drain", 1]]
    plan = G.delays_plan(rng, p, 0.4)
    plan["errors"] = {err: [rng.choice(ERR_KINDS[:-1]), 1]}
    return {"h": "pipe", "spec": p, "ops": ops, "plan": plan, "poison": 1,
            "retry": True, "resumes": True, "faults": G.stall_faults(rng, 1)}


def fault_sites(p):
  """(site, lowest key, highest key) of every user call in a pipeline."""
  out = []
  bases = [s[4] for s in P.walk(p) if s[0] in ("src", "isrc")] or [0]
  for s in P.walk(p):
    if s[0] in ("src", "isrc") and s[2]:
      out.append((s[1], 0, s[2] - 1))
    elif s[0] in ("map", "imap", "filter", "ifilter", "mapidx", "imapidx",
                  "flatm", "iflat") and isinstance(s[2], str):
      b = bases[len(out) % len(bases)]
      out.append((s[2], b, b + 20))
    elif s[0] == "mp" and len(s) > 5 and s[5]:
      out.append((s[5], 0, max(0, s[2] - 1)))
  return out


class P07(Prop):
  """close() and interpreter exit."""
  rule = ("random pipelines closed, dropped or left open at random points, "
          "workers possibly dead or stalled; then interpreter shutdown")
  quick = 1300

  def gen(self, rng, i, tier):
    spec = G.random_pipeline(rng, 0.4, max_n=rng.choice([6, 20, 40]))
    ops = []
    handles = rng.randint(1, 2)
    for h in range(handles):
      ops.append(["new", h])
      if rng.random() < 0.15:
        ops.append(["start", h])
      if rng.random() < 0.85:
        ops.append(["next", h, rng.choice([1, 1, 2, 5, 60])])
      if rng.random() < 0.2:
        ops += [["get", h, h], ["set", h, h]]
        if rng.random() < 0.5:
          ops.append(["next", h, 1])
    if rng.random() < 0.2:
      ops.append(["sleep", rng.choice([0.05, 2.0])])
    faults = G.stall_faults(rng, 2)
    if G.has_mp(spec) and rng.random() < 0.2:
      ops.insert(rng.randint(1, len(ops)), ["kill", rng.randint(0, 2)])
    frozen = G.has_mp(spec) and rng.random() < 0.15
    if frozen:
      for _ in range(rng.randint(1, 2)):
        ops.append(["freeze", rng.randint(0, 5), 1e7])
    for h in range(handles):
      t = rng.random()
      if t < 0.55 or frozen:
        ops.append(["close", h])
        if rng.random() < 0.6:
          ops.append(["next", h, 1])
        if rng.random() < 0.4:
          ops.append(["close", h])
      elif t < 0.8:
        ops.append(["del", h])
      # else: left open for shutdown
    return {"h": "pipe", "spec": spec, "ops": ops, "faults": faults,
            "plan": G.delays_plan(rng, spec, 0.4),
            "leak": rng.choice([True, "close"]),
            "exit": rng.random() < 0.5 and not frozen,
            "closed_next": rng.random() < 0.5,
            "os": {"delays": rng.choice([[], [0, 3.0], [8.0]])}}


class P08(Prop):
  """Shared memory."""
  rule = ("mp_prefetch pipelines over arrays of every kind; elements and views "
          "held across later ones and close, dropped in random order and in "
          "reference cycles; restores that discard elements in flight")
  quick = 1100

  def gen(self, rng, i, tier):
    kinds = ["zoo", "zoo", "mixed", "empty", "page", "arr", "dict", "nest",
             "big"]
    g = G.G(rng, rng.choice([4, 8, 14]), kinds)
    kind = rng.choice(kinds)
    p = g.iter_base(1, kind, lo=1, ops=["map", "filter", "shuffle", "mapidx"])
    if rng.random() < 0.3:
      p = g.iter_ops(p, 1, ["imap", "imapidx", "ifilter"])
    batched = False
    if rng.random() < 0.5 and kind in ("zoo", "mixed", "empty", "page", "arr",
                                       "dict") and g.kind == kind:
      p = ["ibatch", p, rng.randint(1, 4), rng.randint(0, 1)]
      batched = True
    if rng.random() < 0.6:
      p = ["opts", p, {"min_shm_size": rng.choice([0, 1, 30, 64, 1000, 30000])}]
      if batched and rng.random() < 0.6:
        p = ["opts", p[1][1], p[2]]
        p = ["ibatch", p, rng.randint(1, 4), rng.randint(0, 1)]
    p = g.mp(p, w=rng.choice([1, 2, 2, 3]))
    if rng.random() < 0.4:
      g.kind = kind if not batched and g.kind == kind else "x"
      p = g.iter_ops(p, 1, ["imap", "tpref", "ibatch", "limit", "imapidx"])
    ops = [["new", 0]]
    s = 0
    for _ in range(rng.randint(1, 6)):
      t = rng.random()
      if t < 0.5:
        ops.append(["next", 0, rng.choice([1, 2, 4, 9])])
      elif t < 0.65:
        ops.append(["get", 0, s])
        s += 1
      elif t < 0.8 and s:
        ops.append(["set", 0, rng.randrange(s)])
      elif t < 0.9:
        ops.append(["gc"])
      else:
        ops.append(["release", rng.randint(1, 3)])
    if rng.random() < 0.15:
      ops.insert(rng.randint(1, len(ops)), ["side", rng.randint(1, 3)])
    t = rng.random()
    if t < 0.4:
      ops.append(["drain", 0])
    elif t < 0.7:
      ops.append(["close", 0])
    elif t < 0.85:
      ops.append(["del", 0])
    if rng.random() < 0.3:
      ops += [["gc"], ["sleep", 1.0], ["release", 50], ["gc"]]
    osf = {"delays": rng.choice([[], [0, 3.0]])}
    scn = {"h": "pipe", "spec": p, "ops": ops, "leak": "shm",
           "plan": G.delays_plan(rng, p, 0.4),
           "hold": rng.choice([0, 0, 1, 2, 4, 12]),
           "keep": rng.choice(["elem", "elem", "view"]),
           "drop": rng.choice(["fifo", "lifo", "rand"]),
           "cyc": rng.random() < 0.4,
           "hold_after_close": rng.random() < 0.6,
           "faults": G.stall_faults(rng, 1), "os": osf}
    if rng.random() < 0.12:
      osf["fail"] = {rng.choice(["shm_open", "shm_truncate", "shm_mmap"]): [
          rng.randint(0, 25)]}
    return scn


class P09(Prop):
  """Read-ahead is bounded."""
  rule = ("pipelines of readers, threads, workers, interleaves with random buffer "
          "sizes; slow and idle consumers, restores, closes; every call of user "
          "code is checked against the bound computed from the options")
  quick = 1500

  def gen(self, rng, i, tier):
    g = G.G(rng, 40, ["int", "arr", "dict"])
    mops = ["map", "map", "filter", "shuffle", "slice", "repeat", "mapidx", "rmap",
            "batch"]
    iops = ["imap", "ifilter", "imapidx", "irmap", "tpref", "tpref", "limit",
            "ibatch"]
    t = rng.random()
    fills = False
    def base(lo=0):
      if rng.random() < 0.25:
        return g.isrc(lo=lo)
      return g.iter_base(2, lo=lo, ops=mops)
    if t < 0.45:
      p = g.iter_ops(base(), rng.randint(0, 3), iops)
      fills = True
    elif t < 0.7:
      g.max_n = 30
      p = g.iter_ops(g.iter_base(1, ops=mops), rng.randint(0, 1),
                     ["imap", "tpref", "ifilter"])
      if rng.random() < 0.75:
        p = g.mp(p, w=rng.choice([0, 1, 2, 3]), seq=0)
      else:
        p = ["mtp", p, rng.choice([1, 2, 3]), rng.choice([1, 2, 4])]
      fills = True
      p = g.iter_ops(p, rng.randint(0, 1), ["imap", "tpref", "limit"])
    elif t < 0.9:
      kids = []
      for _ in range(rng.randint(1, 6)):
        kids.append(base())
      p = ["interleave", kids, rng.randint(1, 4), rng.choice([1, 1, 2, 3]),
           rng.choice([1, 1, 2]), rng.choice([1, 1, 2, 4])]
      p = g.iter_ops(p, rng.randint(0, 2), ["imap", "tpref", "limit", "ifilter"])
    else:
      p = ["izip", [base() for _ in range(rng.randint(2, 3))], 0]
      p = g.iter_ops(p, rng.randint(0, 1), ["imap", "tpref"])
    ops = []
    if rng.random() < 0.5:
      ops.append(["sleep", rng.choice([0.1, 20.0])])
    if rng.random() < 0.2:
      ops.append(["get", 9])
      ops.append(["sleep", 5.0])
    if rng.random() < 0.2:
      ops.append(["start"])
    restores = rng.random() < 0.35
    ns = 0
    for _ in range(rng.randint(2, 6)):
      ops.append(["next", rng.choice([1, 1, 2, 3, 5, 9])])
      u = rng.random()
      if u < 0.4:
        ops.append(["full", 60.0])
      elif u < 0.6:
        ops.append(["sleep", rng.choice([0.001, 0.1, 3.0])])
      if restores:
        if rng.random() < 0.5:
          ops.append(["get", ns])
          ns += 1
        elif ns and rng.random() < 0.6:
          ops.append(["set", rng.randrange(ns)])
          if rng.random() < 0.5:
            ops.append(["sleep", 10.0])
    if rng.random() < 0.4:
      ops.append(["close"])
    if fills:
      # Partial batches cost less than the bound; the threads of multithread
      # prefetch are opened one after the other.
      names = [q[0] for q in P.walk(p)]
      fills = 0 if "batch" in names else max(
          [1] + [q[2] for q in P.walk(p) if q[0] == "mtp"])
    return {"h": "reads", "spec": p, "ops": ops, "fills": int(fills),
            "plan": G.delays_plan(rng, p, 0.5),
            "faults": G.stall_faults(rng, 2),
            "os": {"delays": rng.choice([[], [0, 3.0]])}}


class P10(Prop):
  """Variable-size queues."""
  rule = ("producers and consumers (threads or processes) on a queue that is "
          "resized meanwhile: blocking, non-blocking and timed operations, bounds "
          "from the recorded history, then raised or drained until all finish")
  quick = 2500

  def resized_while_waiting(self, rng):
    """Every resize wakes up putters for whom there is no room either."""
    t = rng.choice([4.0, 6.0, 9.0])
    actors = [{"proc": False, "ops": [["put", t]] * rng.randint(1, 2)}
              for _ in range(rng.randint(1, 3))]
    main = [["put", 0]]
    for _ in range(rng.randint(2, 5)):
      main += [["sleep", rng.choice([1.0, 2.0, 3.0])],
               ["size", rng.choice([0, 1, 1])]]
    main += rng.choice([[], [["get", 0]]])
    main.append(["sleep", 12.0])
    return {"h": "queue", "mp": int(rng.random() < 0.2), "size": 1,
            "actors": actors, "main": main, "settle": "drain", "plan": {},
            "nospec": True, "faults": []}

  def gen(self, rng, i, tier):
    if rng.random() < 0.06:
      return self.resized_while_waiting(rng)
    mp = rng.random() < 0.5
    actors = []
    ts = [None, None, None, 0, -1, 0.2, 1.0, 5.0]
    for _ in range(rng.randint(1, 4)):
      put = rng.random() < 0.65
      ops = []
      for _ in range(rng.randint(1, 5)):
        if rng.random() < 0.2:
          ops.append(["sleep", rng.choice([0.001, 0.3, 2.0])])
        if rng.random() < 0.12:
          ops.append(["addq" if put else "getq", rng.choice([0.3, 2.0])])
        else:
          ops.append(["put" if put else "get", rng.choice(ts)])
      actors.append({"proc": mp and rng.random() < 0.5, "ops": ops})
    main = []
    for _ in range(rng.randint(1, 7)):
      t = rng.random()
      if t < 0.5:
        main.append(["size", rng.choice([0, 1, 1, 2, 3, 4, 6])])
      elif t < 0.65:
        main.append(["sleep", rng.choice([0.001, 0.5, 3.0])])
      elif t < 0.85:
        main.append(["put", rng.choice([0, -1, 0.2, 1.0])])
      else:
        main.append(["get", rng.choice([0, -1, 0.2, 1.0])])
    return {"h": "queue", "mp": mp, "size": rng.choice([1, 1, 2, 3, 5]),
            "actors": actors, "main": main,
            "settle": rng.choice(["raise", "drain"]),
            "faults": G.stall_faults(rng, 2, 1500),
            "os": {"delays": rng.choice([[], [0, 1.0]])}}


class P14(Prop):
  """Read parameters do not influence the output."""
  rule = ("random pipelines; thread counts and buffer sizes changed while "
          "iterating, and states restored in pipelines with other thread "
          "counts, buffer sizes and prefetch depths")
  quick = 1500

  def pick(self, rng):
    """Parameters chosen by grain for a memory budget."""
    g = G.G(rng, 12)
    spec = g.iter_base()
    t = rng.random()
    if t < 0.3:
      spec = ["imix", [spec, g.iter_base()], [1, 1]]
    elif t < 0.6:
      spec = g.iter_ops(spec, rng.randint(1, 2), ["imap", "ifilter", "ibatch"])
    pick = ["pick", 0, rng.choice([0.5, 1, 2.5, 4, 100]), rng.randint(1, 3),
            rng.randint(1, 9), rng.randint(1, 6)]
    return {"h": "pipe", "spec": spec, "nospec": True,
            "ops": [["new", 0], ["next", 0, rng.randint(0, 3)], pick,
                    ["drain", 0]],
            "plan": G.delays_plan(rng, spec, 0.5),
            "faults": G.stall_faults(rng, 1)}

  def gen(self, rng, i, tier):
    if rng.random() < 0.06:
      return self.pick(rng)
    while True:
      spec = G.random_pipeline(rng, 0.15, max_n=30)
      if P.contains(spec, {"iter", "itern", "tpref", "interleave", "mp"}):
        break
    ops = [["new", 0]]
    s, h = 0, 0
    for _ in range(rng.randint(3, 9)):
      t = rng.random()
      if t < 0.4:
        ops.append(["next", rng.randint(0, h), rng.choice([1, 1, 2, 4])])
      elif t < 0.65:
        ops.append(["retune", rng.randint(0, h),
                    rng.choice(["buf", "buf", "threads"]),
                    rng.choice([0, 1, 1, 2, 4, 9])])
      elif t < 0.8:
        ops.append(["get", rng.randint(0, h), s])
        s += 1
      elif t < 0.93 and s and h < 2:
        h += 1
        ops.append([rng.choice(["restore2", "restore2", "restore"]), h,
                    rng.randrange(s)])
      elif s:
        ops.append(["set", rng.randint(0, h), rng.randrange(s)])
    ops.append(["drain", rng.randint(0, h)])
    ops.append(["drain", h])
    return {"h": "pipe", "spec": spec, "spec2": other_params(rng, spec),
            "ops": ops, "nospec": True,
            "plan": G.delays_plan(rng, spec, 0.5),
            "faults": G.stall_faults(rng, 1)}


def other_params(rng, spec):
  """The same pipeline with other thread counts and buffer sizes."""
  def f(s):
    s = [f(a) if isinstance(a, list) and a and isinstance(a[0], str) else
         [f(b) if isinstance(b, list) else b for b in a]
         if isinstance(a, list) else a for a in s]
    if s[0] in ("iter", "itern"):
      s[2:4] = rng.choice([[0, 0], [0, 3], [1, 1], [2, 5], [5, 2], [1, 9]])
    elif s[0] == "tpref":
      s[2] = rng.choice([0, 1, 3, 7])
    elif s[0] == "mp":
      s[3] = rng.choice([1, 2, 4])
    elif s[0] == "mtp":
      s[3] = rng.choice([1, 2, 4])
    elif s[0] == "pp":
      s[2] = rng.choice([1, 2, 4])
    elif s[0] == "interleave":
      s[3:6] = [rng.choice([1, 3]), rng.choice([1, 2]), rng.choice([1, 3])]
    return s
  return f(json.loads(json.dumps(spec)))


class P22(Prop):
  """next_index protocol."""
  rule = ("pipelines that support index checkpoints; reads and writes of the "
          "next index interleaved with advances")
  quick = 1300

  def gen(self, rng, i, tier):
    g = G.G(rng, rng.choice([6, 20]))
    if rng.random() < 0.3:
      base = g.isrc()
    else:
      base = g.iter_base(2, ops=["map", "map", "shuffle", "slice", "repeat",
                                 "mapidx", "batch", "wshufm"])
    base = g.iter_ops(base, rng.randint(0, 2),
                      ["imap", "tpref", "imapidx", "ibatch", "irmap"])
    if rng.random() < 0.35 and not P.contains(base, {"isrc"}):
      base = g.mp(base, w=1)
    elif rng.random() < 0.25:
      base = ["pp", base, rng.choice([1, 2, 3])]
    p = g.iter_ops(base, rng.randint(0, 2), ["imap", "tpref", "imapidx"])
    if rng.random() < 0.1:
      p = g.with_nones(True)
    ops = [["new", 0]]
    s = 0
    for _ in range(rng.randint(3, 9)):
      t = rng.random()
      if t < 0.35:
        ops.append(["next", 0, rng.choice([1, 2, 4])])
      elif t < 0.6:
        ops.append(["getidx", 0])
      elif t < 0.8:
        # At most the number of full elements (a partial batch has no index).
        ops.append(["setidx", 0, rng.randint(0, 24), 1])
      elif t < 0.9:
        ops.append(["get", 0, s])
        s += 1
      elif s:
        ops.append(["set", 0, rng.randrange(s)])
    ops.append(["drain", 0])
    ops.append(["getidx", 0])
    return {"h": "pipe", "spec": p, "ops": ops,
            "plan": G.delays_plan(rng, p, 0.4),
            "faults": G.stall_faults(rng, 1)}


class P12(Prop):
  """DataLoader."""
  rule = ("DataLoaders over generated samplers, shards, worker counts and "
          "operations; programs of advances, captures, restores and foreign "
          "states")
  h = "loader"
  quick = 1500
  thorough = 30000

  def gen(self, rng, i, tier):
    cnt = rng.choice([1, 1, 2, 3, 4])
    shard = None
    if cnt > 1 or rng.random() < 0.3:
      shard = [rng.randrange(cnt), cnt, int(rng.random() < 0.4)]
    n = rng.choice([1, 2, 3, 5, 8, 13, 20, 31])
    if shard:
      n = max(n, cnt)
    if rng.random() < 0.015:
      return self.long(rng)
    seed = rng.choice([None, 0, 1, 42, (1 << 32) - 1])
    if rng.random() < 0.3:
      sampler = ["seq", seed]
    else:
      shuffle = int(rng.random() < 0.5)
      if shuffle and seed is None:
        seed = 3
      sampler = ["idx", shuffle, rng.choice([1, 1, 2, 3, None]), seed]
    tf = []
    kind = rng.choice(["int", "int", "arr", "dict"])
    k = 0
    for _ in range(rng.randint(0, 3)):
      t = rng.random()
      k += 1
      if t < 0.4:
        tf.append(["map", "t%d" % k, rng.choice([1, 7, 1000])])
      elif t < 0.65:
        tf.append(["filter", "t%d" % k, rng.choice([2, 3, 5]), rng.choice([0, 1])])
      elif t < 0.8 and seed is not None:
        tf.append(["rand", "t%d" % k])
      elif t < 0.9:
        tf.append(["flat", "t%d" % k, rng.choice([1, 2])])
    if sampler[0] == "idx" and sampler[2] is None and n // cnt < 12:
      # Nothing might ever pass.
      tf = [o for o in tf if o[0] not in ("filter", "flat")]
    legacy = rng.random() < 0.12
    if legacy:
      tf.insert(0, rng.choice([["omap", "o0", 5], ["ofilter", "o0", 2, 1]]
                              if sampler[-2] is not None else
                              [["omap", "o0", 5]]))
    rand = any(o[0] == "rand" for o in tf)
    if any(o[0] == "flat" for o in tf):
      # Behind a flat map records have no generator.
      j = [o[0] for o in tf].index("flat")
      tf = [o for a, o in enumerate(tf) if a < j or o[0] != "rand"]
    api = "new"
    if rng.random() < 0.6:
      tf.append([rng.choice(["batch", "batch", "obatch", "lbatch"]),
                 rng.choice([1, 2, 3, 5]), int(rng.random() < 0.4)])
    if sampler[0] == "idx" and rng.random() < 0.25:
      api = "load"
    c = {"n": n, "kind": kind, "base": rng.choice([0, 100]), "src": "s",
         "sampler": sampler, "shard": shard, "tf": tf, "api": api,
         "w": rng.choice([0, 0, 1, 1, 2, 2, 3]), "buf": rng.choice([1, 1, 2, 4]),
         "read": rng.choice([None, [0, 0], [1, 2], [3, 5], [2, 1]]),
         "shard_in_sampler": int(rng.random() < 0.2)}
    if rng.random() < 0.1:
      c.update(nolen=1, shard_in_sampler=0)
    if c["read"] is None and sampler[0] == "idx" and sampler[2] is None:
      c["read"] = [2, 6]  # Not 500 elements ahead of an infinite sampler.
    if not legacy and rng.random() < 0.05 and kind == "int" and not any(
        o[0] in ("flat", "rand", "batch", "obatch", "lbatch") for o in tf) and (
            sampler[0] == "seq" or sampler[2]):
      legacy = True
      tf.append(["pack", rng.randint(1, 3), rng.randint(3, 9),
                 rng.choice([None, None, 1, 2, 3])])
    if legacy:
      ops = [["new", 0], ["next", 0, 3], ["new", 1], ["drain", 1], ["drain", 0]]
    else:
      ops = G.ops_checkpoint(rng, 8, c["w"] > 0)
      if not any(o[0] == "flat" for o in tf):
        for _ in range(rng.choice([0, 0, 1, 2])):
          ops.insert(rng.randint(1, len(ops)), ["badset", 0, rng.choice(
              ["workers", "records", "source", "sampler"])])
    plan = {}
    if rng.random() < 0.4:
      plan["delays"] = {"%s:%d" % (rng.choice(["s"] + [o[1] for o in tf if
                                                       isinstance(o[1], str)]),
                                   rng.randint(0, 20)): rng.choice(
                                       [0.01, 0.4, 5.0])
                        for _ in range(3)}
    return {"h": "loader", "dl": c, "ops": ops, "plan": plan,
            "faults": G.stall_faults(rng, 1)}


  def long(self, rng):
    """Many records, in pipelines that are cheap to run."""
    n = rng.choice([600, 1025, 1500, 4100])
    sampler = rng.choice([["idx", rng.randint(0, 1), 1, 3],
                          ["idx", 0, None, 3]] + [["seq", 5]] * (n < 2000))
    c = {"n": n, "kind": "int", "base": 0, "src": "s", "sampler": sampler,
         "shard": rng.choice([None, [1, 2, 1]]), "tf": [["batch", 25, 0]],
         "api": "new", "w": rng.choice([0, 0, 1]), "buf": 2,
         "read": rng.choice([[0, 0], [1, 20]]), "shard_in_sampler": 0, "nolen": rng.randint(0, 1)}
    k = n // 25 + 3
    ops = [["new", 0], ["next", 0, k], ["get", 0, 0], ["next", 0, k],
           ["restore", 1, 0], ["next", 1, 3], ["next", 0, k]]
    return {"h": "loader", "dl": c, "ops": ops, "plan": {}, "faults": []}


class P11(Prop):
  """Elastic iterators."""
  rule = ("histories of an elastic job: phases with generated shard counts, global "
          "batch sizes, steps and ways to checkpoint and resume")
  h = "elastic"
  quick = 2000
  thorough = 40000

  def gen(self, rng, i, tier):
    mode = "map" if rng.random() < 0.4 else "iter"
    g = G.G(rng, 40, ["int", "arr", "dict"])
    phases = []
    nph = rng.randint(1, 5)
    if mode == "map":
      kind = rng.choice(g.kinds)
      spec, _ = g.map_chain(
          ["src", "s", rng.choice([0, 1, 5, 12, 24, 40, 77]), kind, 0],
          rng.randint(0, 2), kind, ops=["map", "shuffle", "slice", "repeat",
                                        "mapidx", "wshufm", "rmap"])
      maxc = 6
    else:
      kind = rng.choice(g.kinds)
      nd = rng.choice([1, 2, 3, 4, 5, 7, 9, 12])
      kids = []
      for d in range(nd):
        n = rng.choice([0, 1, 2, 3, 5, rng.randint(0, 12)])
        if rng.random() < 0.35:
          kids.append(["isrc", "q%d" % d, n, kind, 1000 * d])
          continue
        kid, _ = g.map_chain(["src", "s%d" % d, n, kind, 1000 * d],
                             rng.randint(0, 2), kind,
                             ops=["map", "filter", "shuffle", "slice"])
        if rng.random() < 0.6:
          kid = ["iter", kid, *g.ropts()]
        kids.append(kid)
      spec = ["interleave", kids, rng.randint(1, 5), rng.choice([1, 1, 2]),
              rng.choice([1, 1, 2]), rng.choice([1, 1, 2])]
      for _ in range(rng.choice([0, 0, 1, 2])):
        spec = (["imap", spec, g.s("m"), rng.randint(1, 9)] if rng.random() < 0.6
                else ["ifilter", spec, g.s("f"), rng.choice([2, 3]), 0])
      maxc = nd
    for p in range(nph):
      c = rng.randint(1, min(maxc, 6 if rng.random() < 0.85 else 12))
      if p and rng.random() < 0.25:
        c = phases[-1]["c"]
      b = rng.choice([1, 1, 2, 3])
      ph = {"c": c, "G": 0 if mode == "iter" and rng.random() < 0.3 else b * c,
            "read": rng.choice([[1, 1], [2, 3], [3, 8], [0, 0], [16, 500]]),
            "order": [rng.randrange(60) for _ in range(30)],
            "end": rng.choice(["close", "crash"]),
            "steps": None if p == nph - 1 else rng.choice(
                [0, 1, 2, 3, 5, 8, 14, 14, 25])}
      if mode == "iter" and ph["G"] == 0 and kind == "dict":
        pass
      if rng.random() < 0.1:
        ph["steps"] = None
      if mode == "map" and rng.random() < 0.2:
        ph["mp"] = [rng.choice([1, 2, 3]), rng.choice([1, 2])]
      if rng.random() < 0.3:
        ph["recheck"] = rng.randint(1, 6)
      if p < nph - 1 or rng.random() < 0.3:
        ph["save"] = rng.choice(["shards", "handler"])
        ph["from"] = rng.randrange(6)
        if mode == "map" and ph["steps"] is None:
          del ph["save"]
        if mode == "iter" and rng.random() < 0.15:
          ph["torn"] = rng.randrange(c)
      if rng.random() < 0.3:
        ph["plain"] = 1
      if rng.random() < 0.5:
        ph["strkeys"] = 1
      if rng.random() < 0.2:
        ph["warm"] = rng.randint(1, 4)
      phases.append(ph)
    osf = {"delays": rng.choice([[], [0, 3.0]])}
    if rng.random() < 0.25:
      osf["vfs"] = {rng.choice(["open", "write", "read", "exists"]): {
          str(rng.randrange(12)): rng.choice(["EIO", "ENOSPC", 2.0, 30.0])
          for _ in range(2)}}
    plan = G.delays_plan(rng, spec, 0.4)
    srcs = [s for s in P.walk(spec) if s[0] == "isrc"]
    if mode == "iter" and srcs and rng.random() < 0.3:
      # Positioning a source fails once in a while and is tried again.
      for ph in phases:
        ph["G"] = 0
      plan["errors"] = {"%s!:%d" % (s[1], rng.randint(0, s[2])): [
          rng.choice(ERR_KINDS[:-2]), 1] for s in srcs for _ in range(3)}
    return {"h": "elastic", "mode": mode, "spec": spec, "phases": phases,
            "plan": plan, "nospec": 1,
            "faults": G.stall_faults(rng, 1), "os": osf}

  def shrinkers(self, scn):
    out = super().shrinkers(scn)
    out.append((lambda q: q["phases"],
                lambda q, l: dict(q, phases=l)))
    return out


def loader_config(rng):
  """A DataLoader for a job."""
  seed = rng.choice([0, 7])
  tf = []
  for t in range(rng.randint(0, 2)):
    tf.append(rng.choice([["map", "t%d" % t, 7], ["filter", "t%d" % t, 3, 1],
                          ["rand", "t%d" % t]]))
  if rng.random() < 0.6:
    tf.append(["batch", rng.choice([1, 2, 3]), int(rng.random() < 0.4)])
  return {"n": rng.choice([6, 13, 20, 31]), "kind": rng.choice(["int", "dict"]),
          "base": 0, "src": "s", "drop": int(rng.random() < 0.4), "shard": None,
          "sampler": rng.choice([["seq", seed], ["idx", 1, 2, seed],
                                 ["idx", 0, 1, seed]]),
          "tf": tf, "api": "new", "w": rng.choice([0, 1, 2]),
          "buf": rng.choice([1, 2]), "read": rng.choice([[0, 0], [1, 2], [3, 5]])}


def job_scenario(rng, mp_prob, crashes, damage):
  scn = {"h": "job", "hosts": rng.choice([1, 1, 2, 2, 3]), "kind": "ds",
         "api": rng.choice(["handler", "orbax"]),
         "rounds": [[rng.choice([0, 1, 2, 3, 5]), rng.choice([0, 1, 2, 4])]
                    for _ in range(rng.randint(1, 4))],
         "close": rng.randint(0, 1), "linger": rng.choice([0, 0, 0.5, 20.0]),
         "mkdelay": rng.choice([0, 0, 0.3, 5.0]), "nospec": 1,
         "bgload": rng.randint(0, 1)}
  if rng.random() < 0.25:
    scn["kind"] = "dl"
    scn["dl"] = loader_config(rng)
    sites = None
    scn["plan"] = {}
  else:
    while True:
      scn["spec"] = G.random_pipeline(rng, mp_prob, 16)
      if scn["hosts"] == 1 or not P.contains(scn["spec"], {"mixm"}):
        break  # Shards of components of mixtures must not be empty.
    scn["plan"] = G.delays_plan(rng, scn["spec"], 0.3)
  if rng.random() < 0.2:
    scn["warm"] = rng.randint(1, 3)
  if rng.random() < 0.4:
    rng.choice(scn["rounds"]).append(rng.randrange(4))
  scn["crashes"] = [
      ["crash", int(10 ** rng.uniform(2.3, 4.4)), rng.randrange(3),
       rng.choice(["host", "all", "main"])] for _ in range(crashes)]
  if rng.random() < damage:
    how = rng.choice(["lost", "empty", "torn", "torn", "renamed", "range"])
    scn["damage"] = [rng.randrange(len(scn["rounds"])), rng.randrange(3), how,
                     rng.choice([0.0, 0.3, 0.7, 0.99])]
    scn["spec_range"] = 1
    if how == "range" and scn["kind"] == "ds":
      g = G.G(rng, 16)
      scn["spec"] = g.iter_base(2, None, True, 3, ["map", "shuffle", "slice"])
      scn["plan"] = {}
    if not scn["crashes"] or rng.random() < 0.5:
      scn["rounds"][-1] = scn["rounds"][-1][:2] + [rng.randrange(4)]
  scn["os"] = {"delays": rng.choice([[], [0, 2.0]])}
  if rng.random() < 0.35:
    scn["os"]["vfs"] = {
        kind: {str(rng.randrange(4 if kind in ("read", "exists") else 14)):
               rng.choice(["EIO", "ENOSPC", "ESTALE", 1.0, 20.0])
               for _ in range(2)}
        for kind in rng.sample(["open", "write", "write", "read", "exists",
                                "mkdir", "rename"], rng.randint(1, 2))}
  scn["faults"] = G.stall_faults(rng, 1, 20000)
  return scn


class P13(Prop):
  """Checkpoint files."""
  rule = ("jobs of one to three hosts that save and load through grain's checkpoint "
          "handler and its asynchronous protocol, with disk errors, slow disks, "
          "crashes of hosts while writing, and damaged files")
  h = "job"
  quick = 1200
  thorough = 25000

  def gen(self, rng, i, tier):
    return job_scenario(rng, 0.15, rng.choice([0, 0, 1, 2]), 0.5)

  def shrinkers(self, scn):
    out = super().shrinkers(scn)
    out.append((lambda q: q["rounds"], lambda q, l: dict(q, rounds=l)))
    if scn.get("crashes"):
      out.append((lambda q: q["crashes"], lambda q, l: dict(q, crashes=l)))
    return out

  def simplify(self, scn):
    out = super().simplify(scn)
    if scn["hosts"] > 1:
      out.append(dict(scn, hosts=scn["hosts"] - 1))
    for key in ("warm", "mkdelay", "linger", "bgload", "damage"):
      if scn.get(key):
        out.append({a: b for a, b in scn.items() if a != key})
    if (scn.get("os") or {}).get("vfs"):
      out.append(dict(scn, os=dict(scn["os"], vfs={})))
    if scn["kind"] == "ds":
      for s in G.simpler_specs(scn["spec"]):
        out.append(dict(scn, spec=s))
    return out[:64]


class P23(P13):
  """Crashing jobs."""
  rule = ("jobs of one to three hosts crashed at arbitrary points of arbitrary "
          "incarnations and resumed from the last committed checkpoint")

  def gen(self, rng, i, tier):
    scn = job_scenario(rng, 0.4, rng.choice([1, 1, 2, 3, 4]), 0.05)
    if rng.random() < 0.25:
      scn["faults"].append(["kill", rng.randint(200, 20000), rng.randrange(6),
                            rng.choice([-9, -11, 1])])
    return scn


class P15(Prop):
  """Interleave."""
  rule = ("interleaves of up to nine datasets of every shape, made eagerly or by a "
          "slow or failing function; programs of advances, captures and restores, "
          "with the set of open iterators checked when the threads are idle")
  h = "inter"
  quick = 2500
  thorough = 50000

  def dataset(self, rng, tracked, depth=0):
    how = rng.choice(["iter", "iter", "iter", "rep", "tpref"] if tracked else [
        "iter", "rep", "tpref", "map", "map", "mapf", "maprep", "nest"])
    n = rng.choice([0, 1, 1, 2, 3, 5, 9])
    kind = rng.choice(["int", "int", "dict"])
    if how in ("rep", "maprep"):
      return [how, max(n, 1), kind, rng.randint(1, 3)]
    if how == "tpref":
      return [how, n, kind, rng.choice([0, 1, 3])]
    if how == "nest":
      if depth:
        return ["iter", n, kind]
      return [how, 0, kind, [self.dataset(rng, False, 1)
                             for _ in range(rng.randint(1, 4))], rng.randint(1, 3)]
    return [how, n, kind]

  def gen(self, rng, i, tier):
    t = rng.random()
    tracked = t < 0.6
    scn = {"h": "inter", "nospec": 1, "lists": [
        self.dataset(rng, tracked)
        for _ in range(rng.choice([1, 2, 3, 3, 5, 7, 9]))],
           "lazy": rng.randint(0, 1), "cycle": rng.choice([1, 2, 2, 3, 4, 8]),
           "nmit": rng.choice([0, 1, 1, 2, 4]), "mib": rng.choice([1, 1, 2, 4]),
           "ibs": rng.choice([0, 1, 1, 2, 4]), "outer": []}
    total = sum(len(h_inter.elements(j, e)) for j, e in enumerate(scn["lists"]))
    if not tracked or rng.random() < 0.3:
      o = rng.random()
      if o < 0.25:
        scn["outer"] = [["map", 7]]
      elif not tracked:
        if o < 0.5:
          scn["outer"] = [["rep", rng.randint(1, 3)]]
        elif o < 0.7:
          scn["outer"] = [["tpref", rng.choice([1, 3])]]
        elif o < 0.9 and len(scn["lists"]) > 1:
          scn["outer"] = [["mp", rng.choice([w for w in (0, 1, 2, 3)
                                             if w <= len(scn["lists"])]), 1]]
        if scn["outer"] and rng.random() < 0.3:
          scn["outer"].append(["map", 5])
    if not tracked:
      scn["ops"] = (G.ops_sweep(rng, min(total + 2, 12)) if rng.random() < 0.5
                    else G.ops_checkpoint(rng, max(total, 2)))
    elif rng.random() < 0.4:
      scn["bound"] = 1
      scn["ops"] = [["new", 0]]
      for _ in range(rng.randint(1, 6)):
        scn["ops"].append(["next", 0, rng.randint(1, 5)])
        scn["ops"].append(rng.choice([["settle", 0], ["sleep", 0.2],
                                      ["start", 0]]))
      scn["ops"] += [["drain", 0], ["settle", 0]]
    else:
      scn["ops"] = [["new", 0]]
      have = 0
      for _ in range(rng.randint(3, 9)):
        scn["ops"].append(["next", 0, rng.choice([1, 2, 3, 5, total])])
        if rng.random() < 0.5:
          scn["ops"].append(["get", 0, have])
          have += 1
        if have and rng.random() < 0.5:
          scn["ops"].append(["set", 0, rng.randrange(have)])
        if rng.random() < 0.6:
          scn["ops"].append(["settle", 0])
      scn["ops"] += [["drain", 0], ["settle", 0]]
    if tracked and rng.random() < 0.4:
      scn["ops"] += [["close", 0], ["settle", 0]]
    plan = {}
    sites = ["make:%d" % j for j in range(len(scn["lists"]))] + [
        "open:%d" % j for j in range(len(scn["lists"]))]
    if rng.random() < 0.4:
      plan["delays"] = {rng.choice(sites): rng.choice([0.05, 0.5, 3.0])
                        for _ in range(rng.randint(1, 4))}
    if rng.random() < 0.3:
      plan.setdefault("delays", {}).update(
          {"q%d:%d" % (rng.randrange(len(scn["lists"])), rng.randrange(5)):
           rng.choice([0.1, 2.0]) for _ in range(3)})
    if rng.random() < 0.3 and not any(o[0] != "map" for o in scn["outer"]) and (
        not any(e[0] == "nest" for e in scn["lists"])):
      plan["errors"] = {rng.choice(sites): [rng.choice(
          ["UserError", "OSError", "ValueError", "RuntimeError"]), rng.randint(1, 2)]
                        for _ in range(rng.randint(1, 2))}
    scn["plan"] = plan
    scn["faults"] = G.stall_faults(rng, 1)
    return scn

  def simplify(self, scn):
    out = super().simplify(scn)
    for j in range(len(scn["lists"])):
      if len(scn["lists"]) > 1:
        out.append(dict(scn, lists=scn["lists"][:j] + scn["lists"][j + 1:]))
      e = scn["lists"][j]
      if e[1] > 1:
        out.append(dict(scn, lists=scn["lists"][:j] + [[e[0], e[1] - 1] + e[2:]] +
                        scn["lists"][j + 1:]))
    if scn["outer"]:
      out.append(dict(scn, outer=scn["outer"][:-1]))
    return out[:64]


class LawProp(Prop):
  fn = None

  def gen(self, rng, i, tier):
    return type(self).fn(rng)

  def shrinkers(self, scn):
    out = super().shrinkers(scn)
    if scn.get("access"):
      out.append((lambda q: q["access"], lambda q, l: dict(q, access=l)))
      for j in range(len(scn["access"])):
        out.append((
            lambda q, j=j: q["access"][j] if j < len(q["access"]) else [],
            lambda q, l, j=j: dict(q, access=q["access"][:j] + [l] +
                                   q["access"][j + 1:])))
    if scn.get("laws"):
      out.append((lambda q: q["laws"], lambda q, l: dict(q, laws=l)))
    return out

  def simplify(self, scn):
    out = super().simplify(scn)
    if scn.get("laws") and (scn.get("ops") or scn.get("access")):
      out.append(dict(scn, ops=[], access=[], faults=[], plan={}))
    if not scn.get("laws") and scn.get("spec") and scn.get("ops"):
      for s in G.simpler_specs(scn["spec"]):
        out.append(dict(scn, spec=s))
    if not scn.get("laws") and scn.get("access"):
      for s in G.simpler_specs(scn["mspec"]):
        out.append(dict(scn, mspec=s))
    return out[:64]


class P16(LawProp):
  rule = "random transformations in map and iterator pipelines"
  fn = laws_gen.p16


class P17(LawProp):
  rule = "shuffles, windowed shuffles, repeats and sharded samplers"
  fn = laws_gen.p17


class P18(LawProp):
  rule = "mixtures, concatenations and selections"
  fn = laws_gen.p18


class P19(LawProp):
  rule = "batching, re-batching, packing and splitting"
  fn = laws_gen.p19


class P20(LawProp):
  rule = "concurrent random access to map pipelines"
  fn = laws_gen.p20


class P21(LawProp):
  rule = "instrumented pipelines with reporter threads"
  fn = laws_gen.p21


class P24(Prop):
  """Sources of files, shared lists and ranges."""
  rule = ("TFRecord and Parquet files of generated record and row group sizes, lists "
          "in shared memory and ranges; short, slow and failing reads, truncated "
          "files; advances, captures and restores, retried when they fail")
  h = "files"
  quick = 2500
  thorough = 50000

  def tfr(self, rng, g, lo=0):
    n = rng.choice([lo, 1, 2, 4, 7, 12])
    most = rng.choice([0, 5, 40, 40, 300, 9000])
    return ["tfr", g.s("t"), [rng.choice([0, 1, most, rng.randint(0, most)])
                              for _ in range(max(n, lo))]]

  def pqf(self, rng, g):
    groups = [rng.choice([0, 1, 1, 2, 3, 5]) for _ in range(rng.choice(
        [0, 1, 1, 2, 3, 4]))]
    return [g.s("p"), groups, 1000 * g.site]

  def gen(self, rng, i, tier):
    g = G.G(rng, 12)
    scn = {"h": "files", "faults": G.stall_faults(rng, 1),
           "buf": [rng.choice([1, 12, 16, 64, 8192]), rng.choice([0, 0, 1, 7, 100])],
           "os": {"delays": rng.choice([[], [0, 3.0]])}}
    if scn["buf"][1] == 1:
      scn["buf"][1] = 3
    if rng.random() < 0.08:
      return self.truncated(rng, g, scn)
    iops = ["imap", "ifilter", "imapidx", "tpref", "tpref", "limit", "irepeat",
            "wshuf", "cache"]
    t = rng.random()
    retry = True
    g.kind = "bytes"
    late = rng.random() < 0.12
    if late:
      # Failures in later epochs, rebuilt caches and incomplete windows.
      p = (["tfr", g.s("t"), [rng.randint(0, 40) for _ in range(rng.randint(2, 7))]]
           if rng.random() < 0.6 else
           ["pq", [[g.s("p"), [rng.choice([1, 1, 2]) for _ in range(
               rng.randint(2, 4))], 1000 * g.site]], {"single": 1}])
      scn["buf"] = [rng.choice([1, 12]), rng.choice([0, 3])]
      p = g.iter_ops(p, 1, [rng.choice(["irepeat", "wshuf", "cache", "cache"])])
      p = g.iter_ops(p, rng.randint(0, 1), iops)
    elif t < 0.3:
      p = self.tfr(rng, g)
      p = g.iter_ops(p, rng.randint(0, 2), iops)
    elif t < 0.5:
      p = ["pq", [self.pqf(rng, g) for _ in range(rng.choice([1, 1, 1, 2, 3, 5, 18]))],
           {"single": rng.randint(0, 1)}]
      scn["atomic_set"] = int(len(p[1]) == 1)
      p = g.iter_ops(p, rng.randint(0, 2), iops)
      if P.contains(p, {"tpref", "wshuf", "irepeat", "limit", "cache", "imapidx"}):
        scn["atomic_set"] = 0
    elif t < 0.65:
      p = self.inter(rng, g)
      p = g.iter_ops(p, rng.randint(0, 2), iops)
    elif t < 0.85:
      retry = False
      if rng.random() < 0.5:
        p = ["pq", [self.pqf(rng, g) for _ in range(rng.randint(1, 6))], {}]
      else:
        p = self.inter(rng, g)
      p = g.iter_ops(p, rng.randint(0, 1), ["imap", "ifilter", "tpref"])
      if rng.random() < 0.7:
        p = g.mp(p, w=rng.choice([0, 1, 2, 3, 4]), seq=0)
      else:
        p = ["mtp", p, rng.choice([1, 2, 3]), rng.choice([1, 2])]
      p = g.iter_ops(p, rng.randint(0, 1), ["imap", "tpref", "irepeat"])
    else:
      retry = False
      if rng.random() < 0.5:
        p = ["shmsrc", rng.choice([1, 2, 5, 11]), rng.choice([0, 100]),
             rng.randint(0, 5)]
        g.kind = "dict"
      else:
        a, b = rng.randint(-9, 20), rng.randint(-9, 20)
        p = ["rngsrc", a, b, rng.choice([1, 2, 3, 7]) * (1 if b >= a else -1)]
        g.kind = "int"
      p, sparse = g.map_chain(p, rng.randint(0, 2), g.kind, ops=[
          "map", "filter", "shuffle", "slice", "repeat", "mapidx"])
      p = ["iter", p, *g.ropts()]
      if rng.random() < 0.5:
        p = g.mp(p, seq=int(rng.random() < 0.3 and seq_ok(p)))
    if P.contains(p, {"ifilter", "filter", "shmsrc", "rngsrc"}) or not any(
        len(s[2]) if s[0] == "tfr" else sum(sum(f[1]) for f in s[1])
        for s in P.walk(p) if s[0] in ("tfr", "pq")):
      for s in P.walk(p):  # Nothing, again and again, is no end.
        if s[0] == "irepeat" and s[2] is None:
          s[2] = 2
    for s in P.walk(p):
      if s[0] == "irepeat" and (late or s[2] is None and P.contains(s, {"mp"})):
        s[2] = rng.choice([2, 3, 4])
    scn["spec"] = p
    names = [s[1] for s in P.walk(p) if s[0] == "tfr"] + [
        f[0] for s in P.walk(p) if s[0] == "pq" for f in s[1]]
    io = {}
    if names and rng.random() < 0.7:
      for _ in range(rng.randint(2, 8) if late else rng.randint(1, 4)):
        io.setdefault(rng.choice(names), {})[str(rng.choice(
            [0, 1, 2, rng.randint(0, 6), rng.randint(0, 40 if late else 25)]))] = (
                rng.choice(["E", "E", 0.01, 2.0, ["short", 1], ["short", 5]]))
      for f in io.values():
        for n, v in f.items():
          if v == "E":
            f[n] = [rng.choice(["EIO", "EIO", "ESTALE", "ETIMEDOUT"])]
    scn["io"] = io
    total = max(2, sum(len(s[2]) if s[0] == "tfr" else sum(sum(f[1]) for f in s[1])
                       for s in P.walk(p) if s[0] in ("tfr", "pq")) or 10)
    ops = (G.ops_sweep(rng, min(total + 2, 12)) if rng.random() < 0.4 else
           G.ops_checkpoint(rng, min(total, 20), not retry))
    if late and rng.random() < 0.7:
      ops = [["new", 0], ["next", 0, rng.randint(1, total)], ["get", 0, 0]]
      for _ in range(rng.randint(1, 3)):
        ops += [["next", 0, rng.randint(0, total)], ["set", 0, 0]]
      ops += [["new", 1], ["set", 1, 0], ["next", 1, 1], ["get", 1, 1],
              ["drain", 1], ["set", 0, 1], ["drain", 0]]
    if retry:
      ren = {"new": "rnew", "next": "rnext", "get": "rget", "set": "rset"}
      out = []
      for o in ops:
        if o[0] == "restore":
          out += [["rnew", o[1]], ["rset", o[1], o[2]]]
        elif o[0] == "drain":
          out.append(["rnext", o[1], 200])
        elif o[0] in ("start", "get2") and any(
            isinstance(v, list) for f in io.values() for v in f.values()):
          continue
        else:
          out.append([ren.get(o[0], o[0])] + o[1:])
      ops = out
    scn["ops"] = ops
    return scn

  def inter(self, rng, g):
    kids = [self.tfr(rng, g) if rng.random() < 0.6 else
            ["pq", [self.pqf(rng, g)], {"single": rng.randint(0, 1)}]
            for _ in range(rng.randint(1, 5))]
    return ["interleave", kids, rng.randint(1, 4), rng.choice([1, 1, 2]),
            rng.choice([1, 1, 2]), rng.choice([1, 1, 3])]

  def truncated(self, rng, g, scn):
    p = self.tfr(rng, g, 1)
    cut = rng.randint(1, sum(n + 16 for n in p[2]) - 1)
    if not h_files.tfr_complete(p[2], cut)[1]:
      cut += 1
    p.append(cut)
    if not h_files.tfr_complete(p[2], cut)[1]:
      p[3] = cut - 2
    p = g.iter_ops(p, rng.randint(0, 2), ["imap", "tpref"])
    scn.update(spec=p, ops=[["new", 0], ["next", 0, rng.randint(0, 3)],
                            ["get", 0, 0], ["truncated", 0], ["set", 0, 0],
                            ["truncated", 0]])
    scn["ops"][1][2] = min(scn["ops"][1][2], h_files.tfr_complete(
        [s for s in P.walk(p) if s[0] == "tfr"][0][2],
        [s for s in P.walk(p) if s[0] == "tfr"][0][3])[0])
    return scn

  def shrinkers(self, scn):
    out = super().shrinkers(scn)
    for name in sorted(scn.get("io") or {}):
      out.append((lambda q, n=name: sorted((q["io"].get(n) or {}).items()),
                  lambda q, l, n=name: dict(q, io=dict(q["io"], **{n: dict(l)}))))
    return out


class P25(Prop):
  """Work in parallel."""
  rule = ("calls of run_in_parallel of generated units that sleep, fail, wait for each "
          "other or are parallel themselves, from one or several threads")
  h = "par"
  quick = 4000
  thorough = 100000

  def work(self, rng, depth=0):
    n = rng.choice([0, 1, 2, 3, 5, 8, 12])
    w = rng.choice([1, 1, 2, 3, 5, 20])
    times = rng.choice([[0], [0, 0, 1.0], [0.001, 5.0, 30.0], [10.0, 11.0]])
    units = [{"sleep": rng.choice(times)} for _ in range(n)]
    t = rng.random()
    if t < 0.45:
      for u in units:
        if rng.random() < 0.4:
          u["err"] = 1
    elif t < 0.75 and n > 1:
      room = w - 1  # Workers that may wait for others.
      free = list(range(n))
      rng.shuffle(free)
      g = 0
      while room > 0 and len(free) > 1:
        size = rng.randint(2, min(room + 1, len(free)))
        for i in free[:size]:
          units[i]["gate"] = g
        free = free[size:]
        room -= size - 1
        g += 1
    if depth < 1:
      for u in units:
        if rng.random() < 0.1 and "gate" not in u and "err" not in u:
          u["nest"] = self.work(rng, depth + 1)
    for u in units:
      if rng.random() < 0.2:
        u["salt"] = rng.choice([7, "x", [1]])
      if rng.random() < 0.2 and "nest" not in u:
        u["none"] = 1
    out = {"units": units, "workers": w}
    if rng.random() < 0.3:
      out["prefix"] = "my_"
    if rng.random() < 0.2:
      out["unnamed"] = 1
    if rng.random() < 0.2:
      out["tuple"] = 1
    return out

  def gen(self, rng, i, tier):
    return {"h": "par", "works": [self.work(rng) for _ in range(
        rng.choice([1, 1, 1, 2, 3]))],
            "faults": G.stall_faults(rng, 2, 1200),
            "os": {"delays": rng.choice([[], [0, 3.0]])}}

  def shrinkers(self, scn):
    out = super().shrinkers(scn)
    for j in range(len(scn["works"])):
      out.append((lambda q, j=j: q["works"][j]["units"],
                  lambda q, l, j=j: dict(q, works=q["works"][:j] + [
                      dict(q["works"][j], units=l)] + q["works"][j + 1:])))
    return out


def seq_ok(spec):
  return not (P.opaque(spec) or P.contains(
      spec, {"filter", "slice", "isrc", "batch", "repeat", "flatm", "mapidx", "reidx",
             "range"}))


PROPS = {n: c() for n, c in sorted(globals().items())
         if isinstance(c, type) and issubclass(c, Prop) and n[1:].isdigit()}
