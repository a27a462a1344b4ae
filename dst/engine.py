"""Seeded search: scenario generation, forked execution, minimisation, evidence.

Usage:  python -m dst.engine check <PROPERTY>     (VERIF_SEED, VERIF_TIER)
        python -m dst.engine replay <FILE>
        python -m dst.engine selftest [N]
"""

import gc
import json
import mmap
import os
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")

_wall = time.monotonic
REAL_EXIT = os._exit
_sleep = time.sleep
CHILD_TIMEOUT = 45.0
WORKERS = int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 1)


class Violation(Exception):
  """The property does not hold in this run."""

  def __init__(self, kind, msg):
    super().__init__(kind, msg)
    self.kind = kind
    self.msg = msg


EXT_DIR = "grain/_src/python/experimental/index_shuffle"
# Contents of the C++ sources (of the original and the repaired repository) and
# what an extension built from them returns.
EXT = {
    "cba99f2f9bd3f1832f20966402b98ac329b1914ac1ade756842eab95db5952e9": [8812, 57751, 4751733562, 837903958041],
    "ccc724ace816c699ad027efa146752e9942c53d5ccccbfcf7e7fdad3c577268d": [20255, 57751, 4751733562, 636782736929],
}
EXT_PROBE = [(65536, 65536, 7), (3, 65535, 7), (5, 2**33, 1), (2**40, 2**40, 9)]


def ext_fresh(h, so):
  """Whether the extension in the working tree was built from its sources."""
  if h not in EXT or not os.path.exists(so):
    return False
  code = ("import importlib.util as u;"
          "s=u.spec_from_file_location('index_shuffle_module',%r);"
          "m=u.module_from_spec(s);s.loader.exec_module(m);"
          "print([m.index_shuffle(i,n,s,4) for i,n,s in %r])" % (so, EXT_PROBE))
  import subprocess
  r = subprocess.run([sys.executable, "-c", code], capture_output=True,
                     text=True)
  return r.returncode == 0 and json.loads(r.stdout or "0") == EXT[h]


def ensure_ext():
  """Uses an extension built from REPO's current C++ sources."""
  import glob
  import hashlib
  import shutil
  import subprocess
  import tempfile
  files = sorted(f for ext in ("cc", "h") for f in glob.glob(
      os.path.join(REPO, EXT_DIR, "**", "*." + ext), recursive=True)
                 if not f.endswith("_test.cc"))
  h = hashlib.sha256(b"".join(open(f, "rb").read() for f in files)).hexdigest()
  so = os.path.join(REPO, EXT_DIR, "python", "index_shuffle_module.so")
  if ext_fresh(h, so):
    return
  d = os.path.join(tempfile.gettempdir(),
                   "dst_ext_%s_%d" % (h[:16], os.getuid()))
  out = os.path.join(d, "index_shuffle_module.so")
  if not os.path.exists(out):
    os.makedirs(d, exist_ok=True)
    inc = subprocess.run(
        [sys.executable, "-m", "pybind11", "--includes"], check=True,
        capture_output=True, text=True).stdout.split()
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run(
        ["g++", "-std=c++17", "-O2", "-g0", "-fPIC", "-shared",
         "-fvisibility=hidden", "-w", "-I" + REPO, *inc,
         *[f for f in files if f.endswith(".cc")], "-o", tmp,
         "-labsl_strings", "-labsl_strings_internal",
         "-labsl_raw_logging_internal"], capture_output=True, text=True)
    if r.returncode:
      shutil.rmtree(d, ignore_errors=True)
      raise RuntimeError("building index_shuffle failed: " + r.stderr[-2000:])
    os.replace(tmp, out)
  import importlib.util
  name = EXT_DIR.replace("/", ".") + ".python.index_shuffle_module"
  spec = importlib.util.spec_from_file_location(name, out)
  mod = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(mod)
  sys.modules[name] = mod


def import_all():
  sys.path[:0] = [ROOT, REPO]
  ensure_ext()
  from dst import kernel as K
  K.install()
  import threading
  threading.stack_size(1 << 20)
  from dst import osim
  osim.install()
  from dst import vfs
  vfs.install()
  import grain  # pylint: disable=unused-import
  assert os.path.realpath(grain.__file__).startswith(os.path.realpath(REPO)), (
      grain.__file__)
  from absl import flags
  flags.FLAGS(["dst"])  # as absl.app does; grain ignores unparsed flags
  osim.prepare()
  from dst import props
  K.instrument_lines(os.path.join(REPO, "grain") + os.sep)
  gc.collect()
  gc.freeze()
  gc.disable()
  return props


class Ctx:
  """What a harness gets."""

  def __init__(self, scn, kernel, world):
    self.scn = scn
    self.k = kernel
    self.w = world
    self.probes = {}

  def probe(self, name, n=1):
    self.probes[name] = self.probes.get(name, 0) + n

  def op(self, name, seconds=300.0, steps=400_000):
    k = self.k
    k.op_name = name
    k.op_deadline_steps = k.steps + steps
    k.op_deadline_time = k.now + int(seconds * 1e9)

  def op_done(self):
    k = self.k
    k.op_deadline_steps = None
    k.op_deadline_time = None
    k.op_name = None
    self.last_done = k.steps


def execute(scn, out_fd):
  """Runs one scenario in this (forked) process and reports through out_fd."""
  from dst import kernel as K
  from dst import osim
  from dst import vfs
  from dst import world as WM
  from dst import props
  K.SEQ[0] = 10**6
  dec = K.Decisions(scn["sched"])
  k = K.Kernel(dec, step_limit=scn.get("step_limit", 1_500_000),
               line_mode=bool(scn.get("line")))
  w = WM.World(json.loads(json.dumps(scn.get("plan") or {})))
  WM.set_world(w)
  ctx = Ctx(scn, k, w)
  random.seed(0)
  import numpy as np
  np.random.seed(0)

  def emit(v=None, harness=None):
    K.set_kernel(None)
    res = {
        "h": "%x" % k.hash, "steps": k.steps, "sw": k.switches,
        "now": k.now, "fired": k.fired, "probes": ctx.probes,
        "early": k.early_fires, "timers": k.timer_fires, "procs": len(k.procs),
        "tasks": len(k.tasks),
    }
    if harness:
      res["harness"] = harness[-6000:]
    if v:
      res["v"] = v
      res["sched"] = sorted(dec.record.items())
      res["events"] = k.events[-60:]
      res["uncaught"] = k.uncaught[-5:]
      res["stderr"] = k.os.stderr[-8:]
    data = json.dumps(res, default=str).encode()
    data = struct.pack("<I", len(data)) + data
    while data:
      n = os.write(out_fd, data)
      data = data[n:]
    REAL_EXIT(0)

  def finish(kind, detail):
    if kind == "harness":
      emit(harness=str(detail))
    name = k.op_name or "-"
    try:
      desc = k.describe()
    except Exception as e:  # pylint: disable=broad-except
      desc = repr(e)
    msg = {
        "deadlock": "deadlock during %s: every thread is blocked forever",
        "op-time": "%s did not finish within its virtual time budget",
        "op-steps": "%s made no progress within its step budget",
        "step-limit": "%s: no progress until the step limit of the run",
    }[kind] % name
    if kind == "step-limit":
      # Single operations have their own budgets.  A long run that keeps
      # completing operations is cut here; what it explored has held.
      if k.op_name is None and k.steps > getattr(ctx, "last_done", 0) + 400_000:
        emit(harness=msg + "\n" + desc)
      ctx.probe("runs_cut_at_step_limit")
      emit()
    emit({"kind": "hang", "msg": msg, "detail": desc[-6000:]})

  k.finish_cb = finish
  osim.attach(k)
  k.vfs = vfs.VFS(k)
  osf = scn.get("os") or {}
  k.os.fail_plan = {a: set(b) for a, b in (osf.get("fail") or {}).items()}
  k.os.delays = osf.get("delays") or []
  k.boot()
  K.set_kernel(k)
  osim.start(k)
  try:
    experiments(scn.get("exp"))
    props.HARNESSES[scn["h"]](scn, ctx)
  except Violation as v:
    emit({"kind": v.kind, "msg": v.msg})
  except BaseException as e:  # pylint: disable=broad-except
    where = blame(e)
    if where is None:
      emit(harness=traceback.format_exc())
    K.set_kernel(None)
    emit({"kind": "exception", "msg": "%s: %s raised in %s" % (
        type(e).__name__, str(e)[:300], where)})
  emit()


def experiments(exp):
  """Turns experimental code paths of grain on."""
  if not exp:
    return
  from grain._src.python.dataset.transformations import batch  # pylint: disable=g-import-not-at-top
  if exp.get("pushdown"):
    batch._is_batch_map_pushdown_experiment_enabled = lambda: True  # pylint: disable=protected-access
  if "parallel" in exp:
    batch._is_parallel_batch_experiment_enabled = lambda: True  # pylint: disable=protected-access
    batch._PARALLEL_BATCHING_MIN_TOTAL_BYTES = exp["parallel"]  # pylint: disable=protected-access
    batch._PARALLEL_BATCHING_MIN_BATCH_SIZE = exp["least"]  # pylint: disable=protected-access


def blame(e):
  """The place in grain that raised e, None if it was raised elsewhere."""
  here = os.path.join(ROOT, "dst") + os.sep
  there = os.path.join(os.path.realpath(REPO), "grain") + os.sep
  if type(e).__name__ in ("HarnessError", "MemoryError", "RecursionError"):
    return None
  where = None
  for f in traceback.extract_tb(e.__traceback__):
    path = os.path.realpath(f.filename)
    if path.startswith(here):
      where = None
    elif path.startswith(there):
      where = "%s: %s" % (path[len(there):], f.name)
  return where


def run_child(scn, timeout=CHILD_TIMEOUT):
  """Forks, executes, returns the result dictionary."""
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(r)
      if not os.environ.get("DST_DEBUG"):
        null = os.open(os.devnull, os.O_RDWR)
        os.dup2(null, 0)
        os.dup2(null, 1)
        os.dup2(null, 2)
      vm = int(open("/proc/self/statm").read().split()[0]) * 4096
      resource.setrlimit(resource.RLIMIT_AS, (vm + (6 << 30), vm + (6 << 30)))
      resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
      execute(scn, w)
    finally:
      REAL_EXIT(98)
  os.close(w)
  data = b""
  t0 = _wall()
  status = None
  try:
    while True:
      left = timeout - (_wall() - t0)
      if left <= 0:
        os.kill(pid, signal.SIGKILL) if _own_kill is None else _own_kill(
            pid, signal.SIGKILL)
        status = "timeout"
        break
      rr, _, _ = select.select([r], [], [], min(left, 5))
      if rr:
        b = os.read(r, 1 << 20)
        if not b:
          break
        data += b
        if len(data) >= 4 and len(data) >= 4 + struct.unpack(
            "<I", data[:4])[0]:
          break
  finally:
    os.close(r)
  _, st = os.waitpid(pid, 0)
  if len(data) >= 4:
    n, = struct.unpack("<I", data[:4])
    if len(data) >= 4 + n:
      return json.loads(data[4:4 + n])
  return {"harness": status or "child died with status %d" % st, "dead": True}


_own_kill = None  # real os.kill, saved before osim replaces it


def run_scn(scn):
  res = run_child(scn)
  if res.get("harness") == "timeout" and not scn.get("line"):
    # A loop without a scheduling point: count lines to decide.
    scn2 = dict(scn, line=True)
    res2 = run_child(scn2)
    if "v" in res2:
      res2["line"] = True
      return res2
  return res


# ---------------------------------------------------------------------------
def scenario(prop, seed, i, tier):
  from dst import props
  rng = random.Random("%s:%s:%s" % (prop, seed, i))
  scn = props.PROPS[prop].gen(rng, i, tier)
  scn["prop"] = prop
  scn["i"] = i
  if "exp" not in scn and prop in ("P01", "P04", "P06", "P08", "P14", "P16",
                                   "P17", "P18", "P19", "P20", "P21", "P22") and any(
      '"%s"' % op in json.dumps(scn) for op in ("batch", "ibatch")):
    if rng.random() < 0.2:
      scn["exp"] = {"pushdown": 1}
    if rng.random() < 0.25:
      scn.setdefault("exp", {}).update(
          parallel=rng.choice([1, 8, 64, 200]), least=rng.choice([1, 2, 4]))
  if "sched" not in scn:
    scn["sched"] = sched(rng)
  if "line" not in scn:
    scn["line"] = rng.random() < 0.35
  if scn["line"] and scn["sched"].get("policy") == "random":
    scn["sched"]["p"] = round(scn["sched"]["p"] * rng.choice([0.1, 0.3, 1]), 4)
  return scn


def sched(rng):
  r = rng.random()
  s = {"seed": rng.randrange(1 << 30)}
  if r < 0.62:
    s["policy"] = "random"
    s["p"] = rng.choice([0.01, 0.03, 0.08, 0.2, 0.5, 1.0])
  elif r < 0.9:
    s["policy"] = "pct"
    s["depth"] = rng.choice([1, 2, 3, 5, 8])
    s["horizon"] = rng.choice([300, 1000, 3000, 8000])
  else:
    s["policy"] = "rr"
    s["p"] = rng.choice([0.02, 0.1, 0.5, 1.0])
  if rng.random() < 0.35:
    s["early"] = rng.choice([0.002, 0.01, 0.05])
  return s


def worker(w, prop, seed, tier, n, deadline, out, shared):
  i = w
  while i < n:
    if _wall() > deadline:
      break
    stop, = struct.unpack("<q", shared[0:8])
    if i > stop and not SURVEY:
      break
    try:
      scn = scenario(prop, seed, i, tier)
    except BaseException:  # pylint: disable=broad-except
      res = {"harness": "gen: " + traceback.format_exc()}
      scn = None
    else:
      res = run_scn(scn)
      if "harness" in res:
        # An overloaded machine or a flaw of the simulator: try once more.
        first = res
        res = run_scn(scn)
        res["retried"] = first["harness"].strip()[-300:]
    res["i"] = i
    if scn is not None and i % 29 == 0 and "harness" not in res:
      again = run_child(scn)
      res["again"] = int(again.get("h") == res.get("h") and
                         again.get("steps") == res.get("steps"))
    if "v" in res:
      cur, = struct.unpack("<q", shared[0:8])
      if i < cur:
        shared[0:8] = struct.pack("<q", i)
    data = json.dumps(res).encode()
    out.write(struct.pack("<I", len(data)) + data)
    out.flush()
    i += WORKERS
  REAL_EXIT(0)


def explore(prop, seed, tier, n, deadline, on_result):
  shared = mmap.mmap(-1, 8)
  shared[0:8] = struct.pack("<q", 1 << 60)
  fds = {}
  pids = []
  for w in range(WORKERS):
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
      try:
        os.close(r)
        for fd in fds:
          os.close(fd)
        worker(w, prop, seed, tier, n, deadline, os.fdopen(wr, "wb"), shared)
      except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
      finally:
        REAL_EXIT(96)
    os.close(wr)
    fds[r] = b""
    pids.append(pid)
  while fds:
    rr, _, _ = select.select(list(fds), [], [], 10)
    for fd in rr:
      b = os.read(fd, 1 << 20)
      if not b:
        os.close(fd)
        del fds[fd]
        continue
      buf = fds[fd] + b
      while len(buf) >= 4:
        ln, = struct.unpack("<I", buf[:4])
        if len(buf) < 4 + ln:
          break
        on_result(json.loads(buf[4:4 + ln]))
        buf = buf[4 + ln:]
      fds[fd] = buf
  for p in pids:
    os.waitpid(p, 0)


def run_batch(scns, limit=WORKERS):
  """Runs scenarios concurrently (forking helpers); results in order."""
  results = [None] * len(scns)
  pend = {}
  nxt = 0
  while nxt < len(scns) or pend:
    while nxt < len(scns) and len(pend) < limit:
      r, wr = os.pipe()
      pid = os.fork()
      if pid == 0:
        try:
          os.close(r)
          data = json.dumps(run_scn(scns[nxt])).encode()
          with os.fdopen(wr, "wb") as f:
            f.write(data)
        finally:
          REAL_EXIT(0)
      os.close(wr)
      pend[r] = [nxt, pid, b""]
      nxt += 1
    rr, _, _ = select.select(list(pend), [], [], 10)
    for fd in rr:
      b = os.read(fd, 1 << 20)
      if b:
        pend[fd][2] += b
        continue
      j, pid, data = pend.pop(fd)
      os.close(fd)
      os.waitpid(pid, 0)
      try:
        results[j] = json.loads(data)
      except ValueError:
        results[j] = {"harness": "no result"}
  return results


# ---------------------------------------------------------------------------
# Minimisation
# ---------------------------------------------------------------------------
class Minimiser:

  def __init__(self, scn, kind, budget=60.0):
    self.kind = kind
    self.best = scn
    self.deadline = _wall() + budget
    self.tried = 0
    self.res = None

  def ok(self, res):
    return "v" in res and res["v"]["kind"] == self.kind

  def attempt(self, cands):
    """First failing candidate becomes the best; returns True if any."""
    if not cands or _wall() > self.deadline:
      return False
    for a in range(0, len(cands), WORKERS):
      part = cands[a:a + WORKERS]
      rs = run_batch(part)
      self.tried += len(part)
      for c, r in zip(part, rs):
        if self.ok(r):
          self.best = c
          if r.get("line"):
            self.best["line"] = True
          self.res = r
          return True
      if _wall() > self.deadline:
        return False
    return False

  def variants(self, scn):
    """The candidate under its own and a few other schedules."""
    s = scn["sched"]
    out = [scn]
    if "replay" not in s:
      for d in (1, 2):
        out.append(dict(scn, sched=dict(s, seed=s.get("seed", 0) + d * 7919)))
    return out

  def shrink_list(self, get, put):
    """ddmin over a list found by `get(scn)`, replaced by `put(scn, lst)`."""
    lst = get(self.best)
    if not lst:
      return
    n = 2
    while len(lst) >= 1 and _wall() < self.deadline:
      size = max(1, len(lst) // n)
      cands = []
      for a in range(0, len(lst), size):
        c = put(self.best, lst[:a] + lst[a + size:])
        if c is not None:
          cands.extend(self.variants(c))
      if self.attempt(cands):
        lst = get(self.best)
        n = max(2, n - 1)
        continue
      if size == 1:
        break
      n = min(len(lst), n * 2)

  def run(self):
    from dst import props
    # 1. default schedule?
    base = self.best
    self.attempt([dict(base, sched={"replay": []}, line=base.get("line"))])
    P = props.PROPS[base["prop"]]
    for _ in range(3):
      before = json.dumps(self.best, sort_keys=True)
      for get, put in P.shrinkers(self.best):
        self.shrink_list(get, put)
      simpl = P.simplify(self.best)
      guard = 0
      while simpl and guard < 60 and _wall() < self.deadline:
        guard += 1
        cands = [v for c in simpl for v in self.variants(c)]
        if not self.attempt(cands):
          break
        simpl = P.simplify(self.best)
      if json.dumps(self.best, sort_keys=True) == before:
        break
    # 2. freeze the schedule and drop decisions.
    r = run_scn(self.best)
    if self.ok(r):
      self.res = r
      s = self.best["sched"]
      if "replay" not in s:
        c = dict(self.best, sched={
            "replay": r["sched"], "early": s.get("early", 0)})
        self.deadline = max(self.deadline, _wall() + 15)
        if self.attempt([c]):
          self.shrink_list(
              lambda q: q["sched"]["replay"],
              lambda q, l: dict(q, sched=dict(q["sched"], replay=l)))
    return self.best


# ---------------------------------------------------------------------------
def load_known():
  p = os.path.join(ROOT, "known_findings.json")
  if os.path.exists(p):
    return json.load(open(p))
  return {"findings": [], "fixed": []}


def write_replay(prop, scn, res, tag):
  d = os.path.join(ROOT, "replays")
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, "%s-%s.json" % (prop, tag))
  with open(path, "w") as f:
    json.dump({"property": prop, "scenario": scn, "violation": res.get("v"),
               "hash": res.get("h"), "steps": res.get("steps"),
               "events": res.get("events"), "uncaught": res.get("uncaught"),
               "stderr": res.get("stderr"), "fired": res.get("fired"),
               }, f, indent=1, default=str)
  return path


def fresh_process_replay(path):
  """Replays in a new interpreter; returns (violation kind, hash)."""
  import subprocess
  env = dict(os.environ, PYTHONHASHSEED="77")
  try:
    p = subprocess.run([sys.executable, "-m", "dst.engine", "replay", path,
                        "--json"], cwd=ROOT, env=env, capture_output=True,
                       timeout=180)
    return json.loads(p.stdout.decode().strip().splitlines()[-1])
  except Exception as e:  # pylint: disable=broad-except
    return {"harness": repr(e)}


def check(prop):
  t_start = _wall()
  seed = int(os.environ.get("VERIF_SEED", "1"))
  tier = os.environ.get("VERIF_TIER", "quick")
  props = import_all()
  P = props.PROPS[prop]
  n = P.thorough if tier == "thorough" else P.quick
  if os.environ.get("DST_RUNS"):
    n = int(os.environ["DST_RUNS"])
  cap = (P.thorough_s if tier == "thorough" else P.quick_s)
  deadline = t_start + cap
  agg = Agg()
  viol, harness = [], []
  agg.mode = "search"

  def on_result(res):
    agg.add(res)
    if "v" in res:
      viol.append(res)
    if "harness" in res:
      harness.append(res)

  status = 0
  known_lines = []
  # Known findings and regression scenarios first.
  known = load_known()
  for f in known["findings"]:
    if f["property"] != prop:
      continue
    res = run_scn(f["scenario"])
    agg.add(dict(res, i=-1))
    if "v" in res and res["v"]["kind"] == f["kind"] and f["match"] in (
        res["v"]["msg"]):
      known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    elif "v" in res:
      res["i"] = -1
      res["scn"] = f["scenario"]
      viol.append(res)
  for name, scn in P.fixed_scenarios():
    scn = dict(scn, prop=prop)
    res = run_scn(scn)
    res["i"] = -1
    on_result(res)
    if "v" in res:
      res["scn"] = scn
  if not viol:
    explore(prop, seed, tier, n, deadline, on_result)
  wall_search = _wall() - t_start
  lines = []
  nviol = 0
  if viol:
    viol.sort(key=lambda r: r["i"])
    done = False
    for first in viol[:4]:
      scn = first.get("scn") or scenario(prop, seed, first["i"], tier)
      if first.get("line"):
        scn["line"] = True
      res = run_scn(scn)
      if "v" not in res:
        res = run_scn(scn)
      if "v" not in res:
        agg.unreproduced += 1
        continue
      m = Minimiser(scn, res["v"]["kind"],
                    budget=float(os.environ.get("DST_MIN", "60")))
      best = m.run()
      res = m.res or res
      final = run_scn(best)
      if "v" not in final:
        best, final = scn, run_scn(scn)
      path = write_replay(prop, best, final, "seed%d-run%d" % (
          seed, first["i"]))
      fresh = fresh_process_replay(path)
      exact = fresh.get("h") == final.get("h") and "v" in fresh
      lines.append("VIOLATION property=%s replay=%s" % (prop, path))
      lines.append("  kind: %s" % final["v"]["kind"])
      lines.append("  %s" % final["v"]["msg"])
      lines.append("  minimised in %d runs; replay in a fresh process: %s" % (
          m.tried, "identical" if exact else "DIFFERS %s" % (
              fresh.get("v") or fresh.get("harness"))))
      nviol += 1
      status = 1
      done = True
      break
    if not done and not nviol:
      harness.append({"i": viol[0]["i"],
                      "harness": "violation did not reproduce: %s" % (
                          viol[0]["v"],)})
  # Runs that twice ran out of real time decide nothing; a few are tolerated.
  late = [h for h in harness if h["harness"] == "timeout"]
  if len(late) <= max(2, agg.runs // 200):
    agg.inconclusive = len(late)
    harness = [h for h in harness if h["harness"] != "timeout"]
  if harness and not nviol:
    status = 2
  write_evidence(prop, tier, seed, P, agg, wall_search, _wall() - t_start,
                 nviol, n)
  for h in harness[:3]:
    print("HARNESS-ERROR run %s: %s" % (h.get("i"), h["harness"][-3000:]))
  if harness:
    print("harness errors: %d" % len(harness))
  for l in known_lines + lines:
    print(l)
  print("%s %s seed=%d: %d runs, %d distinct interleavings, %.0f runs/h, "
        "wall %.1fs, violations=%d" % (
            prop, tier, seed, agg.runs, len(agg.hashes),
            agg.runs / max(wall_search, 1e-3) * 3600, _wall() - t_start, nviol))
  sys.stdout.flush()
  return status


class Agg:

  def __init__(self):
    self.runs = 0
    self.hashes = set()
    self.trivial = 0
    self.fired = {}
    self.probes = {}
    self.virtual = 0
    self.steps = 0
    self.switches = 0
    self.early = 0
    self.timers = 0
    self.procs = 0
    self.tasks = 0
    self.again = [0, 0]
    self.unreproduced = 0
    self.harness = 0
    self.ids = []
    self.inconclusive = 0
    self.retried = 0

  def add(self, r):
    self.runs += 1
    self.retried += "retried" in r
    if "again" in r:
      self.again[0] += 1
      self.again[1] += r["again"]
    if "harness" in r:
      self.harness += 1
      return
    if r["sw"] > 0 or r["fired"] or r["probes"].get("nontrivial"):
      self.hashes.add(r["h"])
    else:
      self.trivial += 1
    for a, b in r["fired"].items():
      self.fired[a] = self.fired.get(a, 0) + b
    for a, b in r["probes"].items():
      self.probes[a] = self.probes.get(a, 0) + b
    self.virtual += r["now"]
    self.steps += r["steps"]
    self.switches += r["sw"]
    self.early += r["early"]
    self.timers += r["timers"]
    self.procs += r["procs"]
    self.tasks += r["tasks"]


def write_evidence(prop, tier, seed, P, agg, wall_search, wall, nviol, n):
  samples = []
  for i in (0, 1, 2):
    try:
      samples.append(json.loads(json.dumps(scenario(prop, seed, i, tier))))
    except Exception:  # pylint: disable=broad-except
      pass
  ev = {
      "property": prop, "tier": tier, "seed": seed, "level": P.level,
      "coverage": {
          "evaluations": agg.runs,
          "distinct_nontrivial": len(agg.hashes),
          "rule": P.rule,
          "samples": samples,
          "runs_planned": n,
          "seeds_per_hour": round(agg.runs / max(wall_search, 1e-3) * 3600),
          "virtual_seconds": round(agg.virtual / 1e9, 3),
          "scheduling_points": agg.steps,
          "context_switches": agg.switches,
          "timers_fired": agg.timers,
          "timers_fired_before_runnable_threads": agg.early,
          "simulated_processes": agg.procs,
          "simulated_threads": agg.tasks,
          "faults_injected": dict(sorted(agg.fired.items())),
          "probes": dict(sorted(agg.probes.items())),
          "replay_determinism": {
              "runs_repeated": agg.again[0], "identical": agg.again[1]},
          "harness_errors": agg.harness,
          "runs_retried": agg.retried,
          "inconclusive_runs": agg.inconclusive,
          "trivial_runs": agg.trivial,
          "state_measure": "64-bit hash over every context switch (step, "
                           "thread) and every operation and fault of the run",
          "real_components": P.real,
          "stub_components": P.stubs,
      },
      "assumptions": P.assumptions,
      "wall_s": round(wall, 2),
      "violations": nviol,
  }
  d = os.path.join(ROOT, "evidence")
  os.makedirs(d, exist_ok=True)
  tmp = os.path.join(d, ".%s.tmp" % prop)
  with open(tmp, "w") as f:
    json.dump(ev, f, indent=1)
  os.replace(tmp, os.path.join(d, "%s.json" % prop))


def replay(path, as_json):
  import_all()
  r = json.load(open(path))
  res = run_child(r["scenario"], 120)
  if as_json:
    print(json.dumps({k: res[k] for k in ("v", "h", "harness") if k in res}))
    return 0
  if "v" in res:
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    print("  kind: %s" % res["v"]["kind"])
    print("  %s" % res["v"]["msg"])
    print(res["v"].get("detail", ""))
    print("  identical execution: %s" % (res["h"] == r["hash"]))
    for e in res.get("events", []):
      print("  ", e)
    for e in res.get("uncaught", []) + res.get("stderr", []):
      print("  ", e)
    return 1
  print(res.get("harness") or "no violation")
  return 0 if "harness" not in res else 2


def selftest(n):
  """Prints a digest of n runs of every property (compare across workers)."""
  import hashlib
  props = import_all()
  seed = int(os.environ.get("VERIF_SEED", "1"))
  for prop in sorted(props.PROPS):
    got = {}
    explore(prop, seed, "quick", n, _wall() + 600,
            lambda r: got.__setitem__(r["i"], (r.get("h"), r.get("steps"))))
    d = hashlib.sha256(repr(sorted(got.items())).encode()).hexdigest()[:16]
    print(prop, len(got), d)
  return 0


def one(prop, i):
  """Debugging aid: one run in verbose form."""
  import_all()
  scn = scenario(prop, int(os.environ.get("VERIF_SEED", "1")), i,
                 os.environ.get("VERIF_TIER", "quick"))
  print(json.dumps(scn))
  res = run_scn(scn)
  for k in sorted(res):
    if k in ("v", "events", "uncaught", "stderr"):
      continue
    print(k, str(res[k])[:3000])
  if "v" in res:
    print(res["v"]["kind"], "|", res["v"]["msg"])
    print(res["v"].get("detail", ""))
    for e in res["events"]:
      print("  ", e)
    for e in res["uncaught"] + res["stderr"]:
      print("  ", e)
  return 0


def survey(prop, n):
  """Debugging aid: n runs without stopping, violations grouped."""
  import re
  import_all()
  groups = {}
  cnt = [0]
  seed = int(os.environ.get("VERIF_SEED", "1"))

  def on(r):
    cnt[0] += 1
    if "harness" in r:
      key = "HARNESS " + r["harness"].strip().splitlines()[-1][:200]
    elif "v" in r:
      key = r["v"]["kind"] + " " + re.sub(r"[0-9]+", "#", re.sub(
          r"^op .*?\]: ", "", r["v"]["msg"]))[:150]
    else:
      return
    groups.setdefault(key, []).append(r["i"])

  global SURVEY
  SURVEY = True
  t = _wall()
  explore(prop, seed, os.environ.get("VERIF_TIER", "quick"), n,
          _wall() + 3000, on)
  for k, v in sorted(groups.items(), key=lambda kv: -len(kv[1])):
    print(len(v), sorted(v)[:6], k)
  print("%d runs, %.1f/s" % (cnt[0], cnt[0] / (_wall() - t)))
  return 0


SURVEY = False


def main(argv):
  global _own_kill
  _own_kill = os.kill
  if argv[0] == "check":
    return check(argv[1])
  if argv[0] == "replay":
    return replay(argv[1], "--json" in argv)
  if argv[0] == "selftest":
    return selftest(int(argv[1]) if len(argv) > 1 else 60)
  if argv[0] == "repeat":
    import_all()
    scn = scenario(argv[1], int(os.environ.get("VERIF_SEED", "1")),
                   int(argv[2]), "quick")
    got = {}
    for r in run_batch([scn] * int(argv[3])):
      key = (r.get("h"), r.get("steps"), r.get("harness", "")[:50])
      got[key] = got.get(key, 0) + 1
    print(got)
    return 0
  if argv[0] == "survey":
    return survey(argv[1], int(argv[2]))
  if argv[0] == "one":
    return one(argv[1], int(argv[2]))
  print(__doc__)
  return 2


if __name__ == "__main__":
  # Harness modules import `dst.engine`; make that this module.
  sys.path[:0] = [ROOT]
  sys.modules["dst.engine"] = sys.modules["__main__"]
  try:
    code = main(sys.argv[1:])
  except SystemExit:
    raise
  except BaseException:  # pylint: disable=broad-except
    traceback.print_exc()
    code = 2
  sys.stdout.flush()
  REAL_EXIT(code)
