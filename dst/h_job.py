"""P13, P23: multi-host jobs that checkpoint through the simulated file system.

Every host of the job is a simulated process that runs a shard's pipeline, saves
through grain's checkpoint handler or the asynchronous save/load protocol, and
commits a checkpoint by an atomic rename once all hosts have written theirs.  The
driver (main process) restarts all hosts after a crash, from the last committed
checkpoint.
"""

import asyncio
import concurrent.futures
import json
import multiprocessing
import threading
import traceback

from grain._src.python.checkpoint import handler

from dst import h_elastic
from dst import h_loader
from dst import kernel as K
from dst import pipeline as P
from dst import runner
from dst import vfs
from dst import world as WM
from dst.engine import Violation, blame

H = None  # State of the current run, shared by the simulated hosts.


# -- an event loop of the simulated world -------------------------------------
class _Selector:

  def __init__(self):
    self.cond = threading.Condition()
    self.flag = False

  def select(self, timeout=None):
    with self.cond:
      if not self.flag and (timeout is None or timeout > 0):
        self.cond.wait(timeout)
      self.flag = False
    return []

  def wake(self):
    with self.cond:
      self.flag = True
      self.cond.notify_all()

  def close(self):
    pass


class Loop(asyncio.BaseEventLoop):
  """asyncio's own scheduling without sockets."""

  def __init__(self):
    super().__init__()
    self._selector = _Selector()

  def _process_events(self, event_list):
    pass

  def _write_to_self(self):
    self._selector.wake()


def run_async(coro):
  loop = Loop()
  try:
    return loop.run_until_complete(coro)
  finally:
    loop.run_until_complete(loop.shutdown_default_executor())
    loop.close()


# -- checkpoint directories ----------------------------------------------------
ROOT = "simfs://ckpt"


def root():
  return vfs.SimPath(ROOT)


class Awaiting:
  """A directory that another host is still creating."""

  def __init__(self, path, create, delay):
    self.path, self.create, self.delay = path, create, delay

  async def await_creation(self):
    if self.delay:
      await asyncio.sleep(self.delay)
    if self.create:
      try:
        self.path.mkdir(parents=True, exist_ok=True)
      except OSError:
        H.mkfailed.add(self.path.p)
        raise
    while not H.vfs_has(self.path):
      if self.path.p in H.mkfailed:
        raise DiskError("mkdir")
      await asyncio.sleep(0.05)
    return self.path


class Shared:
  """What the harness knows about the run."""

  def __init__(self, scn, ctx, exp):
    self.scn = scn
    self.ctx = ctx
    self.k = ctx.k
    self.exp = exp  # per host: (elements, infinite)
    self.bad = None
    self.saved = {}  # (directory, host) -> position
    self.committed = []  # rounds
    self.arrived = {}
    self.finished = {}
    self.damaged = set()
    self.mkfailed = set()
    self.inc = 0

  def fail(self, kind, msg):
    if self.bad is None:
      self.bad = (kind, "incarnation %d: %s" % (self.inc, msg))

  def vfs_has(self, path):
    return path.p in self.k.vfs.dirs

  def barrier(self, name, host, ok=True):
    """All hosts of this incarnation; returns whether everybody is fine."""
    key = (self.inc, name)
    self.arrived.setdefault(key, {})[host] = ok
    while len(self.arrived[key]) < self.scn["hosts"]:
      self.k.sleep(0.02)
    return all(self.arrived[key].values())


class Abort(Exception):
  """The host gives up and the job is restarted."""


def disk_errors():
  return sum(n for f, n in H.k.fired.items() if f.startswith("disk_"))


class Host:

  def __init__(self, i, inc):
    self.i = i
    self.inc = inc
    self.scn = H.scn
    self.exp, self.infinite = H.exp[i]
    self.pos = 0
    self.it = None
    self.judging = False  # Loading a damaged file.

  def bad(self, kind, msg):
    raise Violation(kind, "host %d of %d, incarnation %d: %s" % (
        self.i, self.scn["hosts"], self.inc, msg))

  def guarded(self, what, fn):
    """Runs an operation; planned faults may make it raise."""
    d = disk_errors()
    try:
      return fn()
    except (Violation, K.HarnessError, Abort, DiskError, StopIteration):
      raise
    except Exception as e:  # pylint: disable=broad-except
      if "simulated" in str(e) and disk_errors() > d:
        raise DiskError(what) from e
      if H.k.fired.get("kill_worker") and not self.judging:
        H.ctx.probe("errors_after_worker_death")
        raise Abort(what) from e
      e.add_note("in " + what)
      raise

  def build(self):
    if self.scn["kind"] == "dl":
      dl = h_loader.build(dl_of(self.scn, self.i))
      return iter(dl)
    return iter(P.build(spec_of(self.scn, self.i)))

  # -- stepping ----------------------------------------------------------
  def step(self):
    if self.infinite and self.pos >= len(self.exp):
      return False
    try:
      x = self.guarded("next", lambda: next(self.it))
    except StopIteration:
      if self.pos < len(self.exp):
        self.bad("lost-elements", "ended at position %d of %d" % (
            self.pos, len(self.exp)))
      return False
    if self.pos >= len(self.exp):
      self.bad("extra-element", "position %d is past the end: %s" % (
          self.pos, WM.show(x)))
    c = WM.canon(x)
    if c != self.exp[self.pos]:
      near = [j for j, v in enumerate(self.exp) if v == c]
      self.bad("wrong-element", "position %d: got %s%s" % (
          self.pos, WM.show(x), " (= position %s)" % near[:3] if near else ""))
    self.pos += 1
    H.ctx.probe("elements")
    return True

  # -- checkpoints -------------------------------------------------------
  def save(self, r):
    """Returns a function that waits for the save to be over."""
    tmp = root() / ("%d.%d.tmp" % (r, self.inc))
    final = root() / ("%d.%d" % (r, self.inc))
    H.saved[final.p, self.i] = self.pos
    H.ctx.probe("saves")
    api = self.scn["api"]
    if api == "handler":
      ok = True
      try:
        if self.i == 0:
          self.guarded("mkdir", lambda: tmp.mkdir(parents=True, exist_ok=True))
      except DiskError:
        ok = False
      if H.barrier("mk%d" % r, self.i, ok):
        try:
          self.guarded("save", lambda: handler.CheckpointHandler().save(
              tmp, self.it))
        except DiskError:
          ok = False
      else:
        ok = False
      self.commit(r, tmp, final, ok)
      return lambda: None
    aw = self.guarded("save", lambda: run_async(self.it.save(Awaiting(
        tmp, self.i == 0, self.scn.get("mkdelay", 0)))))
    res = []

    def background():
      try:
        try:
          self.guarded("background save", lambda: run_async(aw))
          ok = True
        except DiskError:
          ok = False
        self.commit(r, tmp, final, ok)
      except BaseException as e:  # pylint: disable=broad-except
        res.append(e)
        if isinstance(e, K.HarnessError):
          raise

    t = threading.Thread(target=background, name="saver", daemon=True)
    t.start()

    def wait():
      t.join()
      if res:
        raise res[0]
    return wait

  def commit(self, r, tmp, final, ok):
    if not ok:
      H.ctx.probe("saves_failed_by_disk")
    all_ok = H.barrier("saved%d" % r, self.i, ok)
    if self.i == 0:
      if all_ok:
        try:
          self.guarded("commit", lambda: tmp.rename(final))
          H.committed.append(r)
          H.ctx.probe("commits")
        except DiskError:
          pass
      damage(r, final)
    H.barrier("commit%d" % r, self.i)

  def load_from(self, d):
    """Restores the iterator from a committed checkpoint."""
    if self.scn["api"] == "handler":
      self.guarded("restore", lambda: handler.CheckpointHandler().restore(
          d, self.it))
    elif self.scn.get("bgload"):
      aw = run_async(self.it.load(d))
      with concurrent.futures.ThreadPoolExecutor(1) as ex:
        self.guarded("load", lambda: ex.submit(run_async, aw).result())
    else:
      async def go():
        await (await self.it.load(d))
      self.guarded("load", lambda: run_async(go()))

  def load(self, d):
    """Restores; a damaged checkpoint must be rejected and change nothing."""
    name = (d.p, self.i)
    if name in H.damaged:
      try:
        self.judging = True
        self.load_from(d)
      except DiskError:
        raise
      except Exception as e:  # pylint: disable=broad-except
        H.ctx.probe("damaged_files_rejected")
        H.k.note("rejected", type(e).__name__)
        self.judging = False
        # The iterator continues where it was.
        for _ in range(2):
          self.step()
        return False
      finally:
        self.judging = False
      self.bad("damaged-accepted", "%s was damaged (%s) but was loaded without an "
               "error" % (name[0], self.scn.get("damage")))
    self.load_from(d)
    self.pos = H.saved[name]
    H.ctx.probe("restores")
    return True

  def checkpoints(self):
    fs = H.k.vfs
    out = []
    for n in fs.dirs:
      if n.startswith("/ckpt/") and not n.endswith(".tmp"):
        r, inc = n[len("/ckpt/"):].split(".")
        out.append((int(r), int(inc)))
    return sorted(out)

  # -- main --------------------------------------------------------------
  def run(self):
    scn = self.scn
    vfs.set_host(self.i, scn["hosts"])
    self.it = self.guarded("iter", self.build)
    for _ in range(scn.get("warm", 0)):
      self.step()
    cps = self.checkpoints()
    r0 = 0
    H.barrier("start", self.i)
    while cps:
      r, inc = cps.pop()
      d = root() / ("%d.%d" % (r, inc))
      ok = False
      for _ in range(4):
        try:
          ok = self.load(d)
          break
        except DiskError:
          H.ctx.probe("loads_failed_by_disk")
      else:
        raise Abort("load")
      if H.barrier("load%d.%d" % (r, inc), self.i, ok):
        r0 = r + 1
        break
    else:
      if H.inc and self.pos:
        # Nothing to resume from.
        self.close()
        self.it = self.guarded("iter", self.build)
        self.pos = 0
    ops = scn["rounds"]
    waiting = None
    for r in range(r0, len(ops)):
      for _ in range(ops[r][0]):
        if not self.step():
          break
      if waiting:
        waiting()
      waiting = self.save(r)
      for _ in range(ops[r][1]):  # Runs on while the save is in progress.
        if not self.step():
          break
      if len(ops[r]) > 2 and scn["kind"] != "dl" or len(ops[r]) > 2:
        if waiting:
          waiting()
          waiting = None
        self.rewind(ops[r][2])
    if waiting:
      waiting()
    while self.step():
      pass
    if scn.get("close") and scn["kind"] != "dl":
      self.it.close()
    H.finished[self.i] = self.inc

  def rewind(self, which):
    """Restores some committed checkpoint into the running iterator."""
    cps = self.checkpoints()
    if not cps:
      return
    r, inc = cps[which % len(cps)]
    d = root() / ("%d.%d" % (r, inc))
    if (d.p, self.i) not in H.saved:
      return
    keep = self.pos
    try:
      self.load(d)
      H.ctx.probe("rewinds")
    except DiskError:
      H.ctx.probe("loads_failed_by_disk")
      if self.pos != keep:
        raise K.HarnessError("position changed by failed load")
    self.step()

  def close(self):
    if self.scn["kind"] != "dl":
      self.guarded("close", self.it.close)
    self.it = None


class DiskError(Exception):
  """A planned disk error came out of an operation."""


def damage(r, final):
  """After the commit: a file is lost, truncated or from another job."""
  dm = H.scn.get("damage")
  if not dm or dm[0] != r or not H.vfs_has(final):
    return
  fs = H.k.vfs
  i = dm[1] % H.scn["hosts"]
  f = "%s/process_%d-of-%d.json" % (final.p, i, H.scn["hosts"])
  if f not in fs.files:
    H.fail("missing-file", "%s was committed without %s" % (final.p, f))
    return
  data = fs.files[f]
  if dm[2] == "lost":
    del fs.files[f]
  elif dm[2] == "empty":
    fs.files[f] = b""
  elif dm[2] == "torn":
    fs.files[f] = data[:max(0, min(len(data) - 1, int(len(data) * dm[3])))]
  elif dm[2] == "renamed":
    # Written by a job with another number of hosts.
    for n in list(fs.files):
      if n.startswith(final.p + "/"):
        fs.files[n.replace("-of-%d" % H.scn["hosts"],
                           "-of-%d" % (H.scn["hosts"] + 1))] = fs.files.pop(n)
    for j in range(H.scn["hosts"]):
      H.damaged.add((final.p, j))
  elif dm[2] == "range":
    # From the same pipeline over more data.
    st = json.loads(data)
    if not (isinstance(st, dict) and set(st) == {"next_index"}):
      return
    st["next_index"] = 10 ** 6
    fs.files[f] = json.dumps(st).encode()
  H.damaged.add((final.p, i))
  H.k.count("damaged_checkpoint_" + dm[2])


def host_main(i, inc):
  try:
    Host(i, inc).run()
  except (Abort, DiskError) as e:
    H.ctx.probe("hosts_aborted")
    H.k.note("abort", i, str(e))
    raise SystemExit(4)
  except Violation as v:
    H.fail(v.kind, v.msg)
  except Exception as e:  # pylint: disable=broad-except
    where = blame(e)
    if where is None:
      H.fail("harness", traceback.format_exc())
    else:
      H.fail("exception", "%s: %s raised in %s (%s)" % (
          type(e).__name__, str(e)[:300], where,
          ", ".join(getattr(e, "__notes__", []))))


def spec_of(scn, i):
  if scn["hosts"] == 1:
    return scn["spec"]

  def shard(s):
    if s[0] in ("src", "range", "reidx"):
      return ["slice", s, i, None, scn["hosts"]]
    return [shard(a) if isinstance(a, list) and a and isinstance(a[0], str) else
            [shard(b) for b in a] if isinstance(a, list) and a and
            isinstance(a[0], list) else a for a in s]
  return shard(scn["spec"])


def dl_of(scn, i):
  c = dict(scn["dl"])
  if scn["hosts"] > 1:
    c["shard"] = [i, scn["hosts"], c.get("drop", 0)]
  return c


def tree(p):
  out = [p]
  for c in p.children:
    out += tree(c)
  return out


def kill_tree(k, p):
  for q in tree(p):
    if q.alive:
      k.os.kill(q, -9)


def arm_crashes(scn, ctx, hosts):
  """["crash", step, host, how]: power loss of a host, or of its main process."""
  k = ctx.k
  for _, step, which, how in scn.get("crashes") or []:
    def fn(which=which, how=how):
      live = [p for p in hosts if p.alive]
      if not live:
        return None
      p = live[which % len(live)]
      k.note("crash", p.name, how)
      if how == "all":
        for q in live:
          kill_tree(k, q)
      elif how == "host":
        kill_tree(k, p)
      else:
        k.os.kill(p, -9)
      return "host_crash_" + how
    k.add_fault(step, fn, "host_crash")


def harness(scn, ctx):
  global H
  exp = []
  for i in range(scn["hosts"]):
    if scn["kind"] == "dl":
      c = dl_of(scn, i)
      out, inf = h_elastic.quiet(lambda c=c: h_loader.expected(c))
      exp.append(([WM.canon(x) for x in out], inf))
    else:
      exp.append(runner.expected(dict(scn, spec=spec_of(scn, i))))
  runner.arm_faults(scn, ctx)
  k = ctx.k
  k.vfs.plan = json.loads(json.dumps((scn.get("os") or {}).get("vfs") or {}))
  H = Shared(scn, ctx, exp)
  hosts = []
  arm_crashes(scn, ctx, hosts)
  mctx = multiprocessing.get_context("spawn")
  ncrash = len(scn.get("crashes") or []) + len(k.vfs.plan) * 4 + 4
  ncrash += sum(1 for f in scn.get("faults") or [] if f[0] == "kill")
  budget = 4000 + 400 * ncrash
  ctx.op("job", budget, 1_400_000)
  while True:
    if H.inc > ncrash + 2:
      raise Violation("no-progress", "the job was restarted %d times" % H.inc)
    ps = [mctx.Process(target=host_main, args=(i, H.inc))
          for i in range(scn["hosts"])]
    del hosts[:]
    for p in ps:
      p.start()
      hosts.append(p._popen._proc)
    while True:
      alive = [p for p in ps if p.is_alive()]
      if H.bad:
        if H.bad[0] == "harness":
          raise K.HarnessError(H.bad[1])
        raise Violation(*H.bad)
      if len(alive) < len(ps) and any(
          p.exitcode for p in ps if not p.is_alive()):
        break
      if not alive:
        break
      alive[0].join(0.25)
    crashed = any(p.exitcode for p in ps)
    if not crashed:
      break
    if scn.get("linger"):
      k.sleep(scn["linger"])
    for q in list(hosts):
      kill_tree(k, q)
    for p in ps:
      p.join()
    ctx.probe("restarts")
    H.inc += 1
  ctx.op_done()
  if H.bad:
    raise Violation(*H.bad)
  for i in range(scn["hosts"]):
    if H.finished.get(i) != H.inc:
      raise K.HarnessError("host %d did not finish" % i)
  ctx.probe("jobs_finished")
  left = [p for q in hosts for p in tree(q) if p.alive]
  if left:
    k.sleep(60)
    left = [p.name for p in left if p.alive]
    if left:
      raise Violation("worker-leak", "after their host exited: %s" % left)
