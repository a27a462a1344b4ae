"""P25: work that run_in_parallel hands to a pool of threads.

Every call is recorded at its start and at its end, in simulated time; a call
sleeps, fails, waits for calls that have to run beside it or runs other work in
parallel itself.
"""

import threading

from grain._src.core import parallel

from dst import kernel as K
from dst import runner
from dst.engine import Violation


class PlannedError(Exception):
  """Tells the call that raised it."""


class Work:
  """One call of run_in_parallel and what became of its work units."""

  def __init__(self, plan, ctx, name):
    self.plan, self.ctx, self.k = plan, ctx, ctx.k
    self.name = name
    self.begun, self.ended = {}, {}
    self.running = set()
    self.most = 0
    self.returned = False
    self.first_error = None  # simulated time
    self.bad = None
    self.gates = {}
    for u in plan["units"]:
      if u.get("gate") is not None:
        self.gates.setdefault(u["gate"], threading.Event())
    self.arrived = {}

  def fail(self, kind, msg):
    if self.bad is None:
      self.bad = (kind, "%s: %s" % (self.name, msg))

  def unit(self, i, salt=None):
    u = self.plan["units"][i]
    k = self.k
    if self.returned:
      self.fail("late-call", "call %d began after run_in_parallel had returned" % i)
    if i in self.begun:
      self.fail("called-twice", "call %d was made twice" % i)
    if salt != (u.get("salt")):
      self.fail("wrong-arguments", "call %d got %r" % (i, salt))
    if not threading.current_thread().name.startswith(self.prefix()):
      self.fail("thread-name", "call %d ran in thread %r" % (
          i, threading.current_thread().name))
    grace = 2e9 + self.slack
    if self.first_error is not None and k.now > self.first_error + grace:
      self.fail("not-cancelled", "call %d began %.1f s after a call had failed" % (
          i, (k.now - self.first_error) / 1e9))
    self.begun[i] = k.now
    self.running.add(i)
    self.most = max(self.most, len(self.running))
    if len(self.running) > self.plan["workers"]:
      self.fail("too-many-workers", "%d calls run at once, num_workers is %d" % (
          len(self.running), self.plan["workers"]))
    try:
      return self.body(i, u)
    finally:
      if self.returned:
        self.fail("left-running", "call %d still ran when run_in_parallel "
                  "returned" % i)
      self.running.discard(i)
      self.ended[i] = k.now

  def prefix(self):
    return self.plan.get("prefix") or "parallel_"

  def body(self, i, u):
    k = self.k
    k.point()
    if u.get("sleep"):
      k.sleep(u["sleep"])
    if u.get("gate") is not None:
      # Goes on once all units of the gate run.
      g = u["gate"]
      self.arrived[g] = self.arrived.get(g, 0) + 1
      if self.arrived[g] == sum(1 for x in self.plan["units"]
                                if x.get("gate") == g):
        self.gates[g].set()
      elif not self.gates[g].wait(100000):
        self.fail("not-parallel", "calls that fit into num_workers never ran "
                  "side by side")
      self.ctx.probe("ran_side_by_side")
    if u.get("nest"):
      w = Work(u["nest"], self.ctx, "%s.%d" % (self.name, i))
      r = w.run(self.slack)
      self.ctx.probe("nested")
      if w.bad:
        self.fail(*w.bad)
      return ["nested", i, r]
    if u.get("err"):
      self.ctx.k.count("user_exception")
      if self.first_error is None:
        self.first_error = k.now
      raise PlannedError("planned: %s/%d" % (self.name, i))
    return None if u.get("none") else [self.name, i]

  def value(self, i):
    u = self.plan["units"][i]
    return ["nested", i, "?"] if u.get("nest") else (
        None if u.get("none") else [self.name, i])

  def run(self, slack=0):
    self.slack = slack
    units = self.plan["units"]
    kw = {}
    if self.plan.get("prefix"):
      kw["thread_name_prefix"] = self.plan["prefix"]
    args = []
    for i, u in enumerate(units):
      a = {"i": i}
      if u.get("salt") is not None:
        a["salt"] = u["salt"]
      args.append(a)
    if self.plan.get("tuple"):
      args = tuple(args)
    fn = self.unit
    if self.plan.get("unnamed"):
      fn = _Callable(self.unit)
    out = err = None
    try:
      out = parallel.run_in_parallel(fn, args, self.plan["workers"], **kw)
    except PlannedError as e:
      err = e
    self.returned = True
    self.judge(out, err)
    return out if err is None else "failed"

  def judge(self, out, err):
    units = self.plan["units"]
    n = len(units)
    if self.running:
      self.fail("left-running", "calls %s still run when run_in_parallel has "
                "returned" % sorted(self.running))
    failing = [i for i in self.ended if units[i].get("err")]
    if err is None:
      if failing:
        self.fail("error-lost", "call %d raised, run_in_parallel did not" %
                  failing[0])
      if type(out) is not list or len(out) != n:
        self.fail("wrong-result", "%d calls, the result is %r" % (n, out))
      else:
        for i in range(n):
          want = self.value(i)
          got = out[i]
          if units[i].get("nest"):
            ok = type(got) is list and got[:2] == want[:2]
          else:
            ok = got == want
          if not ok:
            self.fail("wrong-result", "result %d is %r" % (i, got))
      if len(self.ended) != n:
        self.fail("call-lost", "only calls %s were made" % sorted(self.ended))
    else:
      self.ctx.probe("errors_propagated")
      name, _, i = str(err).removeprefix("planned: ").rpartition("/")
      if name != self.name or int(i) not in failing:
        self.fail("phantom-error", "raised %s" % err)
      else:
        # First: no other failure was over long before.
        i = int(i)
        first = min(self.ended[j] for j in failing)
        if self.ended[i] > first + 2e9 + self.slack:
          self.fail("not-first-error", "raised the error of call %d, %.1f s after "
                    "the first one" % (i, (self.ended[i] - first) / 1e9))
      self.ctx.probe("calls_cancelled", n - len(self.begun))
    self.ctx.probe("calls", len(self.begun))


class _Callable:
  """Has no __name__."""

  def __init__(self, f):
    self.f = f

  def __call__(self, **kw):
    return self.f(**kw)


def harness(scn, ctx):
  runner.arm_faults(scn, ctx)
  slack = int(1e9 * sum(f[3] for f in scn.get("faults", []) if f[0] == "stall"))
  works = [Work(p, ctx, "w%d" % j) for j, p in enumerate(scn["works"])]
  ctx.k.dec.early = 0.0  # Time only passes when nothing can run: delays count.
  ctx.op("run_in_parallel", 500000)
  ths = [threading.Thread(target=w.run, args=(slack,), daemon=True)
         for w in works[1:]]
  for t in ths:
    t.start()
  works[0].run(slack)
  for t in ths:
    t.join()
  ctx.op_done()
  ctx.k.sleep(30)  # Late calls would begin now.
  for w in works:
    if w.bad:
      raise Violation(*w.bad)
    if not w.returned:
      raise Violation("stuck", "%s did not return" % w.name)
  left = [t.name for t in threading.enumerate()
          if t is not threading.current_thread()]
  if left:
    raise Violation("left-running", "threads %s remain" % left)
