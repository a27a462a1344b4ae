"""Executes operation programs on pipelines and judges every observation.

The oracle is the reference model's element list and, per iterator, one integer:
the position.  `next` must return element number `position`; a state captured at
position p must, whenever and wherever it is restored, put an iterator at p.
"""

import gc
import json
import re
import sys
import threading

import numpy as np

from dst import kernel as K
from dst import pipeline as P
from dst import world as WM
from dst.engine import Violation

NEXT_S = 240.0


def snap(state):
  """Deep, comparable copy of a state."""
  if isinstance(state, dict):
    return ("d", tuple(sorted(((repr(k), snap(v)) for k, v in state.items()))))
  if isinstance(state, (list, tuple)):
    return (type(state).__name__, tuple(snap(v) for v in state))
  return WM.canon(state)


def shape(state):
  """Structure of a state: keys, nesting and leaf kinds."""
  if isinstance(state, dict):
    return {str(k): shape(v) for k, v in state.items()}
  if isinstance(state, (list, tuple)):
    return [shape(v) for v in state]
  if isinstance(state, (bool, int)) or hasattr(state, "dtype"):
    return "n"
  return type(state).__name__


class H:
  """An iterator under test."""

  def __init__(self, it, pos):
    self.it = it
    self.pos = pos
    self.closed = False
    self.failed = False
    self.ended = False


class S:
  """A captured state."""

  def __init__(self, state, pos):
    self.state = state
    self.pos = pos
    self.snap = snap(state)


def weight(x):
  """The memory of an element: arrays by their data, others by themselves."""
  if isinstance(x, dict):
    return sum(weight(v) for v in x.values())
  if isinstance(x, (list, tuple)):
    return sum(weight(v) for v in x)
  return x.nbytes if isinstance(x, np.ndarray) else sys.getsizeof(x)


def payload(x):
  if isinstance(x, dict):
    return sum(payload(v) for v in x.values())
  if isinstance(x, (list, tuple)):
    return sum(payload(v) for v in x)
  if isinstance(x, (str, bytes)):
    return len(x)
  return x.nbytes if isinstance(x, np.ndarray) else 0


def subspecs(spec):
  if isinstance(spec, list):
    if spec and isinstance(spec[0], str):
      yield spec
    for x in spec:
      yield from subspecs(x)


def source_metrics():
  """Reads, bytes and latencies the exported metrics report for `Source`."""
  import prometheus_client
  get = prometheus_client.REGISTRY.get_sample_value
  return [get("grain_python_" + n, {"source": "Source"}) or 0 for n in (
      "data_sources_bytes_read_total", "dataset_source_read_time_ns_count")]


class Program:
  """Runs scn["ops"] over one pipeline."""

  def __init__(self, scn, ctx, exp=None, infinite=False, mk=None):
    self.scn = scn
    self.ctx = ctx
    self.k = ctx.k
    self.mode = scn.get("mode", "clean")
    self.exp = exp
    self.infinite = infinite
    self.hs = {}
    self.metrics0 = source_metrics() if any(
        o[0] == "summary" for o in scn.get("ops", ())) else None
    self.ss = {}
    self.ds = None
    self.mk = mk or (lambda: P.build(scn["spec"]))
    self.held = []
    self.hold = scn.get("hold", 0)
    self.out = []
    self.errpos = None  # position of the first error; inf: there is none
    self.errkind = None
    self.errtext = None
    self.errors = []
    self.checked_states = 0
    self.opi = -1

  # -- helpers ------------------------------------------------------------
  def fail(self, kind, msg):
    raise Violation(kind, "op %s %s: %s" % (
        self.opi, json.dumps(self.cur)[:120], msg))

  def disturbed(self):
    """A fault that may legitimately make the pipeline raise has fired."""
    f = self.k.fired
    return any(f.get(x) for x in (
        "kill_worker", "kill_in_user_code", "exit_in_user_code", "fail_spawn",
        "fail_sem", "fail_pipe", "fail_shm_open", "fail_shm_attach",
        "fail_shm_truncate", "fail_shm_mmap", "thread_start_failure",
        "user_exception", "feeder_error"))

  def call(self, name, fn, seconds):
    self.ctx.op(name, seconds)
    try:
      return fn()
    finally:
      self.ctx.op_done()

  def dataset(self):
    if self.ds is None:
      self.ds = self.call("build", self.mk, 60)
    return self.ds

  def handle_error(self, h, what, e):
    """An exception that is not StopIteration came out of the library."""
    desc = "%s: %s" % (type(e).__name__, str(e)[:300])
    self.k.note("error", what, type(e).__name__)
    if isinstance(e, K.HarnessError):
      raise e
    if not self.disturbed():
      self.fail("unexpected-exception", "%s raised %s" % (what, desc))
    self.errors.append((what, type(e).__name__, str(e)[:300]))
    self.ctx.probe("errors_surfaced")
    if h is not None:
      h.failed = True

  # -- operations ---------------------------------------------------------
  def run(self, ops):
    for i, op in enumerate(ops):
      self.opi = i
      self.cur = op
      self.k.note("op", *op)
      getattr(self, "op_" + op[0])(*op[1:])

  def op_new(self, h):
    try:
      it = self.call("iter()", lambda: iter(self.dataset()), 120)
    except Exception as e:  # pylint: disable=broad-except
      self.handle_error(None, "iter()", e)
      self.hs.pop(h, None)
      return
    self.hs[h] = H(it, 0)

  def op_restore(self, h, s):
    st = self.ss.get(s)
    if st is None:
      return
    self.op_new(h)
    if h in self.hs:
      self.op_set(h, s)

  def op_restore2(self, h, s):
    """Restores a state in the same pipeline with other read parameters."""
    st = self.ss.get(s)
    if st is None:
      return
    ds, mk = self.ds, self.mk
    self.ds, self.mk = None, lambda: P.build(self.scn["spec2"])
    try:
      self.op_restore(h, s)
    finally:
      self.ds, self.mk = ds, mk
    self.ctx.probe("restored_with_other_parameters")

  def op_set(self, h, s):
    hd, st = self.hs.get(h), self.ss.get(s)
    if hd is None or st is None or hd.closed:
      return
    try:
      self.call("set_state", lambda: hd.it.set_state(st.state), 240)
    except Exception as e:  # pylint: disable=broad-except
      self.handle_error(hd, "set_state", e)
      return
    hd.pos = st.pos
    hd.failed = False
    hd.ended = False
    self.ctx.probe("restores")

  def op_get(self, h, s):
    hd = self.hs.get(h)
    if hd is None or hd.failed:
      return
    try:
      st = self.call("get_state", hd.it.get_state, 240)
    except Exception as e:  # pylint: disable=broad-except
      self.handle_error(hd, "get_state", e)
      return
    self.ss[s] = S(st, hd.pos)
    self.ctx.probe("states")

  def op_get2(self, h):
    """Two captures without an intermediate advance are equal."""
    hd = self.hs.get(h)
    if hd is None or hd.failed:
      return
    try:
      a = self.call("get_state", hd.it.get_state, 240)
      sa = snap(a)
      b = self.call("get_state", hd.it.get_state, 240)
    except Exception as e:  # pylint: disable=broad-except
      self.handle_error(hd, "get_state", e)
      return
    if snap(b) != sa or snap(a) != sa:
      self.fail("state-not-pure", "repeated get_state() differs: %r / %r" % (
          a, b))

  def op_json(self, s):
    """The state survives a JSON round trip (as checkpoint writers do)."""
    st = self.ss.get(s)
    if st is None:
      return
    try:
      text = json.dumps(st.state)
    except (TypeError, ValueError) as e:
      self.fail("state-not-json", "state is not JSON serialisable: %s" % e)
    self.ss[s] = S(json.loads(text), st.pos)

  def op_jsonable(self, s):
    """The state is made of JSON types and survives a round trip."""
    st = self.ss.get(s)
    if st is None:
      return
    try:
      json.loads(json.dumps(st.state))
    except (TypeError, ValueError) as e:
      self.fail("state-not-json", "state is not JSON serialisable: %s" % e)
    self.ctx.probe("json_checks")

  def op_next(self, h, n=1):
    for _ in range(n):
      if not self.step(h):
        break

  def op_drain(self, h):
    limit = len(self.exp) + 5
    while limit and self.step(h):
      limit -= 1

  def step(self, h):
    hd = self.hs.get(h)
    if hd is None:
      return False
    if hd.closed:
      return self.step_closed(hd)
    if self.infinite and hd.pos >= len(self.exp):
      return False
    if hd.failed:
      return self.step_failed(hd)
    try:
      x = self.call("next", lambda: next(hd.it), NEXT_S)
    except StopIteration:
      self.k.note("stop", hd.pos)
      if self.errpos is not None and self.errpos <= hd.pos:
        self.fail("error-swallowed", "StopIteration at %d; an error was due at"
                  " position %d" % (hd.pos, self.errpos))
      if hd.pos < len(self.exp):
        self.fail("lost-elements", "StopIteration at position %d of %d%s" % (
            hd.pos, len(self.exp),
            " although a fault fired" if self.disturbed() else ""))
      hd.ended = True
      return False
    except Exception as e:  # pylint: disable=broad-except
      self.on_next_error(hd, e)
      return False
    self.accept(hd, x)
    return True

  def accept(self, hd, x):
    p = hd.pos
    if self.errpos is not None and p >= self.errpos:
      self.fail("error-swallowed", "an element was returned at position %d; an "
                "error was due at position %d" % (p, self.errpos))
    if p >= len(self.exp):
      self.fail("extra-element", "position %d is past the end (%d): %s" % (
          p, len(self.exp), WM.show(x)))
    c = WM.canon(x)
    if c != self.exp[p]:
      self.wrong(p, x, c)
    hd.pos = p + 1
    hd.ended = False
    self.k.note("el", p)
    self.ctx.probe("elements")
    if self.hold:
      keep = self.scn.get("keep")
      if keep == "view":
        c = None
        x = WM.views(x)
        c = WM.canon(x)
      self.held.append((x, c, p))
      x = None
      if len(self.held) > self.hold:
        j = {"lifo": len(self.held) - 2, "rand": p * 7919 % len(self.held)}.get(
            self.scn.get("drop"), 0)
        self.check_held(self.held[j])
        self.release(j)

  def wrong(self, p, x, c):
    near = [i for i, v in enumerate(self.exp) if v == c]
    self.fail("wrong-element", "position %d: got %s%s; difference at element%s"
              % (p, WM.show(x), " (= position %s)" % near[:4] if near else
                 " (not an element of the output)", WM.diff(c, self.exp[p])))

  def release(self, j):
    """Drops a held element: directly or as part of a reference cycle."""
    e = list(self.held.pop(j))
    if self.scn.get("cyc"):
      self.ncyc = getattr(self, "ncyc", 0) + 1
      if self.ncyc % 2:
        e.append(e)
        self.ctx.probe("elements_dropped_in_cycles")

  def op_release(self, n):
    while n and self.held:
      self.check_held(self.held[0])
      self.release(0)
      n -= 1

  def op_side(self, n):
    """Iterates the dataset that workers iterate in the main process."""
    m = P.Model()
    sp = next(s for s in P.walk(self.scn["spec"]) if s[0] == "mp")[1]
    kr = K.KERNEL
    K.set_kernel(None)
    saved, WM.W.record = WM.W.record, False
    try:
      exp = [WM.canon(x) for x in m.ev(sp)]
    finally:
      K.set_kernel(kr)
      WM.W.record = saved
    inner = getattr(WM.W, "inner", None)
    if inner is None or m.infinite:
      return
    def go():
      it = iter(inner)
      for j in range(min(n, len(exp))):
        x = next(it)
        if WM.canon(x) != exp[j]:
          self.fail("wrong-element", "iterating the worker's dataset directly: "
                    "position %d is %s" % (j, WM.show(x)))
        x = None
      it.close()
    self.call("direct iteration", go, 240)
    self.ctx.probe("direct_iterations")

  def check_held(self, e):
    x, c, p = e
    if WM.canon(x) != c:
      self.fail("element-corrupted", "the element of position %d changed after "
                "it was returned: %s" % (p, WM.show(x)))
    self.ctx.probe("held_elements_rechecked")

  def on_next_error(self, hd, e):
    if self.errpos is not None and isinstance(e, Exception):
      loose = self.errkind in ("KwError", "LocalStateError") and P.contains(
          self.scn["spec"], {"mp", "pp"})
      if self.errkind == "BadElement":
        loose = True
      if ("planned" in str(e) or self.errkind == "BadElement" or
          self.errtext and self.errtext in str(e)):
        if (hd.ended or self.errpos > hd.pos >= len(self.exp) and
            not self.infinite) and P.contains(self.scn["spec"], {"izip"}):
          return  # polls its first parents again, like the builtin zip
        if hd.pos != self.errpos:
          self.fail("error-misplaced", "%s surfaced at position %d, expected "
                    "at %s" % (type(e).__name__, hd.pos, self.errpos))
        want = self.errkind and WM.ERRORS.get(self.errkind, WM.KwError)
        if self.errkind == "StrictZip":
          want = ValueError
        if not loose and type(e) is not want:
          self.fail("error-type", "expected %s, got %s: %s" % (
              self.errkind, type(e).__name__, str(e)[:200]))
        self.k.note("planned-error", hd.pos)
        self.ctx.probe("errors_surfaced")
        self.errors.append(("next", type(e).__name__, str(e)[:300]))
        hd.failed = True
        return
      if not (self.k.fired.get("kill_worker") or self.k.fired.get(
          "kill_in_user_code")):
        self.fail("error-type", "expected the user's exception, got %s: %s" % (
            type(e).__name__, str(e)[:300]))
    self.handle_error(hd, "next", e)

  def op_retry(self, h):
    self.op_rnext(h, len(self.exp) + 5)

  def op_rnext(self, h, n):
    """Advances; calls that fail transiently are repeated until they succeed."""
    hd = self.hs.get(h)
    if hd is None or hd.closed:
      return
    errs = 0
    while n:
      if self.infinite and hd.pos >= len(self.exp):
        return
      try:
        x = self.call("next", lambda: next(hd.it), NEXT_S)
      except StopIteration:
        if hd.pos < len(self.exp):
          self.fail("lost-elements", "StopIteration at position %d of %d after "
                    "%d transient errors" % (hd.pos, len(self.exp), errs))
        hd.ended = True
        return
      except Exception as e:  # pylint: disable=broad-except
        if "planned" not in str(e):
          self.fail("unexpected-exception", "next raised %s: %s" % (
              type(e).__name__, str(e)[:300]))
        errs += 1
        self.ctx.probe("errors_surfaced")
        if errs > 100:
          self.fail("error-persists", "next keeps raising %s" % e)
        continue
      self.accept(hd, x)
      self.ctx.probe("resumed_after_transient_error", 1 if errs else 0)
      n -= 1

  def op_heal(self):
    """User code works from now on; iterators must be restored to go on."""
    WM.W.errors = {}
    self.errpos = None
    for hd in self.hs.values():
      hd.failed = True

  def step_failed(self, hd):
    """After an error only 'never hangs, never returns a wrong element'."""
    if not self.scn.get("retry"):
      return False
    try:
      x = self.call("next (after an error)", lambda: next(hd.it), NEXT_S)
    except StopIteration:
      if self.mode == "uerr" and hd.pos < len(self.exp) and self.scn.get(
          "resumes"):
        self.fail("lost-elements", "StopIteration at position %d of %d after a "
                  "transient error" % (hd.pos, len(self.exp)))
      return False
    except Exception:  # pylint: disable=broad-except
      return False
    if self.scn.get("resumes"):
      c = WM.canon(x)
      if hd.pos >= len(self.exp) or c != self.exp[hd.pos]:
        self.fail("wrong-element-after-error", "after a transient error at "
                  "position %d the retry returned %s" % (hd.pos, WM.show(x)))
      hd.pos += 1
      hd.failed = False
      self.errpos = None
      self.ctx.probe("resumed_after_transient_error")
      return True
    return False

  def step_closed(self, hd):
    try:
      x = self.call("next (closed)", lambda: next(hd.it), NEXT_S)
    except ValueError:
      self.ctx.probe("next_after_close_rejected")
      return False
    except StopIteration:
      if hd.ended:
        return False
      self.fail("closed-iterator", "next() on a closed iterator that had not "
                "ended raised StopIteration, not ValueError")
    except Exception as e:  # pylint: disable=broad-except
      if hd.failed or self.disturbed():
        return False
      self.fail("closed-iterator", "next() on a closed iterator raised %s: %s" %
                (type(e).__name__, str(e)[:200]))
    self.fail("closed-iterator", "next() on a closed iterator returned %s" %
              WM.show(x))

  def op_close(self, h):
    hd = self.hs.get(h)
    if hd is None:
      return
    budget = 90 + 70 * max(1, len(self.k.procs))
    try:
      self.call("close", hd.it.close, budget)
    except Exception as e:  # pylint: disable=broad-except
      if not self.disturbed():
        self.fail("unexpected-exception", "close() raised %s: %s" % (
            type(e).__name__, str(e)[:300]))
      self.fail("close-raises", "close() raised %s: %s after a fault" % (
          type(e).__name__, str(e)[:300]))
    hd.closed = True
    self.ctx.probe("closes")

  def op_del(self, h):
    hd = self.hs.pop(h, None)
    if hd is None:
      return
    def drop():
      hd.it = None
      gc.collect()
    self.call("del", drop, 400)

  def op_start(self, h):
    hd = self.hs.get(h)
    if hd is None or hd.failed or hd.closed:
      return
    try:
      self.call("start_prefetch", hd.it.start_prefetch, 240)
    except Exception as e:  # pylint: disable=broad-except
      self.handle_error(hd, "start_prefetch", e)

  def op_sleep(self, s):
    self.k.sleep(s)

  def op_summary(self, h):
    """The execution summary counts every call of a function exactly once."""
    from grain._src.python.dataset import dataset
    hd = self.hs.get(h)
    if hd is None or hd.closed:
      return
    for i in range(8):
      if i:
        self.op_next(h, 1)  # counting may wait for the next element
      self.k.sleep(8)
      s = self.call("get_execution_summary",
                    lambda: dataset.get_execution_summary(hd.it), NEXT_S)
      bad = []
      for node in s.nodes.values():
        site = re.search(r"fn<([^>]+)>", node.name)
        if site is not None:
          self.ctx.probe("counted_nodes")
          n = sum(c for (x, _), c in WM.W.read_count.items()
                  if x == site.group(1))
          if n != node.num_produced_elements:
            bad.append((node.name, n, node.num_produced_elements))
      want = [0, 0]
      srcs = {x[1]: x for x in subspecs(self.scn["spec"]) if x[0] == "src"}
      for (site, i), c in WM.W.read_count.items():
        if site in srcs:
          want[0] += c * payload(WM.make(srcs[site][3], srcs[site][4] + i))
          want[1] += c
      got = [b - a for a, b in zip(self.metrics0, source_metrics())]
      if got != want:
        metric = "bytes and %d reads, exported metrics report %d and %d" % (
            want[1], *got)
      elif not bad:
        return
      else:
        metric = None
    if metric:
      self.fail("metrics", "the source produced %d %s" % (want[0], metric))
    self.fail("summary-count", "node %s processed %d elements, its "
              "execution summary counts %d" % bad[0])

  def op_gc(self):
    self.call("garbage collection", gc.collect, 400)

  def op_retune(self, h, what, v):
    """Changes read parameters of the innermost source prefetcher."""
    hd = self.hs.get(h)
    if hd is None or hd.closed:
      return
    for it in _foreground(hd.it):
      fn = getattr(it, {"buf": "_set_prefetch_buffer_size",
                        "threads": "_set_num_threads"}[what], None)
      if fn is not None:
        self.call("retune", lambda f=fn: f(v), 240)
        self.ctx.probe("retunes")

  def op_pick(self, h, budget, workers, most, k):
    """Parameters chosen for a memory budget of `budget` typical elements."""
    from grain._src.python.dataset.transformations import prefetch_autotune  # pylint: disable=g-import-not-at-top
    spec = self.scn["spec"]
    ds = self.dataset()
    el = P.Model().ev(spec)[:k]
    size = np.mean([weight(x) for x in el]) / 2**20 if len(el) >= k else 0
    mb = budget * (size or 1e-4)
    cfg = self.call("pick", lambda: prefetch_autotune.pick_performance_config(
        ds, ram_budget_mb=mb, max_workers=workers, max_buffer_size=most,
        samples_to_check=k), 600)
    w = cfg.multiprocessing_options.num_workers
    want = min(int(mb / size), workers) if size else workers
    if w != want:
      self.fail("picked-workers", "%d workers for elements of %.0f bytes, a budget "
                "of %.0f and at most %d" % (w, size * 2**20, mb * 2**20, workers))
    heads = []

    def parents(s):
      if s[0] in ("iter", "itern"):
        heads.append(P.Model().ev(["iter", s[1], 0, 0]))
        return
      for a in s[1:]:
        if isinstance(a, list) and a and isinstance(a[0], str):
          parents(a)
        elif isinstance(a, list) and a and isinstance(a[0], list):
          for b in a:
            parents(b)
    parents(spec)
    each = -(-k // len(heads)) if heads else 0
    el = [x for xs in heads for x in xs[:each]]
    size = (np.mean([weight(x) for x in el]) / 2**20
            if heads and len(el) >= k else 0)
    buf = cfg.read_options.prefetch_buffer_size
    want = min(int(mb / (size * len(heads))), most) if size else most
    if buf != want:
      self.fail("picked-buffer", "a buffer of %d for elements of %.0f bytes, a "
                "budget of %.0f and at most %d" % (
                    buf, size * 2**20, mb * 2**20, most))
    self.ctx.probe("picked_configs")
    if spec[0] != "iter":
      return
    got = self.call("list", lambda: list(P.build(spec[1]).to_iter_dataset(
        cfg.read_options).mp_prefetch(cfg.multiprocessing_options)), 600)
    want = P.Model().ev(["mp", spec, w, 1, 0])
    d = None if len(got) == len(want) else "%d elements" % len(got)
    for i, (a, b) in enumerate(zip(got, want)):
      d = d or WM.diff(WM.canon(a), WM.canon(b), "element[%d]" % i)
    if d:
      self.fail("wrong-output", "with the picked parameters: %s" % d)

  def op_getidx(self, h):
    from grain._src.python.dataset import dataset
    hd = self.hs.get(h)
    if hd is None or hd.failed or hd.closed:
      return
    try:
      i = self.call("get_next_index",
                    lambda: dataset.get_next_index(hd.it), 240)
    except Exception as e:  # pylint: disable=broad-except
      self.handle_error(hd, "get_next_index", e)
      return
    if hd.ended and i == hd.pos + 1 and P.contains(
        self.scn["spec"], {"ibatch"}):
      return  # a dropped partial batch counts as read
    if i != hd.pos:
      self.fail("next-index", "get_next_index() = %r at position %d" % (
          i, hd.pos))
    self.ctx.probe("next_index_reads")

  def op_setidx(self, h, i, full=0):
    from grain._src.python.dataset import dataset
    hd = self.hs.get(h)
    if hd is None or hd.closed:
      return
    top = len(self.exp)
    if full and top and P.contains(self.scn["spec"], {"batch", "ibatch"}):
      top -= 1
    i = min(i, top)
    try:
      self.call("set_next_index",
                lambda: dataset.set_next_index(hd.it, i), 240)
    except Exception as e:  # pylint: disable=broad-except
      self.handle_error(hd, "set_next_index", e)
      return
    hd.pos = i
    hd.failed = hd.ended = False
    self.ctx.probe("next_index_writes")

  def op_kill(self, j):
    """SIGKILL of the j-th live worker process."""
    live = [p for p in self.k.procs[1:] if p.alive and p is not
            self.k.cur.proc and p.name.startswith("proc")]
    if not live:
      return
    p = live[j % len(live)]
    self.k.os.kill(p, -9)
    self.k.count("kill_worker")

  def op_freeze(self, j, seconds):
    """Worker j stops running, like a process stopped by SIGSTOP."""
    live = [p for p in self.k.procs[1:] if p.alive and hasattr(p, "label")]
    if not live:
      return
    p = live[j % len(live)]
    for t in self.k.tasks:
      if t.proc is p and t.status != K.DEAD:
        self.k.stall(t, seconds)
    self.k.count("frozen_worker")

  # -- end ----------------------------------------------------------------
  def finish(self):
    self.opi = "end"
    self.cur = ["end"]
    for s in list(self.ss.values()):
      if snap(s.state) != s.snap:
        self.fail("state-mutated", "a captured state changed afterwards: "
                  "now %r, captured at position %d as %s" % (
                      s.state, s.pos, str(s.snap)[:300]))
    if not self.scn.get("hold_after_close"):
      self.op_release(len(self.held))
    for h in sorted(self.hs):
      self.cur = ["end-close", h]
      self.op_close(h)
      if self.scn.get("closed_next"):
        self.step(h)
    if self.held:
      self.k.sleep(2)
      self.op_gc()
      self.op_release(len(self.held))
    if self.scn.get("leak") == "close":
      # Every iterator is closed, still referenced, and cleaned up.
      self.cur = ["leaks"]
      self.k.sleep(40)
      self.live_workers("after close() of every iterator")
      self.live_threads()
    if self.scn.get("leak"):
      self.leaks()

  def live_workers(self, when):
    me = self.k.cur.proc
    live = [p.label for p in self.k.procs if p.alive and p is not me
            and p.parent is not None and hasattr(p, "label")]
    if live:
      self.fail("leaked-process", "live worker processes %s: %s" % (
          when, live))

  def live_threads(self):
    """No thread of the library keeps advancing a closed iterator."""
    live = [t.name for t in self.k.tasks if t.status != K.DEAD
            and t.name.startswith("grain-thread-prefetch")]
    if live:
      self.fail("leaked-thread", "live prefetch threads after close: %s" %
                live)

  def leaks(self, collect=True):
    self.cur = ["leaks"]
    if collect:
      # Dropping whatever was left open must clean it up, too.
      self.ctx.op("garbage collection", 400)
      self.hs.clear()
      gc.collect()
      self.ctx.op_done()
    self.k.sleep(30)
    if collect:
      gc.collect()
    self.k.sleep(30)
    self.live_workers("after close")
    o = self.k.os
    if o.bad_closes:
      self.fail("double-close", "a file descriptor of shared memory was closed "
                "twice (step, process, thread, fd): %r" % (o.bad_closes[:3],))
    killed = any(c for _, c in o.killed)
    if self.scn["leak"] == "shm" and not killed and o.shm_missing:
      self.fail("double-unlink", "a shared memory segment was used after it had "
                "been unlinked (step, process, name, how): %r" % (
                    o.shm_missing[:3],))
    if self.scn["leak"] == "shm" and not killed:
      self.ctx.probe("shm_leak_checks")
      self.k.fired["shm_segments"] = o.shm_created
    if self.scn["leak"] == "shm" and not killed and self.k.os.shm:
      self.fail("leaked-shared-memory", "%d shared memory segments left after "
                "close: %s" % (len(self.k.os.shm),
                               sorted(self.k.os.shm)[:5]))
    self.ctx.probe("leak_checks")


def _foreground(it):
  """Iterators that the thread calling next() advances itself."""
  out, todo = [], [it]
  while todo:
    x = todo.pop()
    out.append(x)
    if type(x).__name__ in ("ThreadPrefetchDatasetIterator",
                            "InterleaveDatasetIterator"):
      continue
    todo.extend(getattr(x, "_parents", ()))
  return out


def _iterators(it):
  out, todo, seen = [], [it], set()
  while todo:
    x = todo.pop()
    if id(x) in seen:
      continue
    seen.add(id(x))
    out.append(x)
    todo.extend(getattr(x, "_parents", ()))
    for a in ("_iterator", "_iterators_in_use"):
      v = x.__dict__.get(a) if hasattr(x, "__dict__") else None
      if isinstance(v, list):
        todo.extend(w for w in v if w is not None)
      elif v is not None and hasattr(v, "__next__"):
        todo.append(v)
  return out


# ---------------------------------------------------------------------------
def expected(scn):
  """Reference output, computed outside the simulation."""
  k = K.KERNEL
  K.set_kernel(None)
  saved, WM.W.record = WM.W.record, False
  try:
    m = P.Model()
    exp = [WM.canon(x) for x in m.ev(scn["spec"])]
  finally:
    K.set_kernel(k)
    WM.W.record = saved
  return exp, m.infinite


def error_position(scn):
  """Position and kind of the first planned error in the output."""
  k = K.KERNEL
  K.set_kernel(None)
  try:
    out = P.PoisonModel(scn["plan"].get("errors", {})).ev(scn["spec"])
  finally:
    K.set_kernel(k)
  for i, x in enumerate(out):
    if isinstance(x, WM.Poison):
      return i, x.kind, x.text
  return float("inf"), None, None


def arm_faults(scn, ctx):
  k = ctx.k
  for f in scn.get("faults") or []:
    kind = f[0]
    if kind == "kill":
      # ["kill", step, worker index, exit code]
      def fn(f=f):
        live = [p for p in k.procs[1:] if p.alive and hasattr(p, "label")]
        if not live:
          return None
        p = live[f[2] % len(live)]
        k.note("kill", p.name)
        k.os.kill(p, f[3])
        return "kill_worker"
      k.add_fault(f[1], fn, "kill_worker")
    elif kind == "stall":
      # ["stall", step, task index, seconds]
      def fn(f=f):
        live = [t for t in k.tasks if t.status != K.DEAD]
        t = live[f[2] % len(live)]
        k.stall(t, f[3])
        return True
      k.add_fault(f[1], fn, "stalled_thread")
    elif kind == "skew":
      def fn(f=f):
        k.wall_skew += int(f[2] * 1e9)
        return True
      k.add_fault(f[1], fn, "wall_clock_jump")
    elif kind == "host":
      pass
    elif kind == "killcall":
      # ["killcall", user call number, worker index, code]
      def fn(f=f):
        live = [p for p in k.procs[1:] if p.alive and hasattr(p, "label")]
        if live:
          p = live[f[2] % len(live)]
          k.note("kill", p.name)
          k.os.kill(p, f[3])
          k.count("kill_worker")
          if k.cur.status == K.DEAD:
            k.die_now()
      ctx.w.on_call.setdefault(f[1], []).append(fn)
    else:
      raise K.HarnessError("unknown fault %r" % (f,))
  tf = scn.get("thread_fail")
  if tf:
    state = {"n": 0}
    def spawn_fail(name):
      if not name.startswith(tuple(tf[1])):
        return False
      n = state["n"]
      state["n"] += 1
      return n in tf[0]
    k.spawn_fail = spawn_fail


def harness(scn, ctx):
  exp, inf = expected(scn)
  arm_faults(scn, ctx)
  p = Program(scn, ctx, exp, inf)
  if scn.get("poison"):
    p.errpos, p.errkind, p.errtext = error_position(scn)
    if p.errpos < len(exp) + 1:
      ctx.probe("errors_due")
  p.run(scn["ops"])
  if scn.get("exit"):
    p.opi, p.cur = "exit", ["exit"]
    exit_process(ctx, 200 + 60 * len(ctx.k.procs))
    p.leaks(False)
  else:
    p.finish()


def exit_process(ctx, budget):
  """Interpreter shutdown of the current process."""
  from multiprocessing import util
  ctx.op("exit", budget)
  threading._shutdown()
  util._exit_function()
  ctx.op_done()
