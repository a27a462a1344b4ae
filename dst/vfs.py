"""Simulated file system behind etils.epath (paths under simfs://).

Files live in memory and survive simulated process and host crashes; data becomes
durable chunk by chunk while a file is closed, so a crash leaves a prefix.  Every
operation is a scheduling point; planned faults make single operations fail or be
slow: `plan` maps "open", "write", "read", "exists" to {operation number: fault},
where a fault is an errno name or a number of seconds.
"""

import errno
import fnmatch
import io
import os

from dst import kernel as K

SimPath = None


class VFS:

  def __init__(self, k):
    self.k = k
    self.files = {}
    self.dirs = {"/"}
    self.plan = {}
    self.count = {}
    self.log = []

  def op(self, kind, path):
    """One disk operation; raises its planned error."""
    k = self.k
    k.point()
    n = self.count.get(kind, 0)
    self.count[kind] = n + 1
    self.log.append((kind, path))
    f = (self.plan.get(kind) or {}).get(str(n))
    if f is None:
      return
    if isinstance(f, (int, float)):
      k.count("slow_disk_" + kind)
      k.sleep(f)
      return
    k.count("disk_%s_%s" % (kind, f))
    k.note("disk", kind, f, path)
    raise OSError(getattr(errno, f), "simulated " + f, path)

  def chunks(self, data):
    n = len(data)
    if n < 4:
      return [data]
    a, b = n // 3, 2 * n // 3
    return [data[:a], data[a:b], data[b:]]


class File(io.BytesIO):
  """A file open for writing (flushed on close) or reading."""

  def __init__(self, fs, path, mode):
    self.fs, self.path, self.mode = fs, path, mode
    self.done = False
    fs.op("open", path)
    if "r" in mode:
      if path not in fs.files:
        raise FileNotFoundError(errno.ENOENT, "No such file", path)
      fs.op("read", path)
      super().__init__(fs.files[path])
    else:
      if os.path.dirname(path) not in fs.dirs:
        raise FileNotFoundError(errno.ENOENT, "No such directory", path)
      if "x" in mode and path in fs.files:
        raise FileExistsError(errno.EEXIST, "File exists", path)
      super().__init__()
      if "a" not in mode:
        fs.files[path] = b""

  def close(self):
    if self.done or self.closed:
      return
    self.done = True
    data = self.getvalue()
    super().close()
    if "r" in self.mode:
      return
    for c in self.fs.chunks(data):
      self.fs.op("write", self.path)
      self.fs.files[self.path] = self.fs.files.get(self.path, b"") + c

  def __exit__(self, *a):
    self.close()

  def __del__(self):
    pass


def fs():
  return K.KERNEL.vfs


def set_host(index, count):
  """The index of the current process among the hosts of the job."""
  k = K.KERNEL
  k.cur.proc.host = (index, count)


def host():
  k = K.KERNEL
  p = k and k.cur and k.cur.proc
  while p:
    h = getattr(p, "host", None)
    if h:
      return h
    p = p.parent
  return 0, 1


def install():
  global SimPath
  import jax
  jax.process_index = lambda *a, **kw: host()[0]
  jax.process_count = lambda *a, **kw: host()[1]
  from etils import epath
  from etils.epath import abstract_path

  def strip(p):
    p = os.fspath(p)
    return "/" + p[len("simfs://"):].lstrip("/") if p.startswith(
        "simfs:") else p

  @epath.register_path_cls("simfs://")
  class _SimPath(abstract_path.Path):
    """A path of the simulated file system."""

    def __init__(self, *parts):
      super().__init__(*[strip(p) for p in parts])

    @property
    def p(self):
      return "/".join(("",) + self.parts[1:]) or "/"

    def __fspath__(self):
      return "simfs:/" + self.p

    __str__ = __fspath__

    def exists(self):
      fs().op("exists", self.p)
      return self.p in fs().files or self.p in fs().dirs

    def is_dir(self):
      fs().op("exists", self.p)
      return self.p in fs().dirs

    def is_file(self):
      fs().op("exists", self.p)
      return self.p in fs().files

    def iterdir(self):
      fs().op("list", self.p)
      pre = self.p.rstrip("/") + "/"
      for n in sorted(list(fs().files) + list(fs().dirs)):
        if n.startswith(pre) and "/" not in n[len(pre):] and n != "/":
          yield type(self)(n)

    def glob(self, pattern):
      for c in list(self.iterdir()):
        if fnmatch.fnmatch(c.name, pattern):
          yield c

    def walk(self, **kw):
      raise NotImplementedError

    def resolve(self, strict=False):
      return self

    def open(self, mode="r", encoding=None, errors=None, **kw):
      f = File(fs(), self.p, mode)
      if "b" in mode:
        return f
      return io.TextIOWrapper(f, encoding="utf-8", newline="")

    def stat(self):
      raise NotImplementedError

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
      fs().op("mkdir", self.p)
      if self.p in fs().dirs:
        if not exist_ok:
          raise FileExistsError(self.p)
        return
      d = self.p
      while d not in fs().dirs:
        fs().dirs.add(d)
        d = os.path.dirname(d)

    def rmdir(self):
      fs().dirs.discard(self.p)

    def rmtree(self, missing_ok=False):
      pre = self.p.rstrip("/") + "/"
      for n in list(fs().files):
        if n.startswith(pre):
          del fs().files[n]
      for n in list(fs().dirs):
        if n.startswith(pre) or n == self.p:
          fs().dirs.discard(n)

    def unlink(self, missing_ok=False):
      fs().op("unlink", self.p)
      if fs().files.pop(self.p, None) is None and not missing_ok:
        raise FileNotFoundError(self.p)

    def rename(self, target):
      return self.replace(target)

    def replace(self, target):
      """Atomic, like the commit of a checkpoint directory."""
      fs().op("rename", self.p)
      t = type(self)(target)
      a, b = self.p, t.p
      f = fs()
      if a in f.files:
        f.files[b] = f.files.pop(a)
        return t
      if a not in f.dirs:
        raise FileNotFoundError(a)
      for n in list(f.files):
        if n.startswith(a + "/"):
          f.files[b + n[len(a):]] = f.files.pop(n)
      for n in list(f.dirs):
        if n == a or n.startswith(a + "/"):
          f.dirs.discard(n)
          f.dirs.add(b + n[len(a):])
      return t

    def copy(self, dst, overwrite=False):
      t = type(self)(dst)
      t.write_bytes(self.read_bytes())
      return t

  SimPath = _SimPath
