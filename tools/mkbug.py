"""mk(id, prop, edits, needs, breaks, demo): writes /verif/seeded/<id>/.

edits: [(file, old, new)], lines of `old` must be of the original repository.
"""
import json
import os
import subprocess
import tempfile
import shutil

SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = """#!/bin/bash
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def mk(id_, prop, edits, needs, breaks, demo):
  t = tempfile.mkdtemp()
  try:
    for f, old, new in edits:
      p = os.path.join(t, "a", f)
      q = os.path.join(t, "b", f)
      for x in (p, q):
        os.makedirs(os.path.dirname(x), exist_ok=True)
      if not os.path.exists(p):
        shutil.copy("/repo/" + f, p)
        shutil.copy("/repo/" + f, q)
      s = open(q).read()
      assert s.count(old) == 1, (id_, f, s.count(old), old)
      open(q, "w").write(s.replace(old, new))
    r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t,
                       capture_output=True, text=True)
    d = os.path.join(SEED, id_)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(r.stdout)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if demo is not None:
      open(os.path.join(d, "demo.py"), "w").write(demo)
  finally:
    shutil.rmtree(t)
