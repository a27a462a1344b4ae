"""Verifies planted bugs:  python3 tools/plant.py [-t full|none|MODULE,..] [-c] ID...

For each /verif/seeded/ID: applies patch.diff to a scratch copy of /repo, which
is mounted over /repo in a private mount namespace, then builds, runs the stable
tests, runs demo.sh with and without the patch, and the check of its property
(DST_REPO=copy).  Development tool, no check uses it.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
  return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def inside(copy, vp, cmd, timeout=1500):
  full = ("mount --bind %s /repo && mount --bind %s /opt/vp && cd /repo && %s" %
          (copy, vp, cmd))
  return subprocess.run(["unshare", "-Urm", "bash", "-c", full],
                        capture_output=True, text=True, timeout=timeout)


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("-t", default="none")
  ap.add_argument("-c", action="store_true", help="run the check too")
  ap.add_argument("-p", default=None, help="checks to run instead")
  ap.add_argument("ids", nargs="+")
  a = ap.parse_args()
  for i in a.ids:
    one(i, a)


def one(i, a):
  d = os.path.join(ROOT, "seeded", i)
  meta = json.load(open(os.path.join(d, "meta.json")))
  copy, vp, dd = ["/tmp/plant_%s_%s_%d" % (i, x, os.getpid()) for x in ("repo", "vp", "demo")]
  out = {}
  try:
    sh("cp -a /repo %s; mkdir %s; cp -a /opt/vp/* %s/; rm -rf %s/work; mkdir -p %s" % (
        copy, vp, vp, vp, dd))
    sh("cp -a %s/. %s; rm -f %s/*.diff %s/meta.json" % (d, dd, dd, dd))
    r = sh("git status --porcelain", cwd=copy)
    r = inside(copy, vp, "bash %s/demo.sh" % dd, 320)
    out["demo_clean"] = r.returncode
    if r.returncode:
      print(r.stdout[-1500:], r.stderr[-1500:])
    r = sh("git apply %s/patch.diff" % d, cwd=copy)
    if r.returncode:
      print(i, "patch does not apply", r.stderr)
      return
    r = inside(copy, vp, "bash /opt/vp/build.sh")
    out["build"] = r.returncode
    try:
      r = inside(copy, vp, "bash %s/demo.sh" % dd, 320)
      out["demo_patched"] = r.returncode
      if r.returncode == 0:
        print(r.stdout[-1500:], r.stderr[-1500:])
      out["demo_msg"] = (r.stdout + r.stderr).strip().splitlines()[-1:]
    except subprocess.TimeoutExpired:
      out["demo_patched"] = "timeout"
    if a.t != "none":
      mods = "" if a.t == "full" else a.t.replace(",", " ")
      r = inside(copy, vp, "bash /opt/vp/test.sh /opt/vp/out.json %s" % mods)
      res = json.load(open(vp + "/out.json"))
      stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
      if a.t == "full":
        out["tests_missing"] = sorted(stable - set(res["passed"]))[:6]
      else:
        out["tests_failed"] = sorted(stable & set(res["failed"]))[:6]
        out["tests_passed"] = len(res["passed"])
    if a.c or a.p:
      for prop in (a.p.split(",") if a.p else [meta["property"]]):
        t = time.time()
        env = dict(os.environ, DST_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run([ROOT + "/check", prop], cwd=ROOT, env=env,
                           capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        out["check_" + prop] = [r.returncode, v[:1], round(time.time() - t)]
        out["why"] = [l for l in r.stdout.splitlines() if l][:3]
  finally:
    for x in (copy, vp, dd):
      shutil.rmtree(x, ignore_errors=True)
  print(i, json.dumps(out, indent=None), flush=True)


main()
