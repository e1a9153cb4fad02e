#!/usr/bin/env python3
"""Makes and verifies the planted bugs of seeded/ (never run by a check).

  tools/plant.py make ID...   write seeded/ID from the definition below and verify it in a scratch copy
  tools/plant.py check ID...  run the checks of the bug's property against the scratch copy
  (no ID: all)
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from seeds import SEEDS
ENV = dict(os.environ, PYTHONPATH="/opt/vp/support", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           TF_ENABLE_ONEDNN_OPTS="0", CUDA_VISIBLE_DEVICES="-1", TF_CPP_MIN_LOG_LEVEL="3",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/opt/vp/support:$PWD PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1 TF_ENABLE_ONEDNN_OPTS=0
exec /opt/venv/bin/python "$here/demo.py"
'''
HEAD = '''import warnings
warnings.simplefilter("ignore")
import tf1_api  # noqa
import numpy as np
import tensorflow as tf
tf.logging.set_verbosity(tf.logging.FATAL)
import zhusuan as zs
D = zs.distributions


def check(ok, msg=""):
    if not ok:
        raise SystemExit("DEMO FAILED " + str(msg))


'''


def copy(sid):
    d = os.path.join("/tmp/plant", sid)
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s" % d, shell=True)
    subprocess.check_call(["git", "init", "-q", d])
    subprocess.check_call("cd %s && git add -A && git -c user.name=x -c user.email=x@x commit -qm base" % d, shell=True)
    return d


def tests(d):
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-p", "tf1_api", "-q", "-p", "no:cacheprovider", "-n", "8",
                        "--timeout=300", "--tb=no", "-W", "ignore", "-rf", "tests"], cwd=d, env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.stdout.strip().splitlines()


def demo(d, sd):
    r = subprocess.run(["bash", os.path.join(sd, "demo.sh")], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=300)
    return r.returncode, r.stdout.strip().splitlines()[-1:]


def make(s, base_fail):
    sid = s["id"]
    d = copy(sid)
    for f, old, new in s["edits"]:
        p = os.path.join(d, f)
        t = open(p).read()
        assert t.count(old) == 1, (sid, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
    sd = os.path.join(HERE, "seeded", sid)
    os.makedirs(sd, exist_ok=True)
    open(os.path.join(sd, "patch.diff"), "w").write(diff)
    open(os.path.join(sd, "demo.sh"), "w").write(DEMO)
    open(os.path.join(sd, "demo.py"), "w").write(HEAD + s["demo"].strip("\n") + '\nprint("ok")\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(sd, "meta.json"), "w"), indent=1)
    out = tests(d)
    a = demo(d, sd)
    b = demo("/repo", sd)
    failed = sorted(x.split()[1] for x in out if x.startswith("FAILED"))
    new = [x for x in failed if x not in base_fail]
    ok = not new and a[0] != 0 and b[0] == 0
    print("%s %s tests: %s new failures %s | demo patched %s %s | demo clean %s %s" % (
        sid, "OK" if ok else "**BAD**", out[-1:], new, a[0], a[1], b[0], b[1]), flush=True)
    return ok


def check(s):
    d = os.path.join("/tmp/plant", s["id"])
    r = subprocess.run(["python3", os.path.join(HERE, "check.py"), s["property"]], cwd=HERE,
                       env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lines = [x for x in r.stdout.splitlines() if x.strip() and not x.startswith("VIOLATION")]
    print("%s %s exit %s %s | %s" % (s["id"], s["property"], r.returncode, "CAUGHT" if r.returncode == 1 else "**MISSED**",
                                     lines[0][:300] if lines else ""), lines[-1:], flush=True)
    cf = os.path.join(HERE, "tools", "catch.json")
    c = json.load(open(cf)) if os.path.exists(cf) else {}
    c[s["id"]] = "%s: %s" % (s["property"], "caught" if r.returncode == 1 else "missed")
    json.dump(c, open(cf, "w"), indent=1, sort_keys=True)


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    todo = [s for s in SEEDS if not ids or s["id"] in ids]
    if cmd in ("make", "both"):
        bf = "/tmp/plant/base_fail.json"
        if not os.path.exists(bf):
            d = copy("clean")
            out = tests(d)
            os.makedirs("/tmp/plant", exist_ok=True)
            json.dump(sorted(x.split()[1] for x in out if x.startswith("FAILED")), open(bf, "w"))
            print("base", out[-1:])
        base = json.load(open(bf))
        for s in todo:
            make(s, base)
    if cmd in ("check", "both"):
        for s in todo:
            check(s)


main()
