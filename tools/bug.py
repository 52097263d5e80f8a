#!/usr/bin/env python3
"""Confirms planted bugs and runs checks against them.

bug.py confirm ID...      patch applies; builds and passes the tests in a
                          scratch copy of /repo; demo passes without the patch
                          and fails with it
bug.py check ID [PROP...] applies the patch to /repo, runs the quick checks
                          (by default the one of the property), undoes it
"""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/bugwt"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    if not os.path.exists(WT):
        sh("cp -a /repo %s && sed 's#/repo#%s#g; s#/opt/vp/build.sh#%s.build.sh#' "
           "/opt/vp/test.sh > %s.test.sh && sed 's#/repo#%s#g' "
           "/opt/vp/build.sh > %s.build.sh && rm -rf %s/_build"
           % (WT, WT, WT, WT, WT, WT, WT))


def confirm(b):
    d = os.path.join(V, "seeded", b)
    scratch()
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo main && "
       "git -C %s reset -q --hard FETCH_HEAD" % (WT, WT, WT))
    sh("bash %s.build.sh" % WT)
    r0 = sh("bash %s/demo.sh" % d, cwd=WT)
    if r0.returncode != 0:
        return "demo fails on the unchanged tree: " + r0.stdout[-1500:]
    r = sh("git -C %s apply %s/patch.diff" % (WT, d))
    if r.returncode:
        return "patch does not apply: " + r.stdout
    try:
        t = sh("bash %s.test.sh %s.json" % (WT, WT))
        last = t.stdout.strip().splitlines()[-1]
        if not last.startswith("233 passed, 0 failed"):
            return "tests: " + last
        r1 = sh("bash %s/demo.sh" % d, cwd=WT)
        if r1.returncode in (0, 3):
            return "demo %d with the patch: %s" % (r1.returncode,
                                                   r1.stdout[-1500:])
    finally:
        sh("git -C %s checkout -q -- ." % WT)
    return "confirmed (demo: %s)" % r1.stdout.strip()[-200:]


def check(b, props):
    d = os.path.join(V, "seeded", b)
    meta = json.load(open(os.path.join(d, "meta.json")))
    props = props or [meta["property"]]
    if sh("git -C /repo status --porcelain -uno").stdout.strip():
        sys.exit("/repo is not clean")
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        return "patch does not apply"
    res = []
    try:
        for p in props:
            c = sh("python3 check.py %s quick" % p, cwd=V)
            v = [x for x in c.stdout.splitlines() if x.startswith("failure")]
            t = [x for x in c.stdout.splitlines() if " quick: " in x]
            res.append("%s:%s %s %s" % (
                p, {0: "MISSED", 1: "caught"}.get(c.returncode, "ERROR"),
                t[0][len(p) + 8:] if t else "", v[0][:150] if v else
                (c.stdout[-300:] if c.returncode not in (0, 1) else "")))
    finally:
        sh("git -C /repo checkout -- .")
    return " | ".join(res)


if __name__ == "__main__":
    if sys.argv[1] == "confirm":
        for b in sys.argv[2:]:
            print(b, confirm(b), flush=True)
    else:
        print(sys.argv[2], check(sys.argv[2], sys.argv[3:]), flush=True)
