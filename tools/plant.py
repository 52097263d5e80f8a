#!/usr/bin/env python3
"""plant.py SPEC.py: writes seeded/<id>/ from a description.

SPEC.py defines BUGS, a list of dicts with id, property, needs, breaks,
edits [(file, old, new)] and demo (body of demo.cpp).
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    ok = True
    by = {}
    for f, old, new in b["edits"]:
        t = by.get(f) or open("/repo/" + f).read()
        if t.count(old) != 1:
            print(b["id"], f, "old text found", t.count(old), "times")
            ok = False
            break
        by[f] = t.replace(old, new)
    if not ok:
        continue
    w = "/tmp/plant"
    shutil.rmtree(w, ignore_errors=True)
    diff = ""
    for f, t in by.items():
        os.makedirs(os.path.dirname(os.path.join(w, f)), exist_ok=True)
        open(os.path.join(w, f), "w").write(t)
        diff += subprocess.run(
            ["diff", "-u", "--label", "a/" + f, "--label", "b/" + f,
             "/repo/" + f, os.path.join(w, f)],
            stdout=subprocess.PIPE, text=True).stdout
    shutil.rmtree(w, ignore_errors=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"],
               "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    if "== @@UL" in b["demo"]:
        # digest of the unchanged tree
        w = "/tmp/plant"
        os.makedirs(w, exist_ok=True)
        open(w + "/demo.cpp", "w").write('#include "demo.h"\n' + b["demo"].replace("@@UL", "0UL"))
        subprocess.run(["g++", "-std=c++17", "-O1", "-w", "-I/repo/include", "-I/repo/_build/include",
                        "-I" + V + "/tools/demo", w + "/demo.cpp", "-o", w + "/demo"], check=True)
        out = subprocess.run([w + "/demo"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
        b["demo"] = b["demo"].replace("@@UL", out.split()[-1] + "UL")
        shutil.rmtree(w)
    if b["demo"].startswith("#!"):
        open(os.path.join(d, "demo.sh"), "w").write(b["demo"])
    else:
        open(os.path.join(d, "demo.cpp"), "w").write(
            '#include "demo.h"\n' + b["demo"])
        shutil.copy(os.path.join(V, "tools", "demo", "demo.h"), d)
        shutil.copy(os.path.join(V, "tools", "demo", "demo.sh"), d)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    print(b["id"], "written")
