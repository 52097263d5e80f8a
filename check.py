#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

usage: check.py PROPERTY quick|thorough
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX_FLAGS = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-D_GLIBCXX_ASSERTIONS", "-w"]
FUZZ_FLAGS = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer",
              "-fsanitize=fuzzer,address,undefined",
              "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-w"]
QUICK_LIMIT = 300  # s, cap on the time spent generating cases
THOROUGH_LIMIT = 300
FUZZ_TIME = 150
MAX_JOBS = 8


def config_header(outdir):
    """CoMMAConfig.h as the build system of the library generates it."""
    with open(os.path.join(REPO, "config_files", "CoMMAConfig.h.in")) as f:
        text = f.read()
    version = "1.3.2"
    try:
        with open(os.path.join(REPO, "CMakeLists.txt")) as f:
            m = re.search(r"project\s*\([^)]*VERSION\s+([0-9.]+)", f.read(),
                          re.S | re.I)
        if m:
            version = m.group(1)
    except OSError:
        pass
    v = version.split(".") + ["0", "0"]
    sub = {"INDEX_T": "unsigned long", "INT_T": "int", "REAL_T": "double",
           "PROJECT_VERSION": version, "PROJECT_VERSION_MAJOR": v[0],
           "PROJECT_VERSION_MINOR": v[1], "PROJECT_VERSION_PATCH": v[2]}
    text = re.sub(r"@(\w+)@", lambda m: sub.get(m.group(1), ""), text)
    text = re.sub(r"\$\{(\w+)\}", lambda m: sub.get(m.group(1), ""), text)
    os.makedirs(os.path.join(outdir, "inc", "CoMMA"), exist_ok=True)
    with open(os.path.join(outdir, "inc", "CoMMA", "CoMMAConfig.h"), "w") as f:
        f.write(text)


def includes(bdir):
    return ["-I" + os.path.join(REPO, "include"),
            "-I" + os.path.join(bdir, "inc"), "-I" + os.path.join(VERIF, "pbt")]


def run_all(cmds):
    procs = [subprocess.Popen(c, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True)
             for c in cmds]
    ok = True
    for c, p in zip(cmds, procs):
        out, _ = p.communicate()
        if p.returncode != 0:
            ok = False
            print("command failed:", " ".join(c))
            print(out[-6000:])
    return ok


def directives(src):
    """What a property needs beyond the headers: lines '//@source FILE' (of
    the repository), '//@cflags ...', '//@ldflags ...' and '//@sanitize WHAT'
    (instead of addresses; not fuzzed then)."""
    d = {"source": [], "cflags": [], "ldflags": [], "sanitize": []}
    with open(src) as f:
        for line in f:
            m = re.match(r"//@(source|cflags|ldflags|sanitize)\s+(.*)", line)
            if m:
                d[m.group(1)] += m.group(2).split()
    return d


def build_python(script, bdir):
    """The Python module of the library, and the driver of a property which
    is written in Python (with python3-vt: it has numpy and hypothesis)."""
    if not run_all([["g++", "-std=c++17", "-O0", "-w", "-shared", "-fPIC",
                     "-I/usr/include/python3.12"] + includes(bdir)
                    + [os.path.join(REPO, "src", "CoMMA.cpp"), "-o",
                       os.path.join(bdir, "CoMMA.so")]]):
        sys.exit(2)
    exe = os.path.join(bdir, "check")
    with open(exe, "w") as f:
        f.write("#!/bin/sh\nexec python3-vt '%s' --repo '%s' \"$@\"\n"
                % (script, REPO))
    os.chmod(exe, 0o755)
    return exe, None


def build(prop, bdir, tier):
    script = os.path.join(VERIF, "props", prop.lower() + ".py")
    if os.path.exists(script):
        return build_python(script, bdir)
    src = os.path.join(VERIF, "props", prop.lower() + ".cpp")
    eng = os.path.join(VERIF, "pbt", "engine.cpp")
    need = directives(src)
    inc = includes(bdir) + need["cflags"]
    flags = list(CXX_FLAGS)
    if need["sanitize"]:
        flags[flags.index("-fsanitize=address,undefined")] = (
            "-fsanitize=" + need["sanitize"][0])
        tier = "quick"
    o1, o2 = os.path.join(bdir, "prop.o"), os.path.join(bdir, "engine.o")
    objs = [o1, o2]
    cmds = [["g++"] + flags + inc + ["-c", src, "-o", o1],
            ["g++"] + flags + inc + ["-c", eng, "-o", o2]]
    more = []
    for k, f in enumerate(need["source"]):
        more.append(os.path.join(REPO, f))
        objs.append(os.path.join(bdir, "more%d.o" % k))
        cmds.append(["g++"] + flags + inc + ["-c", more[-1], "-o",
                                                  objs[-1]])
    fuzz = None if need["sanitize"] else os.path.join(bdir, "fuzz")
    if tier == "thorough":
        cmds.append(["clang++"] + FUZZ_FLAGS + inc
                    + [src, os.path.join(VERIF, "pbt", "fuzz_main.cpp")]
                    + more + ["-o", fuzz] + need["ldflags"])
    ok = run_all(cmds)
    if not ok:
        # Functions that no test of the library uses may have gone: do without
        with open(src) as f:
            if "PBT_MINIMAL" in f.read():
                print("trying again without what only this check uses")
                ok = run_all([c + ["-DPBT_MINIMAL"] for c in cmds])
    if not ok:
        sys.exit(2)
    exe = os.path.join(bdir, "check")
    if not run_all([["g++"] + flags + objs + ["-o", exe]
                    + need["ldflags"]]):
        sys.exit(2)
    return exe, fuzz


def run_driver(exe, bdir, extra):
    cmd = [exe, "--dir", bdir] + extra
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    res = os.path.join(bdir, "result.json")
    if p.returncode not in (0, 1) or not os.path.exists(res):
        print("driver ended with", p.returncode)
        print(p.stdout[-4000:])
        sys.exit(2)
    with open(res) as f:
        r = json.load(f)
    os.remove(res)
    return r


def run_fuzz(fuzz, exe, bdir, seed, tier, replay, jobs, res):
    """Coverage-guided search over the same choices.  Returns stats."""
    procs = []
    for j in range(jobs):
        d = os.path.join(bdir, "corpus%d" % j)
        os.makedirs(d)
        log = open(os.path.join(bdir, "fuzz%d.log" % j), "w")
        procs.append(subprocess.Popen(
            [fuzz, d, "-seed=%d" % (seed * 1000 + j + 1), "-max_len=2048",
             "-len_control=20", "-max_total_time=%d" % FUZZ_TIME,
             "-rss_limit_mb=2500", "-timeout=120", "-print_final_stats=1",
             "-artifact_prefix=" + os.path.join(bdir, "art%d-" % j)],
            stdout=subprocess.DEVNULL, stderr=log))
    t_end = time.time() + FUZZ_TIME + 150
    for p in procs:
        try:
            p.wait(max(1, t_end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    execs, cov = 0, 0
    for j in range(jobs):
        with open(os.path.join(bdir, "fuzz%d.log" % j), errors="replace") as f:
            t = f.read()
        m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", t)
        k = re.findall(r"#(\d+)\s", t)
        execs += int(m[-1]) if m else (int(k[-1]) if k else 0)
        c = re.findall(r"cov: (\d+)", t)
        if c:
            cov = max(cov, int(c[-1]))
    stats = {"fuzz_executions": execs, "fuzz_edges_covered": cov,
             "fuzz_processes": jobs, "fuzz_seconds": FUZZ_TIME}
    notes = []
    for f in sorted(os.listdir(bdir)):
        if re.match(r"art\d+-(crash|timeout|oom)", f):
            r = run_driver(exe, bdir, ["--bytes", os.path.join(bdir, f),
                                       "--tier", "quick",
                                       "--replay-out", replay])
            if r["failed"]:
                return stats, notes, r
            notes.append("fuzz artifact %s held when replayed" % f)
    return stats, notes, None


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("known: property=%s " % prop):
                    yield line[len("known: "):].strip()


def write_evidence(prop, tier, seed, coverage, wall, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed,
          "level": "exploration", "coverage": coverage,
          "assumptions": assumptions, "wall_s": round(wall, 2),
          "violations": violations}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


ASSUMPTIONS = [
    "inputs are valid meshes: symmetric connectivity and weights, positive "
    "weights and volumes, distinct centres, no self edges, at least one cell",
    "numeric data are dyadic rationals of moderate size, so that sums and "
    "squared distances are exact in double precision",
    "index type unsigned long, integer type int, real type double unless the "
    "property is about types",
]


def self_test():
    """The tools the checks need are there and can build a program."""
    bdir = os.path.join(VERIF, "build", "self-%d" % os.getpid())
    os.makedirs(bdir, exist_ok=True)
    try:
        src = os.path.join(bdir, "t.cpp")
        with open(src, "w") as f:
            f.write("int main() { return 0; }\n")
        exe = os.path.join(bdir, "t")
        if not run_all([["g++"] + CXX_FLAGS + [src, "-o", exe]]):
            return 2
        return subprocess.run([exe]).returncode
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def main():
    if sys.argv[1:] == ["--self-test"]:
        sys.exit(self_test())
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    bdir = os.path.join(VERIF, "build", "%s-%d" % (prop, os.getpid()))
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    code = 2
    try:
        code = decide(prop, tier, seed, t0, bdir)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, t0, bdir):
    jobs = min(MAX_JOBS, os.cpu_count() or 1)
    config_header(bdir)
    exe, fuzz = build(prop, bdir, tier)
    replay = os.path.join(VERIF, "replays", "%s-%s-seed%d.txt"
                          % (prop, tier, seed))
    if os.path.exists(replay):
        os.remove(replay)
    limit = QUICK_LIMIT if tier == "quick" else THOROUGH_LIMIT
    extra = ["--tier", tier, "--seed", str(seed), "--workers", str(jobs),
             "--limit", str(limit), "--replay-out", replay]
    if os.environ.get("VERIF_CASES"):
        extra += ["--cases", os.environ["VERIF_CASES"]]
    r = run_driver(exe, bdir, extra)
    cov = {"evaluations": r["evaluations"],
           "distinct_nontrivial": r["distinct_nontrivial"],
           "rule": r["rule"], "samples": r["samples"],
           "classes": r["labels"], "planned": r["planned"]}
    notes = list(r["notes"])
    if tier == "thorough" and fuzz and not r["failed"]:
        stats, fn, fr = run_fuzz(fuzz, exe, bdir, seed, tier, replay, jobs, r)
        cov.update(stats)
        cov["evaluations"] += stats["fuzz_executions"]
        notes += fn
        if fr is not None:
            r["failed"], r["failure"] = True, fr["failure"]
            r["failure_case"], r["replay"] = fr["failure_case"], fr["replay"]
    if notes:
        cov["notes"] = notes
    write_evidence(prop, tier, seed, cov, time.time() - t0,
                   1 if r["failed"] else 0, ASSUMPTIONS)
    for k in known_findings(prop):
        print("KNOWN-FINDING: " + k)
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s" %
          (prop, tier, cov["evaluations"], cov["distinct_nontrivial"],
           time.time() - t0))
    if r["failed"]:
        print("failure:", r["failure"][:1500])
        print("case:", r["failure_case"][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, r["replay"]))
        return 1
    if r["distinct_nontrivial"] == 0:
        print("no non-trivial case was generated: nothing was decided")
        return 2
    return 0


if __name__ == "__main__":
    main()
