"""C36: the Python tools shipped with the examples compute what they document

Run with python3-vt (numpy, hypothesis).  Options as those of the compiled
checks; the directory given by --dir holds the compiled Python module.
"""
import argparse
import hashlib
import json
import os
import random
import sys
import tempfile
import time
import warnings

ap = argparse.ArgumentParser()
ap.add_argument("--dir")
ap.add_argument("--repo")
ap.add_argument("--tier", default="quick")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--workers", type=int, default=1)
ap.add_argument("--limit", type=float, default=300)
ap.add_argument("--cases", type=int)
ap.add_argument("--replay-out")
ap.add_argument("--replay")
A = ap.parse_args()
sys.dont_write_bytecode = True
sys.path.insert(0, A.dir)
sys.path.insert(1, os.path.join(A.repo, "examples", "scripts"))

import numpy as np  # noqa: E402
from hypothesis import HealthCheck, Phase, given, seed, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from hypothesis.errors import Flaky  # noqa: E402

import CoMMA  # noqa: E402
import comma_tools as T  # noqa: E402

RULE = ("random graphs (isolated cells, several components, repeated wall "
        "cells) with random numbers, random fine-to-coarse maps, lines, blocks "
        "and options, given as lists or arrays of several types, to every tool; "
        "non-trivial: at least three cells and one edge")


# defects listed in known_findings.txt: what is listed there, and only that, is
# accepted besides the documented result
KNOWN = set()
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..",
                       "known_findings.txt")) as h:
    for entry in h:
        if entry.startswith("known: property=C36 ["):
            KNOWN.add(entry.split("[")[1].split("]")[0])


class Wrong(Exception):
    pass


def need(ok, *what):
    if not ok:
        raise Wrong(" ".join(str(w) for w in what))


# --- generation: plain data which can be written to a file

num = st.integers(1, 64).map(lambda k: k / 8)


@st.composite
def inputs(draw):
    n = draw(st.integers(1, 4) if draw(st.booleans()) else st.integers(1, 24))
    edges = set()
    if n > 1:
        for _ in range(draw(st.integers(0, 3 * n))):
            a = draw(st.integers(0, n - 1))
            b = draw(st.integers(0, n - 1))
            if a != b:
                edges.add((min(a, b), max(a, b)))
    edges = sorted(edges)
    d = draw(st.integers(2, 3))
    # every coarse ID is used
    raw = draw(st.lists(st.integers(0, n - 1), min_size=n, max_size=n))
    rank = {v: i for i, v in enumerate(sorted(set(raw)))}
    f2c = [rank[v] for v in raw]
    ncc = len(rank)
    cc = draw(st.permutations(list(range(ncc))))
    lines, k = [], 0
    while k < ncc and draw(st.booleans()):
        m = draw(st.integers(0, 3))
        lines.append(cc[k:k + m])
        k += m
    blocks, left = [], n
    while left > 0:
        m = draw(st.integers(0, left))
        if len(blocks) > 4:
            m = left
        blocks.append(m)
        left -= m
    return {
        "n": n, "dim": d, "edges": [list(e) for e in edges],
        "w": [draw(num) for _ in edges],
        "vol": [draw(num) for _ in range(n)],
        "cen": [[16 * i + draw(num)] + [draw(num) for _ in range(d - 1)]
                for i in range(n)],
        "nbnd": [draw(st.integers(0, 5)) for _ in range(n)],
        "wall": draw(st.lists(st.integers(0, n - 1), max_size=4)),
        "f2c": f2c, "lines": lines, "blocks": blocks,
        "default": draw(st.sampled_from([-1, -3, 0, 1, 7])),
        "modulo": draw(st.sampled_from([None, -1, 0, 1, 2, 3, 12])),
        "shuffle": draw(st.booleans()),
        "kind": draw(st.integers(0, 3)),
        "precision": draw(st.sampled_from([15, 3, 2, 1])),
    }


def arrays(x):
    """The graph by rows, its numbers as lists or arrays."""
    row, col, val = [0], [], []
    for i in range(x["n"]):
        for (a, b), w in zip(x["edges"], x["w"]):
            if i in (a, b):
                col.append(a + b - i)
                val.append(w)
        row.append(len(col))
    g = {"row": row, "col": col, "val": val, "vol": x["vol"], "nbnd": x["nbnd"],
         "cen": x["cen"], "wall": x["wall"], "f2c": x["f2c"]}
    k = x["kind"]
    if k:
        idx = (None, np.int64, np.int32, np.uint64)[k]
        for f in ("row", "col", "nbnd", "wall", "f2c"):
            g[f] = np.array(g[f], dtype=idx)
        for f in ("val", "vol", "cen"):
            g[f] = np.array(g[f], dtype=float)
        g["cen"] = g["cen"].reshape(x["n"], x["dim"])
    return g


def plain(v):
    return v.tolist() if isinstance(v, np.ndarray) else v


def neighbours(x, i):
    for (a, b), w in zip(x["edges"], x["w"]):
        if i in (a, b):
            yield a + b - i, w


# --- the documented results

def check_distance(x, g):
    want = [-1] * x["n"]
    front = sorted(set(x["wall"]))
    d = 0
    while front:
        for i in front:
            want[i] = d
        front = sorted({j for i in front for j, _ in neighbours(x, i)
                        if want[j] < 0})
        d += 1
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        try:
            r = T.compute_neighbourhood_wall_distance(g["row"], g["col"],
                                                      g["wall"])
        except ValueError:
            deg = {i for e in x["edges"] for i in e}
            if "wall-alone" not in KNOWN or set(x["wall"]) <= deg:
                raise
            r = None
    if r is None:
        r = np.array(want)
        got = min(want) < 0
    need(isinstance(r, np.ndarray), "wall distance is not an array")
    need(r.tolist() == want, "wall distance", r.tolist(), "instead of", want)
    need(bool(got) == (min(want) < 0), "warned:", got, "for", want)
    r = CoMMA.compute_neighbourhood_based_wall_distance(
        neigh_idxs=g["row"], neighs=g["col"], wall=g["wall"])
    need(list(r) == want, "wall distance of the module", r)


def close(a, b):
    return abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def check_coarse(x, g):
    f2c, ncc = x["f2c"], max(x["f2c"]) + 1
    w = [{} for _ in range(ncc)]
    for (a, b), v in zip(x["edges"], x["w"]):
        if f2c[a] != f2c[b]:
            for s, t in ((f2c[a], f2c[b]), (f2c[b], f2c[a])):
                w[s][t] = w[s].get(t, 0) + v
    # the listed defect: the weight is read at the number of the neighbour
    val = plain(g["val"])
    seen = [{} for _ in range(ncc)]
    fails = False
    for e in x["edges"]:
        for a, b in (e, e[::-1]):
            if f2c[a] != f2c[b]:
                fails = fails or b >= len(val)
                s, t = f2c[a], f2c[b]
                seen[s][t] = seen[s].get(t, 0) + (0 if fails else val[b])
    listed = "edge-weight" in KNOWN
    try:
        res = T.build_coarse_graph(g["f2c"], g["row"], g["col"], g["val"],
                                   g["vol"], g["nbnd"], g["cen"])
    except IndexError:
        if listed and fails:
            return
        raise
    row, col, val, vol, nb, cen = (np.asarray(r).tolist() for r in res)
    need(len(row) == ncc + 1 and row[0] == 0 and row[-1] == len(col)
         and len(val) == len(col), "coarse graph: sizes", row, col, val)
    for c in range(ncc):
        mem = [i for i in range(x["n"]) if f2c[i] == c]
        ns = col[row[c]:row[c + 1]]
        need(len(set(ns)) == len(ns) and set(ns) == set(w[c]),
             "coarse graph: neighbours of", c, ns, "instead of", sorted(w[c]))
        for t, v in zip(ns, val[row[c]:row[c + 1]]):
            need(close(v, w[c][t]) or listed and close(v, seen[c][t]), "coarse graph: weight", c, t, v,
                 "instead of", w[c][t])
        need(close(vol[c], sum(x["vol"][i] for i in mem)),
             "coarse graph: volume of", c, vol[c])
        need(nb[c] == max(x["nbnd"][i] for i in mem),
             "coarse graph: boundary faces of", c, nb[c])
        for k in range(x["dim"]):
            want = (sum(x["vol"][i] * x["cen"][i][k] for i in mem)
                    / sum(x["vol"][i] for i in mem))
            need(abs(cen[c][k] - want) < 1e-9, "coarse graph: centre of", c,
                 cen[c], "instead of", want, "along", k)


class Block:
    def __init__(self, n):
        self.data = np.zeros((n, 4), dtype=int)


def check_blocks(x, g):
    blocks = [Block(k) for k in x["blocks"]]
    r = T.prepare_meshio_celldata(g["f2c"], blocks)
    need(len(r) == len(blocks) and all(
        len(p) == k for p, k in zip(r, x["blocks"])), "blocks", r)
    need([v for p in r for v in p] == x["f2c"], "data in blocks", r)
    k = x["modulo"]
    mod = k is not None and k > 1
    own = "array-modified" in KNOWN and (mod or x["shuffle"])
    r = T.prepare_meshio_agglomeration_data(
        np.array(g["f2c"]) if own else g["f2c"], blocks, modulo_renumbering=k, shuffle=x["shuffle"])
    need([len(p) for p in r] == x["blocks"], "blocks", r)
    flat = [int(v) for p in r for v in p]
    if not x["shuffle"]:
        want = [v % k for v in x["f2c"]] if mod else x["f2c"]
        need(flat == want, "agglomeration data", flat, "instead of", want)
        return
    # cells together stay together
    ncc = max(x["f2c"]) + 1
    ren = {}
    for v, y in zip(x["f2c"], flat):
        need(ren.setdefault(v, y) == y, "shuffled data splits", v, flat)
    want = sorted(v % k for v in range(ncc)) if mod else list(range(ncc))
    need(sorted(ren.values()) == want, "shuffled data", flat)


def check_lines(x, g):
    idxs, cells = [0], []
    for ln in x["lines"]:
        cells += ln
        idxs.append(len(cells))
    k, dv = x["modulo"], x["default"]
    mod = k is not None and k > 1
    if x["kind"]:
        idxs, cells = np.array(idxs), np.array(cells, dtype=int)
    r = T.assign_anisotropic_line_data_to_cells(
        idxs, cells, g["f2c"], default_value=dv, modulo_renumbering=k,
        shuffle=x["shuffle"])
    r = np.asarray(r).tolist()
    need(len(r) == x["n"], "line data: size", r)
    of = {c: i for i, ln in enumerate(x["lines"]) for c in ln}
    ren = {}
    for i in range(x["n"]):
        ln = of.get(x["f2c"][i])
        if ln is None:
            need(r[i] == dv, "cell", i, "is in no line, got", r[i])
        else:
            need(ren.setdefault(ln, r[i]) == r[i], "line", ln, "has several IDs",
                 r)
            need(r[i] != dv, "cell", i, "of a line has the default value", r)
            top = 0 if "line-zero" in KNOWN else -1
            need(r[i] >= 0 if dv < 0 else r[i] >= 1 if dv == 0 else r[i] <= top,
                 "ID", r[i], "with default value", dv)
    if not x["shuffle"]:
        for ln, y in ren.items():
            b = ln % k if mod else ln
            want = b if dv < 0 else b + 1 if dv == 0 else None
            need(want is None or y == want, "line", ln, "has ID", y,
                 "with default value", dv)
    if not mod:
        need(len(set(ren.values())) == len(ren), "IDs shared by lines", r)


def check_dump(x, g, scratch):
    f = os.path.join(scratch, "graph.txt")
    more = {}
    if x["precision"] != 15:
        more["precision"] = x["precision"]
    if x["shuffle"]:
        more["integer_format"] = "%d"
        more["float_format"] = "%.17g"
    T.dump_graph(f, g["row"], g["col"], g["val"], g["vol"], g["nbnd"], g["cen"],
                 **more)
    with open(f) as h:
        lines = h.read().split("\n")
    need(len(lines) == 8 and lines[7] == "", "dump has", len(lines) - 1, "lines")
    need(lines[0] == str(x["dim"]), "dump: dimension", lines[0])
    row, col, val = (plain(g[k]) for k in ("row", "col", "val"))
    flat = [c for p in x["cen"] for c in p]
    for k, want in enumerate((row, col, val, x["vol"], x["nbnd"], flat)):
        whole = k in (0, 1, 4)
        got = [(int if whole else float)(v)
               for v in lines[k + 1].split(",") if v != ""]
        tol = (0 if whole else
               1e-12 if x["precision"] == 15 else .51 * 10**-x["precision"])
        need(len(got) == len(want) and all(
            abs(a - b) <= tol for a, b in zip(got, want)),
            "dump: line", k + 1, got, "instead of", want)


def check_module(x, g):
    """Arrays are accepted wherever lists are."""
    n = x["n"]
    prio = list(range(n, 0, -1))
    lists = arrays(dict(x, kind=0))
    out = []
    for d in (lists, g):
        p = np.array(prio, dtype=float) if d is g and x["kind"] else prio
        out.append(CoMMA.agglomerate_one_level(
            d["row"], d["col"], d["val"], d["vol"], d["cen"], p, [], d["nbnd"],
            False, False, True, 4., CoMMA.SeedsPool.BOUNDARY, [], [], True,
            x["dim"], 2, 2, 4))
    need([list(v) for v in out[0]] == [list(v) for v in out[1]],
         "arrays give", out[1], "lists", out[0])


def check_names():
    for table, enum in (
            (T.AR_DESCRIPTIONS, CoMMA.AR),
            (T.NEIGHBOURHOOD_DESCRIPTIONS, CoMMA.Neighbourhood),
            (T.SEED_ORDERING_DESCRIPTIONS, CoMMA.SeedsPool),
            (T.CELL_COUPLING_DESCRIPTIONS, CoMMA.CellCoupling)):
        all_ = set(enum.__members__.values())
        need(set(table) == all_, "descriptions of", enum, set(table) ^ all_)
        need(len(set(table.values())) == len(all_) and all(table.values()),
             "descriptions of", enum, table)


RNG = np.random.default_rng


def run_case(x, scratch):
    # the tools shuffle with fresh generators: make them depend on the case
    s = int(hashlib.sha1(json.dumps(x).encode()).hexdigest()[:8], 16)
    np.random.default_rng = lambda k=None: RNG(s if k is None else k)
    np.random.seed(s)
    random.seed(s)
    g = arrays(x)
    before = json.dumps({k: plain(v) for k, v in g.items()})
    for f in (check_distance, check_coarse, check_blocks, check_lines,
              check_module):
        try:
            f(x, g)
        except Wrong:
            raise
        except Exception as e:
            raise Wrong("%s: %s: %s" % (f.__name__, type(e).__name__, e))
        need(json.dumps({k: plain(v) for k, v in g.items()}) == before,
             f.__name__, "modified its input", g)
    check_dump(x, g, scratch)


def main():
    scratch = tempfile.mkdtemp(dir=A.dir)
    if A.replay:
        with open(A.replay) as f:
            for line in f:
                if line.startswith("input: "):
                    try:
                        check_names()
                        run_case(json.loads(line[7:]), scratch)
                    except Wrong as e:
                        print("failure:", e)
                        sys.exit(1)
        sys.exit(0)
    planned = A.cases or (4000 if A.tier == "quick" else 40000)
    n = [0]
    seen, labels, samples, bad = set(), {}, [], {}
    t_end = time.time() + A.limit

    @seed(A.seed)
    @settings(max_examples=planned, database=None, deadline=None,
              phases=[Phase.generate, Phase.shrink], derandomize=False,
              report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck))
    @given(inputs())
    def prop(x):
        if time.time() > t_end:
            return
        n[0] += 1
        try:
            run_case(x, scratch)
        except Wrong as e:
            bad["x"], bad["why"] = x, str(e)
            raise
        text = json.dumps(x)
        if x["n"] >= 3 and x["edges"]:
            seen.add(hashlib.sha1(text.encode()).hexdigest())
            if len(samples) < 5 and len(text) < 1500:
                samples.append(text)
        deg = {i for e in x["edges"] for i in e}
        for ok, name in (
                (len(deg) < x["n"], "isolated cells"),
                (x["shuffle"], "shuffled"), (x["lines"], "lines"),
                (x["kind"], "arrays"), (len(x["blocks"]) > 1, "blocks")):
            if ok:
                labels[name] = labels.get(name, 0) + 1

    why = None
    try:
        try:
            check_names()
        except Wrong as e:
            bad["x"], bad["why"] = {}, str(e)
            raise
        prop()
    except (Wrong, Flaky):
        why = bad["why"]
    if why is not None:
        with open(A.replay_out, "w") as f:
            f.write("property: C36\ntier: %s\nseed: %d\nfailure: %s\n"
                    % (A.tier, A.seed, " ".join(why.split())))
            if bad["x"]:
                f.write("input: %s\n" % json.dumps(bad["x"]))
            else:
                f.write("input: %s\n" % json.dumps({
                    "n": 1, "dim": 2, "edges": [], "w": [], "vol": [1.],
                    "cen": [[1., 1.]], "nbnd": [0], "wall": [0], "f2c": [0],
                    "lines": [], "blocks": [1], "default": -1, "modulo": None,
                    "shuffle": False, "kind": 0, "precision": 15}))
    with open(os.path.join(A.dir, "result.json"), "w") as f:
        json.dump({"evaluations": max(n[0], 1), "distinct_nontrivial": len(seen),
                   "rule": RULE, "samples": samples, "labels": labels,
                   "planned": planned, "notes": [], "failed": why is not None,
                   "failure": why or "", "failure_case": json.dumps(bad.get("x")),
                   "replay": A.replay_out}, f)
    sys.exit(0 if why is None else 1)


main()
