"""Random nodes, settings and signals, each run with several divisions into blocks (no expectations here)."""
import random
from .gen_pat import catalog  # noqa: F401  (node catalogue of the code under test)

SKIP = {"nop", "test", "rust1x1", "code"}      # test: not part of the API; functions: see eng, blk


# documented as not for (fast) modulation: these keep their value
SLOW = {("sampl", "dcms"), ("biqfilt", "freq"), ("biqfilt", "q"), ("biqfilt", "gain")}
# what a scope shows is set up once per block
SLOW |= {("scope", n) for n in ("time", "thrsh", "off1", "off2", "off3", "gain1", "gain2", "gain3")}


def signal(r, lo, hi, n):
    """n values in 1/4096 of some shape, between lo and hi (norm values)"""
    lo, hi = int(lo * 4096), int(hi * 4096)
    k = r.choice(["const", "noise", "ramp", "trig", "steps", "square", "extreme"])
    if k == "const":
        return [r.randint(lo, hi)] * n
    if k == "noise":
        return [r.randint(lo, hi) for _ in range(n)]
    if k == "ramp":
        a, b = r.randint(lo, hi), r.randint(lo, hi)
        return [a + (b - a) * j // n for j in range(n)]
    if k == "trig":
        out = [max(lo, 0)] * n
        for _ in range(r.choice([1, 2, 5, 12])):
            p = r.randrange(n)
            for j in range(p, min(n, p + r.choice([1, 1, 2, 10]))):
                out[j] = hi
        return out
    if k == "steps":
        out, v = [], r.randint(lo, hi)
        for _ in range(n):
            if r.random() < 0.05:
                v = r.choice([r.randint(lo, hi), lo, hi])
            out.append(v)
        return out
    if k == "extreme":
        return [r.choice([lo, hi, max(lo, 0)]) for _ in range(n)]
    p = r.choice([1, 2, 3, 17, 40])
    return [hi if (j // p) % 2 else max(lo, 0) for j in range(n)]


def cut(r, n):
    k = r.choice(["max", "ones", "small", "mixed", "mixed"])
    out, left = [], n
    while left:
        b = {"max": 128, "ones": 1 if left > n - 60 else 64, "small": r.randint(1, 9) if left > n - 100 else 100,
             "mixed": r.choice([1, 2, 7, 31, 64, 127, 128])}[k]
        b = min(b, left)
        out.append(b)
        left -= b
    return out


def script(seed, k, node):
    r = random.Random("part-%d-%d" % (seed, k))
    total = r.choice([200, 257, 300])
    sets, src, sigs = {}, [], []
    for name, lo, hi in node["ins"]:
        x = r.random()
        if x < 0.45 and (node["n"], name) not in SLOW:
            src.append([0, name])
            sigs.append(signal(r, lo, hi, total))
        elif x < 0.8:
            sets[name] = str(r.randint(int(lo * 4096), int(hi * 4096)))
    for name, _, mm in node["ats"]:
        if name == "sample":
            if r.random() < 0.9:
                sets[name] = [r.choice([44100, 22050, 48000])] + [r.randint(-4096, 4096) for _ in range(r.choice([1, 2, 3, 10, 150]))]
        elif name == "keys":
            sets[name] = r.choice([0, 1, 4095, r.randrange(4096)])
        else:
            sets[name] = r.randint(mm[0], mm[1])
    if node["n"] == "sfilter" and sets["ftype"] == 13:
        # documented as unstable for high cutoff frequencies
        ps = [p for _, p in src]
        if "freq" in ps:
            del src[ps.index("freq")], sigs[ps.index("freq")]
        sets["freq"] = str(r.randint(-2000, 1200))
    i = r.choice([0, 0, 1, 2])
    nodes = [{"n": node["n"], "i": i, "set": sets}]
    snk = [[0, o] for o in node["outs"]]
    if node["n"] == "fbwr":
        nodes.append({"n": "fbrd", "i": i, "set": {}})
        if r.random() < 0.5:
            nodes.reverse()
            src = [[1, p] for _, p in src]
        snk = [[[n["n"] for n in nodes].index("fbrd"), "sig"]]
    host = [signal(r, -1, 1, total) for _ in range(2)] if node["n"] == "inp" else []
    if node["n"] == "scope" and r.random() < 0.7:
        sets["time"] = str(r.randint(0, 900))         # short enough to come around within the run
    change = None
    knobs = [(name, mm) for name, _, mm in node["ats"] if name not in ("sample", "keys", "ftype")]
    if knobs and r.random() < 0.3:                    # a setting changes at some frame of every run
        name, mm = r.choice(knobs)
        change = (r.randrange(1, total), {"op": "set", "k": [n["n"] for n in nodes].index(node["n"]), "name": name, "v": r.randint(mm[0], mm[1])})
    ops = []
    for run in range(3):
        if run:
            ops.append({"op": "fresh", "srat": r.choice([0, 1, 2])})
        at = 0
        parts = [total] if change is None else [change[0], total - change[0]]
        for j, part in enumerate(parts):
            if j:
                ops.append(dict(change[1]))
            for b in (cut(r, part) if run else [min(128, part - j) for j in range(0, part, 128)]):
                op = {"op": "blk", "n": b, "in": [s[at:at + b] for s in sigs], "host": [h[at:at + b] for h in host]}
                ops.append(op)
                at += b
        ops.append({"op": "scopes"})
    cfg = {"sr": r.choice([44100, 48000, 22050, 96000]), "bits": 1, "nodes": nodes, "src": src, "snk": snk, "wire": []}
    if node["n"] == "tseq":
        rows = r.choice([1, 2, 4, 16, 32])
        types = [r.randrange(4) for _ in range(6)]
        cells = [[r.randrange(rows), r.randrange(6), r.randrange(4096)] for _ in range(r.choice([1, 10, 40]))]
        # gates of less than full probability are random
        cfg["pat"] = {"rows": rows, "types": types, "cells": [[a, b, c | 0xF00 if types[b] == 2 else c] for a, b, c in cells]}
    return {"id": "part-%d-%s" % (k, node["n"]), "cfg": cfg, "ops": ops}


def gen(seed, n, cat):
    nodes = [c for c in cat if c["n"] not in SKIP]
    return [script(seed, k, nodes[k % len(nodes)]) for k in range(n)]
