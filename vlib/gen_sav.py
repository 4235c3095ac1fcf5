"""Histories of editing, saving (with crashes and I/O errors at any file operation) and loading."""
import random


def gen(seed, count, profiles=None):
    r0 = random.Random(seed)
    out = []
    for k in range(count):
        r = random.Random(r0.getrandbits(60))
        ops, v = [], 0
        files = ["a.hxy", "b.hxy"]
        for _ in range(r.choice([4, 8, 14])):
            c = r.random()
            if c < 0.8:
                v += 1
                ops.append({"op": "edit", "v": v, "len": r.choice([0, 1, 10, 1000, 5000, 70000, 300000])})
                f = r.choice(files) if r.random() < 0.95 else "nodir/x.hxy"
                fault = r.choice(["none", "none", "crash", "crash", "mid", "mid", "err", "short"])
                if f.startswith("nodir"):
                    fault = "err"
                ops.append({"op": "save", "f": f, "fault": fault, "k": 1 if f.startswith("nodir") else r.choice([1, 2, 2, 3, 3, 4, 5, 6])})
            elif c < 0.9:
                ops.append({"op": "load", "f": r.choice(files)})
            else:
                ops.append({"op": "ls", "fs": files})
        ops.append({"op": "ls", "fs": files})
        for f in files:
            ops.append({"op": "load", "f": f})
        v += 1
        ops.append({"op": "edit", "v": v, "len": 3})
        ops.append({"op": "save", "f": "a.hxy", "fault": "none", "k": 0})
        ops.append({"op": "load", "f": "a.hxy"})
        out.append({"id": "sav-%d-%d" % (seed, k), "cfg": {"x": 0}, "ops": ops})
    return out
