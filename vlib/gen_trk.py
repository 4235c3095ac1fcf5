"""Random tracker scripts."""
import random
TYPES = ["note", "step", "value", "gate"]


def cellv(r, t):
    if t == "note":
        return r.choice([0, 20, 60, 69, 70, 81, 100, 127, 189, 190, 255, r.randrange(256)])
    if t == "gate":
        return r.choice([0xFFF, 0xFF0, 0xFF7, 0xFE7, 0xFC0, 0xF00, 0xF0F, 0xFA3, 0x7FF, 0x0F0, 0xF00 | r.randrange(256), r.randrange(4096)])
    return r.choice([0, 1, 0xFFF, 0x777, 0x800, r.randrange(4096)])


def one(r, nops, mode):
    rows = 256
    types = ["value"] * 6
    ops = []
    small = r.random() < 0.85

    def settle():
        at = []
        if rows:
            rs = {0, rows - 1, rows // 2, min(1, rows - 1)} | {r.randrange(rows) for _ in range(5)}
            at = [[x, r.randrange(16)] for x in sorted(rs)]
            r.shuffle(at)
        ops.append({"op": "settle", "rows": rows, "at": at})

    def readback():
        ops.append({"op": "cells", "at": [[r.choice([0, 1, 2, 3, 7, 15, 255, 256]), r.choice([0, 1, 2, 3, 4, 5, 6])] for _ in range(12)]})

    def rr():
        return r.choice([0, 1, 2, 3, max(rows - 1, 0), r.randrange(max(rows, 1)), r.randrange(256), 255])
    if small:
        rows = r.choice([1, 2, 3, 4, 8, 16])
        ops.append({"op": "rows", "n": rows})
    while len(ops) < nops:
        x = r.random()
        if x < 0.42:
            c = r.randrange(6)
            for _ in range(r.choice([1, 1, 3])):
                ops.append({"op": "set", "r": rr(), "c": c, "v": cellv(r, types[c])})
        elif x < 0.50:
            ops.append({"op": "clr", "r": rr(), "c": r.randrange(6)})
        elif x < 0.54:
            ops.append({"op": "chg", "r": rr(), "c": r.randrange(6), "v": r.choice([1, -1, 16, -16, 256, -256, 4095])})
        elif x < 0.62:
            c = r.randrange(6)
            types[c] = r.choice(TYPES)
            ops.append({"op": "type", "c": c, "t": types[c]})
        elif x < 0.68:
            rows = r.choice([1, 2, 3, 4, 5, 8, 16, 17, 64, 256, 300 if r.random() < 0.3 else 7, 0 if r.random() < 0.3 else 6])
            ops.append({"op": "rows", "n": rows})
            rows = min(rows, 256)
        elif x < 0.74:
            ops.append({"op": "send", "k": r.choice([1, 2, 3, 6, 10])})
        elif x < 0.77:
            # an edit storm with nobody receiving
            if r.random() < 0.4:
                for _ in range(r.choice([3, 40, 70])):
                    ops.append({"op": "set", "r": rr(), "c": r.randrange(6), "v": r.randrange(4096)})
                    ops.append({"op": "send", "k": r.choice([1, 1, 6])})
        elif x < 0.83:
            ops.append({"op": "recv", "k": r.choice([1, 1, 2, 5])})
        elif x < 0.86:
            ops.append({"op": "backend"})
        elif x < 0.89:
            rows = r.choice([1, 4, 16, 256])
            types = [r.choice(TYPES) for _ in range(6)]
            cells = [[r.randrange(rows), c, cellv(r, types[c])] for c in [r.randrange(6) for _ in range(r.choice([0, 2, 8]))]]
            ops.append({"op": "load", "n": rows, "types": list(types), "cells": cells})
        elif x < 0.95:
            settle()
        else:
            readback()
    settle()
    readback()
    return {"cfg": {"mode": mode}, "ops": ops}


def gen(seed, count, nops=50):
    r = random.Random(seed * 7919 + 3)
    out = []
    for k in range(count):
        rr = random.Random(r.getrandbits(60))
        t = one(rr, nops, "raw" if k % 3 else "mx")
        t["id"] = "trk-%s-%d-%d" % (t["cfg"]["mode"], seed, k)
        out.append(t)
    return out
