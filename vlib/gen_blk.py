"""Random block diagram scripts."""
import random
ROWS = {"zero": 1, "PI": 1, "TAU": 1, "value": 1, "->": 1, "->2": 2, "->3": 3, "set": 1, "get": 1, "if": 1, "+": 2, "*": 2, "-": 2, "/": 2, "/%": 2, "accum": 2, "s&h~": 2}
NUMS = ["-7", "-3", "-2", "-1", "0", "1", "2", "3", "4", "5", "9", "11"]
VARS = ["x", "y", "*p", "*q", "&sig1", "&sig2"]
INPS = ["in1", "in2", "alpha", "beta", "delta", "gamma"]


def lbl(r, t, bad):
    if t == "value":
        return r.choice(NUMS) if r.random() > bad else r.choice(["abc", "1.x", "--2"])
    if t == "get":
        return r.choice(INPS + VARS)
    if t == "set":
        return r.choice(VARS + ["&sig1", "&sig2"]) if r.random() < 0.95 else r.choice(INPS)
    return ""


def one(r, prof, nops):
    ops = []
    run = prof in ("run", "small")
    small = prof == "small"
    W, H = (5, 7) if run else (r.choice([3, 4, 6]), r.choice([4, 6]))
    types = ["value", "get", "->", "->2", "->3", "set", "+", "-", "*", "/", "/%", "accum", "s&h~", "zero", r.choice(["PI", "TAU"])]
    if not run:
        types += ["if"] * 4
    srcs = ["value", "get", "get", "value", "accum", "+", "-"]
    bad = 0.02 if run else 0.1
    areas = 1 if run else 3
    neg = 0 if run else r.choice([0, 0, 2])

    def pos():
        return r.randrange(-neg, W), r.randrange(-neg, H)

    def ar():
        if run:
            return 0
        return r.choice([0] * 6 + list(range(1, 7)) + [9])

    def put(x=None, y=None, t=None, a=None):
        px, py = pos()
        t = t or r.choice(types)
        ops.append({"op": "put", "a": ar() if a is None else a, "x": px if x is None else x, "y": py if y is None else y,
                    "typ": t if r.random() > 0.01 else "nope", "lbl": lbl(r, t, bad)})

    def fill(a=0):
        # a few columns of adjacent blocks, so that many ports meet
        dense = run and r.random() < 0.8
        y = {x: 0 if dense else r.randrange(0, 2) for x in range(W)}
        cols = r.randrange(2, W + 1)
        for x in range(cols):
            for _ in range(H if dense and x == 0 else r.randrange(2, 4) if dense else r.randrange(1, 4)):
                t = r.choice(["value", "get", "get"] if dense and x == 0 else srcs if x == 0 else
                             ["set", "set", "->", "+", "-"] if dense and x == cols - 1 else
                             types if r.random() < 0.7 else ["->2", "->3", "-", "/%", "+", "set"])
                if dense and x > 0 and t in ("value", "get", "zero", "PI", "TAU", "set") and x < cols - 1:
                    t = r.choice(["->", "->2", "+", "-", "*", "accum"])
                put(x, y[x], t, a)
                y[x] += ROWS[t] + (0 if dense else r.choice([0, 0, 0, 1]))

    def motif():
        # a forked value that meets again, directly or with detours, with ports moved around
        x, y = r.randrange(0, W - 2), r.randrange(0, H)
        if r.random() < 0.8:
            ops.append({"op": "rm", "a": 0, "x": x + 1, "y": y})
            ops.append({"op": "rm", "a": 0, "x": x + 1, "y": y + 1})
            ops.append({"op": "rm", "a": 0, "x": x + 2, "y": y})
            ops.append({"op": "rm", "a": 0, "x": x + 2, "y": y + 1})
        put(x, y, r.choice(["get", "value", "accum"]), 0)
        put(x + 1, y, r.choice(["->2", "->3", "/%", "->2"]), 0)
        put(x + 2, y + r.choice([0, 0, 0, 1, -1]), r.choice(["-", "/", "/%", "accum", "s&h~", "+", "->2"]), 0)
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            ops.append({"op": "shift", "a": 0, "x": x + r.choice([1, 2, 2]), "y": y, "row": r.choice([0, 1]), "out": r.random() < 0.3})

    def look():
        ops.append({"op": "look", "at": [[r.choice([0, 0, 1, 2]), *pos()] for _ in range(6)]})

    def inputs():
        return [r.randrange(-9, 10) if k in cfg.get("wire", range(6)) else 0 for k in range(6)]

    def runit():
        ops.append({"op": "check"})
        ops.append({"op": "run", "in": inputs(), "n": r.choice([1, 2, 3])})
        if r.random() < 0.3:
            ops.append({"op": "run", "in": inputs(), "n": 2})

    cfg = {}
    if run and r.random() < 0.35:
        cfg = {"wire": r.sample(range(6), 3), "inst": r.choice([0, 0, 1, 3])}
    be = run and r.random() < 0.25
    if not small:
        fill()
    if not run:
        for a in (1, 2, 3):
            if r.random() < 0.4:
                fill(a)
    if run:
        for _ in range(r.choice([1, 2, 2, 3]) if small else r.choice([0, 0, 1, 2])):
            motif()
    (runit if run else look)()
    while len(ops) < nops:
        z = r.random()
        x, y = pos()
        x2, y2 = pos()
        if z < 0.25:
            put() if r.random() < 0.9 or not run else motif()
        elif z < 0.33:
            ops.append({"op": "rm", "a": ar(), "x": x, "y": y})
        elif z < 0.47:
            ops.append({"op": "shift", "a": ar(), "x": x, "y": y, "row": r.choice([0, 0, 0, 1, 1, 2, 3 if r.random() < 0.2 else 0]), "out": r.random() < 0.5})
        elif z < 0.57:
            ops.append({"op": "mv", "a": ar(), "x": x, "y": y, "a2": ar(), "x2": x2, "y2": y2})
        elif z < 0.65:
            ops.append({"op": "cl", "a": ar(), "x": x, "y": y, "a2": ar(), "x2": x2, "y2": y2})
        elif z < 0.75:
            ops.append({"op": "mvc", "a": ar(), "x": x, "y": y, "a2": ar(), "x2": x2, "y2": y2})
        elif z < 0.80:
            f = r.choice(["->", "->", "->", "", "->2", "->3", "zero", "nope" if r.random() < 0.2 else "->"] + ([] if run else ["if"]))
            ops.append({"op": "split", "a": ar(), "x": x, "y": y, "fill": f})
        elif z < 0.83:
            ops.append({"op": "snap"})
        elif z < 0.85 and be:
            ops.append({"op": "backend"})
            runit()
        else:
            (runit if run and r.random() < 0.8 else look)()
    look()
    if run:
        runit()
    return {"cfg": dict(cfg, be=be), "ops": ops}


def gen(seed, count, profiles=("run", "edit")):
    r = random.Random(seed * 6151 + 5)
    out = []
    for k in range(count):
        rr = random.Random(r.getrandbits(60))
        prof = profiles[k % len(profiles)]
        t = one(rr, prof, 45 if prof != "small" else 24)
        t["id"] = "blk-%s-%d-%d" % (prof, seed, k)
        out.append(t)
    return out
