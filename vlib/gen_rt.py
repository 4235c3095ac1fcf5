"""Random sessions with an audio side that is watched (no expectations here)."""
import random
from .gen_pat import catalog  # noqa: F401

SKIP = {"nop", "test"}
TYPES = ["value", "get", "->", "->2", "set", "+", "-", "*", "/", "accum", "s&h~", "zero", "if", "phase", "get"]


class G:
    def __init__(self, r, cat, prof, focus=None):
        self.r, self.prof, self.focus = r, prof, focus
        self.cat = {c["n"]: c for c in cat if c["n"] not in SKIP}
        self.w, self.h = 4, 6
        self.log = r.choice([0, 1])
        self.cells = {}
        self.ops, self.fun, self.smp = [], 0, 0
        names = sorted(self.cat)
        self.kinds = r.sample(names, r.choice([2, 4, 8]))
        if focus:
            self.kinds = [focus] * 3 + self.kinds
        if prof == "own":
            self.kinds = ["sampl"] * 6 + ["rust1x1"] * 3 + self.kinds[:2]
        self.insts = 3

    def op(self, **k):
        self.ops.append(k)

    def change(self):
        r = self.r
        cs = []
        if r.random() < 0.25 and self.cells:
            for p in r.sample(sorted(self.cells), r.choice([1, min(2, len(self.cells))])):
                cs.append({"x": p[0], "y": p[1], "n": ["nop", 0], "o": [-1] * 3, "i": [-1] * 3})
        else:
            # a column: each cell feeds the one below
            x, y = r.randrange(self.w), r.randrange(self.h)
            up = None
            for j in range(r.choice([1, 1, 2, 3, 4])):
                if y + j >= self.h:
                    break
                n = r.choice(self.kinds)
                c = self.cat[n]
                o = r.randrange(len(c["outs"])) if c["outs"] else -1
                i = r.randrange(len(c["ins"])) if c["ins"] and up is not None else -1
                cs.append({"x": x, "y": y + j, "n": [n, r.randrange(self.insts)], "o": [-1, -1, o], "i": [i, -1, -1]})
                up = n
        for c in cs:
            self.cells[(c["x"], c["y"])] = c["n"]
        self.op(op="change", cells=cs)

    def node(self):
        r = self.r
        ns = [n for n in self.cells.values() if n[0] != "nop"]
        if ns and r.random() < 0.9:
            return r.choice(ns)
        return [r.choice(self.kinds), r.randrange(self.insts)]

    def set(self):
        r = self.r
        n = self.node()
        c = self.cat[n[0]]
        x = r.random()
        if x < 0.6 and c["ins"]:
            k = r.randrange(len(c["ins"]))
            lo, hi = c["ins"][k][1], c["ins"][k][2]
            self.op(op="setp", p=n + [k], v=r.choice([0, 4096, r.randint(int(lo * 4096), int(hi * 4096))]))
        elif x < 0.75 and c["ins"]:
            self.op(op="mod", p=n + [r.randrange(len(c["ins"]))], a=r.choice([-999, 64, -128, 256, r.randint(-256, 256)]))
        elif c["ats"]:
            k = r.randrange(len(c["ats"]))
            name, _, mm = c["ats"][k]
            if name in ("sample",):
                return self.sample()
            if name == "keys":
                mm = [0, 4095]
            self.op(op="seta", p=n + [len(c["ins"]) + k], v=r.randint(mm[0], mm[1]))

    def sample(self):
        r = self.r
        n = self.node()
        if n[0] != "sampl":
            n = ["sampl", r.randrange(self.insts)]
        if r.random() < 0.12:
            self.op(op="nosmp", n=n)
            return
        if self.smp == 0 or r.random() < 0.6:
            self.smp += 1
            k = self.smp
        else:
            k = r.randint(max(1, self.smp - 3), self.smp)
        self.op(op="smp", n=n, k=k, len=r.choice([1, 2, 50, 700]))

    def pat(self):
        r = self.r
        i = r.randrange(self.insts)
        rows = r.choice([None, None, 1, 2, 7, 16, 256])
        cells = [[r.randrange(16), r.randrange(6), r.choice([0, 0xFFF, r.randrange(4096)])] for _ in range(r.choice([1, 4, 20]))]
        self.op(op="pat", i=i, rows=rows if rows else "-", types=[[r.randrange(6), r.randrange(4)] for _ in range(r.choice([0, 1, 2]))], cells=cells)
        for _ in range(r.choice([1, 2, 7])):
            self.op(op="chkpat", i=i)

    def code(self):
        r = self.r
        put = []
        x, y = r.randrange(3), r.randrange(4)
        for j in range(r.choice([1, 2, 3, 4])):
            put.append([x + j, y, r.choice(TYPES)])
        rm = [[r.randrange(5), r.randrange(5)] for _ in range(r.choice([0, 0, 1]))]
        self.op(op="code", i=r.randrange(self.insts), put=put, rm=rm)

    def ev(self):
        r = self.r
        x = r.random()
        c = r.choice([0, 0, 1, 15])
        if x < 0.4:
            return ["on", c, r.randrange(128), 64 * r.randint(1, 64)]
        if x < 0.7:
            return ["off", c, r.randrange(128), 0]
        return ["cc", c, r.randrange(128), 64 * r.randint(0, 64)]

    def midi(self):
        r = self.r
        if r.random() < 0.3:
            for _ in range(r.choice([1, 3, 70])):
                self.op(op="inject", ev=self.ev())
        rep = r.choice([0, 1, 1, 1, 3, 200, 1200])
        evs = [[r.randrange(128)] + self.ev() for _ in range(r.choice([1, 2, 5]))]
        self.op(op="midi", evs=evs, rep=rep)

    def blk(self, held=False):
        r = self.r
        ns = [r.choice([1, 2, 16, 64, 127, 128, 128]) for _ in range(r.choice([1, 3, 10, 40]))]
        self.op(op="held" if held else "blk", ns=ns)

    def settle(self):
        if self.r.random() < 0.7:
            self.op(op="upd")
        self.op(op="settle")

    def go(self):
        r = self.r
        w = {"all": {"change": 5, "set": 10, "sample": 2, "dyn": 2, "pat": 3, "code": 2, "midi": 3, "mon": 2, "events": 1, "upd": 10, "blk": 8,
                     "held": 1, "clear": 0.4, "settle": 0, "rate": 0.5},
             "own": {"change": 4, "set": 2, "sample": 8, "dyn": 5, "pat": 0, "code": 0, "midi": 0, "mon": 1, "events": 0, "upd": 6, "blk": 2,
                     "held": 0.2, "clear": 0.8, "settle": 0.6, "rate": 0}}[self.prof]
        w = {k: v for k, v in w.items() if v}
        kinds, ws = list(w), list(w.values())
        self.op(op="first")
        for _ in range(3):
            self.change()
        n = {"all": 70, "own": 60}[self.prof]
        while len(self.ops) < n:
            k = r.choices(kinds, ws)[0]
            if k == "dyn":
                self.fun += 1
                self.op(op="dyn", i=r.randrange(self.insts), k=self.fun)
            elif k == "mon":
                self.op(op="mon", x=r.randrange(self.w), y=r.randrange(self.h))
            elif k == "upd":
                self.op(op="upd")
                if r.random() < 0.7:
                    self.blk()
            elif k == "events":
                self.op(op="events")
            elif k == "held":
                self.blk(True)
            elif k == "clear":
                self.op(op="clear")
                self.cells = {}
            elif k == "rate":
                self.op(op="rate", v=r.choice([44100, 48000, 22050, 96000]))
            else:
                getattr(self, k)()
        if self.prof == "own":
            self.settle()
        return {"w": self.w, "h": self.h, "sr": r.choice([44100, 48000, 22050]), "log": self.log, "rt": 1}, self.ops


def gen(seed, n, cat):
    names = sorted(c["n"] for c in cat if c["n"] not in SKIP)
    out = []
    for k in range(n):
        prof = "own" if k % 5 == 0 else "all"
        r = random.Random("rt-%d-%d" % (seed, k))
        g = G(r, cat, prof, names[k % len(names)] if prof == "all" else None)
        cfg, ops = g.go()
        out.append({"id": "rt-%d-%s" % (k, prof), "cfg": cfg, "ops": ops})
    return out
