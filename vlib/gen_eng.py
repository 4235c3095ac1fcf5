"""Random operation scripts for the engine family (no expectations here)."""
import random

NOUT = {"rust1x1": 1, "exta": 3, "extb": 3, "test": 6, "out": 0, "sin": 1, "amp": 1, "mix3": 1, "mux9": 1, "tseq": 12,
        "delay": 1, "nop": 0, "fbwr": 0, "ad": 2}
NIN = {"rust1x1": 5, "exta": 4, "extb": 4, "test": 1, "out": 3, "sin": 3, "amp": 3, "mix3": 7, "mux9": 13, "tseq": 2,
       "delay": 5, "nop": 0, "fbwr": 1, "ad": 6}
INDIR = ["T", "TL", "BL"]


def offs(d, x):
    e = x % 2 == 0
    return {"TR": (1, -1 if e else 0), "BR": (1, 0 if e else 1), "B": (0, 1),
            "BL": (-1, 0 if e else 1), "TL": (-1, -1 if e else 0), "T": (0, -1)}[d]


class G:
    def __init__(self, r, profile):
        self.r = r
        self.p = profile
        self.w = r.choice([2, 3, 3, 4, 5])
        self.h = r.choice([2, 3, 3, 4])
        if r.random() < 0.15:
            self.w, self.h = r.choice([(1, 6), (2, 9), (9, 2), (7, 1), (3, 7)])
        if profile == "big":
            self.w, self.h = r.choice([(8, 8), (7, 9), (16, 6)])
        self.sr = r.choice([44100, 48000, 8000, 44100])
        if profile == "fan":
            self.w, self.h = r.choice([(14, 12), (12, 13), (16, 10)])
        if profile == "ask" and r.random() < 0.5:
            self.w, self.h = r.choice([(4, 4), (5, 5), (6, 4), (1, 5), (5, 1), (8, 8)])
        self.ninst = r.choice([3, 5, 8]) if profile not in ("big", "fan") else 24
        self.ops = []
        self.lay = {}          # shadow layout, used only to make scripts interesting
        self.placed = set()
        self.ver = 0
        self.nchain = 0
        self.vals = {}

    def rv(self):
        return self.r.choice([0, 64, -64, 1024, -1024, 2048, 4096, -4096, 64 * self.r.randint(-64, 64)])

    def setp(self, key, v):
        self.vals.setdefault(tuple(key), [0]).append(v)
        self.ops.append({"op": "setp", "p": key, "v": v})

    def wiggle(self):
        """change a parameter and set it again (often back) before, during or after its ramp"""
        r = self.r
        key = self.key()
        for _ in range(r.choice([2, 2, 3])):
            old = self.vals.get(tuple(key), [0])
            self.setp(key, r.choice([old[-1], old[-2] if len(old) > 1 else 0, self.rv(), self.rv()]))
            x = r.random()
            if x < 0.2:
                self.ops.append({"op": "upd"})
            elif x < 0.4:
                self.run()
            elif x < 0.5:
                self.setp(self.key(), self.rv())
        if r.random() < 0.6:
            self.settle()

    def node(self):
        r = self.r
        t = r.choices(["rust1x1", "exta", "extb", "test", "out", "amp", "mix3", "mux9", "tseq", "fbwr"],
                      [60, 5, 3, 8, 4, 4, 4, 3, 2, 1])[0]
        i = r.randrange(self.ninst) if t == "rust1x1" else (0 if t == "out" else r.randrange(2))
        return [t, i]

    def port(self, cnt):
        r = self.r
        if r.random() < 0.03:
            return r.choice([cnt, cnt + 1, 31, 32, 33, 63, 200, 255])
        return r.randrange(cnt) if cnt else -1

    def cell(self, x, y, dens=0.75, node=None):
        r = self.r
        if node is None and r.random() < 0.08:
            return {"x": x, "y": y, "n": ["nop", 0], "o": [-1] * 3, "i": [-1] * 3}
        n = node or self.node()
        o = [self.port(NOUT[n[0]]) if r.random() < dens else -1 for _ in range(3)]
        i = [-1] * 3
        k = NIN[n[0]]
        if k:
            ports = r.sample(range(k), min(3, k)) + [0, 0, 0]
            for j in range(3):
                if r.random() < dens:
                    i[j] = ports[j] if (k >= 3 or j < k) and r.random() < 0.93 else self.port(k)
                    if k < 3 and j >= k and r.random() < 0.8:
                        i[j] = -1
        return {"x": x, "y": y, "n": n, "o": o, "i": i}

    def pos(self):
        return self.r.randrange(self.w), self.r.randrange(self.h)

    def fresh(self):
        """a node id not yet placed in the shadow layout"""
        used = {tuple(c["n"]) for c in self.lay.values()}
        cand = [["rust1x1", k] for k in range(self.ninst) if ("rust1x1", k) not in used]
        return self.r.choice(cand) if cand else None

    def edit_cells(self):
        r = self.r
        k = r.choice([1, 1, 1, 2, 2, 3, 5])
        out = []
        for _ in range(k):
            x, y = self.pos()
            if r.random() < 0.02:
                x = self.w + r.randrange(2)
            nd = None
            if r.random() < 0.7:
                nd = self.fresh()
            out.append(self.cell(x, y, node=nd))
            self.lay[(x, y)] = out[-1]
        for c in out:
            self.placed.add(tuple(c["n"]))
        return out

    def key(self):
        r = self.r
        c = [n for n in self.placed if n[0] == "rust1x1"]
        n = r.choice(sorted(c)) if c and r.random() < 0.9 else ("rust1x1", r.randrange(self.ninst))
        return [n[0], n[1], r.randrange(5)]

    def modkey(self):
        # prefer connected inputs
        r = self.r
        cand = []
        for c in self.lay.values():
            if c["n"][0] == "rust1x1":
                cand += [[c["n"][0], c["n"][1], k] for k in c["i"] if 0 <= k < 5]
        return r.choice(cand) if cand and r.random() < 0.8 else self.key()

    def mod(self):
        """one amount, sometimes nudged a few times"""
        r = self.r
        k, a = self.modkey(), r.choice([-999, -999, -256, -128, -16, 0, 16, 64, 128, 256, 80, r.randint(-256, 256)])
        self.ops.append({"op": "mod", "p": k, "a": a})
        while a != -999 and r.random() < 0.4:
            if r.random() < 0.5:
                self.run()
            a = max(-256, min(256, a + r.choice([1, -1, 2, 16, -40])))
            self.ops.append({"op": "mod", "p": k, "a": a})

    def mods(self):
        """amounts for most of the inputs"""
        r = self.r
        keys = sorted({(c["n"][0], c["n"][1], k) for c in self.lay.values() if c["n"][0] == "rust1x1" for k in c["i"] if 0 <= k < 5})
        for k in keys:
            if r.random() < 0.8:
                self.ops.append({"op": "mod", "p": list(k), "a": r.choice([-256, 16, 128, 256, r.randint(-256, 256)])})
                if r.random() < 0.1:
                    self.run()
        self.run()

    def run(self, n=None):
        r = self.r
        self.ops.append({"op": "upd"})
        for _ in range(r.choice([1, 1, 2])):
            self.ops.append({"op": "blk", "n": n or r.choice([1, 2, 7, 32, 64, 100, 127, 128, 128])})

    def settle(self):
        self.ops.append({"op": "upd"})
        tot = 0
        while tot < 520:
            n = self.r.choice([128, 128, 128, 64, 100])
            self.ops.append({"op": "blk", "n": n})
            tot += n
        self.ops.append({"op": "blk", "n": self.r.choice([1, 64, 128])})

    def chain(self):
        r = self.r
        links = []
        for _ in range(r.choice([1, 2, 2, 3, 3, 4, 6])):
            t = r.choice(["rust1x1", "rust1x1", "amp", "test", "mux9", "mix3"])
            if t == "rust1x1":
                self.nchain += 1
                if self.nchain > 14:
                    t = "amp"
            links.append({"n": t, "o": r.randrange(NOUT[t]) if r.random() < 0.8 else -1, "i": r.randrange(NIN[t]) if r.random() < 0.8 else -1})
        ps = [[j + 1, r.randrange(5), self.rv()] for j, l in enumerate(links) if l["n"] == "rust1x1" for _ in range(r.choice([0, 1, 1, 2]))]
        x, y = self.pos()
        self.ops.append({"op": "chain", "d": r.randrange(6), "x": x, "y": y, "links": links, "ps": ps, "early": r.randrange(2),
                         "bad": r.randint(1, len(links)) if r.random() < 0.1 else 0})
        if r.random() < 0.7:
            self.ops.append({"op": "sync"})
        if r.random() < 0.3:
            self.run()

    def asks(self):
        """questions about the layout"""
        r = self.r
        c = r.random()
        if c < 0.5:
            for _ in range(r.choice([1, 2, 3])):
                x, y = self.pos()
                self.ops.append({"op": "around", "x": x if r.random() < 0.97 else self.w, "y": y})
        elif c < 0.7:
            m = r.choice([3, 8, 30, 127])
            a = [r.randrange(m), r.randrange(m)]
            b = [r.randrange(m), r.randrange(m)] if r.random() < 0.6 else [max(0, a[0] + r.randint(-1, 1)), max(0, a[1] + r.randint(-1, 1))]
            self.ops.append({"op": "path", "a": a, "b": b})
        elif c < 0.85:
            x, y = self.pos()
            self.ops.append({"op": "conns", "x": x, "y": y})
        else:
            self.ops.append({"op": "unused", "n": [r.choice(["rust1x1", "amp", "mux9"]), r.choice([0, 0, 1, 255])]})

    def queries(self):
        r = self.r
        ns = [["rust1x1", k] for k in range(self.ninst)]
        x, y = self.pos()
        ps = [["rust1x1", k, j] for k in range(min(self.ninst, 4)) for j in range(5)]
        c = r.randrange(6)
        if c == 0:
            self.ops.append({"op": "led", "ns": ns})
        elif c == 1:
            fb = [["rust1x1", k, 0] for k in range(self.ninst)] + [["rust1x1", 0, 1], ["test", 0, 0], ["test", 0, 5],
                                                                    ["test", 0, 2], ["exta", 0, 2], ["exta", 0, 3]]
            self.ops.append({"op": "fb", "ns": fb})
        elif c == 2:
            self.ops.append({"op": "unused", "n": [r.choice(["rust1x1", "test", "exta"]), r.randrange(2)]})
        elif c == 3:
            self.ops.append({"op": "used", "ps": ps})
        elif c == 4:
            self.ops.append({"op": "conns", "x": x if r.random() < 0.95 else self.w, "y": y})
        else:
            self.ops.append({"op": "getp", "ps": ps + [["test", 0, 1]]})

    def build_dag(self):
        """a mostly valid dense layout"""
        r = self.r
        cells = []
        names = [["rust1x1", k] for k in range(self.ninst)]
        r.shuffle(names)
        for x in range(self.w):
            for y in range(self.h):
                if r.random() < 0.8:
                    nd = names.pop() if names and r.random() < 0.75 else r.choice(
                        [["exta", r.randrange(2)], ["test", r.randrange(3)], ["mux9", r.randrange(9)], ["mix3", r.randrange(9)],
                         ["amp", r.randrange(9)]])
                    cells.append(self.cell(x, y, dens=0.9, node=nd))
        return cells

    def full(self):
        """nodes with the highest instance numbers before (and among) the others"""
        r = self.r
        if r.random() < 0.15:
            return self.every()
        for _ in range(r.choice([1, 1, 2])):
            n = [r.choice(["amp", "mux9", "test"]), r.choice([255, 255, 254, 251])]
            x, y = self.pos()
            c = self.cell(x, y, node=n)
            self.lay[(x, y)] = c
            self.placed.add(tuple(n))
            self.ops += [{"op": "place", "cells": [c]}, {"op": "sync"}]
        cells = self.build_dag()
        for c in cells:
            if (c["x"], c["y"]) not in self.lay:
                self.ops.append({"op": "change", "cells": [c]})
                self.placed.add(tuple(c["n"]))
        self.ops.append({"op": "sync"})
        self.run()
        self.ops.append({"op": "led", "ns": [["rust1x1", k] for k in range(self.ninst)]})

    def every(self):
        """(nearly) all instances of one node in use"""
        r = self.r
        self.w, self.h = 16, 16
        ks = list(range(256))
        r.shuffle(ks)
        for _ in range(r.choice([0, 0, 1, 5])):
            ks.pop()
        t = r.choice(["amp", "mux9"])
        cells = [{"x": j % 16, "y": j // 16, "n": [t, k], "o": [-1] * 3, "i": [-1] * 3} for j, k in enumerate(ks)]
        self.ops += [{"op": "change", "cells": cells}, {"op": "sync"}]
        for k in (0, 255, r.randrange(256)):
            self.ops.append({"op": "unused", "n": [t, k]})

    def fan(self):
        """one node in many cells, feeding more nodes than a cell has edges"""
        r = self.r
        src = ["rust1x1", r.randrange(self.ninst)]
        names = [["rust1x1", k] for k in range(self.ninst) if k != src[1]]
        names += [[t, k] for t in ("amp", "mix3", "mux9", "fbwr", "delay") for k in range(30)]
        dens = r.choice([0.3, 0.9, 1.0])
        cells = []
        for x in range(self.w):
            for y in range(self.h):
                if x % 2 == 0:
                    cells.append({"x": x, "y": y, "n": src, "o": [0, 0, -1], "i": [-1] * 3})
                elif names and r.random() < dens:
                    n = names.pop(0) if r.random() < 0.5 else names.pop()
                    k = NIN[n[0]]
                    a = r.randrange(k)
                    cells.append({"x": x, "y": y, "n": n, "o": [-1] * 3, "i": [-1] + ([a, -1] if r.random() < 0.5 else [-1, a])})
        for c in cells:
            self.lay[(c["x"], c["y"])] = c
            self.placed.add(tuple(c["n"]))
        self.ops += [{"op": "change", "cells": cells}, {"op": "sync"}]
        self.run()

    def stall(self):
        """so many changes while the audio side picks nothing up that its queue is full"""
        r = self.r
        for _ in range(r.choice([540, 600, 700, 900])):
            x = r.random()
            if x < 0.9:
                self.setp(self.key(), self.rv())
            elif x < 0.95:
                self.ops.append({"op": "mod", "p": self.modkey(), "a": r.choice([-999, -256, 16, 64, 128, 256])})
            elif x < 0.985:
                self.ops.append({"op": "seta", "p": ["test", r.randrange(2), 1], "v": 64 * r.randint(0, 64)})
            else:
                self.ops.append({"op": "sync"})
        if r.random() < 0.5:
            self.ops.append({"op": "sync"})
        self.ops.append({"op": "catch"})
        self.settle()

    def make(self, nops):
        r = self.r
        if self.p in ("dag", "big", "storm", "stall") or (self.p == "ask" and r.random() < 0.4):
            cells = self.build_dag()
            # in pieces, so that a rejected piece does not empty everything
            r.shuffle(cells)
            while cells:
                k = r.choice([1, 2, 3])
                part, cells = cells[:k], cells[k:]
                for c in part:
                    self.lay[(c["x"], c["y"])] = c
                    self.placed.add(tuple(c["n"]))
                self.ops.append({"op": "change", "cells": part})
            self.ops.append({"op": "sync"})
            self.run()
        if self.p in ("dag", "big") and r.random() < 0.3:
            self.mods()
        if self.p == "full":
            self.full()
        if self.p == "stall":
            self.stall()
        if self.p == "fan":
            self.fan()
        if self.p == "storm":
            keys = [["rust1x1", n[1], k] for n in sorted(self.placed) if n[0] == "rust1x1" for k in range(5)]
            for rep in range(r.choice([1, 2])):
                for k in keys[:r.choice([30, 45, 70, 120])]:
                    self.setp(k, self.rv())
                self.run()
            self.settle()
        while len(self.ops) < nops:
            c = r.random()
            if self.p == "ask" and r.random() < 0.5:
                if r.random() < 0.25:
                    self.chain()
                else:
                    self.asks()
                continue
            if c < 0.20:
                self.ops.append({"op": "change", "cells": self.edit_cells()})
                if r.random() < 0.75:
                    self.ops.append({"op": "sync"})
            elif c < 0.25:
                self.ops.append({"op": "placem", "cells": self.edit_cells()})
                if r.random() < 0.6:
                    self.ops.append({"op": "sync"})
            elif c < 0.29:
                self.ops.append({"op": "place", "cells": self.edit_cells()})
                if r.random() < 0.5:
                    self.ops.append({"op": "sync"})
            elif c < 0.31:
                self.ops.append({"op": "check"})
            elif c < 0.34:
                self.ops.append({"op": r.choice(["save", "restore"])})
            elif c < 0.39:
                self.ops.append({"op": "sync"})
            elif c < 0.49:
                for _ in range(r.choice([1, 1, 2, 4])):
                    self.setp(self.key(), self.rv())
            elif c < 0.52:
                self.wiggle()
            elif c < 0.56:
                if r.random() < 0.7:
                    self.ops.append({"op": "seta", "p": ["test", r.randrange(2), 1], "v": 64 * r.randint(0, 64)})
                else:
                    self.ops.append({"op": "seta", "p": ["out", 0, 3], "v": r.randrange(2)})
            elif c < 0.66:
                self.mod()
            elif c < 0.68:
                self.ops.append({"op": r.choice(["prop", "prop", "getprop"]), "k": r.choice("abc"), "v": r.randint(0, 9)})
            elif c < 0.70:
                if r.random() < 0.5:
                    self.ops.append({"op": "clear"})
                    self.lay = {}
                    self.placed = set()
            elif c < 0.73:
                self.ver += 1
                self.ops.append({"op": "dyn", "i": r.randrange(self.ninst), "v": self.ver})
            elif c < 0.83:
                self.run()
            elif c < 0.86:
                self.ops.append({"op": "upd"})
            elif c < 0.89:
                self.ops.append({"op": "blk", "n": r.choice([1, 64, 128])})
            elif c < 0.91:
                self.settle()
            else:
                self.queries()
        self.run()
        self.settle()
        for _ in range(4):
            self.queries()
        return {"cfg": {"w": self.w, "h": self.h, "sr": self.sr}, "ops": self.ops}


def gen(seed, count, profiles=("mix", "mix", "dag", "dag", "storm", "big"), nops=60):
    r = random.Random(seed)
    out = []
    for k in range(count):
        g = G(random.Random(r.getrandbits(60)), profiles[k % len(profiles)])
        t = g.make(nops)
        t["id"] = "rnd-%s-%d-%d" % (g.p, seed, k)
        out.append(t)
    return out
