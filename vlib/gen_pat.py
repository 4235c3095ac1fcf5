"""Random edit/save/load histories of whole patches (no expectations here)."""
import json, os, random

CAT = None
BTYPES = ["+", "*", "value", "zero", "get", "set", "if", "sin", "phase", "rgt", "lerp"]


def catalog(binary, work):
    global CAT
    if CAT is None:
        import subprocess
        p = os.path.join(work, "catalog.json")
        subprocess.run([binary, "catalog", p], check=True)
        CAT = json.load(open(p))
    return CAT


class G:
    def __init__(self, r, profile, cat):
        self.r, self.p, self.cat = r, profile, cat
        self.w, self.h = r.choice([(3, 3), (4, 4), (2, 6), (5, 3), (8, 8)])
        self.ops = []
        self.nodes = []
        for _ in range(r.choice([2, 4, 7])):
            self.nodes.append((r.choice(cat), r.choice([0, 0, 0, 1, 2, 3, 7]) if r.random() < 0.94 else r.choice([31, 127, 128, 130, 200, 255])))
            if self.nodes[-1][1] > 7 and self.nodes[-1][0]["n"] in ("delay", "allp", "comb", "pverb", "sampl", "scope", "rust1x1", "fbwr", "fbrd"):
                self.nodes[-1] = (self.nodes[-1][0], 0)          # (256 delay lines take gigabytes)
        if profile == "mut" and r.random() < 0.5:
            self.nodes += [(c, 0) for c in cat if c["n"] in ("code", "tseq")]
        self.watch = set()
        for c, k in self.nodes:
            for n in r.sample(c["ins"], min(3, len(c["ins"]))):
                self.watch.add((c["n"], k, n[0]))
            for n in c["ats"]:
                self.watch.add((c["n"], k, n[0]))
        self.keys = {}
        for c, k in self.nodes:
            for n in c["ins"]:
                self.keys[(c["n"], k, n[0])] = ("p", n[1], n[2])
            for n in c["ats"]:
                self.keys[(c["n"], k, n[0])] = ("a", n[1], n[2])
        self.pats = [0, 1, 2, 3, 3] if r.random() < 0.8 else [0, 1, 127, r.choice([128, 129, 200, 255])]
        self.bfs = [0, 0, 1, 2] if r.random() < 0.85 else [0, 31, r.choice([32, 33, 40, 127, 128, 200, 255])]
        self.saved = []
        self.areas = {}

    def val(self, lo, hi):
        a, b = int(lo * 64) + (1 if lo * 64 != int(lo * 64) and lo > 0 else 0), int(hi * 64)
        v = self.r.choice([a, b, self.r.randint(a, b), self.r.randint(a, b)])
        if v * 64 < lo * 4096:
            v += 1
        if v * 64 > hi * 4096:
            v -= 1
        return 64 * v

    def atom(self):
        r = self.r
        k = r.randrange(5)
        if k == 0:
            return ["i", str(r.choice([0, 1, -1, 31337, 2 ** 40, -2 ** 40]))] if r.random() < 0.2 else ["i", r.randint(-100, 100)]
        if k == 1:
            return ["p", 64 * r.randint(-64, 64)]
        if k == 2:
            return ["s", r.choice(["", "abc", "a\"b\\c", "öäü", "line\nbreak", "\u0001"])]
        if k == 3:
            return ["as", r.choice(["", "nosuch.wav", "dir/x y.wav"])]
        return ["ms"] + [64 * r.randint(-64, 64) for _ in range(8)]

    def cell(self):
        r = self.r
        x, y = r.randrange(self.w), r.randrange(self.h)
        if r.random() < 0.1:
            return {"x": x, "y": y, "n": ["nop", 0], "o": [-1] * 3, "i": [-1] * 3}
        c, k = r.choice(self.nodes)
        no, ni = len(c["outs"]), len(c["ins"])
        o = [r.randrange(no) if no and r.random() < 0.6 else -1 for _ in range(3)]
        i = [r.randrange(ni) if ni and r.random() < 0.6 else -1 for _ in range(3)]
        return {"x": x, "y": y, "n": [c["n"], k], "o": o, "i": i}

    def setkey(self):
        r = self.r
        k = r.choice(sorted(self.keys))
        self.watch.add(k)
        d = self.keys[k]
        if d[0] == "p":
            if r.random() < 0.3:
                a = r.choice([-99999, 0, 64, -64, 4096, -4096, 64 * r.randint(-64, 64)])
                self.ops.append({"op": "mod", "k": list(k), "a": a})
            else:
                self.ops.append({"op": "setp", "k": list(k), "v": self.val(d[1], d[2])})
        else:
            if d[1].startswith("as:"):
                a = ["as", r.choice(["", "nosuch.wav", "dir/x y.wav"])]
            elif d[1].startswith("p:"):
                a = ["p", 64 * r.randint(0, 64)]
            else:
                a = ["i", r.randint(d[2][0], max(d[2][1], d[2][0] + 1)) if d[2] else r.randint(0, 4095)]
            self.ops.append({"op": "seta", "k": list(k), "a": a})

    def patedit(self):
        r = self.r
        t = r.choice(self.pats)
        k = r.choices(["set", "clr", "rows", "cur", "es", "n", "s", "v", "g"], [12, 3, 3, 1, 1, 2, 2, 1, 2])[0]
        a, b, c = 0, 0, 0
        if k in ("set", "clr"):
            a, b, c = r.choice([0, 1, 2, 15, 255, r.randrange(256)]), r.randrange(6), r.choice([0, 1, 0xfff, 0xffff, r.randrange(4096)])
            if r.random() < 0.4:
                a, b = r.randrange(2), r.randrange(2)
            if r.random() < 0.03:
                a = 256
        elif k == "rows":
            a = r.choice([0, 1, 16, 32, 255, 256, 300])
        elif k == "cur":
            a, b = r.randrange(256), r.randrange(6)
        elif k == "es":
            a = r.randrange(16)
        else:
            a = r.randrange(6)
        self.ops.append({"op": "pat", "t": t, "k": k, "a": a, "b": b, "c": c})

    def blkedit(self):
        r = self.r
        b = r.choice(self.bfs)
        k = r.choices(["new", "rem", "shift"], [10, 2, 2])[0]
        n = self.areas.get(b, 1)
        op = {"op": "blkfun", "b": b, "k": k, "a": r.randrange(n), "x": r.randint(0, 5), "y": r.randint(0, 6)}
        if k == "new":
            op["typ"] = r.choice(BTYPES)
            op["lbl"] = r.choice(["", "alpha", "0.5", "ö"])
        self.ops.append(op)

    def edit(self):
        c = self.r.random()
        if c < 0.25:
            self.ops.append({"op": "place", "cells": [self.cell() for _ in range(self.r.choice([1, 2, 4]))]})
        elif c < 0.3:
            self.ops.append({"op": "sync"})
        elif c < 0.6:
            self.setkey()
        elif c < 0.7:
            self.ops.append({"op": "prop", "k": self.r.choice("abc"), "a": self.atom()})
        elif c < 0.86:
            self.patedit()
        elif c < 0.98:
            self.blkedit()
        else:
            self.ops.append({"op": "clear"})

    def save(self):
        s = self.r.randrange(3)
        if s not in self.saved:
            self.saved.append(s)
        self.ops.append({"op": "save", "slot": s, "how": self.r.choice(["mem", "file"])})

    def load(self):
        if self.r.random() < 0.35:
            return self.loadas()
        self.ops.append({"op": "load", "slot": self.r.choice(self.saved), "how": self.r.choice(["mem", "file"]), "fresh": int(self.r.random() < 0.4)})

    def loadas(self):
        """a stored patch as another version of the program, or somebody with a text editor, would have written it"""
        r = self.r
        chg = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.choice(["cut", "cut", "cut", "num", "port", "extra", "v1", "nover", "v3", "nonode", "noparam", "noatom"])
            if k in ("v3", "nonode", "noparam") and r.random() < 0.5:
                continue
            x = r.choice(["patterns", "patterns", "block_funs", "block_funs", "params", "atoms", "props", "cells"]) if k == "cut" else r.choice(["inputs", "outputs"]) if k == "port" else ""
            n = 0
            if x == "patterns":
                n = r.choice([0, 0, 1, 2, 3])
            elif x == "block_funs":
                n = r.choice([0, 0, 1, 2])
            elif k == "port":
                n = r.choice([0, 1, 2, 3, 5, 8, 12, 100, 255, 256, -2])
            if k in ("v1", "nover") and any(c[0] in ("v1", "nover", "v3") for c in chg):
                continue
            if k in ("num", "port") and any(c[0] in ("num", "port") for c in chg):
                continue
            chg.append([k, x, n])
        self.ops.append({"op": "loadas", "slot": r.choice(self.saved), "how": r.choice(["mem", "file"]), "fresh": int(r.random() < 0.2), "chg": chg})

    def dump(self):
        self.ops.append({"op": "dump"})

    def mutation(self):
        r = self.r
        kind = r.choices(["set", "del", "dup", "byte", "trunc", "real"], [14, 3, 3, 2, 1, 3])[0]
        pos = r.randrange(1000001)
        val = 0
        if kind == "byte":
            val = r.choice([0, 10, 34, 44, 45, 91, 93, 123, 125, 57, 128, 255])
        elif kind == "dup":
            val = r.choice([1, 2, 6, 10, 300])
        elif kind == "real":
            val = r.choice([1e300, -1e300, 3.5e38, 1e38, -1e38, 1e10, -1e10, 1e-300, 5e-46, -0.0, 2, -2])
        elif kind == "set":
            val = r.choice([None, True, -1, -2, 0, 1, 2, 3, 5, 6, 7, 8, 16, 127, 128, 255, 256, 257, 300, 1000, 65535, 65536, 2 ** 31, 2 ** 32, 2 ** 53, -2 ** 63,
                            2 ** 63, 1e10, 1e300, -1e300, 0.5, "", "x", "sig", "inp", "freq", "sin", "out", "nop", "Nop", [], {}, [0], ["i", 1], ["p", 0.5], ["ms", 1, 2], ["zz", 1], [1, 2], [-5, -6]])
        sect = r.choice(["", "", "cells", "params", "atoms", "props", "patterns", "block_funs", "areas", "blocks", "contains", "rows", "col_types", "data", "inputs", "outputs", "size"])
        return [kind, pos, val, sect]

    def make(self):
        r = self.r
        for _ in range(r.choice([5, 15, 30])):
            self.edit()
        if self.p == "mut":
            for t in range(2):
                for _ in range(3):
                    self.patedit()
                    self.blkedit()
            self.save()
            for _ in range(4):
                self.dump()
                if r.random() < 0.2:
                    self.loadas()
                    self.dump()
                self.ops.append({"op": "loadmut", "slot": r.choice(self.saved), "how": r.choice(["mem", "file"]),
                                 "muts": json.dumps([self.mutation() for _ in range(r.choice([1, 1, 1, 2, 4]))])})
                self.dump()
                self.ops.append({"op": "blk", "n": 2})
                if r.random() < 0.5:
                    self.ops.append({"op": "chk"})
                    self.ops.append({"op": "blk", "n": 2})
                if r.random() < 0.6:
                    self.ops.append({"op": "save", "slot": 9, "how": "mem"})
                    self.ops.append({"op": "load", "slot": 9, "how": "mem", "fresh": r.randrange(2)})
                    self.dump()
        else:
            self.dump()
            for _ in range(r.choice([2, 4])):
                for _ in range(r.choice([0, 3, 8])):
                    self.edit()
                c = r.random()
                if c < 0.5 or not self.saved:
                    self.save()
                    if r.random() < 0.3:
                        self.dump()
                    for _ in range(r.choice([0, 2, 10])):
                        self.edit()
                    if r.random() < 0.3:
                        self.ops.append({"op": "clear"})
                if r.random() < 0.4:
                    self.dump()
                self.load()
                self.dump()
                if r.random() < 0.3:
                    self.ops.append({"op": "chk"})
                    self.ops.append({"op": "blk", "n": 1})
        return {"cfg": {"w": self.w, "h": self.h, "pats": sorted(set(self.pats)), "bfs": sorted(set(self.bfs)), "watch": [list(k) for k in sorted(self.watch)]}, "ops": self.ops}


def gen(seed, count, cat, profiles=("round", "round", "mut")):
    r = random.Random(seed)
    out = []
    for k in range(count):
        g = G(random.Random(r.getrandbits(60)), profiles[k % len(profiles)], cat)
        t = g.make()
        t["id"] = "pat-%s-%d-%d" % (g.p, seed, k)
        out.append(t)
    return out
