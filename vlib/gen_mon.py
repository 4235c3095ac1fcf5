"""Scripts for the monitor: cells, signals, blocks of all sizes, and reading at any time."""
import random

VALS = [0, 1, -1, 4096, -4096, 2048, -2048, 12288, -12288, 400000, -400000, 64, 4095]


def runs(r, total):
    """A signal of that many samples."""
    out, left = [], total
    mode = r.random()
    while left > 0:
        if mode < 0.3:
            n = r.choice([900, 1800, 128, 1, 899, 901])
        elif mode < 0.7:
            n = r.choice([1, 2, 50, 127, 300, 1000, 3000])
        else:
            n = total
        n = min(n, left)
        out.append([n, r.choice(VALS) if r.random() < 0.7 else r.randint(-409600, 409600)])
        left -= n
        if len(out) > 40:
            break
    return out


def lens(r, most):
    out, left = [], r.randint(1, most)
    while left > 0:
        k = min(left, r.choice([1, 1, 2, 7, 20, 60]))
        out.append([k, r.choice([128, 128, 128, 64, 1, 127, 100, 33, r.randint(1, 128)])])
        left -= k
    return out


class G:
    def __init__(self, r):
        self.r, self.base, self.cells, self.mon, self.live = r, 0, {}, (0, 0), {}
        self.ops = []

    def emit(self, **o):
        self.ops.append(o)

    def cell(self, x, y):
        r = self.r
        free = [k for k in range(self.base, self.base + 6) if ("rust1x1", k) not in [c["n"] for c in self.cells.values()]]
        if r.random() < 0.15 and ("inp", 0) not in [c["n"] for c in self.cells.values()]:
            n, i, o = ("inp", 0), [-1] * 3, [r.choice([-1, 0, 1, 1]) for _ in range(3)]
        elif free:
            n = ("rust1x1", r.choice(free))
            i = r.sample([0, 1, 2, 3, 4], 3)
            i = [p if r.random() < 0.7 else -1 for p in i]
            o = [r.choice([-1, 0, 0]) for _ in range(3)]
        else:
            return
        self.cells[(x, y)] = {"n": n, "i": i, "o": o}
        self.emit(op="set", x=x, y=y, n=list(n), i=i, o=o)

    def fill(self):
        r = self.r
        where = [(x, y) for x in range(3) for y in range(3)]
        r.shuffle(where)
        for p in where[:r.randint(2, 5)]:
            self.cell(*p)
        if r.random() < 0.6 and (0, 0) not in self.cells:
            self.cell(0, 0)
        self.sync()

    def sync(self):
        self.emit(op="sync")
        self.live = dict(self.cells)
        if self.r.random() < 0.3:
            self.params()

    def params(self):
        for c in self.cells.values():
            if c["n"][0] == "rust1x1" and self.r.random() < 0.5:
                self.emit(op="param", n=list(c["n"]), p=self.r.randint(0, 4), v=self.r.choice([0, 4096, -2048, 1024]))

    def monitor(self):
        if self.live:
            p = self.r.choice(sorted(self.live))
            self.mon = p
            self.emit(op="mon", x=p[0], y=p[1])

    def used(self):
        c = self.live.get(self.mon)
        return 0 if c is None else sum(1 for p in c["i"] + c["o"] if p >= 0)

    def sigs(self, total):
        out = []
        for c in self.live.values():
            if c["n"][0] == "rust1x1":
                out.append([c["n"][1], runs(self.r, total)])
        return out

    def play(self, most):
        n = lens(self.r, most)
        total = sum(a * b for a, b in n)
        self.emit(op="play", n=n, sig=self.sigs(total), host=[runs(self.r, total), runs(self.r, total)])
        return sum(a for a, b in n)

    def edit(self):
        r = self.r
        p = (r.randrange(3), r.randrange(3))
        if r.random() < 0.3 and p in self.cells and len(self.cells) > 1:
            del self.cells[p]
            self.emit(op="del", x=p[0], y=p[1])
        else:
            self.cells.pop(p, None)
            self.emit(op="del", x=p[0], y=p[1])
            self.cell(*p)
        self.sync()

    def clear(self):
        if self.base >= 18:
            return
        self.base += 6
        self.cells, self.live, self.mon = {}, {}, (0, 0)
        self.emit(op="clear")

    def settle(self):
        self.emit(op="settle")


def script(r, prof):
    g = G(r)
    g.fill()
    if r.random() < 0.8:
        g.monitor()
    if prof == "drip":
        g.monitor()
        for _ in range(3):
            sig = [[d["n"][1], [[1, r.choice(VALS)]]] for d in g.live.values() if d["n"][0] == "rust1x1"]
            g.emit(op="drip", rounds=320, n=[[r.choice([8, 10, 16]), 128]], ms=r.choice([11, 12]), sig=sig, host=[[[1, 64]], [[1, -64]]])
            g.settle()
        g.play(100)
        g.settle()
        return {"cfg": {"w": 3, "h": 3, "sr": 44100}, "ops": g.ops}
    n = {"mix": 14, "long": 10, "storm": 4}[prof]
    left = 115                      # blocks until everything that was sent has to have been taken in
    for _ in range(n):
        k = r.random()
        if k < 0.5:
            most = min(left, 110 if prof == "long" else r.choice([3, 20, 60, 110]))
            if most > 0:
                left -= g.play(most)
        elif k < 0.6:
            g.monitor()
        elif k < 0.68:
            g.edit()
            if r.random() < 0.5:
                g.monitor()
        elif k < 0.72:
            g.clear()
            if r.random() < 0.5:
                g.play(2)
                g.settle()
                left = 115
            g.fill()
            if r.random() < 0.5:
                g.monitor()
        elif k < 0.87:
            g.emit(op="peek", ms=r.choice([0, 0, 3, 11, 25]))
        else:
            g.settle()
            left = 115
        if left < 10:
            g.settle()
            left = 115
    g.settle()
    if prof == "long":              # more points than are kept
        for _ in range(r.randint(9, 16)):
            n = [[r.randint(80, 115), 128]]
            total = n[0][0] * 128
            g.emit(op="play", n=n, sig=g.sigs(total), host=[runs(r, total), runs(r, total)])
            if r.random() < 0.3:
                g.emit(op="peek", ms=r.choice([0, 5]))
            g.settle()
    if prof == "storm" and g.live:
        if g.mon not in g.live:
            g.monitor()
        c = g.live[g.mon]
        total = r.choice([200, 1200, 3000])
        g.emit(op="storm", n=[[total, r.choice([1, 16])]], sig=g.sigs(5000), host=[[[1, 0]], [[1, 0]]])
        v = r.choice(VALS)
        g.emit(op="calm", v=v, ports=[k + 3 for k in range(3) if c["o"][k] >= 0],
               sig=[[d["n"][1], [[1, v]]] for d in g.live.values() if d["n"][0] == "rust1x1"], host=[[[1, v]], [[1, v]]])
    return {"cfg": {"w": 3, "h": 3, "sr": r.choice([44100, 48000])}, "ops": g.ops}


def gen(seed, count, profiles=("mix", "mix", "mix", "long", "storm")):
    out = []
    for k in range(count):
        r = random.Random("mon/%d/%d" % (seed, k))
        prof = "drip" if k % 100 == 17 else profiles[k % len(profiles)]
        sc = script(r, prof)
        sc["id"] = "mon-%s-%d" % (prof, k)
        out.append(sc)
    return out
