"""Random MIDI histories (no expectations here)."""
import math, random


class G:
    def __init__(self, r, prof):
        self.r, self.prof = r, prof
        self.sr = r.choice([8000, 44100, 48000, 22050])
        self.chans = r.sample(range(16), r.choice([1, 2, 3]))
        self.notes = r.sample(range(128), r.choice([1, 2, 3, 4]))
        self.ccs = r.sample(range(128), r.choice([2, 3, 4]))
        self.down = []
        self.p = [{"mode": m, "chan": r.choice(self.chans), "glen": r.choice([8, 12, 40, 90, 300]), "det": r.choice([0, 0, 64, -128])}
                  for m in r.choice([[0], [0, 2], [1, 2], [0, 1, 2], [0, 0]])]
        self.c = [{"chan": r.choice(self.chans), "ccs": [r.choice(self.ccs) for _ in range(3)],
                   "step": r.choice([0, 0, 64, 32])} for _ in range(r.choice([0, 1, 2]))]
        self.ops = []

    def chan(self):
        return self.r.choice(self.chans) if self.r.random() < 0.95 else self.r.randrange(16)

    def ev(self):
        r = self.r
        x = r.random()
        if x < 0.45:
            n, c = r.choice(self.notes), self.chan()
            self.down.append((c, n))
            return ["on", c, n, 64 * r.randint(1, 64)]
        if x < 0.8:
            if self.down and r.random() < 0.8:
                c, n = self.down.pop(r.randrange(len(self.down)))
            else:
                n, c = r.choice(self.notes), self.chan()
            return ["off", c, n, 0]
        return ["cc", self.chan(), r.choice(self.ccs), 64 * r.randint(0, 64)]

    def host(self):
        r = self.r
        n = r.choice([1, 2, 7, 64, 127, 128, 129, 200, 256, 300])
        if self.prof == "flood" and r.random() < 0.4:
            n = r.choice([128, 200, 300])
            k = r.choice([511, 512, 513, 530, 600, 1100])
            lo = r.choice([0, 0, 5, 100])
            ts = sorted(r.choice([lo, lo, lo + 1, min(n - 1, lo + 30)]) for _ in range(k))
            if r.random() < 0.5:
                evs = [[t, "cc", self.chans[0], r.choice(self.ccs), 64 * r.randint(0, 64)] for t in ts]
            else:
                evs = [[t] + self.ev() for t in ts]
        else:
            k = r.choice([0, 0, 1, 1, 2, 3, 5, 9])
            ts, t = [], r.randrange(n)
            for _ in range(k):
                ts.append(t)
                # clusters in the same and in neighbouring frames
                t = min(n - 1, t + r.choice([0, 0, 0, 1, 1, 2, 5])) if r.random() < 0.7 else r.randrange(t, n)
            evs = [[t] + self.ev() for t in ts]
        self.ops.append({"op": "host", "n": n, "evs": evs})

    def go(self):
        r = self.r
        for _ in range(r.choice([6, 10, 14])):
            x = r.random()
            if x < 0.2:
                for _ in range(r.choice([1, 2, 3, 5]) if self.prof != "flood" else r.choice([2, 63, 64, 65, 80])):
                    self.ops.append({"op": "inject", "ev": self.ev()})
                if r.random() < 0.8:
                    self.ops.append({"op": "upd"})
            elif x < 0.26:
                self.ops.append({"op": "setp", "i": r.randrange(len(self.p)) + 1, "v": self.chan()})
                self.ops.append({"op": "upd"})
            elif x < 0.32 and self.c:
                k = r.randrange(4)
                self.ops.append({"op": "setc", "i": r.randrange(len(self.c)) + 1, "k": k, "v": self.chan() if k == 0 else r.choice(self.ccs)})
                self.ops.append({"op": "upd"})
            elif x < 0.42:
                self.ops.append({"op": "events"})
            self.host()
        self.ops.append({"op": "upd"})
        self.ops.append({"op": "host", "n": 200, "evs": []})
        self.ops.append({"op": "events"})


def gen(seed, n, profiles=("mix",) * 9 + ("flood",)):
    out = []
    for k in range(n):
        r = random.Random("midi-%d-%d" % (seed, k))
        g = G(r, profiles[k % len(profiles)])
        g.go()
        out.append({"id": "midi-%d" % k, "cfg": {"sr": g.sr, "tlen": math.ceil(g.sr * 2 / 1000), "p": g.p, "c": g.c}, "ops": g.ops})
    return out
