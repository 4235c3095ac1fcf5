"""Random SynthConstructor scripts (no expectations here)."""
import random

NOUT = {"rust1x1": 1, "exta": 3, "test": 6, "out": 0}
NIN = {"rust1x1": 5, "exta": 4, "test": 1, "out": 2}


class G:
    def __init__(self, r):
        self.r = r
        self.sr = r.choice([44100, 8000, 48000])
        self.ninst = r.choice([2, 3, 5, 8])
        self.wires = {}
        self.nodes = set()
        self.ops = []
        self.ver = 0

    def node(self):
        r = self.r
        x = r.random()
        if x < 0.75:
            return ["rust1x1", r.randrange(self.ninst)]
        if x < 0.85:
            return ["exta", r.randrange(2)]
        if x < 0.92:
            return ["test", 0]
        return ["out", 0]

    def val(self):
        return self.r.choice([0, 1024, -1024, 2048, -4096, 4096, 64 * self.r.randint(-64, 64)])

    def reach(self, a, w):
        """nodes that feed node a (transitively)"""
        seen, st = set(), [a]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st += [v for (k, v) in w.items() if k[0] == x for v in [v[0]]]
        return seen

    def descr(self, allow_cycle):
        """a description: builder nodes with operations, no two of them touching the same port"""
        r = self.r
        n = r.choice([1, 1, 2, 3, 4, 6])
        D, used = [], set()
        w = dict(self.wires)
        for j in range(n):
            D.append({"n": self.node() if r.random() < 0.9 or not D else list(r.choice(D)["n"]), "ops": []})
        if r.random() < 0.4:
            D[0]["n"] = ["out", 0]
        # link every builder node below the root to an earlier one
        for j in range(n):
            a = D[j]["n"]
            ta = tuple(a)
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                x = r.random()
                if a[0] == "rust1x1" and x < 0.75:
                    p = r.randrange(5)
                    if (ta, p, "v") in used:
                        continue
                    used.add((ta, p, "v"))
                    for _ in range(r.choice([1, 1, 1, 2])):
                        if r.random() < 0.6:
                            D[j]["ops"].append(["set", p, self.val()])
                        else:
                            D[j]["ops"].append(["mod", p, self.val(), r.choice([0, 64, 128, 256, -128, -256, 32, 1, 3, r.randint(-256, 256)])])
                elif a[0] == "out" and x < 0.3 and (ta, 3) not in used:
                    used.add((ta, 3))
                    D[j]["ops"].append(["atom", 3, r.randrange(2)])
        for k in range(1, n):
            # builder node k is an input of an earlier one
            js = list(range(k)) if not allow_cycle else list(range(n))
            r.shuffle(js)
            for j in js[:r.choice([1, 1, 2])]:
                self.link(D, j, k, w, used, allow_cycle)
        if allow_cycle and r.random() < 0.5:
            self.link(D, r.randrange(n), r.randrange(n), w, used, True)
        x = r.random()
        if x < 0.04:
            j = r.randrange(n)
            D[j]["ops"].insert(r.randint(0, len(D[j]["ops"])), r.choice([["set", 77, 64], ["atom", 77, 1], ["mod", 77, 64, 128]]))
        elif x < 0.07:
            j, k = r.randrange(n), r.randrange(n)
            D[j]["ops"].append(["in", 77, k, 0])
        elif x < 0.1:
            j, k = r.randrange(n), r.randrange(n)
            D[j]["ops"].append(["in", 0, k, 77])
        return D, w

    def link(self, D, j, k, w, used, cyc):
        r = self.r
        a, b = tuple(D[j]["n"]), tuple(D[k]["n"])
        if not NOUT[b[0]] or not NIN[a[0]]:
            return
        for _ in range(4):
            p, o = r.randrange(NIN[a[0]]), r.randrange(NOUT[b[0]])
            if (a, p, "w") in used:
                continue
            if not cyc and (a == b or a in self.reach(b, w)):
                return
            used.add((a, p, "w"))
            w[(a, p)] = (b, o)
            D[j]["ops"].insert(r.randint(0, len(D[j]["ops"])), ["in", p, k, o])
            return

    def settle(self):
        self.ops.append({"op": "upd"})
        left = self.sr // 100 + 3
        while left > 0:
            n = min(128, left)
            self.ops.append({"op": "blk", "n": n})
            left -= n
        self.ops.append({"op": "blk", "n": self.r.choice([1, 2, 64, 128])})

    def query(self):
        r = self.r
        ns = [["rust1x1", k] for k in range(self.ninst)]
        self.ops.append({"op": "led", "ns": ns})
        self.ops.append({"op": "fb", "ns": [n + [0] for n in ns] + [["test", 0, r.randrange(6)], ["exta", 0, r.randrange(3)]]})

    def go(self):
        r = self.r
        for _ in range(r.choice([4, 7, 10])):
            x = r.random()
            if x < 0.45:
                D, w = self.descr(r.random() < 0.25)
                self.ops.append({"op": "upload", "root": 0, "d": D})
                if self.acyclic(w) and not any(o[1] == 77 or (o[0] == "in" and o[3] == 77) for d in D for o in d["ops"]):
                    self.wires = w
            elif x < 0.75:
                D, w = self.descr(r.random() < 0.15) if r.random() < 0.4 else self.descr1()
                self.ops.append({"op": "params", "root": 0, "d": D})
            elif x < 0.8:
                self.ops.append({"op": "clear"})
                if r.random() < 0.5:
                    self.ops.append({"op": "upd"})
                    self.ops.append({"op": "blk", "n": 32})
                self.wires = {}
            elif x < 0.87:
                self.ver += 1
                self.ops.append({"op": "dyn", "i": r.randrange(self.ninst), "v": self.ver})
            else:
                self.ops.append({"op": "upd"})
                self.ops.append({"op": "blk", "n": r.choice([1, 7, 64, 128])})
            y = r.random()
            if y < 0.4:
                self.settle()
            elif y < 0.6:
                self.ops.append({"op": "upd"})
                self.ops.append({"op": "blk", "n": r.choice([1, 5, 64, 128])})
            if r.random() < 0.3:
                self.query()
        self.settle()
        self.query()

    def descr1(self):
        """parameters only"""
        r = self.r
        a = ["rust1x1", r.randrange(self.ninst)]
        D = [{"n": a, "ops": []}]
        for p in r.sample(range(5), r.choice([1, 1, 2])):
            D[0]["ops"].append(["set", p, self.val()] if r.random() < 0.6 else ["mod", p, self.val(), r.choice([0, 64, 128, 256, -128, 127, 129])])
        if r.random() < 0.04:
            D[0]["ops"].append(["set", 77, 0])
        return D, dict(self.wires)

    def acyclic(self, w):
        nodes = {k[0] for k in w}
        return all(n not in {y for (k, v) in w.items() if k[0] == n for y in self.reach(v[0], w)} for n in nodes)


def gen(seed, n):
    out = []
    for k in range(n):
        g = G(random.Random("con-%d-%d" % (seed, k)))
        g.go()
        out.append({"id": "con-%d" % k, "cfg": {"sr": g.sr}, "ops": g.ops})
    return out
