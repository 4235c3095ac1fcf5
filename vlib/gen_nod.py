"""Small graphs of nodes with exactly specified behaviour: settings and signals only (what comes out: Nodes.tla)."""
import random
from .gen_part import signal, cut

RATES = [8000, 22050, 44100, 48000, 96000]
LOW = [400, 1000, 2000]         # rates at which the longest delay times are few frames


def trig(r, n):
    """levels around the thresholds of triggers"""
    k = r.choice(["pulses", "levels", "square", "signal"])
    if k == "signal":
        return signal(r, -1, 1, n)
    if k == "levels":
        out, v = [], 0
        for _ in range(n):
            if r.random() < 0.2:
                v = r.choice([0, 1023, 1024, 1025, 2047, 2048, 2049, 4096, -4096])
            out.append(v)
        return out
    if k == "square":
        p = r.choice([1, 2, 7, 33, 60])
        return [4096 if (j // p) % 2 else 0 for j in range(n)]
    out = [0] * n
    for _ in range(r.choice([1, 2, 5, 12])):
        p = r.randrange(n)
        for j in range(p, min(n, p + r.choice([1, 1, 2, 40]))):
            out[j] = 4096
    return out


def sig(lo, hi, kind=""):
    return {"kind": kind, "con": lambda r: r.choice([r.randint(lo, hi), r.randint(lo, hi), lo, hi]),
            "sig": lambda r, n: signal(r, lo / 4096.0, hi / 4096.0, n), "wire": (lo, hi) == (-4096, 4096)}


def steps(f, kind="", often=0.05):
    """values of f, changing now and then"""
    def s(r, n):
        out, v, p = [], f(r), r.choice([often, 0.5, 0.01])
        for _ in range(n):
            if r.random() < p:
                v = f(r)
            out.append(v)
        return out
    return {"kind": kind, "con": f, "sig": s, "wire": False}


def const(f, kind=""):
    return {"kind": kind, "con": f, "sig": None, "wire": False}


OVER = sig(-9000, 9000)          # signals may leave the usual range
BI, UNI = sig(-4096, 4096), sig(0, 4096)
TRIG = {"kind": "", "con": lambda r: r.choice([0, 0, 4096]), "sig": trig, "wire": "t"}
VOL = sig(5, 8192, "d")
GAIN = {**sig(300, 8192, "d")}
LOUD = {**sig(300, 60000, "d"), "sig": None}


def frames(lo, hi):
    return lambda r: 2 * r.randint(lo, hi)


def halves(lo, hi):
    """odd numbers of half frames: never on the edge between two frames"""
    return lambda r: 2 * r.choice([lo, r.randint(lo, hi), r.randint(lo, hi)]) + 1


def shape(r):
    return r.choice([0, 1024, 2048, 2048, 3072, 4096, r.randint(0, 4096)])


# kind -> (ports, settings, outputs); times depend on the sample rate where the ranges of parameters do
def nodes(sr):
    ms = lambda t: int(t * sr / 1000.0) + 1          # noqa: E731  frames
    env = {"inp": {**BI, "con": lambda r: r.choice([4096, 4096, 2048, -4096])}, "ashp": const(shape), "dshp": const(shape)}
    stage = const(halves(1, 120), "h")

    def far(lo, width, most):     # times within some frames of the shortest one, at low rates up to the longest one
        top = int(most * sr / 1000.0) - 1
        if sr not in LOW:
            return frames(ms(lo) + 1, ms(lo) + width)
        return lambda r: 2 * r.choice([top, top // 2, r.randint(ms(lo) + 1, top), r.randint(ms(lo) + 1, min(top, 700))])

    return {
        "amp": ({"inp": BI, "gain": GAIN, "att": BI}, {"neg_att": (0, 1)}, ["sig"]),
        "mix3": ({"ch1": BI, "ch2": BI, "ch3": BI, "vol1": VOL, "vol2": VOL, "vol3": VOL, "ovol": VOL}, {}, ["sig"]),
        "smap": ({"inp": OVER, "min": BI, "max": BI}, {"mode": (0, 3), "clip": (0, 1)}, ["sig"]),
        "map": ({"inp": OVER, "atv": BI, "offs": BI, "imin": BI, "imax": BI, "min": BI, "max": BI}, {"clip": (0, 1)}, ["sig"]),
        "mux9": ({"slct": UNI, "t_rst": TRIG, "t_up": TRIG, "t_down": TRIG, **{"in_%d" % k: BI for k in range(1, 10)}}, {"in_cnt": (0, 8)}, ["sig"]),
        "inp": ({"vol": VOL}, {}, ["sig1", "sig2"]),
        "out": ({"ch1": BI, "ch2": BI, "vol": VOL}, {"mono": (0, 1)}, []),
        "noise": ({"atv": BI, "offs": BI}, {"mode": (0, 1)}, ["sig"]),
        "fbwr": ({"inp": BI}, {}, []),
        "fbrd": ({"vol": VOL}, {}, ["sig"]),
        "delay": ({"inp": sig(-2000, 2000), "trig": TRIG, "time": steps(far(0.5, 60, 5000), "h"), "fb": sig(-3400, 3400), "mix": UNI}, {"mode": (0, 1)}, ["sig"]),
        "comb": ({"inp": sig(-2000, 2000), "time": steps(far(0.1, 50, 1000), "h"), "g": sig(-3400, 3400)}, {"mode": (0, 1)}, ["sig"]),
        "allp": ({"inp": sig(-2000, 2000), "time": const(far(0.1, 50, 1000), "h"), "g": const(lambda r: r.randint(-3000, 3000))}, {}, ["sig"]),
        "quant": ({"freq": steps(lambda r: r.choice([r.randint(-1024, 1024), r.randint(-4096, 2300)])), "oct": steps(lambda r: r.choice([0, 410, -410, r.randint(-4096, 4096)]))}, {"keys": None}, ["sig", "t"]),
        "cqnt": ({"inp": sig(-1000, 4096), "oct": steps(lambda r: r.choice([0, 410, -410]))}, {"keys": None, "omin": (0, 4), "omax": (0, 4)}, ["sig", "t"]),
        "ad": ({**env, "trig": TRIG, "atk": stage, "dcy": stage}, {"mult": (0, 0)}, ["sig", "eoet"]),
        "adsr": ({**env, "gate": TRIG, "atk": stage, "dcy": stage, "rel": stage, "sus": const(lambda r: r.choice([0, 4096, 2048, r.randint(0, 4096)])), "rshp": const(shape)}, {"mult": (0, 0)}, ["sig", "eoet"]),
        "tslfo": ({"time": const(lambda r: r.choice([2 * ms(0.2) + 3, r.randint(2 * ms(0.2), 400), r.randint(2 * ms(0.2), 4000)]), "h"), "trig": TRIG, "rev": steps(lambda r: r.choice([2048, r.randint(200, 3900)]))}, {}, ["sig"]),
        "rndwk": ({"trig": TRIG, "step": const(lambda r: r.choice([0, 0, 200, r.randint(0, 4096)])), "offs": steps(lambda r: r.randint(-4096, 4096) // r.choice([1, 5, 30])), "min": steps(lambda r: r.choice([0, r.randint(0, 4096)])), "max": steps(lambda r: r.choice([4096, r.randint(0, 4096)])), "slew": const(lambda r: r.choice([0, 0, r.randint(2 * ms(0.2), 600)]), "h")}, {}, ["sig"]),
        "tseq": ({"clock": UNI, "trig": TRIG}, {}, ["trk%d" % k for k in range(1, 7)] + ["gat%d" % k for k in range(1, 7)]),
        "sampl": ({"freq": const(lambda r: 0), "trig": TRIG, "offs": steps(lambda r: r.choice([0, 0, 4096, r.randint(0, 4096)]), often=0.02), "len": steps(lambda r: r.choice([4096, 4096, 2048, 0, r.randint(0, 4096)]), often=0.02), "dcms": const(halves(1, min(60, 50 * sr // 2000)), "h"), "det": const(lambda r: 0)}, {"sample": None, "pmode": (0, 1), "dclick": (0, 1), "dir": (0, 1)}, ["sig"]),
    }


def setting(r, name, mm, sr):
    """(for the code, for the specification)"""
    if name == "keys":
        v = r.choice([0, 1, 4095, 0b101010110101, r.randrange(4096), 1 << r.randrange(12)])
        return v, v
    if name == "sample":
        k = r.choice([1, 1, 1, 2, 3])
        d = [r.randint(-4096, 4096) for _ in range(r.choice([0, 1, 2, 3, 10, 47, 150]))]
        return [k * sr] + d, (k, d)
    v = r.randint(*mm)
    return v, v


class G:
    def __init__(self, r, total, sr=None):
        self.r, self.total, self.sr = r, total, sr or r.choice(RATES)
        self.cat = nodes(self.sr)
        self.nodes, self.src, self.snk, self.wire, self.sigs = [], [], [], [], []
        self.inst = {}

    def add(self, kind, wires=(), inst=None, p_sig=0.5, only=None):
        """adds a node; wires: {port: (node, out)}; the other ports get signals or constants"""
        r, wires = self.r, dict(wires)
        ports, sets, outs = self.cat[kind]
        k = len(self.nodes)
        i = inst if inst is not None else self.inst.get(kind, 0)
        self.inst[kind] = i + 1
        n = {"n": kind, "i": i, "set": {}, "val": {}, "at": {}}
        loud = kind == "amp" and r.random() < 0.3
        for p, d in ports.items():
            if p in wires:
                self.wire.append([wires[p][0], wires[p][1], k, p])
                continue
            d = LOUD if loud and p == "gain" and not wires else d
            con, s = d["con"], d["sig"]
            if kind == "map" and p in ("imin", "imax"):      # ranges of some width, or none
                con, s = self.range(p)
            connect = s is not None and r.random() < p_sig and (only is None or p in only)
            if connect:
                self.src.append([k, p] + ([d["kind"]] if d["kind"] else []))
                self.sigs.append(s(r, self.total))
            else:
                v = con(r)
                n["val"][p] = v
                n["set"][p] = d["kind"] + str(v)
        for p, mm in sets.items():
            a, b = setting(r, p, mm, self.sr)
            if p == "sample":
                if r.random() < 0.05:
                    n["at"].update({"k": 1, "data": []})
                    continue
                n["at"].update({"k": b[0], "data": b[1]})
            else:
                n["at"][p] = b
            n["set"][p] = a
        if kind == "mux9":
            n["at"]["sel"] = [k, "slct"] in self.src
        self.nodes.append(n)
        for o in outs:
            self.snk.append([k, o])
        return k

    def range(self, p):
        r = self.r
        if not hasattr(self, "swap"):
            self.swap = r.choice([0, 1, 2])
        if self.swap == 2:                                   # the same value for both
            return (lambda r: 512), None
        lo, hi = ((-4096, 0), (1100, 4096))[(p == "imax") != (self.swap == 1)]
        return (lambda r: r.randint(lo, hi)), (lambda r, n: signal(r, lo / 4096.0, hi / 4096.0, n))

    def script(self, name, changes=0, only=()):
        r = self.r
        host = [signal(r, -1, 1, self.total) for _ in range(2)] if any(n["n"] == "inp" for n in self.nodes) else []
        at, ops = 0, []
        marks = sorted(r.sample(range(1, self.total), changes))
        todo = {}
        for m in marks:
            c = self.change()
            if c:
                todo[m] = c
        for m, ks in only:
            todo[m] = {"op": "only", "ks": ks}
        edges = sorted(set(todo) | {0, self.total})
        for a, b in zip(edges, edges[1:]):
            if a in todo:
                ops.append(todo[a])
            for c in cut(r, b - a):
                ops.append({"op": "blk", "n": c, "in": [s[at:at + c] for s in self.sigs], "host": [h[at:at + c] for h in host]})
                at += c
        cfg = {"sr": self.sr, "nodes": self.nodes, "src": self.src, "snk": self.snk, "wire": self.wire}
        return {"id": name, "cfg": cfg, "ops": ops}

    def change(self):
        """a setting changes"""
        r = self.r
        k = r.randrange(len(self.nodes))
        sets = self.cat[self.nodes[k]["n"]][1]
        if not sets:
            return None
        p = r.choice(sorted(sets))
        a, b = setting(r, p, sets[p], self.sr)
        op = {"op": "set", "k": k, "name": p, "v": a}
        if p == "sample":
            op.update({"rate": b[0], "data": b[1]})
        return op


def single(r, name, kind):
    if kind in ("delay", "comb", "allp") and r.random() < 0.15:
        g = G(r, r.choice([900, 1500, 2300]), r.choice(LOW))
    else:
        g = G(r, r.choice([200, 257, 300, 450]))
    only = None
    if kind == "mux9" and r.random() < 0.6:
        only = [p for p in g.cat["mux9"][0] if p != "slct"]
    k = g.add(kind, p_sig=r.choice([0.2, 0.5, 0.5, 0.9]), only=only, inst=r.choice([0, 0, 1, 5]))
    if kind in ("ad", "adsr") and r.random() < 0.1:          # the multiplied times
        m = r.choice([1, 2])
        n = g.nodes[k]
        n["at"]["mult"] = n["set"]["mult"] = m
        for p in ("atk", "dcy", "rel"):
            if p in n["val"]:
                n["val"][p] = 1
                n["set"][p] = "h1"
    return g.script(name, changes=r.choice([0, 0, 1, 3]))


GATE = [0xFFF, 0xFF0, 0xFF7, 0xFE7, 0xFC0, 0xFA3, 0xF0F, 0xF00]
TRIES = 256


def sequencer(r, name):
    """the tracker sequencer and its clock"""
    stats = r.random() < 0.12
    g = G(r, r.choice([257, 400, 600]) if not stats else 256 * 4)
    cmode = 2 if stats else r.choice([0, 0, 1, 2])
    rows = r.choice([1, 2, 3, 4]) if stats else r.choice([1, 2, 3, 4, 4, 7, 8, 16, 33, 64])
    types = [r.randrange(4) for _ in range(6)]
    stat, cells = [-1] * 6, []
    for c in range(6):
        t = types[c]
        if stats and r.random() < 0.4 and sum(x >= 0 for x in stat) < 2:
            types[c] = t = 2
            p = r.choice([0, 3, 7, 7, 12, 14])
            stat[c] = p
            cells.append([r.randrange(rows), c, p * 256 + 0xFF])
            have = cells[-1][0]
            for q in range(rows):
                if q != have and r.random() < 0.6:
                    cells.append([q, c, r.choice(GATE)])
            continue
        maybe = t == 2 and not stats and r.random() < 0.3
        for q in range(rows):
            if r.random() < r.choice([0.3, 0.9]):
                if t == 0:
                    v = r.choice([0, 20, 60, 69, 70, 81, 127, r.randrange(256)])
                elif t == 2:
                    v = r.choice(GATE + [0xF00 | r.randrange(256)])
                    if maybe and sum(1 for x in cells if x[1] != c and x[2] < 0xF00 and types[x[1]] == 2) == 0:
                        v = r.choice([0x7FF, 0x7F0, 0x0FF, r.randrange(4096)])
                else:
                    v = r.choice([0, 1, 0xFFF, 0x800, r.randrange(4096)])
                cells.append([q, c, v])
    n = g.total
    if cmode == 2:
        if stats:
            clock = [((j % rows) * 4096 + r.choice([100, 1000, 2000])) // rows for j in range(n)]
            if rows == 1:
                clock = [[300, 3000][j % 2] for j in range(n)]
        else:
            k = r.choice(["ramp", "down", "walk", "signal"])
            w = r.choice([40, 150, 300])
            clock = {"ramp": [(j * 4096 // w) % 4097 for j in range(n)], "down": [4096 - (j * 4096 // w) % 4097 for j in range(n)],
                     "walk": [r.choice([0, 4095, 4096, r.randrange(4097)]) if j % 9 == 0 else 0 for j in range(n)],
                     "signal": signal(r, 0, 1, n)}[k]
            if r.random() < 0.25:                # beyond the usual range
                clock = [x + 4096 * r.choice([0, 0, 1]) if j % 7 else -x for j, x in enumerate(clock)]
            if k == "walk":
                for j in range(1, n):
                    if j % 9:
                        clock[j] = min(4096, clock[j - 1] + 3)
    elif r.random() < 0.7:                       # regular, sometimes changing tempo
        clock, j = [0] * n, r.randrange(30)
        per = r.choice([2, 5, 16, 31, 64])
        while j < n:
            for m in range(j, min(n, j + r.choice([1, max(1, per // 2)]))):
                clock[m] = r.choice([4096, 2049])
            j += per
            if r.random() < 0.15:
                per = r.choice([2, 3, 8, 20, 50])
    else:
        clock = trig(r, n)
    tr = trig(r, n) if r.random() < 0.5 else [0] * n
    k = g.add("tseq", p_sig=1.0)
    g.sigs[g.src.index([k, "clock"])] = [int(x) for x in clock]
    g.sigs[g.src.index([k, "trig"])] = tr
    g.nodes[k]["at"]["cmode"] = g.nodes[k]["set"]["cmode"] = cmode
    s = g.script(name)
    s["cfg"]["pat"] = {"rows": rows, "types": types, "cells": cells, "stat": stat}
    return s


RACK = ["amp", "mix3", "smap", "mux9", "delay", "noise", "inp", "out", "ad", "adsr", "tslfo", "quant", "cqnt", "sampl", "rndwk", "fbrd"]


def rack(r, name):
    g = G(r, r.choice([200, 257]))
    outs, trigs = [], []
    for _ in range(r.choice([2, 3, 4, 5])):
        kind = r.choice(RACK)
        if kind in ("out", "inp") and kind in g.inst:
            continue
        wires = {}
        for p, d in g.cat[kind][0].items():
            pool = trigs if d["wire"] == "t" else outs if d["wire"] and kind not in ("map", "noise") else []
            if kind == "amp" and p == "att" or kind in ("smap", "rndwk") and p != "inp":
                pool = []
            if pool and r.random() < 0.6:
                wires[p] = r.choice(pool)
        k = g.add(kind, wires, p_sig=0.4)
        for o in g.cat[kind][2]:
            (trigs if o in ("t", "eoet") else outs).append((k, o))
    return g.script(name, changes=r.choice([0, 1, 2]))


def feedback(r, name):
    """writers, readers and loops, in any order, also while nodes come and go"""
    g = G(r, r.choice([300, 600, 900]))
    i = r.choice([0, 1, 3])
    kind = r.choice(["line", "line", "loop", "two"])
    if kind == "loop":
        rd = g.add("fbrd", inst=i, p_sig=0.3)
        n = g.nodes[rd]
        if "vol" in n["val"]:
            n["val"]["vol"] = r.randint(5, 3000)
            n["set"]["vol"] = "d%d" % n["val"]["vol"]
        else:
            j = g.src.index([rd, "vol", "d"])
            g.sigs[j] = [max(5, min(3000, x)) for x in g.sigs[j]]
        mx = g.add("mix3", {"ch1": (rd, "sig")}, p_sig=0.5)
        n = g.nodes[mx]
        for p in ("vol1", "ovol"):
            if p in n["val"]:
                n["val"][p], n["set"][p] = 4096, "d4096"
            else:
                j = g.src.index([mx, p, "d"])
                g.sigs[j] = [min(4096, x) for x in g.sigs[j]]
        g.add("fbwr", {"inp": (mx, "sig")}, inst=i)
    else:
        for k, kd in enumerate(r.choice([["fbwr", "fbrd"], ["fbrd", "fbwr"]]) * (2 if kind == "two" else 1)):
            g.add(kd, inst=i + (1 if k > 1 else 0), p_sig=0.8)
    only = []
    if r.random() < 0.5:
        ks = list(range(len(g.nodes)))
        for m in sorted(r.sample(range(1, g.total), r.choice([1, 2, 4]))):
            only.append((m, sorted(r.sample(ks, r.randint(1, len(ks)))) if r.random() < 0.6 else ks))
    return g.script(name, only=only)


KINDS = sorted(set(nodes(44100)) - {"fbwr", "fbrd"})


def gen(seed, n, profiles=("single", "rack", "fb"), kinds=None):
    out, kinds = [], sorted(kinds or KINDS)
    for k in range(n):
        p = profiles[k % len(profiles)]
        r = random.Random("nod-%s-%d-%d" % (p, seed, k))
        if p == "single":
            kind = kinds[(k // len(profiles)) % len(kinds)]
            out.append(sequencer(r, "tseq-%d" % k) if kind == "tseq" else single(r, "%s-%d" % (kind, k), kind))
        elif p == "rack":
            out.append(rack(r, "rack-%d" % k))
        else:
            out.append(feedback(r, "fb-%d" % k))
    return out
