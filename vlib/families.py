"""What each family of checks runs: specification, generators, model-checking configurations."""
import json, os, re
from . import core, gen_blk, gen_con, gen_eng, gen_midi, gen_mon, gen_nod, gen_part, gen_pat, gen_rt, gen_sav, gen_trk

BINARY = os.path.join(core.TARGET, "debug", "hexoharness")


def tlc_scripts(module, cfg, workdir, cfgjson, prefix, sim=None, seed=1, depth=41, limit=None):
    """Scripts written by TLC: all histories of a small instance (sim=None) or simulated ones."""
    args = [] if sim is None else ["-simulate", "num=%d" % sim, "-depth", str(depth), "-seed", str(seed)]
    rc, out = core.tlc(module + ".tla", cfg, workdir, args=args, workers=1 if sim else None)
    scripts = []
    for m in re.finditer(r'^"@S (.*)"$', out, re.M):
        scripts.append(json.loads(json.loads('"' + m.group(1) + '"')))
    if rc != 0 or not scripts or "Error:" in out:
        raise core.ToolError("TLC generator %s/%s failed (rc=%s): %s" % (module, cfg, rc, out[-3000:]))
    scripts.sort(key=lambda h: json.dumps(h, sort_keys=True))
    if limit and len(scripts) > limit:
        step = len(scripts) / float(limit)
        scripts = [scripts[int((k + (seed % 97) / 97.0) * step) % len(scripts)] for k in range(limit)]
    return [{"id": "%s-%d" % (prefix, k), "cfg": cfgjson, "ops": h} for k, h in enumerate(scripts)]


def with_tail(scripts, tail):
    for s in scripts:
        s["ops"] = s["ops"] + tail
    return scripts


ENG_TAIL = [{"op": "sync"}, {"op": "upd"}, {"op": "blk", "n": 64}, {"op": "blk", "n": 128}, {"op": "blk", "n": 1},
            {"op": "led", "ns": [["rust1x1", 0], ["rust1x1", 1]]},
            {"op": "fb", "ns": [["rust1x1", 0, 0], ["rust1x1", 1, 0], ["rust1x1", 2, 0]]},
            {"op": "used", "ps": [["rust1x1", a, b] for a in range(3) for b in range(5)]},
            {"op": "getp", "ps": [["rust1x1", a, b] for a in range(3) for b in range(5)]}]


class Family:
    module = None           # Trace_<module>
    harness = None          # harness family
    mc = ()                 # (module, quick cfg, thorough cfg)
    timeout_per = 60

    def scripts(self, tier, seed, work, opts):
        raise NotImplementedError


class Eng(Family):
    module, harness = "Matrix", "eng"
    mc = (("MC_Matrix", "MC_Matrix.cfg", "MC_Matrix_thorough.cfg"),)

    def scripts(self, tier, seed, work, opts):
        q = tier == "quick"
        if "count" in opts:
            return gen_eng.gen(seed, opts["count"] * (1 if q else 25), profiles=opts["profiles"])
        out = gen_eng.gen(seed, 150 if q else 4000, profiles=opts.get("profiles", ("mix", "mix", "dag", "dag", "storm", "big")))
        sim = tlc_scripts("MC_Matrix", "Gen_Matrix.cfg", work, {"w": 3, "h": 3, "sr": 8000}, "sim", sim=80 if q else 2000, seed=seed)
        ex = tlc_scripts("MC_Matrix", "Gen_MatrixX.cfg", work, {"w": 2, "h": 1, "sr": 8000}, "all", limit=250 if q else None, seed=seed)
        return out + with_tail(sim, ENG_TAIL) + with_tail(ex, ENG_TAIL)


class Trk(Family):
    module, harness = "Tracker", "trk"
    mc = (("MC_Tracker", "MC_Tracker.cfg", "MC_Tracker_thorough.cfg"), ("MC_Tracker", "MC_Tracker_live.cfg", "MC_Tracker_live.cfg"))

    def scripts(self, tier, seed, work, opts):
        return gen_trk.gen(seed, 240 if tier == "quick" else 6000)


class Pat(Family):
    module, harness = "Patch", "pat"
    mc = (("MC_Patch", "MC_Patch.cfg", "MC_Patch_thorough.cfg"),)
    timeout_per = 20

    def scripts(self, tier, seed, work, opts):
        return gen_pat.gen(seed, 500 if tier == "quick" else 8000, gen_pat.catalog(BINARY, work), profiles=opts["profiles"])


class Sav(Family):
    module, harness = "SaveFile", "sav"
    mc = (("MC_SaveFile", "MC_SaveFile.cfg", "MC_SaveFile_thorough.cfg"),)

    def scripts(self, tier, seed, work, opts):
        return gen_sav.gen(seed, 250 if tier == "quick" else 6000)


class Blk(Family):
    module, harness = "Blocks", "blk"
    mc = (("MC_Blocks", "MC_Blocks.cfg", "MC_Blocks_thorough.cfg"),)

    def scripts(self, tier, seed, work, opts):
        return gen_blk.gen(seed, 600 if tier == "quick" else 12000, profiles=opts["profiles"])


class Con(Family):
    module, harness = "Synth", "con"
    mc = (("MC_Synth", "MC_Synth.cfg", "MC_Synth_thorough.cfg"),)

    def scripts(self, tier, seed, work, opts):
        return gen_con.gen(seed, 300 if tier == "quick" else 8000)


class Midi(Family):
    module, harness = "Midi", "midi"
    mc = (("MC_Midi", "MC_Midi.cfg", "MC_Midi_thorough.cfg"),)

    def scripts(self, tier, seed, work, opts):
        return gen_midi.gen(seed, 200 if tier == "quick" else 3000)


class Part(Family):
    module, harness = "Part", "nod"
    mc = (("MC_Part", "MC_Part.cfg", "MC_Part_thorough.cfg"),)
    timeout_per = 30

    def scripts(self, tier, seed, work, opts):
        if "rt" in opts:
            out = gen_part.gen(seed + 1, 400 if tier == "quick" else 6000, gen_part.catalog(BINARY, work))
            for s in out:
                s["cfg"]["rt"] = 1
            return out
        return gen_part.gen(seed, 1100 if tier == "quick" else 20000, gen_part.catalog(BINARY, work))


class Nod(Family):
    module, harness = "Nodes", "nod"
    mc = (("MC_Nodes", "MC_Nodes.cfg", "MC_Nodes_thorough.cfg"),)
    timeout_per = 20

    def scripts(self, tier, seed, work, opts):
        return gen_nod.gen(seed, opts.get("count", 900) * (1 if tier == "quick" else 20), profiles=opts["profiles"], kinds=opts["kinds"])


class Rt(Family):
    module, harness = "Heap", "rt"
    mc = (("MC_Heap", "MC_Heap.cfg", "MC_Heap_thorough.cfg"), ("MC_Heap", "MC_Heap_live.cfg", "MC_Heap_live.cfg"))

    def scripts(self, tier, seed, work, opts):
        return gen_rt.gen(seed, 400 if tier == "quick" else 8000, gen_rt.catalog(BINARY, work))


class Mon(Family):
    module, harness = "Monitor", "mon"
    mc = (("MC_Monitor", "MC_Monitor.cfg", "MC_Monitor_thorough.cfg"),)

    def scripts(self, tier, seed, work, opts):
        return gen_mon.gen(seed, 200 if tier == "quick" else 4000)


FAMILIES = {"mon": Mon(), "rt": Rt(), "nod": Nod(), "part": Part(), "blk": Blk(), "con": Con(), "midi": Midi(), "eng": Eng(), "trk": Trk(), "pat": Pat(), "sav": Sav()}
