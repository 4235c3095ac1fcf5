#!/usr/bin/env python3
"""check.py <PROPERTY> quick|thorough      decide one property
check.py <PROPERTY> --replay <file>      re-run one recorded script

exit 0: held on everything explored, 1: violated (VIOLATION line), 2: no answer (tool trouble)"""
import json, os, shutil, sys, tempfile, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from vlib import core, families, props
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "KNOWN-FINDINGS.txt")


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2].strip()
                sid, what = rest.split(" ", 1)
                out.append((sid, what))
    return out


def describe(bad):
    ev = bad["trace"]["ev"][bad["at"] - 1]
    d = {k: v for k, v in ev.items() if k not in ("lay", "ntf")}
    return "%s at step %d of %s: %s" % (",".join(bad["names"]), bad["at"], bad["trace"]["id"], json.dumps(d)[:400])


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    spec = props.CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix="hexo_%s_" % prop)
    try:
        binary, bt = core.build()
        core.log("%s: harness built from /repo in %.1fs" % (prop, bt))
        if tier == "--replay":
            return replay_one(prop, spec, binary, work, sys.argv[3])
        return run(prop, spec, tier, seed, binary, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay_one(prop, spec, binary, work, path):
    doc = json.load(open(path))
    fam = families.FAMILIES[doc["family"]]
    traces = core.replay(binary, fam.harness, [doc["script"]], work, fam.timeout_per)
    bads, _ = core.validate(fam.module, traces, work)
    for b in bads:
        core.log(describe(b))
    if not bads:
        core.log("no mismatch")
        return 0
    core.log("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def run(prop, spec, tier, seed, binary, work, t0):
    states = trans = mcstates = 0
    ntr = nev = 0
    samples, violations, others = [], [], []
    known = load_known(prop)
    mcs = []
    for fk, opts, names in spec["runs"]:
        fam = families.FAMILIES[fk]
        wd = os.path.join(work, fk)
        os.makedirs(wd, exist_ok=True)
        for module, cq, ct in fam.mc:
            cfg = cq if tier == "quick" else ct
            t = time.time()
            rc, out = core.tlc(module + ".tla", cfg, wd, timeout=3000)
            m = core.STATS.search(out)
            if rc != 0 or not m:
                sys.stderr.write(out[-4000:])
                raise core.ToolError("model checking %s/%s failed (rc=%s)" % (module, cfg, rc))
            mcs.append("%s/%s: %s distinct states, %s transitions" % (module, cfg, m.group(2), m.group(1)))
            mcstates += int(m.group(2))
            states += int(m.group(2))
            trans += int(m.group(1))
            core.log("%s: TLC %s (%.1fs)" % (prop, mcs[-1], time.time() - t))
        t = time.time()
        scripts = fam.scripts(tier, seed, wd, opts)
        t1 = time.time()
        traces = core.replay(binary, fam.harness, scripts, wd, fam.timeout_per)
        t2 = time.time()
        bads, st = core.validate(fam.module, traces, wd, timeout=6000)
        t3 = time.time()
        ev = sum(len(x["ev"]) for x in traces)
        core.log("%s: %s: %d scripts (%.1fs), %d events replayed on the code (%.1fs), validated against Trace_%s (%.1fs), %d mismatching" %
                 (prop, fk, len(scripts), t1 - t, ev, t2 - t1, fam.module, t3 - t2, len(bads)))
        ntr += len(traces)
        nev += ev
        states += st["states"]
        trans += st["transitions"]
        byid = {s["id"]: s for s in scripts}
        samples += [{"family": fk, "id": s["id"], "ops": s["ops"][:6]} for s in scripts[:: max(1, len(scripts) // 2)][:2]]
        for b in bads:
            hit = names is None or set(b["names"]) & set(names) or "panic" in b["names"]
            kn = [w for sid, w in known if sid == b["trace"]["id"]]
            if kn and hit:
                core.log("KNOWN-FINDING: property=%s %s" % (prop, kn[0]))
            elif hit:
                violations.append((fk, b, byid[b["trace"]["id"]]))
            else:
                others.append(b)
    nviol = len(violations)
    rdir = os.path.join(EVID, "replays")
    for k, (fk, b, sc) in enumerate(violations[:5]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, k))
        sc = dict(sc)
        if b["at"] > 0 and len(b["trace"]["ev"]) > 1:
            sc["ops"] = sc["ops"][:b["at"]]
        json.dump({"property": prop, "family": fk, "mismatch": b["names"], "at": b["at"], "script": sc,
                   "observed": b["trace"]["ev"][b["at"] - 1]}, open(path, "w"), indent=1)
        core.log(describe(b))
        core.log("VIOLATION property=%s replay=%s" % (prop, path))
    for b in others[:3]:
        core.log("note: mismatch outside this property: " + describe(b))
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": spec["level"],
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": ntr,
                       "events_validated": nev, "model_checking": mcs, "samples": samples,
                       "mismatches_outside_property": len(others)},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": nviol}
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    core.log("%s: %s, %d traces, %d events, %d states, %.1fs" % (prop, "VIOLATED" if nviol else "held", ntr, nev, states, time.time() - t0))
    return 1 if nviol else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except core.ToolError as e:
        sys.stderr.write("tool error: %s\n" % e)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
