"""Shared machinery of the checks: build, replay, TLC."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
NCPU = int(os.environ.get("VERIF_CPUS", "8"))


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


REPO = "/repo"
TARGET = os.path.join(REPO, "target")       # git-ignored there; shares the dependencies build.sh compiled


def source_hash():
    h = hashlib.sha256()
    for base in ("src", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def build():
    """Builds the harness (and with it the library) from /repo's working tree."""
    t = time.time()
    # cargo judges by modification times: never trust an artefact built from other contents
    stamp = os.path.join(TARGET, "hexoharness.stamp")
    want = source_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want:
        os.utime(os.path.join(REPO, "src", "lib.rs"))
    cmd = ". /opt/vp/env.sh >/dev/null 2>&1; cd %s && CARGO_TARGET_DIR=%s cargo build --offline" % (HARNESS, TARGET)
    p = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise ToolError("harness build failed")
    with open(stamp, "w") as f:
        f.write(want)
    return os.path.join(TARGET, "debug", "hexoharness"), time.time() - t


def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def replay(binary, family, scripts, workdir, timeout_per=60, procs=None):
    """Runs scripts on the real code. Returns traces, one per script, in order.
    A script that kills or hangs the process yields a trace ending in a `panic` event."""
    procs = procs or NCPU
    os.makedirs(workdir, exist_ok=True)
    chunks = [scripts[k::procs] for k in range(procs)]
    res = {}
    jobs = []
    for k, ch in enumerate(chunks):
        if ch:
            jobs.append([k, ch, None, None, None, 0])
    active = []

    def start(job):
        k, ch = job[0], job[1]
        job[5] += 1
        inp = os.path.join(workdir, "s%d_%d.ndjson" % (k, job[5]))
        out = os.path.join(workdir, "t%d_%d.ndjson" % (k, job[5]))
        write_ndjson(inp, ch)
        env = dict(os.environ)
        env["HEXO_SCRATCH"] = os.path.join(workdir, "scratch%d" % k)
        os.makedirs(env["HEXO_SCRATCH"], exist_ok=True)
        job[2] = subprocess.Popen([binary, family, inp, out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env)
        job[3] = out
        job[4] = [time.time(), 0]
        active.append(job)

    def harvest(job, killed):
        last = None
        done = False
        fin = set()
        if os.path.exists(job[3]):
            for line in open(job[3]):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "start" in d:
                    last = d["start"]
                elif "done" in d:
                    done = True
                else:
                    res[d["id"]] = d
                    fin.add(d["id"])
        if done:
            return
        rc = job[2].returncode
        err = (job[2].stderr.read() or b"").decode(errors="replace")[-800:]
        if rc == 3 or last is None:
            raise ToolError("harness error: rc=%s %s" % (rc, err))
        if last not in fin:
            sc = [x for x in job[1] if x["id"] == last][0]
            why = "hang (no result within %ds)" % timeout_per if killed else "process died (status %s) %s" % (rc, err.strip()[-200:])
            res[last] = {"id": last, "cfg": sc.get("cfg", {}), "ev": [{"op": "whole-script", "panic": why}]}
            fin.add(last)
        rest = [x for x in job[1] if x["id"] not in fin]
        if rest:
            job[1] = rest
            start(job)

    for j in jobs:
        start(j)
    while active:
        time.sleep(0.02)
        for j in list(active):
            rc = j[2].poll()
            if rc is not None:
                active.remove(j)
                harvest(j, False)
                continue
            try:
                sz = os.path.getsize(j[3])
            except OSError:
                sz = 0
            if sz != j[4][1]:
                j[4] = [time.time(), sz]
            elif time.time() - j[4][0] > timeout_per:
                j[2].kill()
                j[2].wait()
                active.remove(j)
                harvest(j, True)
    return [res[s["id"]] for s in scripts]


def tlc(module, cfg, workdir, env=None, workers=None, args=(), timeout=800, mem="6g"):
    md = tempfile.mkdtemp(prefix="tlc", dir=workdir)
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = "-Xss64m -Xmx%s -XX:+UseParallelGC" % mem
    if env:
        e.update(env)
    cmd = ["tlc", "-config", cfg, "-workers", str(workers or NCPU), "-metadir", md, "-noGenerateSpecTE", *args, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")


def validate(module, traces, workdir, timeout=800, batch=400):
    """Checks traces against Trace_<module>. Returns (bads, stats)."""
    bads, gen, dist = [], 0, 0
    for b in range(0, len(traces), batch):
        part = traces[b:b + batch]
        f = os.path.join(workdir, "traces_%s_%d.ndjson" % (module, b))
        write_ndjson(f, part)
        cfg = "Trace_%s.cfg" % module
        if not os.path.exists(os.path.join(SPEC, cfg)):
            cfg = "Trace_default.cfg"
        rc, out = tlc("Trace_%s.tla" % module, cfg, workdir, env={"TRACES": f}, timeout=timeout)
        m = STATS.search(out)
        bad = re.findall(r'<<"BAD", (\d+), (\d+), \{(.*?)\}>>', out, re.S)
        if rc != 0 or not m or "Error:" in out:
            sys.stderr.write(out[-5000:])
            raise ToolError("TLC failed on Trace_%s (rc=%s)" % (module, rc))
        seen = set()
        for t, l, names in bad:
            t, l = int(t), int(l)
            if (t, l) in seen:
                continue
            seen.add((t, l))
            bads.append({"trace": part[t - 1], "at": l, "names": sorted(re.findall(r'"([^"]+)"', names))})
        gen += int(m.group(1))
        dist += int(m.group(2))
        # non-vacuity: every event of every trace was consumed, up to the first mismatch
        cut = {t: l for t, l in seen}
        want = sum(1 + cut.get(k + 1, len(tr["ev"])) for k, tr in enumerate(part))
        if int(m.group(2)) != want:
            raise ToolError("Trace_%s: %s states for %d events: trace not fully consumed" % (module, m.group(2), want))
    return bads, {"transitions": gen, "states": dist}
