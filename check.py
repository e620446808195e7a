#!/usr/bin/env python3
"""Decides one property.

  check.py ID [--tier quick|thorough]     VERIF_TIER, VERIF_SEED are honoured
  check.py ID --replay FILE               re-executes a recorded script against the library and validates it
  check.py --setup                        builds everything

exit 0: the property held on everything explored; 1: VIOLATION line; 2: error of the check."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, ".build")
SPEC = os.path.join(V, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HARNESS = os.path.join(BUILD, "target/release/harness")
sys.path.insert(0, os.path.join(V, "gen"))
TRACE_MODULE = {"poly": "TracePoly", "num": "TraceNum", "curve": "TraceCurve", "forms": "TraceForms", "div": "TraceDiv",
                "count": "TraceCount"}


class Fatal(Exception):
    pass


# ------------------------------------------------------------------------------------ building
def tree_hash(roots):
    h = hashlib.sha256()
    for root in roots:
        fs = [root] if os.path.isfile(root) else sorted(os.path.join(d, f) for d, _, ff in os.walk(root) for f in ff)
        for f in fs:
            if os.path.isfile(f):
                h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jdir = os.path.join(BUILD, "java")
        want = tree_hash([os.path.join(V, "java")])
        stamp = os.path.join(BUILD, "java.stamp")
        if not (os.path.isdir(jdir) and os.path.exists(stamp) and open(stamp).read() == want):
            os.makedirs(jdir, exist_ok=True)
            r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", jdir, os.path.join(V, "java/ZZ.java"), os.path.join(V, "java/Poly.java")], capture_output=True, text=True)
            if r.returncode:
                raise Fatal("javac: " + r.stderr)
            open(stamp, "w").write(want)
        srcs = [os.path.join(REPO, x) for x in ("src", "Cargo.toml", "Cargo.lock", "build.rs", ".cargo") if os.path.exists(os.path.join(REPO, x))]
        want = tree_hash(srcs + [os.path.join(V, "harness", x) for x in ("src", "Cargo.toml", "Cargo.lock")])
        stamp = os.path.join(BUILD, "harness.stamp")
        if os.path.exists(HARNESS) and os.path.exists(stamp) and open(stamp).read() == want:
            return
        if os.path.exists(stamp):
            os.remove(stamp)
        # cargo decides by modification times; the content decides here
        fp = os.path.join(BUILD, "target/release/.fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("ellipticcurve-") or d.startswith("harness-"):
                    shutil.rmtree(os.path.join(fp, d))
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(V, "harness"), env=env, capture_output=True, text=True)
        if r.returncode:
            raise Fatal("cargo build: " + r.stderr[-4000:])
        open(stamp, "w").write(want)


# ------------------------------------------------------------------------------------ TLC
class Run:
    """scratch directory of one check"""

    def __init__(self, pid):
        self.dir = os.path.join(V, ".work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.k = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def cfg_text(module, over):
    t = open(os.path.join(SPEC, module + ".cfg")).read()
    for k, v in (over or {}).items():
        t, n = re.subn(r"(\b%s\s*)(=|<-)\s*(\{[^}]*\}|\S+)" % re.escape(k), lambda m: "%s%s %s" % (m.group(1), "<-" if k == "Ops" else "=", v), t)
        if n != 1:
            raise Fatal("no constant %s in %s.cfg" % (k, module))
    return t


def tlc(run, name, module, over=None, workers=1, env=None, args=(), timeout=800, heap="6g"):
    cfg = run.path(name + ".cfg")
    open(cfg, "w").write(cfg_text(module, over))
    meta = run.path(name + ".meta")
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss256m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta,
           "-cp", os.path.join(BUILD, "java") + ":" + JARS, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-nowarning", "-workers", str(workers), "-config", cfg] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Fatal("TLC %s: no answer in %d s" % (name, timeout))
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def model_check(run, mc):
    """the specification's own properties; any failure here is an error of the machinery"""
    name, module, over, workers = mc
    t0 = time.time()
    rc, out = tlc(run, name, module, over, workers)
    if rc != 0 or "No error has been found" not in out:
        raise Fatal("model %s: rc %d\n%s" % (name, rc, out[-3000:]))
    gen, dist = counts(out)
    return {"model": module, "constants": over or {}, "states": dist, "transitions": gen, "wall_s": round(time.time() - t0, 1)}


# ------------------------------------------------------------------------------------ executing scripts
def fix_ints(line):
    """TLC reads 32-bit integers; anything longer outside strings becomes a value no step produces"""
    if not re.search(r"\d{10}", line):
        return line

    def w(o):
        if isinstance(o, bool) or isinstance(o, str):
            return o
        if isinstance(o, int):
            return o if -2**31 < o < 2**31 else -2000000001
        if isinstance(o, list):
            return [w(x) for x in o]
        if isinstance(o, dict):
            return {k: w(v) for k, v in o.items()}
        return o
    return json.dumps(w(json.loads(line)), separators=(",", ":"))


def execute(run, name, chunks, limit):
    """chunks -> recorded chunks (cut short at a hang or a crash), each a list of trace lines"""
    env = dict(os.environ, HARNESS_OP_LIMIT=str(limit))
    script, out = run.path(name + ".in"), run.path(name + ".out")
    flat = []
    with open(script, "w") as f:
        for c in chunks:
            f.write('{"op":"reset"}\n')
            flat.append('{"op":"reset"}')
            for e in c:
                s = json.dumps(e, separators=(",", ":"))
                flat.append(s)
                f.write(s + "\n")
    r = subprocess.run([HARNESS, script, out], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    lines = open(out).read().splitlines() if os.path.exists(out) else []
    if lines and not lines[-1].endswith("}"):
        lines.pop()
    if r.returncode < 0 or r.returncode in (101, 134):
        # the process died in the middle of an operation
        nxt = flat[len(lines)]
        lines.append(nxt[:-1] + ',"st":"crash","r":[]}')
    elif r.returncode:
        raise Fatal("harness: rc %d %s" % (r.returncode, r.stderr[-500:]))
    elif len(lines) != len(flat) and not (lines and '"st":"hang"' in lines[-1]):
        raise Fatal("harness: %d of %d lines" % (len(lines), len(flat)))
    os.remove(script)
    os.remove(out)
    rec = []
    for s in lines:
        s = fix_ints(s)
        if s.startswith('{"op":"reset"'):
            rec.append([])
        rec[-1].append(s)
    return rec


def run_chunks(run, kind, chunks, limit, procs=8):
    shards = [chunks[i::procs] for i in range(procs)]
    with ThreadPoolExecutor(procs) as ex:
        parts = list(ex.map(lambda t: execute(run, "%s-%d" % (kind, t[0]), t[1], limit) if t[1] else [], enumerate(shards)))
    return [c for p in parts for c in p]


# ------------------------------------------------------------------------------------ validating traces
def validate(run, name, kind, rec, over=None, workers=8):
    """rec: recorded chunks.  Returns (stats, mismatch or None)"""
    module = TRACE_MODULE[kind]
    path = run.path(name + ".ndjson")
    lines = [s for c in rec for s in c]
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    t0 = time.time()
    rc, out = tlc(run, name, module, over, workers, env={"TRACE": path}, timeout=880)
    gen, dist = counts(out)
    st = {"trace_module": module, "executions": len(rec), "events": len(lines), "states": dist, "transitions": gen, "wall_s": round(time.time() - t0, 1)}
    if rc == 0 and "No error has been found" in out and dist == len(lines):
        return st, None
    m = re.search(r'<<"MISMATCH", (\d+), ', out)
    if not m:
        n = out.rfind("Error:")
        raise Fatal("trace %s: rc %d, %d of %d lines, no mismatch reported (script outside the specification's domain?)\n%s" %
                    (name, rc, dist, len(lines), out[max(0, out.find("Error:") - 200):][:3500] if n >= 0 else out[-3000:]))
    at = int(m.group(1))
    k = 0
    for c in rec:
        if k + len(c) >= at:
            return st, {"at": at, "chunk": c[:at - k], "expected": out[m.start():m.start() + 6000]}
        k += len(c)
    raise Fatal("trace %s: mismatch at line %d of %d" % (name, at, len(lines)))


def simulate(run, name, sim, seed):
    """histories generated by TLC from the specification, as scripts"""
    kind, module, over, num, depth, workers = sim
    res, seen = [], set()

    def one(w):
        rc, out = tlc(run, "%s-%d" % (name, w), module, over, 1, args=["-simulate", "num=%d" % num, "-seed", str(seed * 1000 + w), "-depth", str(depth)], heap="2g")
        if rc != 0 or "Error:" in out:
            raise Fatal("simulation %s: rc %d\n%s" % (name, rc, out[-3000:]))
        return re.findall(r'^"SCRIPT (.*)"$', out, re.M)
    with ThreadPoolExecutor(workers) as ex:
        for scripts in ex.map(one, range(workers)):
            for s in scripts:
                s = s.replace('\\"', '"').replace("\\\\", "\\")
                if s not in seen:
                    seen.add(s)
                    h = json.loads(s)
                    if len(h) > 1:
                        res.append(h[1:])
    return kind, res


# ------------------------------------------------------------------------------------ findings
def known(pid):
    """lines 'finding: property=ID op=... match=REGEX ...' -- there are none at present"""
    f = os.path.join(V, "known-findings.txt")
    out = []
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def save_replay(pid, kind, over, mm):
    d = os.path.join(V, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    body = [re.sub(r',"st":"[a-z]*","r":.*\}$', "}", s) for s in mm["chunk"]]
    p = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha256("\n".join(body).encode()).hexdigest()[:12]))
    json.dump({"property": pid, "kind": kind, "constants": over or {}, "script": [json.loads(s) for s in body[1:]],
               "observed": json.loads(mm["chunk"][-1]), "specification": mm["expected"]}, open(p, "w"), indent=1)
    return p


def shorten(o, n=600):
    s = json.dumps(o, separators=(",", ":"))
    return s if len(s) <= n else s[:n] + "..."


def check(pid, tier, seed):
    import plans
    t0 = time.time()
    run = Run(pid)
    try:
        build()
        plan = plans.PLANS[pid]
        big = plan.get("quick_factor", 8) if tier == "quick" else plan.get("thorough_factor", 60)
        scripts = {}
        for kind, chunks in plan["gen"](plans.G("%s/%d/%s" % (pid, seed, tier)), big).items():
            scripts.setdefault(kind, []).extend(chunks)
        mcs = plan["models"](tier)
        sims = plan.get("sims", lambda t: [])(tier)
        models, mismatches, stats = [], [], []
        samples, opcount, execs, events = [], {}, 0, 0
        with ThreadPoolExecutor(4) as ex:
            fm = [ex.submit(model_check, run, m) for m in mcs]
            fs = [ex.submit(simulate, run, "sim%d" % i, s, seed) for i, s in enumerate(sims)]
            nsim = 0
            for f in fs:
                kind, cs = f.result()
                nsim += len(cs)
                scripts.setdefault(kind, []).extend(cs)
            for kind in sorted(scripts):
                cs = [c for c in scripts[kind] if c]
                for c in cs:
                    for e in c:
                        opcount[e["op"]] = opcount.get(e["op"], 0) + 1
                rec = run_chunks(run, kind, cs, plan.get("limit", 60))
                execs += len(rec)
                over = plan.get("trace_over", {}).get(kind, {}).get(tier)
                # one TLC run per part: a part fits comfortably in memory
                part, parts, n = [], [], 0
                for c in rec:
                    part.append(c)
                    n += sum(len(s) for s in c)
                    if n > 60_000_000:
                        parts.append(part)
                        part, n = [], 0
                if part:
                    parts.append(part)
                for i, part in enumerate(parts):
                    st, mm = validate(run, "%s-trace%d" % (kind, i), kind, part, over)
                    stats.append(st)
                    events += st["events"] - st["executions"]
                    if mm:
                        mismatches.append((kind, over, mm))
                        break
                pick = [c for c in rec if len(c) > 1]
                for c in pick[:: max(1, len(pick) // 3)][:3]:
                    k = min(len(c) - 1, 1 + (len(c) // 2))
                    samples.append({"kind": kind, "event": shorten(json.loads(c[k]))})
            models = [f.result() for f in fm]
        viol, knownlines = None, []
        for kind, over, mm in mismatches:
            last = mm["chunk"][-1]
            hit = [d for rx, d in known(pid) if rx.search(last)]
            if hit:
                knownlines.append("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
            else:
                viol = viol or (kind, over, mm)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": sum(m["states"] for m in models) + sum(s["states"] for s in stats),
                           "transitions": sum(m["transitions"] for m in models) + sum(s["transitions"] for s in stats),
                           "traces_validated_against_impl": execs, "samples": samples,
                           "trace_events": events, "operations": dict(sorted(opcount.items())),
                           "specification_generated_histories": nsim, "models": models, "trace_validation": stats,
                           "rule": "a trace is one execution of a script of operations by the library, started from the initial state; every event "
                                   "carries the complete observed result and must be the specification's step from the specification's own state"},
              "assumptions": ["TLC, the Java big-integer overrides of module ZZ (compared with their pure TLA+ definitions by MCZZ), the projection in harness/",
                              "values outside the documented domain of an operation are not generated (DESIGN.md)"],
              "wall_s": round(time.time() - t0, 1), "violations": 1 if viol else 0}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
        for l in knownlines:
            print(l)
        if viol:
            p = save_replay(pid, *viol)
            print("observed: " + shorten(json.loads(viol[2]["chunk"][-1]), 1500))
            print("specification: " + viol[2]["expected"][:1500].split("\n\n")[0])
            print("VIOLATION property=%s replay=%s" % (pid, p))
            return 1
        print("%s %s: held on %d executions (%d events); %d model states; %.1f s" % (pid, tier, execs, events, sum(m["states"] for m in models), time.time() - t0))
        return 0
    finally:
        run.close()


def replay(pid, path):
    o = json.load(open(path))
    run = Run(pid + "-replay")
    try:
        build()
        rec = run_chunks(run, o["kind"], [o["script"]], 120, 1)
        _, mm = validate(run, "replay", o["kind"], rec, o.get("constants"), 1)
        if mm:
            print("observed: " + shorten(json.loads(mm["chunk"][-1]), 3000))
            print("specification: " + mm["expected"][:3000].split("\n\n")[0])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("the recorded script is accepted")
        return 0
    finally:
        run.close()


def main(av):
    try:
        if av and av[0] == "--setup":
            build()
            return 0
        pid = av[0]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in av:
            tier = av[av.index("--tier") + 1]
        if "--replay" in av:
            return replay(pid, av[av.index("--replay") + 1])
        return check(pid, "thorough" if tier == "thorough" else "quick", int(os.environ.get("VERIF_SEED", "1")))
    except Fatal as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
