#!/usr/bin/env python3
"""Small random changes of the library against the generated scripts: which are not even noticed by the recording?
A change whose recorded observations equal those of the unchanged tree on all scripts is either equivalent or a gap of the generators;
both are printed for inspection.  (TLC is not run: an observation that differs is judged there.)

  mutate.py scripts ID...        write the quick scripts of the properties to /tmp/mut and record the unchanged tree
  mutate.py run [FILE...]        all mutants of src/FILE; survivors to /tmp/mut/survivors.txt
No check uses this file."""
import sys, os, re, json, subprocess, shutil, time, threading, hashlib
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
SLOTS = int(os.environ.get("SLOTS", "8"))
AFF = {"polynomial.rs": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13", "term.rs": "C01 C03 C05 C09 C10 C12 C13 C11 C08 C04", "term_builder.rs": "C30 C01", "bigint.rs": "C14 C15 C16 C03",
       "elliptic_curve.rs": "C17 C18 C19 C20 C21 C22", "secp256k1.rs": "C22", "simultaneous_equation.rs": "C27", "subscripted_variable.rs": "C28 C12 C13", "division_polynomial.rs": "C23",
       "modular_polynomial.rs": "C26", "eisenstein.rs": "C25", "delta.rs": "C25", "divisor.rs": "C25", "j_invariant.rs": "C25", "schoof.rs": "C24", "schoof_elkies_atkins.rs": "C29"}


def write_scripts(ids):
    sys.path.insert(0, V); sys.path.insert(0, V + "/gen")
    import plans
    os.makedirs(W, exist_ok=True)
    for pid in ids:
        plan = plans.PLANS[pid]
        for kind, chunks in plan["gen"](plans.G("%s/1/quick" % pid), plan.get("quick_factor", 8)).items():
            with open("%s/%s-%s.in" % (W, pid, kind), "w") as f:
                for c in chunks:
                    if c:
                        f.write('{"op":"reset"}\n')
                        for e in c:
                            f.write(json.dumps(e, separators=(",", ":")) + "\n")


def inputs(pid):
    return sorted(f for f in os.listdir(W) if f.startswith(pid + "-") and f.endswith(".in"))


def record(exe, inp, out, limit, wall):
    env = dict(os.environ, HARNESS_OP_LIMIT=str(limit))
    try:
        r = subprocess.run([exe, inp, out], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=wall)
        return r.returncode
    except subprocess.TimeoutExpired:
        return "timeout"


def norm(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        for b in iter(lambda: f.read(1 << 20), b""):
            h.update(b)
    return h.hexdigest()


def slot(k):
    d = "%s/s%d" % (W, k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git", "target"))
    shutil.copytree(V + "/harness", d + "/harness", ignore=shutil.ignore_patterns("target"))
    c = open(d + "/harness/Cargo.toml").read().replace('path = "/repo"', 'path = "%s/repo"' % d)
    open(d + "/harness/Cargo.toml", "w").write(c)
    return d


def build(d):
    env = dict(os.environ, CARGO_TARGET_DIR=d + "/target", CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=d + "/harness", env=env, capture_output=True, text=True)
    return r.returncode == 0


def code_lines(path):
    """indices of lines that are not tests, comments, macros"""
    ls = open(path).read().split("\n")
    ok, i = [], 0
    while i < len(ls):
        if ls[i].strip().startswith("#[test]"):
            while not re.match(r"^\s*fn |^\s*pub fn ", ls[i]):
                i += 1
            ind = re.match(r"\s*", ls[i]).group(0)
            while ls[i] != ind + "}":
                i += 1
        elif ls[i].strip() and not ls[i].strip().startswith(("//", "use ", "#[", "pub mod", "assert")):
            ok.append(i)
        i += 1
    return ls, ok


SUBS = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\*=", ["+="]),
        (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
        (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.\.=", [".."]), (r"(?<=[\w)])\.\.(?=[\w(&])", ["..="]), (r"is_zero\(\)", ["is_one()"]), (r"is_one\(\)", ["is_zero()"]),
        (r"\bxpow\b", ["ypow", "qpow"]), (r"\bypow\b", ["xpow", "qpow"]), (r"\bqpow\b", ["xpow", "ypow"]), (r"Ordering::Less", ["Ordering::Greater"]), (r"Ordering::Greater", ["Ordering::Less"]),
        (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]), (r"mod_floor", ["rem_placeholder"]), (r"div_floor", ["mod_floor"]), (r"\bif ([^{]+) \{", ["if !(\\1) {", "if false && (\\1) {", "if true || (\\1) {"]),
        (r"\bwhile ([^{]+) \{", ["while false && (\\1) {"]), (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\.a\b", [".b"]), (r"\.b\b", [".a"]), (r"Zero::zero\(\)", ["One::one()"]), (r"One::one\(\)", ["Zero::zero()"]),
        (r"BigInt::zero\(\)", ["BigInt::one()"]), (r"BigInt::one\(\)", ["BigInt::zero()"]), (r"-(?=[a-z&(])", [""]), (r"\bfirst\(\)", ["last()"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"abs\(\)", ["clone()"]),
        (r"\.i\b", [".j"]), (r"\.j\b", [".i"]), (r"i64\b", ["i32"]), (r"i32\b", ["i16"]), (r"to_i64", ["to_i32"]), (r"is_even", ["is_odd"]), (r"is_odd", ["is_even"]), (r"is_negative", ["is_positive"]), (r"is_positive", ["is_negative"])]


def mutants(path):
    ls, ok = code_lines(path)
    out, seen = [], set()

    def add(i, new, what):
        if new != ls[i] and (i, new) not in seen:
            seen.add((i, new))
            out.append((i, new, what))
    for i in ok:
        l = ls[i]
        code = l.split("//")[0]
        if '"' in code and "panic" not in code and "write" not in code and "push" not in code and "format" not in code:
            continue
        for pat, reps in SUBS:
            for m in re.finditer(pat, code):
                for r in reps:
                    if r == "rem_placeholder()":
                        continue
                    add(i, l[:m.start()] + m.expand(r) + l[m.end():], pat)
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            n = int(m.group(1))
            for k in (n + 1, n - 1):
                if k >= 0:
                    add(i, l[:m.start()] + str(k) + l[m.end():], "int")
        s = code.strip()
        if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "}", "break", "continue", "const")) and not s.startswith("impl"):
            add(i, re.match(r"\s*", l).group(0) + "// deleted", "delete")
        if s.startswith("return") and s.endswith(";"):
            add(i, re.match(r"\s*", l).group(0) + "// deleted", "delete")
    return ls, out


def run(files):
    base = slot(99)
    assert build(base)
    exe = base + "/target/release/harness"
    ids = sorted({f[:3] for f in os.listdir(W) if f.endswith(".in")})
    if not os.environ.get("ALL"):
        ids = sorted({i for f in files for i in AFF[f].split() if i in ids})
    ref, tm = {}, {}

    def rec0(f):
        t = time.time()
        rc = record(exe, W + "/" + f, W + "/" + f[:-3] + ".ref", 100, 2000)
        assert rc == 0, (f, rc)
        tm[f] = time.time() - t
        ref[f] = norm(W + "/" + f[:-3] + ".ref")
    with ThreadPoolExecutor(SLOTS) as ex:
        list(ex.map(rec0, [f for i in ids for f in inputs(i)]))
    print({f: round(t, 1) for f, t in tm.items()}, flush=True)
    q = Queue()
    for k in range(SLOTS):
        d = slot(k)
        q.put(d)
    tasks = []
    for f in files:
        ls, ms = mutants("/repo/src/" + f)
        print(f, len(ms), flush=True)
        tasks += [(f, ls, m) for m in ms]
    lock = threading.Lock()
    cnt = {"nobuild": 0, "killed": 0, "own": 0, "survived": 0}
    surv = open(W + "/survivors-%s.txt" % "-".join(x[:-3] for x in files)[:80], "w")

    def job(t):
        f, ls, (i, new, what) = t
        d = q.get()
        try:
            p = d + "/repo/src/" + f
            open(p, "w").write("\n".join(ls[:i] + [new] + ls[i + 1:]))
            ok = build(d)
            res = "nobuild"
            if ok:
                res = "survived"
                order = AFF[f].split()
                order = [x for x in order if x in ids] + [x for x in ids if x not in order and os.environ.get("ALL")]
                for pid in order:
                    for g in inputs(pid):
                        out = d + "/out"
                        rc = record(d + "/target/release/harness", W + "/" + g, out, 8 + 3 * int(tm[g]), 4 * tm[g] + 20)
                        if rc != 0 or norm(out) != ref[g]:
                            res = "killed " + pid
                            break
                    if res != "survived":
                        break
            open(p, "w").write("\n".join(ls))
        finally:
            q.put(d)
        with lock:
            cnt[res.split()[0]] += 1
            if res == "survived":
                surv.write("%s:%d %s\n  - %s\n  + %s\n" % (f, i + 1, what, ls[i].strip(), new.strip()))
                surv.flush()
            if sum(cnt.values()) % 50 == 0:
                print(cnt, flush=True)
    with ThreadPoolExecutor(SLOTS) as ex:
        list(ex.map(job, tasks))
    print(cnt, flush=True)
    for k in list(range(SLOTS)) + [99]:
        shutil.rmtree("%s/s%d" % (W, k), ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "scripts":
        write_scripts(sys.argv[2:] or ["C%02d" % i for i in range(1, 31)])
    else:
        run(sys.argv[2:] or sorted(AFF))
