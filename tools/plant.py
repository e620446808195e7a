#!/usr/bin/env python3
"""Plants the bugs of tools/bugs*.py in scratch copies of /repo, keeps those that qualify under /verif/seeded,
and runs the checks against them (in scratch copies of both trees).  No check uses this file.

  plant.py make [ID...]    confirm and store (applies, changes original lines, builds, stable tests pass, demo 0 -> nonzero)
  plant.py eval [ID...]    run the check of each bug's property against it
  plant.py quiet ID [C..]  apply the harmless edits ID of tools/refactors.py and run the checks, which must stay quiet"""
import importlib, json, os, re, shutil, subprocess, sys, glob, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = "/verif"
S = V + "/seeded"
W = "/tmp/plant"
BASE = "f86a37f"
PRE = """#![allow(unused_imports, dead_code, unused_variables)]
use ellipticcurve::*;
use ellipticcurve::bigint::{Power, PowerModulo, Inverse, ModResult, extended_gcd, chinese_remainder};
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::term::{Term, Monomial};
use ellipticcurve::term_builder::{TermBuilder, TermBuildable};
use ellipticcurve::subscripted_variable::{SubscriptedVariable, SubscriptedVariableConverter};
use ellipticcurve::elliptic_curve::{EllipticCurve, ECPoint};
use num_bigint::BigInt;
use num_traits::{Zero, One};

fn z(v: i64) -> BigInt { BigInt::from(v) }
/// coef x^a y^b q^c
fn t(c: i64, a: i32, b: i32, q: i32) -> Term { TermBuilder::new().coef(&z(c)).xpow(a).ypow(b).qpow(q).build() }
/// coef x^a y^b q^c c_i_j
fn tv(c: i64, a: i32, b: i32, q: i32, i: i32, j: i32) -> Term { TermBuilder::new().coef(&z(c)).xpow(a).ypow(b).qpow(q).variable_ij(i, j).build() }
/// sum of terms
fn p(ts: &[Term]) -> Polynomial { let mut r = Polynomial::new(); for u in ts { r += u; } r }
fn ec(a: i64, b: i64, m: i64) -> EllipticCurve { EllipticCurve::new(&z(a), &z(b), &z(m)) }
fn pt(x: i64, y: i64) -> ECPoint { ECPoint::new(&z(x), &z(y), &z(1)) }

fn main() {
"""
DEMO = """#!/bin/bash
# Builds demo.rs against the library in the current directory and runs it: 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"

[workspace]

[dependencies]
ellipticcurve = { path = "$repo" }
num-bigint = "0.2"
num-traits = "0.2"

[profile.dev]
opt-level = 1
EOF
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" RUSTFLAGS=-Awarnings cargo build --offline --quiet > "$d/log" 2>&1 || { cat "$d/log"; exit 3; }
timeout 200 "$d/target/debug/demo" > "$d/out" 2>&1
rc=$?
tail -n 5 "$d/out"
exit $rc
"""


def bugs():
    out = {}
    sys.path.insert(0, V + "/tools")
    for f in sorted(glob.glob(V + "/tools/bugs*.py")):
        m = importlib.import_module(os.path.basename(f)[:-3])
        for b in m.BUGS:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"


def slot_repo(k):
    r = "%s/%d/repo" % (W, k)
    if not os.path.isdir(r):
        os.makedirs("%s/%d" % (W, k), exist_ok=True)
        sh(["cp", "-a", "/repo", r])
        for f in ("test.sh", "env.sh"):
            open("%s/%d/%s" % (W, k, f), "w").write(open("/opt/vp/" + f).read().replace("/repo", r).replace(". /opt/vp/env.sh", ". %s/%d/env.sh" % (W, k)))
    sh(["git", "checkout", "-q", "--", "."], r)
    sh(["git", "fetch", "-q", "/repo", "HEAD"], r)
    sh(["git", "reset", "-q", "--hard", "FETCH_HEAD"], r)
    return r


def apply_edits(r, b):
    for f, old, new in b["edits"]:
        p = os.path.join(r, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "%s: %d matches of %r" % (f, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))


def base_lines(r):
    """every removed line (or a neighbour of an insertion) stems from the original commit"""
    rc, d = sh(["git", "diff", "-U0"], r)
    f, bad, n = None, [], 0
    for l in d.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m:
            a, c = int(m.group(1)), int(m.group(2) or 1)
            if c:
                rc, bl = sh(["git", "blame", "-s", "-L", "%d,+%d" % (a, c), "HEAD", "--", f], r)
                for x in bl.splitlines():
                    n += 1
                    if BASE[:6] not in x.split()[0]:
                        bad.append(x)
    return n, bad


def make(b, k):
    r = slot_repo(k)
    e = apply_edits(r, b)
    if e:
        return "EDIT " + e
    n, bad = base_lines(r)
    if bad or n == 0:
        return "LINES removed=%d not original: %s" % (n, bad)
    rc, diff = sh(["git", "diff"], r)
    out = "%s/%d/out.json" % (W, k)
    rc, o = sh(["bash", "%s/%d/test.sh" % (W, k), out])
    try:
        res = json.load(open(out))
    except Exception as ex:
        return "TESTS no result: " + o[-1500:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(res.get("passed", res.get("pass", [])))
    if not stable <= passed:
        return "TESTS fail: %s %s" % (sorted(stable - passed), "" if passed else o[-800:])
    d = "%s/%d/seed" % (W, k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(PRE + b["demo"].strip("\n") + "\n}\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
    rc1, o1 = sh(["bash", d + "/demo.sh"], r)
    sh(["git", "checkout", "-q", "--", "."], r)
    rc0, o0 = sh(["bash", d + "/demo.sh"], r)
    if rc0 != 0 or rc1 in (0, 2, 3):
        return "DEMO unchanged %d, patched %d\n%s\n--\n%s" % (rc0, rc1, o0[-1500:], o1[-1500:])
    t = S + "/" + b["id"]
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t)
    return "ok (%s)" % (o1.strip().splitlines() or [""])[-1][:100]


def slot_verif(k):
    v = "%s/%d/verif" % (W, k)
    r = slot_repo(k)
    sh(["rsync", "-a", "--delete", "--exclude", ".work", "--exclude", "seeded", "--exclude", ".git", "--exclude", "evidence", "--exclude", "/.build", V + "/", v + "/"])
    if not os.path.isdir(v + "/.build"):
        sh(["cp", "-a", V + "/.build", v + "/.build"])
    c = v + "/harness/Cargo.toml"
    s = open(c).read().replace('"/repo"', '"%s"' % r)
    open(c, "w").write(s)
    return r, v


def ev(i, prop, k, tier="quick"):
    r, v = slot_verif(k)
    rc, o = sh(["git", "apply", S + "/" + i + "/patch.diff"], r)
    if rc:
        return "APPLY " + o
    t0 = time.time()
    rc, o = sh([sys.executable, v + "/check.py", prop, "--tier", tier], v, {"VERIF_REPO": r, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")}, 2000)
    sh(["git", "checkout", "-q", "--", "."], r)
    viol = [l for l in o.splitlines() if l.startswith("VIOLATION")]
    verdict = "caught" if rc == 1 and viol else "MISSED" if rc == 0 else "ERROR rc=%d %s" % (rc, o[-1500:])
    return "%s %.0fs %s" % (verdict, time.time() - t0, " | ".join(x for x in o.splitlines()[-3:])[:300])


def quiet(i, props, slots):
    from refactors import REFACTORS
    edits = dict(REFACTORS)[i]
    for k in range(slots):
        r, v = slot_verif(k)
        e = apply_edits(r, {"edits": edits})
        if e:
            return print(e)
    out = "%s/0/out.json" % W
    rc, o = sh(["bash", "%s/0/test.sh" % W, out])
    try:
        res = json.load(open(out))
    except Exception:
        return print("TESTS " + o[-3000:])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    print("tests missing:", sorted(stable - set(res.get("passed", res.get("pass", [])))), flush=True)
    q = Queue()
    for k in range(slots):
        q.put(k)

    def job(c):
        k = q.get()
        try:
            v = "%s/%d/verif" % (W, k)
            rc, o = sh([sys.executable, v + "/check.py", c, "--tier", "quick"], v, {"VERIF_REPO": "%s/%d/repo" % (W, k), "VERIF_SEED": os.environ.get("VERIF_SEED", "1")}, 2000)
        finally:
            q.put(k)
        print(i, c, "quiet" if rc == 0 else "NOISE rc=%d" % rc, "" if rc == 0 else o[-2500:], flush=True)
    with ThreadPoolExecutor(slots) as ex:
        list(ex.map(job, props or ["C%02d" % n for n in range(30, 0, -1)]))
    for k in range(slots):
        slot_repo(k)


def main():
    if sys.argv[1] == "quiet":
        sys.path.insert(0, V + "/tools")
        return quiet(sys.argv[2], sys.argv[3:], int(os.environ.get("SLOTS", "2")))
    cmd, ids = sys.argv[1], sys.argv[2:]
    slots = int(os.environ.get("SLOTS", "4"))
    q = Queue()
    for k in range(slots):
        q.put(k)
    B = bugs()

    def job(i):
        k = q.get()
        try:
            res = make(B[i], k) if cmd == "make" else ev(i, json.load(open(S + "/" + i + "/meta.json"))["property"], k, os.environ.get("TIER", "quick"))
        finally:
            q.put(k)
        print(i, B[i]["property"] if i in B else "", res, flush=True)
    if cmd == "make":
        ids = ids or [i for i in B if not os.path.isdir(S + "/" + i)]
    elif cmd == "eval":
        ids = ids or sorted(os.listdir(S))
    with ThreadPoolExecutor(slots) as ex:
        list(ex.map(job, ids))


main()
