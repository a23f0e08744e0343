#!/usr/bin/env python3
"""Plants bugs in scratch copies and records what happens.

  plant.py new SPEC.py [id ...]   make /verif/seeded/<id>/ from the entries of SPEC.py, confirm them, run the checks
  plant.py try [id ...]           confirm nothing, run the property's check against planted bugs
  plant.py all [id ...]           as try, with every check (slow)

Works in /tmp/plant/<n>/{repo,verif} only. Results: /tmp/plant/results.json.
"""
import json, os, subprocess, sys, shutil, threading, queue, re, time
ROOT = "/verif"
BASE = "/tmp/plant"
BASE_COMMIT = "3af3ece"
DEMO_SH = r'''#!/bin/bash
# Builds demo.rs against the crates of the tree it is run in, and runs it.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/demo.rs" "$w/src/main.rs" || exit 2
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat >"$w/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
kzg = { path = "$repo/kzg" }
plonk = { path = "$repo/plonk" }
fri = { path = "$repo/fri" }
nova = { path = "$repo/nova" }
ark-ff = "0.4.2"
ark-poly = "0.4.2"
ark-ec = "0.4.2"
ark-bls12-381 = "0.4.0"
ark-serialize = "0.4.2"
rand = "0.8.5"
sha2 = "0.10"
sha2_11 = { package = "sha2", version = "0.11.0-pre.3" }
[profile.dev]
opt-level = 1
debug = 0
END
cd "$w" || exit 2
unset RUSTFLAGS
export CARGO_TARGET_DIR="${DEMO_TARGET:-$w/target}" CARGO_NET_OFFLINE=true
cargo build -q --offline 2>"$w/log" || { cat "$w/log"; exit 2; }
timeout 250 "$CARGO_TARGET_DIR/debug/demo"
'''
lock = threading.Lock()
results = {}

def sh(cmd, cwd, timeout=1500, env=None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=e)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def setup(n):
    d = f"{BASE}/{n}"
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(f"{d}/repo"):
        sh(f"cp -a /repo {d}/repo", "/")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", f"{d}/repo")
    os.makedirs(f"{d}/verif/harness", exist_ok=True)
    sh(f"rsync -a --delete --exclude target /verif/harness/ {d}/verif/harness/ 2>/dev/null || (rm -rf {d}/verif/harness/src && cp -a /verif/harness/src /verif/harness/Cargo.toml /verif/harness/Cargo.lock {d}/verif/harness/)", "/")
    sh(f"cp /verif/KNOWN_FINDINGS.txt {d}/verif/ && sed 's#/repo/#{d}/repo/#g' /verif/run.sh > {d}/verif/run.sh && chmod +x {d}/verif/run.sh", "/")
    return d

def clean(d):
    sh("git checkout -q -- .", f"{d}/repo")

def own_lines(d, patch):
    """lines the patch removes that are not of the original repository"""
    bad, cur = [], None
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
            base = sh(f"git show {BASE_COMMIT}:{cur}", f"{d}/repo")[1].splitlines()
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:] not in base:
                bad.append(l)
    return bad

def work(d, q, mode):
    while True:
        try:
            b = q.get_nowait()
        except queue.Empty:
            return
        i = b["id"]
        s = f"{ROOT}/seeded/{i}"
        r = {"property": b["property"]}
        try:
            clean(d)
            if mode == "new":
                for f, old, new in b["edits"]:
                    p = f"{d}/repo/{f}"
                    t = open(p).read()
                    if t.count(old) != 1:
                        raise Exception(f"{f}: {t.count(old)} matches of {old[:60]!r}")
                    open(p, "w").write(t.replace(old, new))
                patch = sh("git diff", f"{d}/repo")[1]
                r["own_lines"] = own_lines(d, patch)
                removed = [l for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
                if not removed:
                    r["own_lines"] = ["removes no line"]
                clean(d)
                os.makedirs(s, exist_ok=True)
                open(f"{s}/patch.diff", "w").write(patch)
                open(f"{s}/demo.rs", "w").write(b["demo"].lstrip("\n"))
                open(f"{s}/demo.sh", "w").write(DEMO_SH)
                os.chmod(f"{s}/demo.sh", 0o755)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{s}/meta.json", "w"), indent=1)
                env = {"DEMO_TARGET": f"{d}/demo-target"}
                c, o = sh(f"{s}/demo.sh", f"{d}/repo", 300, env)
                r["demo_clean"] = c
                if c != 0:
                    r["demo_out"] = o[-1500:]
            c, o = sh(f"git apply {s}/patch.diff", f"{d}/repo")
            if c:
                raise Exception("patch: " + o)
            if mode == "new":
                c, o = sh(f"{s}/demo.sh", f"{d}/repo", 300, env)
                r["demo_patched"] = c
                if c in (0, 2, 124, 134):
                    r["demo_out"] = o[-1500:]
                c, o = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", f"{d}/repo", 900, {"CARGO_TARGET_DIR": f"{d}/repo/target", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "CARGO_INCREMENTAL": "1"})
                r["tests"] = c
                if c:
                    r["tests_out"] = [l for l in o.splitlines() if "FAILED" in l or l.startswith("error")][:8]
            ids = [b["property"]] if mode != "all" else [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]
            for k in ids:
                t0 = time.time()
                c, o = sh(f"./run.sh {k}", f"{d}/verif", 1000, {"VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"})
                v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                r.setdefault("checks", {})[k] = [c, round(time.time() - t0), (o.strip().splitlines() or [""])[-3:] if c else ""]
                if c == 2:
                    r["check_out"] = o[-1500:]
            r["caught"] = r["checks"][b["property"]][0] == 1
            r["ok"] = mode != "new" or (r["demo_clean"] == 0 and r["demo_patched"] not in (0, 2, 124) and r["tests"] == 0 and not r["own_lines"])
        except Exception as e:
            r["error"] = str(e)
        clean(d)
        with lock:
            results[i] = r
            print(i, b["property"], "OK" if r.get("ok") else "BAD", "caught" if r.get("caught") else "MISSED", flush=True)
            if not r.get("ok") or not r.get("caught"):
                print("   ", json.dumps(r)[:1800], flush=True)
            old = {}
            try:
                old = json.load(open(f"{BASE}/results.json"))
            except Exception:
                pass
            old[i] = r
            json.dump(old, open(f"{BASE}/results.json", "w"), indent=1)

def main():
    mode = sys.argv[1]
    args = sys.argv[2:]
    if mode == "new":
        ns = {}
        exec(open(args[0]).read(), ns)
        bugs = [b for b in ns["BUGS"] if not args[1:] or b["id"] in args[1:]]
    else:
        ids = args or sorted(os.listdir(f"{ROOT}/seeded"))
        bugs = [dict(json.load(open(f"{ROOT}/seeded/{i}/meta.json")), id=i) for i in ids]
    q = queue.Queue()
    for b in bugs:
        q.put(b)
    n = min(int(os.environ.get("PLANT_WORKERS", "2")), len(bugs))
    ts = [threading.Thread(target=work, args=(setup(k), q, mode)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
main()
