#!/usr/bin/env python3
"""Development tool: makes /verif/seeded/<id>/ from a bug table (tools/bugs/*.py) and confirms every planted bug in a scratch copy.

plant.py make [ID..]    writes seeded/<id>/ and verifies: patch applies, stable tests pass, protox's own tests pass,
                        demo exits 0 on the unchanged tree and nonzero with the patch
plant.py check [ID..]   applies each patch to /repo, runs the checks of its property, undoes it; prints what was caught
"""
import os, sys, json, subprocess, shutil, tempfile, glob, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
WT = "/tmp/wt"

DEMO_PARSE = r'''#!/bin/bash
# run with cwd /repo: builds main.rs (beside this file) against the parser and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
protox-parse = { path = "$repo/protox-parse" }
miette = "7.2.0"
prost-types = "0.13.0"
[workspace]
T
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" cargo build --offline > "$d/log" 2>&1 || { cat "$d/log"; exit 3; }
timeout 120 "$d/target/debug/demo"
'''

DEMO_COMP = r'''#!/bin/bash
# run with cwd /repo: builds main.rs (beside this file) against protox and runs it in a scratch directory.
# protox's submodule with the well-known files is empty here, so its sources are built from a package in the
# scratch directory that has these files from /usr/include.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/scratch" "$d/protox/protobuf/src/google"
cp -r /usr/include/google/protobuf "$d/protox/protobuf/src/google/"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/protox/Cargo.toml" <<T
[package]
name = "protox"
version = "0.8.0"
edition = "2021"
[lib]
path = "$repo/protox/src/lib.rs"
[[bin]]
name = "protox"
path = "$repo/protox/src/main.rs"
[features]
bin = []
[dependencies]
bytes = "1.6.0"
clap = { version = "4.5.4", features = ["derive"] }
miette = { version = "7.2.0", features = ["fancy"] }
prost = "0.13.0"
prost-reflect = { version = "0.15.0", features = ["miette", "text-format"] }
prost-types = "0.13.0"
protox-parse = { path = "$repo/protox-parse" }
thiserror = "2.0.0"
T
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
protox = { path = "protox" }
miette = "7.2.0"
bytes = "1.6.0"
prost = "0.13.0"
prost-reflect = "0.15.0"
prost-types = "0.13.0"
[workspace]
members = ["protox"]
T
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" cargo build --offline --workspace > "$d/log" 2>&1 || { cat "$d/log"; exit 3; }
cd "$d/scratch" || exit 3
PROTOX="$d/target/debug/protox" timeout 120 "$d/target/debug/demo"
'''

def sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, str(x.stdout)[-2000:]

def table():
    t = {}
    for f in sorted(glob.glob(os.path.join(ROOT, "tools/bugs/*.py"))):
        for b in runpy.run_path(f)["BUGS"]:
            assert b["id"] not in t, b["id"]
            t[b["id"]] = b
    return t

def fresh():
    shutil.rmtree(WT, ignore_errors=True)
    os.makedirs(WT)
    sh(f"git -C /repo archive HEAD | tar x -C {WT}")
    sh("git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base", cwd=WT)
    # protox's own tests, built from a package with the well-known files
    P = "/tmp/ptw"
    os.makedirs(P, exist_ok=True)
    s = open("/tmp/pt/Cargo.toml").read().replace("/repo/", WT + "/")
    open(P + "/Cargo.toml", "w").write(s)
    shutil.copy("/tmp/pt/Cargo.lock", P + "/Cargo.lock")
    for x in ("protobuf", "tests"):
        shutil.rmtree(f"{P}/{x}", ignore_errors=True)
        shutil.copytree(f"/tmp/pt/{x}", f"{P}/{x}")

def clean():
    sh("git checkout -q -- . && git clean -qfd protox protox-parse", cwd=WT)

def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["tests"]) if False else None

def make(b):
    d = os.path.join(SEED, b["id"])
    os.makedirs(d, exist_ok=True)
    clean()
    for f, old, new in b["edits"]:
        p = os.path.join(WT, f)
        s = open(p).read()
        n = b.get("nth", {}).get((f, old))
        c = s.count(old)
        if c == 0 or (c > 1 and n is None):
            return f"edit matches {c} times: {old[:60]!r}"
        if n is None: s = s.replace(old, new)
        else:
            i = -1
            for _ in range(n): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s)
    rc, diff = sh("git diff", cwd=WT)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO_PARSE if b["side"] == "parse" else DEMO_COMP)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(b["demo"].lstrip())
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    rc, out = sh("cargo test -p protox-parse --no-fail-fast --offline -- --test-threads 8", cwd=WT, env={"CARGO_TARGET_DIR": "/tmp/wt-target"})
    tests = "parse-tests ok" if rc == 0 else "PARSE TESTS FAIL: " + " ".join(l for l in out.splitlines() if l.startswith(("error", "test ")) and "ok" not in l.split()[-1])[:400]
    rc2, out2 = sh("cargo test --offline --lib", cwd="/tmp/ptw", env={"CARGO_TARGET_DIR": "/tmp/ptw-target"})
    ptests = "protox-tests ok" if rc2 == 0 else "protox-tests fail: " + " ".join(l for l in out2.splitlines() if l.startswith(("error", "test ")) and "ok" not in l.split()[-1])[:300]
    demo = f"bash {d}/demo.sh"
    if os.environ.get("FAST"):
        # the same script, with a target directory that is kept
        t = open(d + "/demo.sh").read().replace('"$d/target"', '"/tmp/demo-target"').replace("$d/target/", "/tmp/demo-target/").replace("$(mktemp -d)", "$(mkdir -p /tmp/demo-dir && echo /tmp/demo-dir)")
        open("/tmp/demo-fast.sh", "w").write(t.replace('here=$(cd "$(dirname "$0")" && pwd)', f"here={d}"))
        demo = "bash /tmp/demo-fast.sh"
    rcp, outp = sh(demo, cwd=WT)
    clean()
    rcb, outb = sh(demo, cwd=WT)
    good = rc == 0 and rcb == 0 and rcp not in (0, 3)
    return f"{'GOOD' if good else 'BAD '} {tests}; {ptests}; demo base {rcb} patched {rcp}" + ("" if good else "\n" + outp[-1500:] + "\n---base\n" + outb[-1500:])

def check(b, extra=()):
    d = os.path.join(SEED, b["id"])
    rc, out = sh(f"git -C /repo apply {d}/patch.diff")
    if rc: return "does not apply: " + out
    try:
        r = []
        for p in [b["property"], *extra]:
            rc, out = sh(f"bash check.sh {p}", cwd=ROOT, timeout=1000)
            v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            r.append(f"{p}: rc {rc} {'CAUGHT' if rc == 1 and any(f'property={p} ' in l for l in v) else 'MISSED'} {v[0][:160] if v else out[-300:]}")
        return "\n   ".join(r)
    finally:
        sh("git -C /repo checkout -- .")

if __name__ == "__main__":
    t = table()
    ids = sys.argv[2:] or list(t)
    if sys.argv[1] == "make": fresh()
    for i in ids:
        if sys.argv[1] == "check" and not os.path.exists(os.path.join(SEED, i, "patch.diff")): continue
        print(i, "--", make(t[i]) if sys.argv[1] == "make" else check(t[i]), flush=True)
