#!/usr/bin/env python3
"""Make and confirm planted bugs (development aid; no check uses it).

  plant.py make SPEC.py [ID...]   write /verif/seeded/<ID>/ from the BUGS list of SPEC.py
  plant.py confirm [ID...]        builds, tests pass, demo passes unpatched / fails patched, run the property's check
Everything runs in scratch copies, /repo itself is not touched (except --check, see below).
"""
import os, subprocess, sys, json, shutil, tempfile, difflib, runpy

V = "/verif"
RUN = os.environ.get("PLANT_V", V)  # tree whose check.py judges
SEED = V + "/seeded"
DEMO = r'''#!/bin/bash
# Run in /repo after build.sh: exit 0 if the behaviour holds.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/lib/env.sh
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp /opt/vp/pkg/Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
factrs = { path = "/opt/vp/pkg"@FEAT@ }
faer = { version = "0.19.4", default-features = false, features = ["std"] }
nalgebra = "0.33.2"
paste = "1.0.15"@DEPS@
T
cd "$d" && CARGO_TARGET_DIR=@TGT@ cargo run --offline -q 2>&1
'''
PRELUDE = '''#![allow(unused_imports, dead_code)]
use factrs::{assign_symbols, fac, containers::*, linalg::*, linear::*, noise::*, optimizers::*, residuals::*, robust::*, traits::*, variables::*};
use std::process::exit;
fn need(ok: bool, what: &str) { if !ok { println!("BROKEN: {what}"); exit(1); } }
fn near(a: f64, b: f64, tol: f64, what: &str) { need((a - b).abs() <= tol, &format!("{what}: {a} vs {b}")); }
'''


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def head(f):
    return subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout


def make(spec, only):
    bugs = runpy.run_path(spec)["BUGS"]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        d = f"{SEED}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        diff = ""
        files = {}
        for f, old, new in b["edits"]:
            t = files.get(f) or head(f)
            assert t.count(old) == 1, (b["id"], f, t.count(old), old)
            files[f] = t.replace(old, new)
        for f, t in files.items():
            o = head(f)
            diff += "".join(difflib.unified_diff(o.splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
        open(d + "/patch.diff", "w").write(diff)
        feat = b.get("features", "")
        open(d + "/main.rs", "w").write(PRELUDE + b["demo"])
        demo = DEMO.replace("@FEAT@", f', features = ["{feat}"]' if feat else "").replace("@DEPS@", b.get("deps", ""))
        demo = demo.replace("@TGT@", "/repo/target")
        open(d + "/demo.sh", "w").write(demo)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def confirm(ids):
    """Against /repo itself: apply, build, test, demo, check, undo."""
    ids = ids or sorted(os.listdir(SEED))
    assert not sh(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip()
    res = {}
    out = V + "/out/planted.json"
    if os.path.exists(out):
        res = json.load(open(out))
    # demos on the unchanged tree
    sh(["bash", "/opt/vp/build.sh"])
    todo = []
    for i in ids:
        r = sh(["bash", f"{SEED}/{i}/demo.sh"], cwd="/repo")
        if r.returncode:
            print(i, "DEMO FAILS ON CLEAN TREE", (r.stdout + r.stderr)[-700:], flush=True)
        else:
            todo.append(i)
    for i in todo:
        d = f"{SEED}/{i}"
        prop = json.load(open(d + "/meta.json"))["property"]
        try:
            a = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
            if a.returncode:
                print(i, "DOES NOT APPLY", a.stderr, flush=True)
                continue
            r = sh(["bash", "/opt/vp/build.sh"])
            if r.returncode:
                print(i, "DOES NOT BUILD", r.stderr[-1500:], flush=True)
                continue
            r = sh(["bash", "/opt/vp/test.sh", "/tmp/plant_tests.json"])
            t = (r.stdout.strip().splitlines() or [""])[-1]
            if "104 passed, 0 failed" not in t:
                print(i, "TESTS", t, flush=True)
                res[i] = "caught by the repository's tests"
                continue
            dm = sh(["bash", d + "/demo.sh"], cwd="/repo")
            c = sh([sys.executable, RUN + "/check.py", prop], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            caught = c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout
            res[i] = {"property": prop, "demo": dm.returncode, "check": c.returncode, "caught": caught}
            print(i, prop, "demo", dm.returncode, (dm.stdout.strip().splitlines() or ["?"])[-1][:150], "| check", "CAUGHT" if caught else f"MISSED rc={c.returncode}", flush=True)
            if c.returncode == 2:
                print(c.stdout[-500:], c.stderr[-1500:])
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    sh(["bash", "/opt/vp/build.sh"])
    json.dump(res, open(out, "w"), indent=1)


if sys.argv[1] == "make":
    make(sys.argv[2], sys.argv[3:])
else:
    confirm(sys.argv[2:])
