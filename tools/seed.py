#!/usr/bin/env python3
"""Helper for planting a bug: seed.py ID PROPERTY FILE <<< edits ; creates seeded/ID with patch.diff (from a scratch copy).
   usage as a module: plant(id, property, {file: [(old, new), ...]}, needs, breaks, demo files)"""
import json, os, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRECT_CARGO = """[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
bls-crypto = { path = "/opt/vp/harness/bls-crypto" }
hex = "0.4"
[workspace]
[profile.dev]
opt-level = 1
"""
CARGO_DEMO = """#!/bin/bash
# builds the demonstration in a scratch directory and runs it: 0 as specified, 1 otherwise
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here"/*.rs "$w/src/" || exit 3
cp "$here/demo.toml" "$w/Cargo.toml" || exit 3
cd "$w" || exit 3
CARGO_TARGET_DIR="$w/target" cargo build --offline -q || { echo "demonstration does not build"; exit 3; }
timeout 120 ./target/debug/demo
"""
def plant(id, prop, edits, needs, breaks, main_rs, toml=DIRECT_CARGO, extra={}):
    d = os.path.join(ROOT, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar -x -C " + w, shell=True)
        subprocess.check_call("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm base", shell=True, cwd=w)
        for f, es in edits.items():
            p = os.path.join(w, f)
            s = open(p).read()
            for o, n in es:
                assert s.count(o) == 1, (id, f, s.count(o), o)
                s = s.replace(o, n)
            open(p, "w").write(s)
        diff = subprocess.check_output(["git", "diff"], cwd=w, text=True)
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "main.rs"), "w").write(main_rs)
    open(os.path.join(d, "demo.toml"), "w").write(toml)
    for k, v in extra.items(): open(os.path.join(d, k), "w").write(v)
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(CARGO_DEMO)
    os.chmod(p, 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
