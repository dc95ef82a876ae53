#!/usr/bin/env python3
"""Development aid: make a planted-bug folder.

usage: plant.py FILE...   (each FILE: a bug.py that sets ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO)
SPEC: {"property", "needs", "what_it_breaks", "edits": [[file, old, new], ...]}.  The edit is made in a scratch clone
of /repo; patch.diff, demo.sh, demo.rs and meta.json are written to seeded/ID.  Then the stable tests
and the demonstration are run with and without the change.
"""
import json, os, shutil, subprocess, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
W = "/tmp/plant"
DEMO = r'''#!/bin/bash
# Builds the scenario beside this script against the crate in the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat >"$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
box2d-rs = { path = "$repo"FEATURES }
EXTRA[profile.dev]
opt-level = 1
debug = false
[workspace]
EOF
cd "$t" && cargo build --offline --quiet 2>"$t/log" || { tail -20 "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo"
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch():
    if not os.path.isdir(W + "/.git"):
        print(sh(f"cp -a /repo {W}").stdout)
    print(sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target", cwd=W).stdout, end="")
def main():
  for fn in sys.argv[1:]:
    g = {}
    exec(open(fn).read(), g)
    bid = g["ID"]
    s = {"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"], "edits": g["EDITS"]}
    print("==", bid)
    scratch()
    for f, old, new in s["edits"]:
        p = f"{W}/{f}"
        t = open(p, newline="").read()
        if t.count(old) != 1 and "\r\n" in t:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert t.count(old) == 1, (f, t.count(old))
        open(p, "w", newline="").write(t.replace(old, new))
    d = f"{ROOT}/seeded/{bid}"
    os.makedirs(d, exist_ok=True)
    with open(f"{d}/patch.diff", "w", newline="") as o:
        o.write(subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE).stdout.decode())
    src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo_prelude.rs")).read() + "\n" + g["DEMO"]
    serde = "serde_json" in src or "bincode" in src
    sc = DEMO.replace("FEATURES", ', features = ["serde_support"]' if serde else "")
    sc = sc.replace("EXTRA", 'serde = { version = "1", features = ["derive"] }\nserde_json = "1"\nbincode = "1.3.3"\n' if serde else "")
    open(f"{d}/demo.sh", "w").write(sc)
    if serde: src = src.replace("//SERDE ", "")
    open(f"{d}/demo.rs", "w").write(src)
    json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{d}/meta.json", "w"), indent=1)
    b = sh("cargo test --workspace --lib --tests --offline 2>&1 | tail -40", cwd=W, env=dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true"))
    ok = b.stdout.count("test result: ok")
    print("tests ok groups", ok, "FAILED" if "FAILED" in b.stdout or "error" in b.stdout else "pass")
    if "error" in b.stdout: print(b.stdout)
    r = sh(f"bash {d}/demo.sh", cwd=W)
    print("with patch:", r.returncode, r.stdout.strip()[-400:])
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    print("unchanged:", r.returncode, r.stdout.strip()[-400:])
    sh("git checkout -q -f .", cwd=W)
main()
