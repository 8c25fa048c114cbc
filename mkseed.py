#!/usr/bin/env python3
"""development: mkseed.py ID PROP FILE <<< JSON {old,new,needs,breaks,demo} : writes seeded/ID from a textual replacement"""
import sys, os, json, subprocess, difflib, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
DEMO = r'''#!/bin/bash
# builds the program beside this file against the crate in the current directory and runs it
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
src=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'python3 -c "import shutil,sys; shutil.rmtree(sys.argv[1])" "$d"' EXIT
mkdir "$d/src"
cp "$src/demo.rs" "$d/src/main.rs"
[ -f Cargo.lock ] && cp Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
kyber-rs = { path = "$repo" }
num-bigint-dig = "*"
num-traits = "*"
sha2 = "*"
digest = "*"
serde = "*"
[workspace]
T
cd "$d" && RUSTFLAGS=-Awarnings timeout 280 cargo run --offline -q --target-dir "$d/t"
'''
def seed(id, prop, edits, needs, breaks, demo):
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    out = ""
    for f in dict.fromkeys(e[0] for e in edits):
        a = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], stdout=subprocess.PIPE, text=True, check=True).stdout
        b = a
        for (g, old, new, *k) in edits:
            if g != f:
                continue
            n = b.count(old)
            i = k[0] if k else 0
            assert n == 1 or k, (id, f, n, old)
            p = -1
            for _ in range(i + 1):
                p = b.index(old, p + 1)
            b = b[:p] + new + b[p + len(old):]
        out += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.sh", "w").write(DEMO)
    open(d + "/demo.rs", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
