#!/usr/bin/env python3
"""plant.py [ID...]: writes seeded/<id>/ from tools/plants.py after confirming each change in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plants import PLANTS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/plant-wt"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=WT + "/target", RUSTUP_TOOLCHAIN="stable")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
HEAD = '''#![allow(dead_code, unused_imports)]
use probability::prelude::*;
use probability::source::Source;
/// A source of the given words, then of a fixed one.
struct Words(Vec<u64>, usize);
impl Source for Words {
    fn read_u64(&mut self) -> u64 {
        self.1 += 1;
        if self.1 <= self.0.len() { self.0[self.1 - 1] } else { 0x9e3779b97f4a7c15u64.wrapping_mul(self.1 as u64) }
    }
}
fn words(w: &[u64]) -> Words { Words(w.to_vec(), 0) }
fn close(a: f64, b: f64, e: f64) { assert!((a - b).abs() <= e * b.abs().max(1e-300), "{a:e} is not {b:e}"); }
fn main() {
'''
SH = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
t="$(mktemp -d /tmp/demo.XXXXXX)"
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
probability = { path = "$repo" }
[workspace]
EOF
cd "$t"
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline --quiet
status=$?
cd /
case "$t" in /tmp/demo.*) rm -rf "$t" ;; esac
exit $status
'''
def main():
    only = sys.argv[1:]
    sh("rm -rf /tmp/plant-wt; cp -a /repo /tmp/plant-wt")
    for p in PLANTS:
        i = p["id"]
        if only and i not in only: continue
        d = V + "/seeded/" + i
        if not only and os.path.exists(d + "/patch.diff") and sh("git -C /repo apply --check %s/patch.diff" % d).returncode == 0: continue
        sh("git -C %s checkout -q -- ." % WT)
        ok = True
        for f, a, b in p["edits"]:
            t = open(WT + "/" + f).read()
            if t.count(a) != 1: print(i, "EDIT", t.count(a), repr(a)); ok = False; break
            open(WT + "/" + f, "w").write(t.replace(a, b))
        if not ok: continue
        r = sh("cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E '^test |warning: unused|^error' ", cwd=WT, env=ENV)
        passed = r.stdout.count("... ok")
        if "FAILED" in r.stdout or "error" in r.stdout or passed != 148:
            print(i, "TESTS", passed, [l for l in r.stdout.split("\n") if "FAILED" in l or "error" in l][:4]); continue
        patch = sh("git -C %s diff" % WT).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.rs", "w").write(HEAD + p["demo"].strip("\n") + "\n}\n" + p.get("items", ""))
        open(d + "/demo.sh", "w").write(SH.replace("cargo run", "cargo run --release") if p["release"] else SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), open(d + "/meta.json", "w"), indent=1)
        bad = sh(d + "/demo.sh", cwd=WT)
        good = sh(d + "/demo.sh", cwd="/repo")
        if good.returncode == 0 and bad.returncode != 0:
            print(i, "ok")
        else:
            print(i, "DEMO good=%d bad=%d" % (good.returncode, bad.returncode), (good.stdout if good.returncode else bad.stdout)[-600:])
            shutil.rmtree(d)
    sh("rm -rf /tmp/plant-wt")
main()
