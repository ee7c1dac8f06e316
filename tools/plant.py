#!/usr/bin/env python3
"""Write /verif/seeded/*: patch.diff, demo.sh, demo.rs and meta.json for each planted bug."""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Run with cwd /repo: build a small program against the library and run it; it panics if the library misbehaves.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d) || exit 3
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
auto-palette = { path = "$repo" }
rand = "0.8"
[profile.dev]
opt-level = 1
EOF
cd "$dir" && RUSTFLAGS='--cfg auto_palette_verif' CARGO_TARGET_DIR="$dir/target" timeout 280 cargo run --offline --quiet
'''
HEAD = '''#![allow(unused_imports, dead_code)]
use auto_palette::verif::*;
use auto_palette::image::ImageData;
use auto_palette::swatch::Swatch;
const E: DistanceMetric = DistanceMetric::Euclidean;
const S: DistanceMetric = DistanceMetric::SquaredEuclidean;
'''
def git(*a, cwd):
    return subprocess.run(["git", *a], cwd=cwd, check=True, capture_output=True, text=True).stdout

def main():
    sys.path.insert(0, os.path.join(V, "tools"))
    from plants import PLANTS
    only = sys.argv[1:]
    scratch = tempfile.mkdtemp()
    try:
        git("clone", "-q", "/repo", scratch, cwd="/")
        for name, p in PLANTS.items():
            if only and name not in only:
                continue
            for path, old, new in p["edits"]:
                f = os.path.join(scratch, path)
                text = open(f).read()
                assert text.count(old) == 1, (name, path, text.count(old))
                open(f, "w").write(text.replace(old, new))
            diff = git("diff", cwd=scratch)
            git("checkout", "-q", "--", ".", cwd=scratch)
            d = os.path.join(V, "seeded", name)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            open(os.path.join(d, "demo.rs"), "w").write(HEAD + p["demo"].strip() + "\n")
            json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(scratch)

main()
