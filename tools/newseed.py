"""Helper to write down planted bugs: seed(id, property, edits, needs, breaks, demo_rs) -> /verif/seeded/<id>."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0 RUSTFLAGS="-Awarnings"
python3 "$here/mirror.py" "$d/mirror" || exit 3
mkdir -p "$d/demo/src"
cp "$here/demo.rs" "$d/demo/src/main.rs"
cat > "$d/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
rustomata = { path = "$d/mirror" }
search = { path = "$d/mirror/search" }
unique-heap = { path = "$d/mirror/unique-heap" }
vecmultimap = { path = "$d/mirror/vecmultimap" }
serde_json = "1.0"
bincode = "0.9"
log_domain = "0.4.0"
num-traits = "0.1.41"
T
cp /repo/Cargo.lock "$d/demo/Cargo.lock" 2>/dev/null || true
cd "$d/demo" || exit 3
timeout 250 cargo build --offline --quiet || { rm -f Cargo.lock; timeout 250 cargo build --offline --quiet || exit 3; }
timeout 20 "$d/target/debug/demo"
'''
MIRROR = r'''"""Copies the part of /repo that builds without the crate integeriser."""
import os, re, shutil, sys
out = sys.argv[1]
LEFT_OUT = {"approximation/mod.rs": "pub mod equivalence_classes;\n", "automata/mod.rs": "", "dyck/multiple/mod.rs": "",
            "grammars/lcfrs/csparsing/mod.rs": "", "recognisable/mod.rs": "pub mod configuration;\n",
            "util/integerisable.rs": "", "util/push_down.rs": ""}
shutil.copytree("/repo", out, ignore=shutil.ignore_patterns("target", ".git", "tests", "examples", "bin"))
m = open("/repo/Cargo.toml").read()
m = re.sub(r"(?m)^integeriser\b.*\n", "", m)
m = re.sub(r"(?m)^\[\[bin\]\]\n(?:[^\[\n].*\n|\n)*", "", m)
open(out + "/Cargo.toml", "w").write(m)
l = open("/repo/src/lib.rs").read()
open(out + "/src/lib.rs", "w").write(re.sub(r"(?m)^extern crate integeriser;$", "", l))
for k, v in LEFT_OUT.items():
    open(out + "/src/" + k, "w").write(v)
'''


def seed(id, prop, edits, needs, breaks, demo):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run(["git", "clone", "-q", "--no-hardlinks", "/repo", tmp + "/r"], check=True)
        for f, old, new in edits:
            p = f"{tmp}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], stdout=subprocess.PIPE, check=True, text=True).stdout
    finally:
        shutil.rmtree(tmp)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/mirror.py", "w").write(MIRROR)
    open(f"{d}/demo.rs", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
