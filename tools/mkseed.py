#!/usr/bin/env python3
"""mkseed.py FILE.json...: write seeded/<id>/ from {id, property, needs, breaks, edits:[[file, old, new]], main, rng?, deps?}"""
import json, os, subprocess, sys, tempfile, shutil, runpy
V = "/verif/seeded"
DEMO = '''#!/bin/bash
# Builds and runs main.rs against the graviola in the current directory; nonzero when the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock" || exit 2
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
graviola = { path = "$repo/graviola" }
%s
[profile.dev]
opt-level = 1
debug = 0
EOF
cd "$d" && export CARGO_TARGET_DIR="$d/target"
%scargo build --offline -q || exit 2
timeout 120 "$d/target/debug/demo"
'''
def make(s):
    d = os.path.join(V, s["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "--no-hardlinks", "/repo", w + "/r"])
        for f, old, new in s["edits"]:
            p = os.path.join(w, "r", f)
            t = open(p).read()
            assert t.count(old) == s.get("count", 1), (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    finally:
        shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    deps = s.get("deps", "")
    fl = ""
    if s.get("rng"):
        deps += '\ngetrandom = "0.3"'
        fl = "export RUSTFLAGS='--cfg getrandom_backend=\"custom\"'\n"
    if s.get("rustls"):
        deps += '\nrustls-graviola = { path = "$repo/rustls-graviola" }\nrustls = { version = "0.23.18", default-features = false, features = ["std", "tls12"] }'
    open(d + "/demo.sh", "w").write(DEMO % (deps.strip(), fl))
    open(d + "/main.rs", "w").write(s["main"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
for f in sys.argv[1:]:
    for s in runpy.run_path(f)["SEEDS"]:
        make(s); print(s["id"])
