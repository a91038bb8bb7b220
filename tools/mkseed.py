#!/usr/bin/env python3
"""developer helper: mkseed.py SPECFILE -> /verif/seeded/<id>/; the spec is a python file defining
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], CRATE ('jmt'|'pmt'), DEMO (rust main.rs)"""
import json, os, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = f"/verif/seeded/{ns['ID']}"
os.makedirs(d, exist_ok=True)
R = "/repo"
assert not subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout
for f, old, new in ns["EDITS"]:
    p = f"{R}/{f}"
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old))
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
open(d + "/main.rs", "w").write(ns["DEMO"])
deps = 'jmt = { path = "$PWD/jmt", features = ["mocks"] }\nsha2 = "0.10"\nanyhow = "1"\nics23 = "0.10"\nborsh = "0.10.0"\nserde_json = "1"\nbincode = "1.3.3"' if ns.get("CRATE", "jmt") == "jmt" else \
    'patriecia = { path = "$PWD" }\nkeccak-hash = "0.9"\nserde_json = "1"\nbincode = "1.3.3"'
open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# exit 0: the property holds on this scenario; run with cwd = the repository
set -e
here="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
[ -f Cargo.lock ] && cp Cargo.lock "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
{deps}
[workspace]
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTUP_TOOLCHAIN=stable
cargo build --offline -q --manifest-path "$w/Cargo.toml" || cargo build --offline --manifest-path "$w/Cargo.toml"
timeout 60 "$w/target/debug/demo"
''')
