#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: write /verif/seeded/ID from stdin (JSON: edits [[file, old, new]...], needs, breaks, demo (Rust main.rs)
or demo_sh).  The diff is made in the scratch copy /tmp/sr/repo."""
import json, os, shutil, subprocess, sys
R = "/tmp/sr/repo"
DEMO = r'''#!/bin/bash
# builds and runs main.rs against the crate in the current directory
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/main.rs" "$d/src/"; cp "$here/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<EOT
[package]
name = "harness"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
cambrian = { path = "$repo" }
serde_json = "1"
rand = "0.8"
tokio = { version = "1", features = ["full"] }
futures = { version = "0.3", features = ["executor"] }
async-trait = "0.1"
async-broadcast = "0.5"
log = "0.4"
[profile.dev]
debug = 0
EOT
cd "$d" || exit 3
export CARGO_TARGET_DIR=$d/target CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg cambrian_verif"
cargo build --offline -q || exit 3
timeout 120 "$d/target/debug/harness"
'''
DEMO_PY = r'''#!/bin/bash
# builds the tool from the current directory and runs demo.py with it, in a scratch directory
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
export CARGO_TARGET_DIR=$d/target CARGO_NET_OFFLINE=true
cargo build --offline -q --bin cambrian || exit 3
mkdir "$d/w"; cd "$d/w" || exit 3
timeout 200 python3 "$here/demo.py" "$d/target/debug/cambrian"
'''
def main():
    sid, prop = sys.argv[1:3]
    spec = {}
    exec(sys.stdin.read(), spec)
    d = "/verif/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    subprocess.run("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=R, check=True)
    for f, old, new in spec["edits"]:
        p = os.path.join(R, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            sys.exit("%s: %d occurrences of %r" % (f, n, old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=R, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    subprocess.run("git checkout -q -- .", shell=True, cwd=R, check=True)
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "demo" in spec:
        open(d + "/demo.sh", "w").write(DEMO)
        open(d + "/main.rs", "w").write(("" if spec.get("standalone") else open("/verif/tools/demo_common.rs").read()) + spec["demo"])
        shutil.copy("/verif/harness/Cargo.lock", d + "/Cargo.lock")
    elif "demo_py" in spec:
        open(d + "/demo.sh", "w").write(DEMO_PY)
        open(d + "/demo.py", "w").write(spec["demo_py"])
    else:
        open(d + "/demo.sh", "w").write(spec["demo_sh"])
        for n, c in spec.get("files", {}).items():
            open(d + "/" + n, "w").write(c)
    os.chmod(d + "/demo.sh", 0o755)
    print("written", sid)
main()
