"""python3 -m vf.plant ID PROP 'needs' 'what it breaks' [--rust|--sh]: store the uncommitted diff of /tmp/pl/repo as /verif/seeded/ID, reading the
demonstration (main.rs or demo body) from stdin, and reset the scratch copy."""
import json
import os
import subprocess
import sys

RUST = r'''#!/bin/bash
# run with cwd = the repository; builds main.rs against it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs" && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
pipeawesome2 = { path = "$repo" }
futures = "0.3.16"
serde_json = "1.0.59"
async-std = { version = "1.9.0", features = ["unstable"] }
X
cd "$t" || exit 2
CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline -q >"$t/log" 2>&1 || { cat "$t/log"; exit 2; }
timeout 60 "$t/target/debug/demo"
'''
SH = r'''#!/bin/bash
# run with cwd = the repository, after the build
pa2="$PWD/target/debug/pa2"
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t" || exit 2
'''


def main():
    bid, prop, needs, breaks = sys.argv[1:5]
    rust = '--rust' in sys.argv
    d = '/verif/seeded/' + bid
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', '/tmp/pl/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout
    if diff.strip():
        open(d + '/patch.diff', 'w').write(diff)
    body = sys.stdin.read()
    if rust:
        open(d + '/main.rs', 'w').write(body)
        open(d + '/demo.sh', 'w').write(RUST)
    else:
        open(d + '/demo.sh', 'w').write(SH + body)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.run(['git', '-C', '/tmp/pl/repo', 'checkout', '-q', '--', '.'])


if __name__ == '__main__':
    main()
