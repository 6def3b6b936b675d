"""Writes and confirms a planted bug. usage: plant.py ID  (reads /verif/seeded/src/ID.py-style dict from stdin as python)
dict(prop=, edits=[(file, old, new)...], needs=, breaks=, main=<demo main.rs>)"""
import json, os, subprocess, sys
R, S = "/repo", "/verif/seeded"
DEMO = r'''#!/bin/bash
# cwd: the repository. Builds the program beside this file against the crate and runs it: 0 if the property holds.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
[ -f Cargo.lock ] && cp Cargo.lock "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
anothertls = { path = "$PWD/anothertls" }
ibig = { version = "0.3.6", default-features = false }
[workspace]
X
export CARGO_TARGET_DIR="$T/target"
cd "$T"
cargo build --offline --quiet 2> "$T/err" || { cat "$T/err"; exit 2; }
timeout 120 "$T/target/debug/demo"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(bug, spec, run_check=True):
    d = f"{S}/{bug}"
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --short").stdout == "", "repo dirty"
    try:
        for f, old, new in spec["edits"]:
            p = f"{R}/anothertls/src/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.sh", "w").write(DEMO)
        os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/main.rs", "w").write(spec["main"])
        json.dump(dict(property=spec["prop"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        b = sh("bash /opt/vp/build.sh")
        assert b.returncode == 0, b.stderr[-2000:]
        t = sh("bash /opt/vp/test.sh /tmp/o.json")
        res = json.load(open("/tmp/o.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        print("tests exit", t.returncode, str(res)[:120])
        r = sh(f"cd /repo && bash {d}/demo.sh")
        print("demo with patch:", r.returncode, (r.stdout + r.stderr)[-300:])
        assert r.returncode not in (0, 2)
        if run_check:
            c = sh(f"cd /verif && python3 check.py {spec['prop']}")
            print("check:", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or "NOTE" in l][:5])
    finally:
        sh("git -C /repo checkout -- .")
    r = sh(f"cd /repo && bash {d}/demo.sh")
    print("demo without patch:", r.returncode, (r.stdout + r.stderr)[-300:])
if __name__ == "__main__":
    ns = {}
    exec(sys.stdin.read(), ns)
    for k, v in ns["BUGS"].items():
        if len(sys.argv) < 2 or k in sys.argv[1:]:
            print("==", k)
            try:
                main(k, v)
            except AssertionError as e:
                print("FAILED", e)
