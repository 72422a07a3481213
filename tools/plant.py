#!/usr/bin/env python3
"""plant.py ID PROP NEEDS BREAKS FILE < python edit script reading/altering `s`: validates a planted bug in a scratch copy and stores it.
The demo's main.rs is read from /tmp/demo_main.rs."""
import json, os, shutil, subprocess, sys, tempfile
DEMO = '''#!/bin/bash
# Builds a small program against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
serdere = { path = "$repo/core" }
serdere-json = { path = "$repo/json" }
[profile.dev]
debug = 0
EOF
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline --quiet
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
def plant(bid, prop, needs, breaks, edits, main):
    """edits: [(file, old, new)]"""
    out = "/verif/seeded/" + bid
    d = tempfile.mkdtemp(prefix="plant"); w = d + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        sh("git checkout -q -- . && git clean -fdq", w)
        os.makedirs(d + "/demo"); open(d + "/demo/main.rs", "w").write(main); open(d + "/demo/demo.sh", "w").write(DEMO); os.chmod(d + "/demo/demo.sh", 0o755)
        for f, a, b in edits:
            s = open(w + "/" + f).read()
            if s.count(a) != 1: print(bid, "EDIT anchor occurs", s.count(a)); return False
            open(w + "/" + f, "w").write(s.replace(a, b))
        diff = sh("git diff", w).stdout
        r = sh("grep -v '^#' /dev/null; bash -c '. /opt/vp/env.sh; cargo test --offline --workspace 2>&1 | grep -E \"^test |^error|test result\"'", w).stdout
        fails = [l for l in r.split("\n") if l.endswith("FAILED")] + [l for l in r.split("\n") if l.startswith("error")]
        ok = sum(l.endswith("... ok") for l in r.split("\n"))
        if fails or ok < 30: print(bid, "TESTS", ok, fails[:5]); return False
        p1 = sh("bash %s/demo/demo.sh" % d, w)
        sh("git checkout -q -- .", w)
        p0 = sh("bash %s/demo/demo.sh" % d, w)
        if p0.returncode != 0: print(bid, "DEMO fails on the unchanged tree", p0.stderr[-800:], p0.stdout[-300:]); return False
        if p1.returncode == 0: print(bid, "DEMO passes with the patch"); return False
        if "error[" in p1.stderr or "could not compile" in p1.stderr: print(bid, "demo does not compile with the patch", p1.stderr[-600:]); return False
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/main.rs", "w").write(main); open(out + "/demo.sh", "w").write(DEMO); os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + "/meta.json", "w"), indent=1)
        print(bid, "planted; demo says:", (p1.stderr or p1.stdout).strip().split("\n")[-3:][0][:200])
        return True
    finally:
        shutil.rmtree(d)
def try_check(bid, prop=None):
    """Applies the planted bug to /repo, runs its property's check, undoes it."""
    prop = prop or json.load(open("/verif/seeded/%s/meta.json" % bid))["property"]
    if sh("git status --short", "/repo").stdout.strip(): sys.exit("/repo is not clean")
    a = sh("git apply /verif/seeded/%s/patch.diff" % bid, "/repo")
    if a.returncode: print(bid, "does not apply", a.stderr); return
    try:
        p = sh("python3 tools/check.py %s --tier quick" % prop, "/verif")
    finally:
        sh("git checkout -q -- .", "/repo")
    lines = p.stdout.strip().split("\n")
    print(bid, prop, "exit", p.returncode); print("   " + "\n   ".join(l[:220] for l in lines[-6:])); 
    if p.returncode not in (0, 1): print(p.stderr[-1000:])
if __name__ == "__main__":
    for b in sys.argv[1:]:
        b, _, pr = b.partition(":")
        try_check(b, pr or None)
