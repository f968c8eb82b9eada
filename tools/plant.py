#!/usr/bin/env python3
"""Confirms planted bugs: tools/plant.py make FILE.py | check [ids] | catch [ids]

make   FILE.py defines SEEDS, a list of dicts (id, property, edits=[(file, old, new)], needs, breaks, demo);
       writes seeded/<id>/ and confirms it in a scratch copy of /repo (applies, tests pass, demo 0 -> nonzero).
check  confirms existing ones again.
catch  applies each to /repo, runs its property's quick check, undoes it.
"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
SCRATCH = "/tmp/plant"
DEMO = '''#!/bin/bash
# Exit 0 iff the property holds on this demonstration; run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
numeric-traits = { path = "$repo/crates/traits" }
numeric-bits = { path = "$repo/crates/bits" }
numeric-ints = { path = "$repo/crates/ints" }
numeric-utils = { path = "$repo/crates/utils" }
numeric-reals = { path = "$repo/crates/reals" }
numeric-compounds = { path = "$repo/crates/compounds" }
numeric-static-iter = { path = "$repo/crates/static-iter" }
EOF
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTFLAGS="%FLAGS%"
cargo build %REL% --offline --quiet --manifest-path "$d/Cargo.toml" || exit 3
timeout 60 "$d/target/%DIR%/demo"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def fresh():
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os.makedirs(SCRATCH)
    r = sh("git -C /repo archive HEAD | tar -xm -C %s && cd %s && git init -q && git add -A && git commit -qm base" % (SCRATCH, SCRATCH))
    assert r.returncode == 0, r.stdout


def reset():
    sh("git -C %s checkout -q -- . && git -C %s clean -fdq -e target" % (SCRATCH, SCRATCH))


def removed(d):
    f, out = None, []
    for l in open(os.path.join(d, "patch.diff")):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("-") and not l.startswith("---"):
            out.append((f, l[1:].rstrip("\n")))
    return out


def confirm(i):
    d = os.path.join(SEEDED, i)
    reset()
    r = sh("bash %s/demo.sh" % d, cwd=SCRATCH)
    if r.returncode:
        return "demo fails on the unchanged tree: " + r.stdout[-1500:]
    r = sh("git apply %s/patch.diff" % d, cwd=SCRATCH)
    if r.returncode:
        return "patch does not apply: " + r.stdout
    for f, line in removed(d):
        base = sh("git -C /repo show 9dac5b9:%s" % f).stdout.split("\n")
        if line.strip() and line not in base:
            return "changes a line that is not of the original repository: " + line
    r = sh("cargo test --workspace --all-features --no-fail-fast --offline --quiet", cwd=SCRATCH,
           env=dict(os.environ, CARGO_TARGET_DIR="/tmp/plant_target"))
    if r.returncode:
        return "build or tests fail: " + r.stdout[-1500:]
    r = sh("bash %s/demo.sh" % d, cwd=SCRATCH)
    if r.returncode == 0:
        return "demo passes with the patch"
    if r.returncode == 3:
        return "demo does not build with the patch: " + r.stdout[-1500:]
    return None


def make(s):
    d = os.path.join(SEEDED, s["id"])
    os.makedirs(d, exist_ok=True)
    reset()
    for f, old, new in s["edits"]:
        p = os.path.join(SCRATCH, f)
        t = open(p).read()
        assert t.count(old) >= 1, (s["id"], f, "not found", old)
        n = s.get("nth", 0)
        if t.count(old) > 1:
            assert "nth" in s, (s["id"], "ambiguous", t.count(old), old)
            parts = t.split(old)
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        else:
            t = t.replace(old, new)
        open(p, "w").write(t)
    diff = sh("git diff", cwd=SCRATCH).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    rel = s.get("release")
    demo = DEMO.replace("%REL%", "--release" if rel else "").replace("%DIR%", "release" if rel else "debug").replace("%FLAGS%", s.get("flags", ""))
    if s.get("rand"):
        demo = demo.replace('crates/ints" }', 'crates/ints", features = ["rand"] }\nrand = { version = "0.9", default-features = false }')
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    open(os.path.join(d, "main.rs"), "w").write(s["demo"].lstrip("\n"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def main():
    mode = sys.argv[1]
    if mode == "make":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        fresh()
        only = sys.argv[3:]
        for s in ns["SEEDS"]:
            if only and s["id"] not in only:
                continue
            try:
                make(s)
                e = confirm(s["id"])
            except AssertionError as x:
                e = str(x)
            print(s["id"], "OK" if e is None else "BAD " + e, flush=True)
            if e:
                shutil.rmtree(os.path.join(SEEDED, s["id"]))
        return
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    if mode == "check":
        fresh()
        for i in ids:
            e = confirm(i)
            print(i, "OK" if e is None else "BAD " + e, flush=True)
    if mode == "catch":
        for i in ids:
            while subprocess.run(["pgrep", "-f", "endcheck.py --live"], capture_output=True).returncode == 0:
                time.sleep(20)          # vcheck watches /repo
            prop = json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"]
            r = sh("git -C /repo apply %s/%s/patch.diff" % (SEEDED, i))
            assert r.returncode == 0, r.stdout
            try:
                r = sh("python3 run.py %s quick" % prop, cwd=HERE)
            finally:
                sh("git -C /repo checkout -- .")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(i, prop, "CAUGHT" if r.returncode == 1 and v else "MISSED exit %d" % r.returncode,
                  "" if v else r.stdout[-300:], flush=True)


main()
