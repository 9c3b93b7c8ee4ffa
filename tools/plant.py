#!/usr/bin/env python3
"""Make and confirm planted bugs (development aid; no check uses it).

usage: plant.py SPEC.py   SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=rust source)]
Each bug is kept under /verif/seeded/<id>/ only if it builds, passes the repository's tests and its demonstration
passes without and fails with the change (all in a scratch copy of /repo under /tmp)."""
import json, os, subprocess, sys, shutil

SEED = "/verif/seeded"
WORK = "/tmp/plantwork"
DEMO = '''#!/bin/bash
# Exit 0 when the behaviour is right, nonzero otherwise. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$d"' EXIT
mkdir -p "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 2
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
common = { package = "relib-common", path = "$repo/common" }
bddcore = { package = "relib-bdd", path = "$repo/bddcore" }
mddcore = { package = "relib-mdd", path = "$repo/mddcore" }
bss = { package = "relib-bss", path = "$repo/bss" }
mss = { package = "relib-mss", path = "$repo/mss" }
[workspace]
X
cp "$repo/Cargo.lock" "$d/Cargo.lock"
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
cd "$d" && timeout 250 cargo run --offline -q
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    sh(f"cp -a /repo {WORK}/repo && cd {WORK}/repo && git checkout -q -- . && git clean -fdq")
    R = f"{WORK}/repo"
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        sh(f"cd {R} && git checkout -q -- .")
        d = f"{WORK}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/demo.rs", "w").write(b["demo"])
        open(f"{d}/demo.sh", "w").write(DEMO)
        r = sh(f"bash {d}/demo.sh", cwd=R)
        if r.returncode != 0:
            print(b["id"], "DEMO FAILS ON CLEAN TREE\n", r.stdout[-3000:])
            continue
        bad = False
        for f, old, new in b["edits"]:
            s = open(f"{R}/{f}").read()
            if s.count(old) != 1:
                print(b["id"], f, "old text occurs", s.count(old), "times:", old[:80])
                bad = True
                break
            open(f"{R}/{f}", "w").write(s.replace(old, new))
        if bad:
            continue
        diff = sh("git diff", cwd=R).stdout
        t = sh("cargo test --workspace --offline --locked 2>&1 | grep -E '^(error|test .*FAILED|test result: F|failures:)' ", cwd=R,
               env={**os.environ, "RUSTUP_TOOLCHAIN": "stable"})
        if t.stdout.strip():
            print(b["id"], "TESTS FAIL/NO BUILD\n", t.stdout[:800])
            continue
        r = sh(f"bash {d}/demo.sh", cwd=R)
        if r.returncode == 0:
            print(b["id"], "DEMO PASSES WITH THE BUG")
            continue
        out = f"{SEED}/{b['id']}"
        os.makedirs(out, exist_ok=True)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.rs", "w").write(b["demo"])
        open(f"{out}/demo.sh", "w").write(DEMO)
        os.chmod(f"{out}/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
        print(b["id"], "kept:", r.stdout.strip().splitlines()[-1:] if r.stdout.strip() else "")
    shutil.rmtree(WORK, ignore_errors=True)


main()
