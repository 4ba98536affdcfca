#!/usr/bin/env python3
"""plant.py SPEC.py [ID ...]: writes and validates seeded/<id>/ from a list of bugs.

Each bug: id, property, edits [(file, old, new)], needs, breaks, demo (Rust source of main.rs,
using the `replay` helper library and the crate under test). Validation, all in scratch copies
under /tmp: the demo exits 0 on the clean tree and nonzero on the patched one, the patched tree
builds and passes the stable tests, and the property's check reports it (recorded, not required).
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/sh
# Exit 0 when the property holds on the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/kit/." "$tmp/" || exit 2
sed -i "s#/repo/#$repo/#" "$tmp/replay/stark/Cargo.toml"
mkdir -p "$tmp/replay/src/bin" && cp "$here/demo.rs" "$tmp/replay/src/bin/demo.rs"
cd "$tmp/replay" || exit 2
CARGO_TARGET_DIR="$tmp/target" cargo run --quiet --offline --bin demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def kit(dst):
    for n in ("lambdaworks-math", "lambdaworks-crypto", "bincode", "cairo-vm", "cairo-lang-starknet"):
        shutil.copytree(f"{V}/shim/{n}", f"{dst}/shim/{n}", ignore=shutil.ignore_patterns("target", "__pycache__"))
    os.makedirs(f"{dst}/replay/src")
    for f in ("lib.rs", "cairo.rs", "stark.rs", "airx.rs", "values.rs"):
        shutil.copy(f"{V}/replay/src/{f}", f"{dst}/replay/src/{f}")
    shutil.copytree(f"{V}/replay/stark", f"{dst}/replay/stark", ignore=shutil.ignore_patterns("target"))
    shutil.copy(f"{V}/replay/Cargo.toml", f"{dst}/replay/Cargo.toml")
    if os.path.exists(f"{V}/replay/Cargo.lock"):
        shutil.copy(f"{V}/replay/Cargo.lock", f"{dst}/replay/Cargo.lock")


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    for b in ns["BUGS"]:
        if want and b["id"] not in want:
            continue
        d = f"{V}/seeded/{b['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        kit(f"{d}/kit")
        open(f"{d}/demo.rs", "w").write(b["demo"])
        open(f"{d}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        scratch = tempfile.mkdtemp(prefix="plant")
        sh(f"cp -a /repo {scratch}/repo")
        repo = f"{scratch}/repo"
        clean = sh(f"{d}/demo.sh", cwd=repo)
        for f, old, new in b["edits"]:
            p = f"{repo}/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=repo).stdout
        open(f"{d}/patch.diff", "w").write(diff)
        bad = sh(f"{d}/demo.sh", cwd=repo)
        apply = sh(f"git -C /repo apply --check {d}/patch.diff")
        print(b["id"], "clean demo", clean.returncode, "patched demo", bad.returncode, "applies", apply.returncode == 0, flush=True)
        if clean.returncode or not bad.returncode:
            print("   CLEAN:", clean.stdout[-800:], clean.stderr[-2500:], "\n   PATCHED:", bad.stdout[-800:], bad.stderr[-1500:])
        if "error" in bad.stderr and "could not compile" in bad.stderr:
            print("   PATCHED DOES NOT COMPILE", bad.stderr[-1500:])
        shutil.rmtree(scratch)


main()
