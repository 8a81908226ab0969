#!/usr/bin/env python3
"""Makes seeded/<id>/ from the table of planted bugs in tools/seeds.d/*.py (each defines SEEDS).

usage: seeds.py make [ID...] | verify [ID...] | catch [ID...]
make    writes patch.diff, demo.sh, demo.rs, meta.json
verify  in a scratch copy of /repo: the patch applies, the tree builds, the 74 tests pass, the demo tells
        the two trees apart
catch   runs the property's check (and those named in "also", or --props A,B) in a copy of /verif whose
        path dependency is a patched copy of /repo
"""
import glob, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
HEADER = "#![allow(unused_imports, dead_code)]\nuse micromath::{F32, F32Ext, Quaternion};\nuse micromath::vector::*;\nuse micromath::statistics::{Mean, Variance, StdDev, trim::Trim};\n"
DEMO = '''#!/bin/bash
# Run in the repository: builds demo.rs against it. Exit 0: the property holds for the demonstrated case.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
micromath = {{ path = "$PWD", features = ["vector", "quaternion", "statistics"] }}
[profile.release]
{profile}
[workspace]
T
cd "$d"
CARGO_TARGET_DIR="$d/target" {run}
'''

def load():
    out = []
    for f in sorted(glob.glob(os.path.join(ROOT, "tools/seeds.d/*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        out += ns["SEEDS"]
    assert len({s["id"] for s in out}) == len(out)
    return out

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout

def scratch():
    d = tempfile.mkdtemp(prefix="seedscratch.", dir="/tmp")
    sh(f"git clone -q /repo {d}/repo")
    return d

def make(s):
    d = scratch()
    try:
        for path, old, new in s["edits"]:
            p = f"{d}/repo/{path}"
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(s["id"], "edit matches", n, "times:", old[:60]); return False
            open(p, "w").write(t.replace(old, new))
        sh("cargo fmt", cwd=f"{d}/repo")
        rc, diff = sh("git diff", cwd=f"{d}/repo")
        o = os.path.join(SEEDED, s["id"])
        os.makedirs(o, exist_ok=True)
        open(f"{o}/patch.diff", "w").write(diff)
        if s["demo"]: open(f"{o}/demo.rs", "w").write(HEADER + s["demo"])
        open(f"{o}/demo.sh", "w").write(s.get("script") or DEMO.format(profile=s.get("profile", "opt-level = 2"), run=s.get("run", "cargo run -q --release --offline")))
        os.chmod(f"{o}/demo.sh", 0o755)
        for name, text in s.get("files", {}).items():
            open(f"{o}/{name}", "w").write(text)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{o}/meta.json", "w"), indent=1)
        # lines taken away must be the original's
        rc, fix = sh("git diff 6be005f HEAD -U0", cwd="/repo")
        added = {l[1:].strip() for l in fix.splitlines() if l.startswith("+") and not l.startswith("+++")}
        gone = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
        orig = [l for l in gone if l not in added]
        if gone and not orig: print(s["id"], "touches only lines of the fixes")
        return True
    finally:
        shutil.rmtree(d)

def verify(s):
    d = scratch(); r = f"{d}/repo"; o = os.path.join(SEEDED, s["id"])
    try:
        env = {"CARGO_TARGET_DIR": f"{d}/target", "CARGO_NET_OFFLINE": "true", "RUSTUP_TOOLCHAIN": "stable"}
        rc, out = sh(f"bash {o}/demo.sh", cwd=r)
        if rc != 0: print(s["id"], "demo fails on the unchanged tree:\n", out[-600:]); return False
        rc, out = sh(f"git apply {o}/patch.diff", cwd=r)
        if rc != 0: print(s["id"], "does not apply", out); return False
        rc, out = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 && cargo check --no-default-features --offline && cargo check --no-default-features --features num-traits --offline", cwd=r, env=env)
        if rc != 0:
            print(s["id"], "build or tests fail:", [l for l in out.splitlines() if "FAILED" in l or "error" in l or "panicked" in l][:6]); return False
        rc, out = sh(f"bash {o}/demo.sh", cwd=r)
        if rc == 0: print(s["id"], "demo passes with the patch"); return False
        if not s.get("build_demo") and ("error[" in out or "could not compile" in out): print(s["id"], "demo does not compile", out[-500:]); return False
        print(s["id"], "ok:", out.strip().splitlines()[-1][:150] if out.strip() else rc)
        return True
    finally:
        shutil.rmtree(d)

def catch(s, props=None):
    """In a private copy of /verif (harness paths rewritten to a patched copy of /repo)."""
    d = scratch(); o = os.path.join(SEEDED, s["id"])
    try:
        sh(f"git apply {o}/patch.diff", cwd=f"{d}/repo")
        sh(f"mkdir {d}/verif; git ls-files -co --exclude-standard | grep -v ^seeded/ | xargs -I@ cp --parents @ {d}/verif/", cwd=ROOT)
        for f in ("harness/Cargo.toml", "digest/Cargo.toml", "bare/Cargo.toml", "wasm/Cargo.toml", "logged/Cargo.toml", "soft/Cargo.toml", "harness/src/bin/c27.rs", "harness/src/bin/c29.rs"):
            p = f"{d}/verif/{f}"
            text = open(p).read().replace('"/repo', f'"{d}/repo')
            open(p, "w").write(text)
        res = {}
        for p in (props or [s["property"]] + s.get("also", [])):
            rc, out = sh(f"bash check.sh {p}", cwd=f"{d}/verif", env={"VERIF_SEED": "1", "VERIF_TIER": "quick"}, timeout=1200)
            v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            res[p] = (rc, v[:1], out[-300:] if rc not in (0, 1) else "")
            print(s["id"], p, "CAUGHT" if rc == 1 and any(f"property={p}" in l for l in v) else f"missed rc={rc}", res[p][2], flush=True)
        return res
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    props = None
    if "--props" in ids:
        i = ids.index("--props"); props = ids[i + 1].split(","); ids = ids[:i]
    bad = []
    for s in load():
        if ids and s["id"] not in ids: continue
        if cmd == "make": ok = make(s)
        elif cmd == "verify": ok = make(s) and verify(s)
        elif cmd == "catch": ok = bool(catch(s, props))
        if not ok: bad.append(s["id"])
    print("failed:", bad) if bad else print("all ok")
