#!/usr/bin/env python3
"""Development aid: plant.py DEF.py ... -> builds /verif/seeded/<id>/ from a definition and verifies it
in a scratch copy (/tmp/sc): demo passes clean, patch builds, stable tests pass, demo fails patched.
DEF: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust main.rs) or DEMO_SH."""
import json, os, subprocess, sys, shutil
SC = "/tmp/sc"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.85.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
DEMO_SH = '''#!/bin/bash
# run with cwd = repository root after the build
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/Cargo.lock" 2>/dev/null
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
%(deps)s
EOF
cd "$W" || exit 3
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$W/target"
timeout 200 cargo run -q --offline
'''
def sh(cmd, cwd=SC, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(cmd, str), timeout=timeout)
    return p.returncode, p.stdout
def sync():
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    if not os.path.exists(SC):
        subprocess.check_call(["cp", "-a", "/repo", SC])
    cur = subprocess.check_output(["git", "-C", SC, "rev-parse", "HEAD"], text=True).strip()
    sh("git checkout -q -- . ")
    if cur != head:
        rc, o = sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD"); assert rc == 0, o
def tests():
    base = json.load(open("/opt/vp/BASELINE.json"))
    rc, o = sh("cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8")
    import re
    failed = re.findall(r"^test (.*) \.\.\. FAILED", o, re.M)
    ok = len(re.findall(r"^test .* \.\.\. ok", o, re.M))
    return failed, ok, o
def main():
    for f in sys.argv[1:]:
        d = {}
        exec(open(f).read(), d)
        sync()
        out = "/verif/seeded/" + d["ID"]
        os.makedirs(out, exist_ok=True)
        deps = d.get("DEPS", 'cavalier_contours = { path = "$R/cavalier_contours" }')
        open(out + "/demo.sh", "w").write(d.get("DEMO_SH", DEMO_SH % {"deps": deps}))
        os.chmod(out + "/demo.sh", 0o755)
        if "DEMO" in d:
            open(out + "/demo.rs", "w").write(d["DEMO"].lstrip("\n"))
        for dst, src in d.get("FILES", {}).items():
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, out + "/" + dst, **({"dirs_exist_ok": True} if os.path.isdir(src) else {}))
        json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        ok = True
        rc, o = sh(["bash", out + "/demo.sh"])
        if rc != 0:
            print(d["ID"], "DEMO FAILS CLEAN rc", rc, o[-1500:]); ok = False
        for fn, old, new in d["EDITS"]:
            p = os.path.join(SC, fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(d["ID"], "EDIT MATCHES", s.count(old), "TIMES", fn, old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if ok:
            rc, patch = sh("git diff")
            open(out + "/patch.diff", "w").write(patch)
            rc, o = sh("cargo test --workspace --no-run --locked --offline")
            if rc != 0:
                print(d["ID"], "BUILD FAILS", o[-1500:]); ok = False
        if ok:
            failed, n, o = tests()
            if failed:
                print(d["ID"], "TESTS FAIL", failed[:6]); ok = False
            rc, o = sh(["bash", out + "/demo.sh"])
            if rc == 0:
                print(d["ID"], "DEMO PASSES PATCHED", o[-500:]); ok = False
            else:
                print(d["ID"], "demo patched rc", rc, o.strip()[-200:])
        sh("git checkout -q -- .")
        print(d["ID"], "OK" if ok else "REJECTED")
        if not ok and "--keep" not in sys.argv:
            shutil.rmtree(out)
main()
