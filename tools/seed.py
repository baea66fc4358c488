#!/usr/bin/env python3
"""Plant and validate a bug. Usage: seed.py add SPECFILE | seed.py recheck [ID...] | seed.py catch [ID...]
A spec is a python file defining: id, prop, edits=[(file, old, new)...], demo (rust main body), needs, breaks.
Everything happens in /tmp/seedw (a copy of /repo and of the mc crate), never in /repo."""
import sys, os, subprocess, json, shutil, re
V = "/verif"; W = os.environ.get("SEEDW", "/tmp/seedw")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
DEMO_SH = r'''#!/bin/bash
# exit 0 when the property holds on the demonstrated case (run with cwd = the repository)
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export CARGO_NET_OFFLINE=true HOME=${HOME:-/root} PATH=/usr/local/bin:/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
termimad = { path = "$repo" }
DEPS
[profile.dev]
debug = false
END
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" timeout 280 cargo run -q --offline
'''
def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def prepare():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(W + "/repo"): sh(f"cp -a /repo {W}/repo")
    sh(f"git fetch -q /repo && git checkout -q -f FETCH_HEAD && git clean -fdq src", cwd=W + "/repo")
    for c in ("mc", "sched"):
        if os.path.exists(f"{V}/{c}"):
            sh(f"mkdir -p {W}/{c} && rsync -a --delete --exclude /target --exclude /Cargo.toml {V}/{c}/ {W}/{c}/" if shutil.which("rsync") else
               f"mkdir -p {W}/{c} && cd {W}/{c} && find . -mindepth 1 -maxdepth 1 ! -name target ! -name Cargo.toml -exec rm -r {{}} + ; cd {V}/{c} && tar cf - --exclude=./target --exclude=./Cargo.toml . | tar xf - -C {W}/{c}")
            t = open(f"{V}/{c}/Cargo.toml").read().replace('"/repo"', f'"{W}/repo"')
            if not os.path.exists(f"{W}/{c}/Cargo.toml") or open(f"{W}/{c}/Cargo.toml").read() != t: open(f"{W}/{c}/Cargo.toml", "w").write(t)
def touch():
    sh("find src -name '*.rs' | xargs touch", cwd=W + "/repo")
def tests():
    rc, out = sh("cargo test --workspace --offline 2>&1", cwd=W + "/repo")
    return rc == 0, out
def run_check(prop):
    c = "sched" if prop in ("C19", "C20", "C21", "C22") else "mc"
    rc, out = sh("cargo build -q --offline", cwd=f"{W}/{c}")
    if rc: return None, out
    env = dict(ENV, VERIF_DIR=W + "/vd", VERIF_SEED="1")
    os.makedirs(W + "/vd/evidence", exist_ok=True)
    shutil.copy(V + "/known_findings.jsonl", W + "/vd/")
    rc, out = sh(f"target/debug/{c} {prop} quick", cwd=f"{W}/{c}", env=env)
    return rc == 1 and f"VIOLATION property={prop}" in out, out
def demo(d):
    return sh(f"bash {d}/demo.sh", cwd=W + "/repo", timeout=300)
def validate(d, quiet=False):
    """patch applies, builds, passes tests, demo 0 / non 0"""
    sh("git checkout -q -f .", cwd=W + "/repo"); touch()
    rc, out = demo(d)
    if rc: return False, "demo fails on the unchanged tree:\n" + out[-1500:]
    rc, out = sh(f"git apply {d}/patch.diff", cwd=W + "/repo"); touch()
    if rc: return False, "patch doesn't apply " + out
    ok, out = tests()
    if not ok: return False, "tests fail\n" + out[-1500:]
    rc, out = demo(d)
    if rc == 0: return False, "demo passes with the patch"
    return True, out[-600:]
def add(spec):
    g = {}
    exec(open(spec).read(), g)
    d = f"{V}/seeded/{g['id']}"; os.makedirs(d, exist_ok=True)
    sh("git checkout -q -f .", cwd=W + "/repo")
    base_lines = {}
    for f, old, new in g["edits"]:
        p = f"{W}/repo/{f}"; s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    rc, diff = sh("git diff", cwd=W + "/repo")
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(g["demo"])
    open(d + "/demo.sh", "w").write(DEMO_SH.replace("DEPS", g.get("deps", ""))); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ok, msg = validate(d)
    print(g["id"], "VALID" if ok else "INVALID " + msg, flush=True)
    # the removed lines must be lines of the original repository
    rc, base = sh("git rev-list --max-parents=0 HEAD", cwd=W + "/repo")
    for f in {e[0] for e in g["edits"]}:
        rc, orig = sh(f"git show {base.strip()}:{f}", cwd=W + "/repo")
        ol = set(l.strip() for l in orig.splitlines())
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].strip() not in ol: print("   NOT AN ORIGINAL LINE:", l)
    if ok:
        sh("git checkout -q -f .", cwd=W + "/repo"); sh(f"git apply {d}/patch.diff", cwd=W + "/repo"); touch()
        c, out = run_check(g["prop"])
        print("   check", g["prop"], "CAUGHT" if c else ("BUILD FAIL" if c is None else "MISSED"), "\n     ".join(x[:400] for x in out.splitlines()[-8:] if "---" in x or c is None))
    sh("git checkout -q -f .", cwd=W + "/repo"); touch()
if __name__ == "__main__":
    prepare()
    if sys.argv[1] == "add":
        for s in sys.argv[2:]: add(s)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
        for i in ids:
            d = f"{V}/seeded/{i}"; p = json.load(open(d + "/meta.json"))["property"]
            if sys.argv[1] == "recheck":
                print(i, p, *validate(d), flush=True)
            sh("git checkout -q -f .", cwd=W + "/repo")
            rc, out = sh(f"git apply {d}/patch.diff", cwd=W + "/repo"); touch()
            if rc: print(i, p, "PATCH DOES NOT APPLY", out); continue
            c, out = run_check(p)
            print(i, p, "CAUGHT" if c else "MISSED", (out.splitlines() or [""])[0][:160] if c else "", flush=True)
            sh("git checkout -q -f .", cwd=W + "/repo"); touch()
