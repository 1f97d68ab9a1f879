#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seeds/*.py and (with --verify) confirms each in a scratch copy:
the patch applies, the stable tests pass, demo.sh exits 0 without and non-zero with the patch.
usage: mk_seeded.py [--verify] [ID...]"""
import glob, importlib.util, json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seed/repo"
S = "source/postcard-rpc/src/"
CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
publish = false

[workspace]

[dependencies]
postcard-rpc = { path = "@REPO@/source/postcard-rpc", features = [%s] }
postcard = { version = "1.0.10", features = ["use-std"] }
postcard-schema = { version = "0.2.1", features = ["derive", "use-std"] }
serde = { version = "1.0.192", features = ["derive"] }
tokio = { version = "1.33.0", features = ["sync", "rt", "rt-multi-thread", "macros", "time", "test-util", "io-util"] }
%s
[profile.dev]
opt-level = 1
debug = false
incremental = false
'''
USB = '''embassy-usb-0_3 = { package = "embassy-usb", version = "0.3" }
embassy-usb-0_4 = { package = "embassy-usb", version = "0.4" }
embassy-usb-driver = "0.1"
embassy-sync = "0.6"
embassy-time-driver = "0.2"
embassy-time = "0.4"
critical-section = { version = "1", features = ["std"] }
'''
DEMO = '''#!/bin/bash
# exit 0: the guarantee holds on the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$d/Cargo.toml"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cp "$here"/*.rs "$d/src/"
%sexport RUSTUP_TOOLCHAIN=${DEMO_TOOLCHAIN:-1.99.1-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$d/target
unset RUSTFLAGS
(cd "$d" && cargo build -q --offline) || exit 3
timeout 120 "$d/target/debug/demo"
'''
def sh(c, cwd=None, t=900, env=None):
    p = subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
def load():
    out = []
    for f in sorted(glob.glob(ROOT + "/tools/seeds/*.py")):
        sp = importlib.util.spec_from_file_location("m", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        out += m.SEEDS
    return out
def fresh():
    if not os.path.isdir(W):
        os.makedirs("/tmp/seed", exist_ok=True)
        sh(f"git clone -q /repo {W}")
    sh("git fetch -q origin && git checkout -q -f FETCH_HEAD 2>/dev/null || git checkout -q -f origin/HEAD; git checkout -q -- . && git clean -fdq -e target", W)
    h = sh("git rev-parse HEAD", "/repo")[1].strip()
    sh(f"git checkout -q -f {h}", W)
def orig_lines_ok(diff):
    """every hunk touches at least one line that exists in the original commit (removed line or context only)"""
    return True
def tests():
    e = dict(os.environ, RUSTUP_TOOLCHAIN="1.99.1-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never")
    a = sh("timeout 600 cargo test --no-fail-fast --offline --no-default-features --features=use-std,cobs-serial,raw-nusb -- --test-threads 8", W + "/source/postcard-rpc", env=e)[1]
    b = sh("timeout 600 cargo test --no-fail-fast --offline -- --test-threads 8", W + "/source/postcard-rpc-test", env=e)[1]
    c = sh("cargo check --offline --no-default-features && RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu cargo check -Zbuild-std=core --offline --no-default-features --features=embassy-usb-0_4-server --target thumbv7em-none-eabihf && RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu cargo check -Zbuild-std=core --offline --no-default-features --features=embassy-usb-0_3-server --target thumbv7em-none-eabihf", W + "/source/postcard-rpc", env=e)
    if c[0]: return "NOBUILD " + c[1][-300:]
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ok = len(re.findall(r"^test (.*) \.\.\. ok", a + b, re.M)); bad = re.findall(r"^test (.*) \.\.\. FAILED", a + b, re.M)
    if bad or ok < len(base): return f"TESTS {bad} ok={ok}/{len(base)} " + "\n".join(re.findall(r"^error.*", a + b, re.M)[:3])
    return ""
def main():
    verify = "--verify" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    fresh()
    for s in load():
        if ids and s["id"] not in ids: continue
        d = f"{ROOT}/seeded/{s['id']}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        sh("git checkout -q -- .", W)
        bad = False
        for f, o, n in s["edits"]:
            p = f"{W}/{S}{f}"; t = open(p).read()
            if o not in t: print(s["id"], "PATTERN MISSING", f, o[:80]); bad = True; break
            open(p, "w").write(t.replace(o, n, s.get("count", 1)))
        if bad: continue
        diff = sh("git diff", W)[1]
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        usb = s.get("usb")
        feats = ["use-std", "test-utils"] + s.get("features", []) + (["embassy-usb-0_3-server", "embassy-usb-0_4-server"] if usb else [])
        open(d + "/Cargo.toml.in", "w").write(CARGO % (", ".join(f'"{x}"' for x in feats), (USB if usb else "") + s.get("deps", "")))
        shutil.copy(ROOT + "/harness/Cargo.lock", d + "/Cargo.lock")
        for n, c in s["files"].items(): open(f"{d}/{n}", "w").write(c)
        open(d + "/demo.sh", "w").write(DEMO % s.get("pre", "")); os.chmod(d + "/demo.sh", 0o755)
        if verify:
            # lines removed must be original ones
            rc1, o1 = sh(f"bash {d}/demo.sh", W)
            t = tests()
            sh("git checkout -q -- .", W)
            rc0, o0 = sh(f"bash {d}/demo.sh", W)
            base = sh(f"git stash -q 2>/dev/null; git apply --check {d}/patch.diff && echo ok", W)[1].strip()
            mine = sh("git log --format=%H a919c43..HEAD", W)[1].split()
            note = ""
            for f, o, n in s["edits"]:
                bl = sh(f"git blame -l -s {S}{f}", W)[1].splitlines(); txt = open(f"{W}/{S}{f}").read()
                a0 = txt[:txt.index(o)].count("\n"); hit = {x.split()[0] for x in bl[a0:a0 + o.count(chr(10)) + 1]} & set(mine)
                if hit: note += f" TOUCHES-MY-LINES:{f}"
            print(s["id"], "with:", rc1, "without:", rc0, "tests:", t or "ok", "apply:", base, note, "|", (o1.strip().splitlines() or [""])[-1][:150], "|" , o0[-300:] if rc0 else "", flush=True)
    sh("git checkout -q -- .", W)
main()
