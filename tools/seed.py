#!/usr/bin/env python3
"""Generates and confirms the planted bugs of /verif/seeded (development tool; no registered check uses it).

  seed.py make [ID...]      write seeded/<id>/{patch.diff,demo.sh,main.rs,meta.json} from the table in seeds.py
  seed.py confirm [ID...]   in a scratch copy: applies, builds, stable tests pass, demo 0 without and nonzero with it
  seed.py check [ID...]     in scratch copies of /repo and /verif: does the property's quick check report it?
"""
import json, os, subprocess, sys, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS
SC = "/tmp/seedwork"
ENV = dict(os.environ, CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
DEMO = r'''#!/bin/bash
# Runs the demonstration program beside this script against the geokit crate of the current directory.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_PROFILE_DEV_DEBUG=line-tables-only
unset RUSTFLAGS RUSTDOCFLAGS
@CFG@T=$(mktemp -d /tmp/seeddemo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$HERE/main.rs" "$T/src/main.rs"
cp "$REPO/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
geokit = { path = "$REPO/geokit" }
[workspace]
TOML
cd "$T" || exit 2
export CARGO_TARGET_DIR=${DEMO_TARGET:-$T/target}
cargo build --offline -q >build.log 2>&1 || { cat build.log; echo "demo does not build"; exit 3; }
@RUN@
'''
RUN_DEFAULT = 'timeout 120 "$CARGO_TARGET_DIR/debug/demo"\n'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def fresh(dst):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    r = sh(f"git -C /repo archive HEAD | tar -x -C {dst} && cd {dst} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x")
    assert r.returncode == 0, r.stderr

def make(ids):
    base = SC + "/make"
    fresh(base)
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        for (f, old, new) in s["edits"]:
            p = f"{base}/geokit/src/{f}"
            t = open(p).read()
            k = t.count(old)
            n = s.get("nth", {}).get(f)
            if n is None:
                assert k == 1, (s["id"], f, k)
                t = t.replace(old, new)
            else:
                parts = t.split(old)
                assert len(parts) > n + 1, (s["id"], f, k)
                t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, "w").write(t)
        d = f"{ROOT}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh(f"git -C {base} diff").stdout)
        sh(f"git -C {base} checkout -- .")
        open(d + "/demo.sh", "w").write(DEMO.replace("@RUN@", s.get("run", RUN_DEFAULT)).replace("@CFG@", 'export RUSTFLAGS="--cfg %s"\n' % s["cfg"] if s.get("cfg") else ""))
        open(d + "/main.rs", "w").write(s["demo"].lstrip("\n"))
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(base)

def confirm(ids):
    base = SC + "/confirm"
    fresh(base)
    env = dict(ENV, DEMO_TARGET=SC + "/dtarget")
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        d = f"{ROOT}/seeded/{s['id']}"
        r0 = sh(f"bash {d}/demo.sh", cwd=base, env=env)
        a = sh(f"git apply {d}/patch.diff", cwd=base)
        e2 = dict(ENV, CARGO_TARGET_DIR=SC + "/ttarget", CARGO_INCREMENTAL="1", RUST_BACKTRACE="0")
        t = sh(f"cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > {SC}/t.log 2>&1; python3 /opt/vp/results.py {SC}/o.json cargo:{SC}/t.log", cwd=base, env=e2)
        o = json.load(open(f"{SC}/o.json"))
        miss = [x for x in stable if x not in o["passed"]]
        r1 = sh(f"bash {d}/demo.sh", cwd=base, env=env)
        sh("git checkout -- .", cwd=base)
        ok = r0.returncode == 0 and a.returncode == 0 and not miss and r1.returncode not in (0, 3)
        print(("OK  " if ok else "BAD ") + s["id"], "demo0=%d apply=%d missing=%s demo1=%d" % (r0.returncode, a.returncode, miss[:4], r1.returncode), flush=True)
        if not ok:
            print("   ", (r0.stdout + r0.stderr)[-300:] if r0.returncode else "", a.stderr, (r1.stdout + r1.stderr)[-300:] if r1.returncode == 3 else "")

def check(ids, props=None):
    """Needs /tmp/w<k>/{verif,repo}; k workers, one after another per worker."""
    todo = [s for s in SEEDS if not ids or s["id"] in ids]
    K = int(os.environ.get("K", "2"))
    ws = []
    for k in range(K):
        w = f"/tmp/seedw{k}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        fresh(w + "/repo")
        sh(f"mkdir {w}/verif && cd {ROOT} && cp -a *.py spec harness known_findings.txt {w}/verif/ && cp -a target {w}/verif/ 2>/dev/null; rm -rf {w}/verif/seeded")
        ws.append(w)
    import queue
    q = queue.Queue()
    for w in ws:
        q.put(w)
    def one(s):
        w = q.get()
        try:
            a = sh(f"git apply {ROOT}/seeded/{s['id']}/patch.diff", cwd=w + "/repo")
            out = []
            for p in (props or [s["prop"]] + s.get("also", [])):
                r = sh(f"timeout 900 python3 vk.py check {p}", cwd=w + "/verif", env=dict(os.environ, VK_REPO=w + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                out.append((p, r.returncode, v[:1], r.stdout[-300:] + r.stderr[-300:] if r.returncode not in (0, 1) else ""))
            sh("git checkout -- .", cwd=w + "/repo")
            return s["id"], a.stderr, out
        finally:
            q.put(w)
    with cf.ThreadPoolExecutor(K) as ex:
        for i, e, out in ex.map(one, todo):
            for (p, rc, v, tail) in out:
                print(("CAUGHT " if rc == 1 and v else "MISSED ") + i, p, "rc=%d" % rc, v, e, tail, flush=True)
    for w in ws:
        shutil.rmtree(w)

if __name__ == "__main__":
    {"make": make, "confirm": confirm, "check": check}[sys.argv[1]](sys.argv[2:])
