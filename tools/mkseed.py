#!/usr/bin/env python3
"""Development aid: build /verif/seeded/<id>/ from the definitions in seeds_def.py and try them.

  mkseed.py make [ID..]    write patch/demo/meta, confirm in a scratch copy (build, stable tests, demo both ways)
  mkseed.py check [ID..]   apply to /repo, run the property's quick check, undo; prints caught/missed
"""
import json, os, shutil, subprocess, sys
V = os.environ.get("VV", "/verif"); SW = "/tmp/seedwork"
sys.path.insert(0, V + "/tools")
from seeds_def import SEEDS
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
FEATS = ["serde", "tag_generator", "starttls", "ext_condstore_qresync", "ext_id", "ext_login_referrals",
         "ext_mailbox_referrals", "ext_metadata", "ext_namespace", "ext_utf8"]
DEMO_SH = '''#!/bin/bash
# Builds demo.rs against the tree in the current directory and runs it (exit 0: property holds).
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=${{HOME:-/root}} PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
imap-codec = {{ path = "$repo/imap-codec", default-features = {defaults}, features = {feats} }}
imap-types = {{ path = "$repo/imap-types", features = {tfeats} }}
serde_json = "1"
chrono = {{ version = "0.4", default-features = false }}
[profile.dev]
debug = 0
debug-assertions = {dbg}
EOT
CARGO_TARGET_DIR="$d/target" timeout 250 cargo run -q --offline --manifest-path "$d/Cargo.toml"
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def apply(root, s):
    for f, old, new in s["edits"]:
        p = os.path.join(root, f); t = open(p).read()
        n = t.count(old)
        k = s.get("nth", {}).get(f)
        assert n == 1 or (k is not None and n > k), f"{s['id']}: {n} matches in {f} for {old!r}"
        if n == 1: t = t.replace(old, new)
        else:
            parts = t.split(old); t = old.join(parts[:k+1]) + new + old.join(parts[k+1:])
        open(p, "w").write(t)
def setup():
    if not os.path.exists(SW + "/Cargo.toml"):
        sh(f"cp -a /repo {SW}")
        t = open(SW + "/Cargo.toml").read().replace('    "imap-codec/benchmark",\n', "").replace("[workspace]\n", '[workspace]\nexclude = ["imap-codec/benchmark"]\n', 1)
        open(SW + "/Cargo.toml", "w").write(t)
        sh(f"cd {SW} && git add -A && git -c user.name=x -c user.email=x@x commit -qm scratch")
def make(s):
    setup()
    sh(f"git -C {SW} checkout -q -- .")
    apply(SW, s)
    diff = sh(f"git -C {SW} diff").stdout
    assert diff
    d = f"{V}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO_SH.format(defaults=s.get("defaults", "true"), feats=json.dumps(s.get("feats", FEATS)), tfeats=json.dumps(s.get("tfeats", ["serde", "tag_generator"])), dbg="true" if s.get("dbg") else "false"))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    env = dict(ENV, CARGO_TARGET_DIR=SW + "/target")
    nf = "--workspace --exclude imap-codec-fuzz --exclude imap-types-fuzz --offline"
    ok = True; msg = []
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) ) if False else None
    for f in ("", "--all-features"):
        r = sh(f"cd {SW} && cargo test {nf} {f} --no-fail-fast -- --test-threads 8", env=env)
        out = r.stdout + r.stderr
        bad = [l for l in out.splitlines() if l.startswith("test ") and l.rstrip().endswith("FAILED")]
        if r.returncode: ok = False; msg += bad[:4] or [out[-1500:]]
    r = sh(f"cd {SW} && bash {d}/demo.sh"); pd = r.returncode
    if pd == 0: msg.append("demo passes with patch")
    else: msg.append("demo(patched): " + (r.stderr.strip().splitlines() or ["?"])[-1][:200] if 'panicked' not in r.stderr else "demo(patched): " + [l for l in r.stderr.splitlines() if l][-2][:160])
    r0 = sh(f"cd /repo && bash {d}/demo.sh")
    if r0.returncode: msg.append("demo FAILS unpatched: " + r0.stderr[-600:])
    ok = ok and pd != 0 and r0.returncode == 0
    sh(f"git -C {SW} checkout -q -- .")
    print(("OK  " if ok else "BAD ") + s["id"], "|", " ; ".join(msg), flush=True)
    return ok
def check(s, tier="quick"):
    assert not sh("git -C /repo status --porcelain -uno").stdout.strip()
    r = sh(f"git -C /repo apply {V}/seeded/{s['id']}/patch.diff"); assert r.returncode == 0, r.stderr
    try:
        for prop in s.get("also", []) + [s["property"]]:
            r = sh(f"cd {V} && VERIF_SEED=1 timeout 900 python3 check.py {prop} {tier}")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(("CAUGHT " if r.returncode == 1 and v else "MISSED ") + s["id"], prop, f"rc={r.returncode}", v[:1], flush=True)
            if r.returncode not in (0, 1): print((r.stdout + r.stderr)[-800:])
    finally: sh("git -C /repo checkout -q -- .")
sel = set(sys.argv[2:])
for s in SEEDS:
    if sel and s["id"] not in sel: continue
    if sys.argv[1] == "make": make(s)
    else: check(s)
