#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (development only; no check reads it).  seeds.py [ID...]"""
import json, os, shutil, subprocess, sys
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
W = "/tmp/seedwork"

COMMON = r'''
#![allow(dead_code)]
use y86_sim::framework::{CpuSim, MemData};
/// assembles and runs; Some((registers, memory)) when the processor stops within 2000 cycles
pub fn run(kind: &str, src: &str) -> Option<([u64; 16], Vec<u8>)> {
    let obj = y86_sim::assemble(src, Default::default()).expect("assembles");
    run_img(kind, obj.obj.init_mem())
}
pub fn run_img(kind: &str, img: [u8; y86_sim::BIN_SIZE]) -> Option<([u64; 16], Vec<u8>)> {
    let mem = MemData::init(img);
    let mut c: Box<dyn CpuSim> = y86_sim::architectures::create_sim(kind.to_string(), mem.clone(), false);
    for _ in 0..2000 {
        if c.is_terminate() {
            let m = mem.read().to_vec();
            return Some((c.registers(), m));
        }
        c.step();
    }
    None
}
pub fn isa(src: &str) -> Option<y86_sim::isa::StandardResult> {
    let obj = y86_sim::assemble(src, Default::default()).expect("assembles");
    y86_sim::isa::simulate(obj.obj.init_mem(), false).ok()
}
'''
DEMO = '''#!/bin/bash
# run in /repo; exit 0: the property holds for this input
here=$(cd "$(dirname "$0")" && pwd)
d=/tmp/y86-demo-@ID@
rm -rf /tmp/y86-demo-@ID@
mkdir -p $d/src
cp "$here/main.rs" $d/src/main.rs
cp Cargo.lock $d/Cargo.lock
cat > $d/Cargo.toml <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
y86-sim = { path = "$PWD/sim" }
anyhow = "1"
[profile.dev]
debug = false
EOF
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_TARGET_DIR=$d/target
unset RUSTFLAGS
(cd $d && timeout 280 cargo run --offline -q)
rc=$?
rm -rf /tmp/y86-demo-@ID@
exit $rc
'''
B = {}
def bug(id, prop, file, old, new, needs, breaks, main, more=()):
    B[id] = dict(prop=prop, edits=[(file, old, new)] + list(more), needs=needs, breaks=breaks, main=main)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seed_list.py")).read())

def sh(c, **k):
    return subprocess.run(c, shell=True, **k)

for id, b in B.items():
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        continue
    shutil.rmtree(W, ignore_errors=True)
    sh("mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x" % (W, W, W), check=True)
    for f, old, new in b["edits"]:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(OUT, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = subprocess.run("git diff", shell=True, cwd=W, capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO.replace("@ID@", id))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(COMMON.strip() + "\n" + b["main"])
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
shutil.rmtree(W, ignore_errors=True)
