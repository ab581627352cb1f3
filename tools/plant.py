#!/usr/bin/env python3
"""Developer tool: plant.py BUGS.py [id...]  makes /verif/seeded/<id>/ from an edit + a demonstration and
confirms in a scratch copy that it builds, passes the stable tests, and that the demonstration
passes without and fails with it.   plant.py --catch [id...]  runs the property's check against each."""
import json, os, re, shutil, subprocess, sys, tempfile
H = "/verif/seeded"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
           PATH="/root/.cargo/bin:" + os.environ["PATH"])
DEMO = '''#!/bin/bash
# Demonstration: passes on the unchanged tree, fails with the planted change. Run in /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
[ -d /root/.cargo/bin ] && export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
redox-ecc = { path = "$repo" }
num-bigint = "0.4.3"
num-integer = "0.1.44"
num-traits = "0.2.14"
[profile.dev]
opt-level = 1
debug = 0
[workspace]
E
cd "$t" && cargo build -q --offline --target-dir "$t/target" || exit 4
timeout 200 "$t/target/debug/demo"
'''
PRE = '''#![allow(unused_imports, dead_code)]
use num_bigint::{BigInt, BigUint, Sign};
use num_integer::Integer;
use num_traits::{One, Zero, ToPrimitive};
use redox_ecc::edwards; use redox_ecc::montgomery; use redox_ecc::weierstrass;
use redox_ecc::ellipticcurve::*;
use redox_ecc::field::*;
use redox_ecc::instances::*;
use redox_ecc::ops::*;
use redox_ecc::primefield::*;
use redox_ecc::quadraticfield::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn big(s: &str) -> BigInt { BigInt::parse_bytes(s.as_bytes(), 10).unwrap() }
'''
def run(cmd, cwd, t=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def tests(cwd):
    o = run(["cargo", "test", "--workspace", "--offline", "--no-fail-fast"], cwd)
    return o.returncode == 0, o.stdout
def plant(b, work):
    d = f"{H}/{b['id']}"
    run(["git", "checkout", "-q", "--", "."], work)
    for f, old, new in b["edits"]:
        p = f"{work}/{f}"; s = open(p).read()
        if s.count(old) != b.get("count", 1): print(b["id"], "edit matches", s.count(old), "times:", old[:60]); return False
        open(p, "w").write(s.replace(old, new))
    diff = run(["git", "diff"], work).stdout
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO); os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.rs", "w").write(PRE + b["demo"])
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    ok, out = tests(work)
    r1 = run(["bash", f"{d}/demo.sh"], work)
    run(["git", "checkout", "-q", "--", "."], work)
    r0 = run(["bash", f"{d}/demo.sh"], work)
    good = ok and r1.returncode not in (0, 3, 4) and r0.returncode == 0
    print(b["id"], "OK" if good else f"BAD tests={ok} demo_with={r1.returncode} demo_without={r0.returncode}")
    if not good:
        print((out[-1500:] if not ok else "") + r1.stdout[-800:] + r0.stdout[-800:])
        shutil.rmtree(d)
    return good
def catch(ids):
    for i in ids:
        d = f"{H}/{i}"; m = json.load(open(f"{d}/meta.json"))
        a = run(["git", "apply", f"{d}/patch.diff"], "/repo")
        if a.returncode: print(i, "does not apply", a.stdout); continue
        try:
            for p in [m["property"]]:
                o = subprocess.run(["./check", p], cwd="/verif", env=dict(os.environ, VERIF_BUDGET=os.environ.get("VERIF_BUDGET", "300")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                l = [x for x in o.stdout.splitlines() if x.startswith(("VIOLATION", "  violated", "  UNDECIDED", "  ERROR"))][:3]
                print(i, p, "CAUGHT" if o.returncode == 1 else f"MISSED rc={o.returncode}", o.stdout.splitlines()[-1][:150], "|", "; ".join(x[:160] for x in l), flush=True)
        finally:
            run(["git", "checkout", "-q", "--", "."], "/repo")
if __name__ == "__main__":
    if sys.argv[1] == "--catch":
        catch(sys.argv[2:] or sorted(os.listdir(H)))
    else:
        ns = {}; exec(open(sys.argv[1]).read(), ns)
        work = tempfile.mkdtemp(prefix="plant") + "/repo"
        subprocess.run(["cp", "-a", "/repo", work])
        for b in ns["BUGS"]:
            if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
            if len(sys.argv) == 2 and os.path.exists(f"{H}/{b['id']}"): continue
            plant(b, work)
        shutil.rmtree(os.path.dirname(work))
