"""Plants bugs: confirms each in a scratch copy of /repo and writes seeded/<id>/.  Used from scripts: plant(...)"""
import json, os, shutil, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/w/plant"
DEMO_SH = r'''#!/bin/bash
# builds demo.rs against the crate in the working directory, in a scratch directory it removes
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
bsplines = { path = "$repo" }
nalgebra = "0.32.3"
[workspace]
EOF
cd "$t" || exit 2
CARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}" cargo run --offline -q 2>&1
'''
HEAD = r'''#![allow(unused)]
use bsplines::curve::{knots::{self, DomainKnotComparatorType as Cmp, Knots}, parameters::{self, Parameters}, points::{ControlPoints, DataPoints, Points}, generation::{self, Generation, generate}, Curve};
use bsplines::types::{MatD, VecD};
use bsplines::manipulation;
use nalgebra::{dmatrix, dvector};

fn close(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs() + b.abs()) }
fn curve(p: usize, knots: Vec<f64>, pts: MatD) -> Curve {
    Curve::new(Knots::new(p, VecD::from_vec(knots)), ControlPoints::new(pts)).unwrap()
}
fn same(a: &MatD, b: &MatD) -> bool { a.shape() == b.shape() && a.iter().zip(b.iter()).all(|(x, y)| close(*x, *y)) }
fn samev(a: &VecD, b: &VecD) -> bool { a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| close(*x, *y)) }

fn main() {
'''


def sh(cmd, cwd, **env):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=True, errors="replace",
                       env=dict(os.environ, **env))
    return r.returncode, r.stdout


def scratch():
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    rc, o = sh(f"git clone -q /repo {WORK}/repo && cp /repo/Cargo.lock {WORK}/repo/ 2>/dev/null; true", "/")


def plant(id, prop, edits, demo, needs, breaks, raw=False):
    """edits: [(file, old, new)]"""
    repo = WORK + "/repo"
    if not os.path.isdir(repo):
        scratch()
    sh("git checkout -q -- . && git fetch -q && git reset -q --hard origin/HEAD", repo)
    dst = os.path.join(ROOT, "seeded", id)
    os.makedirs(dst, exist_ok=True)
    open(dst + "/demo.rs", "w").write(demo if raw else HEAD + demo.strip("\n") + "\n}\n")
    open(dst + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(dst + "/demo.sh", 0o755)
    env = dict(DEMO_TARGET=WORK + "/dt")
    rc, o = sh(dst + "/demo.sh", repo, **env)
    if rc:
        print(id, "DEMO FAILS ON THE CLEAN TREE\n", o[-1500:])
        return False
    for f, old, new in edits:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, f"EDIT: {s.count(old)} matches in {f}: {old!r}")
            return False
        open(p, "w").write(s.replace(old, new))
    _, diff = sh("git diff", repo)
    open(dst + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(dst + "/meta.json", "w"), indent=1)
    rc, o = sh("cargo test --offline -q", repo, CARGO_TARGET_DIR=WORK + "/tt")
    if rc:
        print(id, "TESTS FAIL OR NO BUILD\n", o[-1500:])
        return False
    rc, o = sh(dst + "/demo.sh", repo, **env)
    if not rc:
        print(id, "DEMO PASSES WITH THE BUG")
        return False
    if "error: could not compile" in o or "error[" in o:
        print(id, "DEMO DOES NOT COMPILE", o[-800:])
        return False
    rc, o = sh(f"timeout 900 python3 {ROOT}/check.py {prop} --repo {repo} --no-evidence 2>&1 | tail -3 | cut -c1-200", ROOT)
    print(id, prop, "CAUGHT" if "VIOLATION" in o else "MISSED: " + o)
    return True
