"""plant.py BUGS.py [ID...]: plant the bugs of a bug list in a scratch copy of /repo, keep those
that build, pass the stable tests and are shown by their demonstration, under seeded/<id>/, and
say which checks report them.  Development tool; no check uses it.

A bug: dict(id, prop, edits=[(file, old, new[, count])], demo (body of fn main), needs, breaks)."""
import sys, os, json, subprocess, shutil, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/plant"
REPO = SCR + "/repo"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           RUSTFLAGS="--force-warn unused-attributes", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

DEMO = '''#!/bin/bash
# run in the repository: exit 0 if the property holds on these inputs
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints allow" RUSTC_WRAPPER=
t=$(mktemp -d) || exit 9
trap 'cd /; rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
linestring = { path = "$repo", features = ["glam"] }
vector-traits = { version = "0.3.2", features = ["glam"] }
[workspace]
EOT
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build -q --offline 2> "$t/log" || { cat "$t/log"; exit 8; }
timeout 60 "$t/target/debug/demo"
'''
HEAD = '''#![allow(unused_imports, dead_code)]
use linestring::linestring_2d::{self, *};
use linestring::linestring_3d::{self, *};
use linestring::prelude::*;
use vector_traits::glam::{vec2, vec3, Vec2, Vec3, Vec3A, DVec2, DVec3};
use vector_traits::{GenericVector2, GenericVector3, HasXY, HasXYZ};
'''


def sh(cmd, cwd=REPO, env=ENV, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def fresh():
    if not os.path.exists(REPO):
        os.makedirs(SCR, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", REPO])
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")


def demo_rs(b):
    d = b["demo"]
    return d if "fn main" in d and d.startswith("//!full") else HEAD + "fn main() {\n" + d.strip("\n") + "\n}\n"


def prepare(b, dst):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    open(dst + "/demo.rs", "w").write(demo_rs(b))
    open(dst + "/demo.sh", "w").write(DEMO)
    os.chmod(dst + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)


def plant(b, checks=None):
    dst = SCR + "/out/" + b["id"]
    sh("git checkout -q -- .")
    prepare(b, dst)
    rc, out = sh("bash %s/demo.sh" % dst)
    if rc != 0:
        return "demo fails on the unchanged tree (rc %d): %s" % (rc, out[-1500:])
    for e in b["edits"]:
        p = os.path.join(REPO, e[0])
        s = open(p).read()
        n = s.count(e[1])
        if n != (e[3] if len(e) > 3 else 1):
            return "edit matches %d times: %r" % (n, e[1][:80])
        open(p, "w").write(s.replace(e[1], e[2]))
    rc, diff = sh("git diff")
    open(dst + "/patch.diff", "w").write(diff)
    rc, out = sh("cargo test --workspace --no-run --offline --features glam,cgmath")
    if rc != 0:
        return "does not build: " + out[-1500:]
    rc, out = sh("cargo test --workspace --no-fail-fast --offline --features glam,cgmath -- --test-threads 8 > target/vp-test.log 2>&1; python3 /opt/vp/results.py /tmp/plant/res.json cargo:target/vp-test.log")
    r = json.load(open("/tmp/plant/res.json"))
    miss = STABLE - set(r["passed"])
    if miss:
        return "tests fail: " + ", ".join(sorted(miss)[:5])
    rc, out = sh("bash %s/demo.sh" % dst)
    if rc == 0:
        return "demo passes with the patch"
    if rc in (8, 9):
        return "demo does not build with the patch: " + out[-800:]
    keep = os.path.join(ROOT, "seeded", b["id"])
    shutil.rmtree(keep, ignore_errors=True)
    shutil.copytree(dst, keep)
    return None


def check(b, props):
    env = dict(os.environ, VERIF_REPO=REPO, VERIF_WORK="/tmp/plant/work")
    res = []
    for p in props:
        rc, out = sh("bash %s/run.sh %s quick" % (ROOT, p), env=env, cwd=ROOT)
        res.append((p, rc, out))
    return res


def main():
    bugs = []
    for f in [x for x in sys.argv[1:] if x.endswith(".py")]:
        bugs += runpy.run_path(f)["BUGS"]
    ids = [x for x in sys.argv[1:] if not x.endswith(".py")]
    for b in bugs:
        if ids and b["id"] not in ids:
            continue
        fresh()
        r = plant(b)
        if r:
            print("DROPPED %s: %s" % (b["id"], r), flush=True)
            continue
        for p, rc, out in check(b, [b["prop"]] + b.get("also", [])):
            v = [l for l in out.splitlines() if l.startswith("  ")][:3]
            print("%s %s by %s %s" % (b["id"], "CAUGHT" if rc == 1 else "MISSED(rc %d)" % rc, p, (v[0].strip()[:150] if v else out[-300:].replace("\n", " | "))), flush=True)
    fresh()


main()
