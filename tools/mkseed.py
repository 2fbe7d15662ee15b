"""Makes a planted bug in /verif/seeded from a description (run by hand): python3 tools/mkseed.py SPEC.py [NAME...]

SPEC.py defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=rust text)}.
It works in a scratch copy (/tmp/seed/repo) and keeps a bug only if it builds, passes the tests and the
demonstration tells the two trees apart."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/tmp/seed/repo"
H = os.path.join(ROOT, "harness")

DEMO = """#!/bin/sh
# exit 0: the property held in this run; run in the repository's folder
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here"/kit/*.rs "$t/src/" && cp "$here/kit/Cargo.lock" "$t/Cargo.lock" || exit 3
sed "s|@REPO@|$repo|" "$here/kit/Cargo.toml.in" > "$t/Cargo.toml"
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2> "$t/log" || { cat "$t/log"; exit 3; }
"$t/target/debug/harness"
"""
TOML = open(os.path.join(H, "Cargo.toml")).read().replace("/repo/manul", "@REPO@/manul").replace("opt-level = 2", "opt-level = 1")
HEAD = """#![allow(dead_code, unused_imports, unused_mut, unused_variables)]
mod ev;
mod puppet;
mod sim;
mod util;
use std::collections::*;
use std::sync::Arc;
use manul::protocol::*;
use manul::session::*;
use puppet::*;
use serde_json::{json, Value};
use util::*;

fn need(ok: bool, what: impl Into<String>) {
    if !ok {
        println!("BROKEN: {}", what.into());
        std::process::exit(1);
    }
}
const A: Vid = Vid(0);
const B: Vid = Vid(1);
const C: Vid = Vid(2);
const D: Vid = Vid(3);

"""
def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

spec = {}
exec(open(sys.argv[1]).read(), spec)
for bid, b in spec["BUGS"].items():
    if len(sys.argv) > 2 and bid not in sys.argv[2:]:
        continue
    d = os.path.join(ROOT, "seeded", bid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/kit")
    for m in ("puppet.rs", "util.rs", "sim.rs", "ev.rs"):
        t = open(os.path.join(H, "src", m)).read()
        if m == "ev.rs":
            t = t.replace("\nfn ", "\npub fn ")
        open(d + "/kit/" + m, "w").write(t)
    body = b["demo"]
    if "fn main" not in body:
        body = "fn run() -> R<()> {\n" + body + "\n    Ok(())\n}\n\nfn main() {\n    if let Err(e) = run() {\n        println!(\"the scenario could not be set up: {e:?}\");\n        std::process::exit(4);\n    }\n}\n"
    open(d + "/kit/main.rs", "w").write(HEAD + body)
    open(d + "/kit/Cargo.toml.in", "w").write(TOML)
    shutil.copy(os.path.join(H, "Cargo.lock"), d + "/kit/Cargo.lock")
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    sh(["git", "checkout", "-q", "--", "."], REPO)
    ok = True
    r = sh(["sh", d + "/demo.sh"], REPO)
    if r.returncode != 0:
        print(bid, "demo fails on the unchanged tree", r.returncode, r.stdout[-3000:]); continue
    for f, old, new in b["edits"]:
        p = os.path.join(REPO, "manul/src", f)
        t = open(p).read()
        if t.count(old) != 1:
            print(bid, "edit does not apply once:", f, t.count(old), old); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if not ok: continue
    open(d + "/patch.diff", "w").write(sh(["git", "diff"], REPO).stdout)
    r = sh(["cargo", "test", "--offline", "--workspace", "--all-features", "-q"], REPO)
    t = r.stdout
    if r.returncode != 0:
        print(bid, "TESTS FAIL", t[-2500:])
    r = sh(["sh", d + "/demo.sh"], REPO)
    print(bid, "demo with the patch:", r.returncode, r.stdout[-600:])
sh(["git", "checkout", "-q", "--", "."], REPO)
