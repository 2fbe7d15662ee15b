"""Every function under contract must have a reachable end: with `assert(false)` put there, each must fail.

A function that does not is either one that never gets to its end, or its contracts contradict each other.
Prints the functions that do not fail. Expected: run_session, which is a loop that is only left by returning;
with `ensures ret is Ok ==> false` instead, each of its three `return`s fails."""
import json, os, sys
os.environ["EXTRACT_VACUITY"] = "1"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import layer_a
work = sys.argv[1] if len(sys.argv) > 1 else "/tmp/w/vac"
exe = layer_a.build_extractor()
ex, err = layer_a.extract(exe, work, set())
out, diags, wall = layer_a.verus(work, extra=["--multiple-errors", "30"], timeout=1500)
src = open(os.path.join(work, "all.rs")).read().split("\n")
hit = set()
for d in diags:
    for s in d["spans"]:
        if s["is_primary"] and "assert(false)" in src[s["line_start"] - 1]:
            f = layer_a.owner(ex["fns"], s["line_start"])
            hit.add(f["key"])
miss = [f["key"] for f in ex["fns"] if not f["key"].startswith("raw ") and not f["trusted"] and not f["lost"]
        and f["key"] not in hit and any("assert(false)" in l for l in src[f["out"][0] - 1:f["out"][1]])]
print(len(hit), "functions refuted; not refuted:", miss, "wall", wall, out and out.get("verification-results"))
