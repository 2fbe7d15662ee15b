#!/usr/bin/env python3
"""Decides one property.  usage: check.py PROPERTY [--tier quick|thorough]

Exit 0: held.  Exit 1 and a VIOLATION line: broken.  See DESIGN.md."""
import hashlib, json, os, re, subprocess, sys, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import layer_a

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))


def source(f):
    try:
        lines = open(os.path.join(layer_a.REPO, f["file"])).read().split("\n")
        return "\n".join(lines[f["src"][0] - 1:f["src"][1]])
    except (OSError, KeyError, TypeError):
        return ""


def inconclusive(fn, ex, base, failures=()):
    """Why a failed obligation of this function does not decide anything, or None if it does.

    The loop invariants, closure contracts and proof hints in /verif/contracts are attached to the
    loops, closures and calls they were written for; where the source has others, or calls something
    that has neither a contract nor an assumed one, a failure may come from a missing annotation and
    not from the code."""
    cur = {f["key"]: f for f in ex["fns"]}.get(fn)
    old = base["fns"].get(fn)
    if cur is None:
        return None if fn == "(prelude)" else "function not found"
    if fn.startswith("raw "):
        return None
    if old is None:
        return "function not in the baseline"
    s = layer_a.shape(cur)
    # loops and closures that none of the annotations was written for
    new = [x for x in cur["extra"] if not x.startswith("map ")]
    if new:
        return "new " + ", ".join(new)
    if s["problems"] != old["problems"]:
        return "annotations lost: " + "; ".join(p for p in s["problems"] if p not in old["problems"])
    if s["loops"] < old["loops"] and set(s["calls"]) - set(old["calls"]):
        return "a loop was replaced"
    # a closure took the place of the one its contract was written for
    if any(f["fn"] == fn and "of closure" in f["message"] for f in failures):
        known_closures = set()
        for l in open(os.path.join(ROOT, "contracts", "shapes.txt")):
            key, kind, text = l.rstrip("\n").split("\t")
            if key == fn and kind == "closure":
                known_closures.add("closure " + text)
        if any(k.startswith("closure ") and k not in known_closures for k in cur["keys"]):
            return "a closure was rewritten"
    # a type got other fields: what is written about it may say too little
    before = base["types"]
    changed = {n for n, text in ex["types"].items() if before.get(n) != text}
    src = source(cur) if changed else ""
    for n in changed:
        if re.match(rf"{n}\b", fn) or re.search(rf"\b{n}\b", src):
            return f"the definition of {n} changed"
    for c in set(s["calls"]) - set(old["calls"]):
        name = c.split("::")[-1].lstrip(".")
        mine = [f for f in ex["fns"] if f["key"].split("::")[-1] == name]
        if any(not f["contract"] for f in mine):
            return f"calls {c}, which has no contract"
        if not mine and c.startswith(".") is False and not c[0].isupper():
            return f"calls {c}, which has no contract"
    return None


def run_layer_a(prop, work):
    base = json.load(open(os.path.join(ROOT, "contracts", "baseline.json")))
    r = layer_a.verify(work, budget=360)
    r["base"] = base
    if r["unavailable"]:
        return r
    if r["failures"]:
        # once more with another seed and a larger resource limit: an alarm must be stable
        again = layer_a.again(work, r["fns"], r["failures"])
        for f in r["failures"]:
            f["stable"] = (f["fn"], f["message"]) in again
    return r


def harness(prop, work):
    """Runs the property's scenarios on the real code; returns (ran, report)."""
    hdir = os.path.join(ROOT, "harness")
    if not os.path.exists(os.path.join(hdir, "Cargo.toml")):
        return None
    t = time.time()
    b = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=hdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0:
        return {"unavailable": "the harness does not build against this tree: " + b.stdout[-3000:], "failures": [], "evaluations": 0}
    out = os.path.join(work, "harness.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [os.path.join(hdir, "target", "debug", "harness"), "--property", prop, "--seed", str(SEED), "--tier", TIER, "--out", out]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=220 if TIER == "quick" else 3000)
    except subprocess.TimeoutExpired:
        return {"unavailable": "the harness ran out of time", "failures": [], "evaluations": 0}
    if not os.path.exists(out):
        return {"unavailable": "the harness gave no report: " + r.stdout[-3000:], "failures": [], "evaluations": 0}
    rep = json.load(open(out))
    rep["unavailable"] = None
    rep["wall"] = time.time() - t
    rep["cmd"] = " ".join(cmd[1:])
    return rep


def main():
    prop = sys.argv[1]
    global TIER
    if "--tier" in sys.argv:
        TIER = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    work = os.path.join(ROOT, "work", prop)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    try:
        a = run_layer_a(prop, work)
    except Exception:
        a = {"unavailable": traceback.format_exc(), "fns": [], "failures": [], "lost": [], "base": {"fns": {}, "types": {}}}
    h = harness(prop, work)

    mine = [f for f in a["fns"] if prop in f["props"]]
    keys = {f["key"] for f in mine}
    definite, open_ = [], []
    for f in a["failures"]:
        if f["fn"] not in keys:
            continue
        why = None if f["definite"] else "the solver gave no answer"
        if not f.get("stable", True):
            why = "not stable under another solver seed"
        why = why or inconclusive(f["fn"], a["extract"], a["base"], a["failures"])
        if why:
            open_.append(dict(f, why=why))
        else:
            definite.append(f)
    for k in a["lost"]:
        k = k.lstrip("!")
        if k in keys:
            open_.append({"fn": k, "message": "outside the supported subset", "why": "outside the supported subset", "rendered": ""})

    known = []
    kf = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                known.append(l.split(" ", 2)[2])

    concrete = []
    for f in (h or {}).get("failures", []):
        hit = [k for k in known if k.split(" ", 1)[0] == f["id"]]
        if hit:
            print(f"KNOWN-FINDING: property={prop} {f['id']} {f['what']}")
        else:
            concrete.append(f)

    violations = 0
    if concrete or definite:
        violations = max(1, len(concrete))
        rp = os.path.join(ROOT, "work", f"replay-{prop}.json")
        json.dump({
            "property": prop,
            "failed_obligations": [{"function": f["fn"], "obligation": f["message"], "verifier_output": f["rendered"]} for f in definite],
            "failing_runs": concrete,
            "rerun": (h or {}).get("cmd", "") if concrete else "",
            "verifier": a.get("verus"),
        }, open(rp, "w"), indent=1)
        for f in definite[:10]:
            print(f"failed obligation in {f['fn']}: {f['message']}")
            print(f["rendered"])
        for f in concrete[:10]:
            print(f"failing run: {f['id']}: {f['what']}")
        print(f"VIOLATION property={prop} replay={rp}" + ("" if concrete else " no-failing-input-found"))

    # evidence
    ob = a.get("obligations", {})
    n_ob = sum(ob.get(k, 0) for k in keys)
    failing = {f["fn"] for f in a["failures"] if f["fn"] in keys} | {o["fn"] for o in open_}
    n_dis = sum(ob.get(k, 0) for k in keys if k not in failing)
    trusted = [f"{f['key']}: {f['trusted']}" for f in a["fns"] if f["trusted"]]
    proved = [f["key"] for f in mine if f["key"] not in failing and not f["trusted"] and f["contract"] and not f["lost"]]
    cov = {
        "obligations": n_ob,
        "discharged": n_dis,
        "checker_cmd": f"verus all.rs (on {len(a['fns'])} functions extracted from the current {layer_a.REPO}/manul/src; the run covers every property)",
        "trusted_base": ["Verus, its encoding and Z3", "the extractor (/verif/extract): its rewriting rules are listed in DESIGN.md",
                         "contracts/prelude.rs: assumed contracts of std collections and iterators, digest, signature, serde"] + trusted,
        "functions_under_contract": proved,
        "lemmas": [f["key"] for f in mine if f["key"].startswith("raw ")],
        "back_end": "Z3 via Verus",
        "solver_ms_whole_run": a.get("smt_ms"),
        "verus": a.get("verus"),
        "unavailable": a["unavailable"],
        "not_decided_by_the_verifier": [{"function": o["fn"], "why": o["why"], "message": o["message"]} for o in open_],
    }
    if h is not None:
        cov["bounded"] = {k: v for k, v in h.items() if k != "failures"}
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "proof", "coverage": cov,
        "assumptions": ["machine integers are exact (overflow is an obligation)", "panics are obligations: expect/unwrap/panic! need proof",
                        "serialization in the user's wire format round-trips and is a function of the value",
                        "clone and == are structural"],
        "wall_s": round(time.time() - t0, 1), "violations": violations,
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1)
    if not violations:
        print(f"{prop}: held: {n_dis}/{n_ob} obligations of {len(proved)} functions discharged" + (
            f"; bounded: {h.get('evaluations')} runs" if h else "") + (f"; undecided: {[o['fn'] for o in open_]}" if open_ else "") + (
            f"; VERIFIER UNAVAILABLE: {a['unavailable']}" if a["unavailable"] else ""))
    sys.exit(1 if violations else 0)


main()
