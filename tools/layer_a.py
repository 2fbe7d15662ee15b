"""Layer A: extract /repo's current source with its contracts and have Verus discharge every obligation."""
import concurrent.futures, json, os, re, subprocess, time, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VERUS = shutil.which("verus") or "/opt/veriftools/bin/verus"

DEFINITE = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
            "possible arithmetic", "possible division", "unwind", "decreases not satisfied", "constructed value may fail")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_extractor():
    r = sh(["cargo", "build", "--offline", "-q"], cwd=os.path.join(ROOT, "extract"))
    if r.returncode != 0:
        raise RuntimeError("extractor does not build: " + r.stderr[-2000:])
    return os.path.join(ROOT, "extract", "target", "debug", "extract")


def extract(exe, work, lost, contracts=None):
    os.makedirs(work, exist_ok=True)
    rs, js = os.path.join(work, "all.rs"), os.path.join(work, "all.json")
    r = sh([exe, REPO, contracts or os.path.join(ROOT, "contracts"), rs, js, "--lost", ";".join(sorted(lost))])
    if r.returncode != 0:
        return None, r.stderr[-2000:]
    return json.load(open(js)), ""


def verus(work, extra=(), timeout=600, log=True):
    t = time.time()
    try:
        r = sh([VERUS, "all.rs", "--triggers-mode", "silent", "--output-json", "--time-expanded", "--error-format=json",
                "--no-report-long-running", *(["--log", "air", "--log-dir", os.path.join(work, "log")] if log else []), *extra],
               cwd=work, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, [], time.time() - t
    try:
        out = json.loads(r.stdout)
    except Exception:
        out = None
    diags = []
    for l in r.stderr.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except Exception:
                pass
    return out, diags, time.time() - t


def modules():
    """The files that are kept in a module of their own."""
    m = {}
    for name in os.listdir(os.path.join(ROOT, "contracts")):
        if name.endswith(".vc"):
            for l in open(os.path.join(ROOT, "contracts", name)):
                x = re.match(r"=== file (\S+) in (\w+)", l)
                if x:
                    m[x.group(1)] = x.group(2)
    return m


def again(work, fns, failures):
    """The failures of the functions that failed, with another solver seed and a larger resource limit."""
    mods = modules()
    byk = {f["key"]: f for f in fns}
    jobs, whole = set(), False
    for f in failures:
        k = f["fn"]
        if k not in byk or k.startswith("raw "):
            whole = True
        else:
            jobs.add((mods.get(byk[k]["file"]), "*" + k.split("::")[-1]))
    if whole or len(jobs) > 14:
        jobs = {None}
    extra = ["--rlimit", "25", "--smt-option", "smt.random_seed=7"]

    def one(j):
        if j is None:
            return verus(work, extra=extra, timeout=200, log=False)
        m, name = j
        sel = ["--verify-module", m] if m else ["--verify-root"]
        return verus(work, extra=extra + sel + ["--verify-function", name, "--num-threads", "1"], timeout=200, log=False)

    got = set()
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        for out, diags, _ in ex.map(one, jobs):
            for d in diags:
                if d["level"] == "error" and d["spans"]:
                    f = diag_fn(fns, d)
                    got.add((f["key"] if f else "(prelude)", d["message"]))
    return got


def owner(fns, line):
    for f in fns:
        if f["out"][0] <= line <= f["out"][1]:
            return f
    return None


def diag_fn(fns, d):
    """The function whose verification produced the diagnostic."""
    spans = d["spans"]
    pref = [s for s in spans if (s["label"] or "").startswith("at ") and s["file_name"].endswith("all.rs")]
    sec = [s for s in spans if not s["is_primary"] and s["file_name"].endswith("all.rs")]
    prim = [s for s in spans if s["is_primary"] and s["file_name"].endswith("all.rs")]
    if "precondition" in d["message"]:
        # the primary span is the call, unless the failed clause is
        call = [s for s in spans if (s["label"] or "") != "failed precondition" and s["file_name"].endswith("all.rs")]
        order = call + prim + sec
    else:
        order = pref + prim + sec
    for s in order:
        f = owner(fns, s["line_start"])
        if f:
            return f
    return None


def obligations(work, fns):
    """Counts the labelled assertions Verus sent to the solver, by function."""
    n = {}
    logd = os.path.join(work, "log")
    if not os.path.isdir(logd):
        return n
    for name in os.listdir(logd):
        if not name.endswith(".air") or name.endswith("-final.air"):
            continue
        cur, in_def = None, False
        for l in open(os.path.join(logd, name), errors="replace"):
            if l.startswith(";; "):
                m = re.match(r";; all\.rs:(\d+):", l)
                if m:
                    if in_def:
                        f = owner(fns, int(m.group(1)))
                        cur = f["key"] if f else "(prelude)"
                else:
                    in_def = l.startswith(";; Function-Def") or l.startswith(";; Function-Termination")
                    cur = None
            elif cur and l.strip().startswith('("') and prev.strip().startswith("(assert"):
                n[cur] = n.get(cur, 0) + 1
            prev = l
    return n


def verify(work, contracts=None, budget=600):
    """Returns a dict describing what Verus decided."""
    exe = build_extractor()
    lost, res = set(), {"unavailable": None}
    t0 = time.time()
    for attempt in range(10):
        shutil.rmtree(os.path.join(work, "log"), ignore_errors=True)
        ex, err = extract(exe, work, lost, contracts)
        if ex is None:
            return {"unavailable": "extraction failed: " + err, "fns": [], "failures": [], "lost": sorted(lost), "wall": time.time() - t0}
        out, diags, wall = verus(work, timeout=max(60, budget - (time.time() - t0)))
        if out is None or "verification-results" not in out or out["verification-results"].get("encountered-vir-error") or (
                out["verification-results"].get("encountered-error") and out["verification-results"].get("errors", 0) == 0):
            new = set()
            msgs = []
            for d in diags:
                if d["level"] != "error" or not d["spans"]:
                    continue
                msgs.append(d["message"])
                f = None
                for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
                    f = owner(ex["fns"], s["line_start"]) if s["file_name"].endswith("all.rs") else None
                    if f:
                        break
                if f and not f["key"].startswith("raw "):
                    k = f["key"]
                    if k not in lost:
                        new.add(k)
                    elif "!" + k not in lost:
                        new.add("!" + k)
            if not new or time.time() - t0 > budget:
                return {"unavailable": "Verus rejects the extracted code: " + "; ".join(msgs[:5]), "fns": ex["fns"], "failures": [],
                        "lost": sorted(lost), "extract": ex, "wall": time.time() - t0}
            lost |= new
            continue
        break
    else:
        return {"unavailable": "too many unsupported functions", "fns": ex["fns"], "failures": [], "lost": sorted(lost), "extract": ex, "wall": time.time() - t0}
    failures = []
    for d in diags:
        if d["level"] == "error" and d["spans"]:
            f = diag_fn(ex["fns"], d)
            failures.append({"fn": f["key"] if f else "(prelude)", "message": d["message"], "rendered": d.get("rendered", ""),
                             "definite": any(d["message"].startswith(x) or x in d["message"] for x in DEFINITE)})
    smt = out["times-ms"]["smt"]
    return {
        "unavailable": None, "fns": ex["fns"], "extract": ex, "failures": failures, "lost": sorted(lost),
        "verified": out["verification-results"]["verified"], "errors": out["verification-results"]["errors"],
        "smt_ms": smt["smt-run"], "obligations": obligations(work, ex["fns"]), "wall": time.time() - t0,
        "verus": out["verus"],
    }


def shape(f):
    return {"loops": f["loops"], "calls": sorted(f["calls"]), "problems": f["problems"]}


if __name__ == "__main__":
    import sys
    r = verify(sys.argv[1] if len(sys.argv) > 1 else "/tmp/w/la")
    print(r["unavailable"], r.get("verified"), r.get("errors"), r["lost"], r["wall"], r.get("smt_ms"))
    for f in r["failures"]:
        print(f["fn"], f["message"], f["definite"])
    o = r.get("obligations", {})
    print(sum(o.values()), sorted(o.items(), key=lambda x: -x[1])[:12])
    for f in r["fns"]:
        if f["problems"]: print(f["key"], f["problems"])
