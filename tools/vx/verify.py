"""Extract + verify one unit with Verus; degrade what the verifier cannot take; report obligations per function."""
import json, os, re, signal, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract

VERUS = os.environ.get("VERUS", "verus")
RLIMIT = 40
TIME1, TIME2 = 260, 150  # seconds: first run, second opinion
TRUST = re.compile(r"assume_specification|external_body|external_fn_specification|external_type_specification|\baxiom\b|\bassume\s*\(|\badmit\s*\(|external_trait_specification")

def run_verus(path, seed=None, timeout=TIME1, rlimit=RLIMIT, extra=(), errors=6):
    cmd = [VERUS, path, "--output-json", "--time-expanded", "--error-format=json", "--triggers-mode", "silent",
           "--multiple-errors", str(errors), "--rlimit", str(rlimit), "--num-threads", "8"] + list(extra)
    if seed is not None:
        cmd += ["--smt-option", "smt.random_seed=%d" % seed, "--smt-option", "sat.random_seed=%d" % seed]
    t = time.time()
    late = False
    with tempfile.TemporaryFile("w+") as fo, tempfile.TemporaryFile("w+") as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            late = True; rc = None
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()
        fo.seek(0); fe.seek(0); out, err = fo.read(), fe.read()
    diags = []
    for line in err.split("\n"):
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                diags.append(d)
    try:
        result = json.loads(out)
    except ValueError:
        result = None
    return dict(timeout=late, cmd=cmd, wall=time.time() - t, diags=diags, result=result, stderr=err, rc=rc)

def spans_of(d):
    res = [s for s in d.get("spans", [])]
    for c in d.get("children", []): res += c.get("spans", [])
    return res

def attribute(d, fns):
    """The extracted function an error belongs to (or None: template text)."""
    real = [f for f in fns if not f["sig"]]
    def hit(s):
        for f in real:
            if f["lo"] <= s["line_start"] <= f["hi"]: return f["path"]
    sp = spans_of(d)
    for s in sp:
        if s.get("is_primary") and hit(s): return hit(s)
    # a postcondition inherited from a trait: the exit is in the function
    for s in sp:
        l = s.get("label") or ""
        if ("exit" in l or "end of the function" in l) and hit(s): return hit(s)
    for s in sp:
        if hit(s): return hit(s)
    return None

def is_limit(d):
    m = d["message"]
    return "rlimit" in m.lower() or "resource limit" in m.lower() or "timeout" in m.lower()

def obligation(d):
    prim = [s for s in spans_of(d) if s.get("is_primary")]
    txt = " ".join(x["text"].strip() for s in prim for x in s.get("text", []))[:300]
    # contract lines may say which properties they are for: // #C08 #C15
    tags = sorted({g for s in spans_of(d) for x in s.get("text", []) for g in re.findall(r"#(C\d\d)\b", x["text"])})
    at = [" ".join(x["text"].strip() for x in s.get("text", []))[:200] for s in spans_of(d) if not s.get("is_primary")]
    return dict(kind=d["message"], what=txt, tags=tags, at=at[:3], rendered=(d.get("rendered") or "")[:3000])

def verify_unit(repo_root, contracts, unit, work, probe=True, log=lambda s: None, probe_rlimit=1):
    os.makedirs(work, exist_ok=True)
    res = dict(unit=unit, status="ok", failed=[], undecided=[], lost=[], functions=[], breakdown=[], trusted=[], rewrites=[],
               elsewhere=[], smt_ms=0, wall=0.0, cmd=None, vacuous=[], text_errors=[])
    degrade = set()
    reasons = {}
    path = os.path.join(work, unit + ".rs")
    for attempt in range(12):
        repo = extract.Repo(repo_root)
        try:
            b = extract.build(repo, contracts, unit, degrade)
        except (extract.Lost, OSError) as e:
            res["status"] = "lost"; res["lost"].append(str(e)); return res
        open(path, "w").write(b["text"])
        if b["lost"]:
            res["status"] = "lost"; res["lost"] = ["%s: %s" % (l["path"], l["reason"]) for l in b["lost"]]
            return res
        r = run_verus(path)
        res["wall"] += r["wall"]; res["cmd"] = " ".join(r["cmd"])
        if r["timeout"]:
            # what it reported before its time ran out still counts; the rest is undecided
            res["undecided"].append("unit: verifier stopped after %d s" % TIME1); break
        vr = (r["result"] or {}).get("verification-results")
        front = vr is None or vr.get("encountered-vir-error") or (vr.get("verified", 0) == 0 and vr.get("errors", 0) == 0 and r["diags"])
        if not front: break
        if not r["diags"]:
            res["status"] = "error"; res["lost"].append("verifier failed: " + r["stderr"][-500:]); return res
        new = set()
        for d in r["diags"]:
            f = attribute(d, [x for x in b["fns"]])
            if f is None:
                res["text_errors"].append(d["message"] + " @ " + obligation(d)["what"])
            elif f not in degrade:
                new.add(f); reasons[f] = "not accepted by the verifier's front end: " + d["message"][:200]
        if not new:
            res["status"] = "error"
            res["lost"] += ["front end: " + x for x in (res["text_errors"] or [d["message"] for d in r["diags"]])][:5]
            return res
        degrade |= new
        res["text_errors"] = []
    else:
        res["status"] = "error"; res["lost"].append("no stable extraction"); return res
    fns = b["fns"]
    try:
        shapes = json.load(open(os.path.join(contracts, "shapes.json")))
    except OSError:
        shapes = {}
    reshaped = {f["path"] for f in fns if not f["sig"] and not f["proved_in"] and f["path"] in shapes and shapes[f["path"]] != f["shape"]}
    # second opinion: an error counts as definite only if it also appears with another solver seed
    errs = [(attribute(d, fns), d) for d in r["diags"]]
    if errs:
        r2 = run_verus(path, seed=7, timeout=TIME2)
        res["wall"] += r2["wall"]
        f2 = {attribute(d, fns) for d in r2["diags"] if not is_limit(d)}
        l2 = {attribute(d, fns) for d in r2["diags"] if is_limit(d)}
        for f, d in errs:
            o = obligation(d); o["function"] = f or "(contract text)"
            if is_limit(d):
                res["undecided"].append("%s: solver resource limit" % o["function"])
            elif f in reshaped:
                # the loop annotations were written for other loops: their failure says nothing about the code
                u = "%s: its loops changed (%s -> %s), its loop annotations no longer apply" % (f, shapes[f], next(x["shape"] for x in fns if x["path"] == f))
                if u not in res["undecided"]: res["undecided"].append(u)
            elif f is None and None in f2:
                res["failed"].append(o)
            elif f in f2:
                res["failed"].append(o)
            elif f in l2 or r2["timeout"]:
                res["undecided"].append("%s: solver resource limit" % o["function"])
        # proved with one of the two seeds: discharged
    if r["timeout"]:
        for f in fns:
            if not f["sig"] and not f["trusted"] and not f["proved_in"] and f["path"] not in {o["function"] for o in res["failed"]}:
                res["undecided"].append("%s: not reached before the verifier was stopped" % f["path"])
    for f in fns:
        if f["degraded"]:
            res["undecided"].append("%s: %s" % (f["path"], f["reason"] or reasons.get(f["path"], "?")))
    failed = {o["function"] for o in res["failed"]} | {u.split(": ")[0] for u in res["undecided"]}
    for f in fns:
        if f["sig"]: continue
        if f["proved_in"]:  # contract only, here; its body is verified in that unit
            res["elsewhere"].append("%s: %s" % (f["proved_in"], f["path"])); continue
        res["functions"].append(dict(path=f["path"], state="trusted" if f["trusted"] else "not-proved" if f["path"] in failed or f["degraded"] else "proved"))
    res["elsewhere"] += b["lemmas"]
    mods = (((r["result"] or {}).get("times-ms") or {}).get("smt") or {}).get("smt-run-module-times") or []
    for m in mods:
        for q in m.get("function-breakdown", []):
            res["breakdown"].append((q["function"], q.get("mode") or "?", q["time-micros"], bool(q["success"])))
            res["smt_ms"] += q["time-micros"] / 1000.0
    lines = b["text"].split("\n")
    deg_lines = set()
    for f in fns:
        if f["degraded"] or f["proved_in"]: deg_lines.update(range(f["lo"], f["hi"] + 1))
    i = 0
    while i < len(lines):
        if TRUST.search(lines[i]) and "proved_in(" not in lines[i] and not lines[i].strip().startswith("//") and (i + 1) not in deg_lines:
            t = lines[i].strip()
            if t.startswith("#["):
                j = i + 1
                while lines[j].strip().startswith("#["): j += 1
                t = t + " " + lines[j].strip()
            res["trusted"].append(t[:240])
        i += 1
    res["rewrites"] = b["rewrites"]
    if res["failed"]: res["status"] = "failed"
    elif res["undecided"]: res["status"] = "undecided"
    # vacuity: with assert(false) at the start of every body, every function has to fail
    if probe and b["fns"] and res["status"] in ("ok", "undecided") and res["wall"] < 200:
        pb = extract.build(extract.Repo(repo_root), contracts, unit, degrade, probe=True)
        pp = os.path.join(work, unit + "_probe.rs")
        # lemmas are not probed: the functions' contracts are
        open(pp, "w").write(extract.elsewhere(pb["text"], [], "probe", [0, False, []]))
        pr = run_verus(pp, rlimit=probe_rlimit, errors=0)
        res["wall"] += pr["wall"]
        bad = {attribute(d, pb["fns"]) for d in pr["diags"]}
        pv = (pr["result"] or {}).get("verification-results")
        if pr["timeout"] or pv is None or pv.get("encountered-vir-error"):
            res["status"] = "undecided"; res["undecided"].append("unit: no answer to the vacuity probe"); return res
        for f in pb["fns"]:
            if not f["sig"] and not f["trusted"] and not f["proved_in"] and not f["degraded"] and f["path"] not in bad:
                res["vacuous"].append(f["path"])
        if res["vacuous"]:
            res["status"] = "undecided"
            res["undecided"] += ["%s: contract is vacuous (assert(false) verifies)" % v for v in res["vacuous"]]
    return res

if __name__ == "__main__":
    import argparse
    a = argparse.ArgumentParser(); a.add_argument("units", nargs="+"); a.add_argument("--repo", default="/repo"); a.add_argument("--work", default="/verif/work/verus"); a.add_argument("--no-probe", action="store_true"); a.add_argument("--record-shapes", action="store_true")
    n = a.parse_args()
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    if n.record_shapes:
        p = os.path.join(here, "contracts", "shapes.json")
        shapes = json.load(open(p)) if os.path.exists(p) else {}
        for u in n.units:
            for f in extract.build(extract.Repo(n.repo), os.path.join(here, "contracts"), u)["fns"]:
                if not f["sig"] and not f["proved_in"]: shapes[f["path"]] = f["shape"]
        json.dump(shapes, open(p, "w"), indent=0, sort_keys=True); sys.exit(0)
    for u in n.units:
        r = verify_unit(n.repo, os.path.join(here, "contracts"), u, n.work, probe=not n.no_probe)
        print(u, r["status"], "functions:", len(r["functions"]), "proved:", sum(f["state"] == "proved" for f in r["functions"]),
              "items:", len(r["breakdown"]), "ok:", sum(x[3] for x in r["breakdown"]), "smt %.1fs wall %.1fs" % (r["smt_ms"] / 1000, r["wall"]))
        for k in ("lost", "undecided", "vacuous"):
            for x in r[k]: print("  ", k, x)
        for o in r["failed"]: print("   FAILED", o["function"], "|", o["kind"], "|", o["what"])
