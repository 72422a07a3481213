#!/usr/bin/env python3
"""check.py PROP: decides one property of the code in /repo's working tree.

Deciding step: Verus accepts every obligation of the contracts on the functions the property rests on, extracted
from /repo on this run. Beside it, a bounded bank runs the real library; it supplies the failing input of a refuted
obligation, and stands in (labelled bounded) where a function is out of the verifier's reach."""
import concurrent.futures as cf, json, os, re, resource, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "tools"), os.path.join(HERE, "tools", "vx")]
import verify, props
REPO = os.environ.get("SERDERE_REPO", "/repo")
WORK = os.path.join(HERE, "work")
MEM = 12 << 30

def known_findings():
    """known_findings.txt: 'finding: property=C02 id=<id> <text>' and 'fixed: property=.. <commit> ..' lines."""
    res = []
    for line in open(os.path.join(HERE, "known_findings.txt"), encoding="utf-8"):
        m = re.match(r"finding: property=(C\d\d) id=(\S+) (.*)$", line.strip())
        if m: res.append(m.groups())
    return res

def env():
    e = dict(os.environ)
    e.setdefault("CARGO_HOME", "/root/.cargo")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(WORK, "target")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"): e.pop(k, None)
    return e

def sh_env():
    """Environment of /opt/vp/env.sh (toolchain paths), if there."""
    e = env()
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, env=e, timeout=30).stdout
        for kv in out.decode(errors="replace").split("\0"):
            k, _, v = kv.partition("=")
            if k and k not in ("CARGO_TARGET_DIR",): e[k] = v
    except Exception:
        pass
    e["CARGO_TARGET_DIR"] = os.path.join(WORK, "target")
    return e

def build_harness():
    t = time.time()
    crate = os.path.join(HERE, "harness")
    if REPO != "/repo":
        # development only: a scratch copy of the harness against another tree
        crate = os.path.join(WORK, "harness-alt")
        subprocess.run(["rm", "-rf", crate], check=True)
        subprocess.run(["cp", "-a", os.path.join(HERE, "harness"), crate], check=True)
        toml = open(crate + "/Cargo.toml").read().replace("/repo/", REPO + "/")
        open(crate + "/Cargo.toml", "w").write(toml)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"], cwd=crate, env=sh_env(), capture_output=True, text=True)
    exe = os.path.join(WORK, "target", "debug", "harness")
    if p.returncode != 0:
        return None, p.stderr[-2000:], time.time() - t
    return exe, "", time.time() - t

def limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run_bank(exe, prop, tier, seed, scale=None, timeout=500):
    """Runs the bounded bank. Returns (report or None, failure dict or None, note)."""
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, "bank-%s-%d.json" % (prop, os.getpid()))
    def call(extra, to):
        cmd = [exe, prop, "--tier", tier, "--seed", str(seed), "--out", out] + (["--scale", str(scale)] if scale else []) + extra
        try:
            return subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=to, preexec_fn=limit), cmd
        except subprocess.TimeoutExpired:
            return None, cmd
    if os.path.exists(out): os.remove(out)
    p, cmd = call([], timeout)
    if p is None: return None, None, "bounded bank stopped after %d s" % timeout
    if p.returncode == 0:
        rep = json.load(open(out)); os.remove(out)
        f = None
        if rep["fails"]:
            x = rep["fails"][0]
            f = dict(input=x["input"], what=x["what"], case=x["case"], cmd=cmd[:-2] if False else cmd, all=rep["fails"])
        return rep, f, ""
    # a crash (stack overflow, out of memory, abort) or a hang: find the case
    tr = os.path.join(WORK, "trace-%s-%d" % (prop, os.getpid()))
    q, cmd = call(["--trace", tr], timeout)
    case, inp = None, ""
    if q is not None and q.returncode != 0 and os.path.exists(tr):
        txt = open(tr, errors="replace").read().split("\n", 1)
        case, inp = txt[0].replace("case ", ""), (txt[1] if len(txt) > 1 else "")[:4000]
    if os.path.exists(tr): os.remove(tr)
    if q is None or q.returncode == 0:
        return None, None, "bounded bank crashed (exit %s) and did not again: %s" % (p.returncode, p.stderr[-300:])
    what = "a case ran for more than 25 s" if q.returncode == 97 else "the process died (exit %s): %s" % (q.returncode, q.stderr[-300:])
    return None, dict(input=inp, what=what, case=int(case) if case else None, cmd=cmd, all=[]), ""

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = props.PROPS[prop]
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True); os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(WORK, "replay"); os.makedirs(rdir, exist_ok=True)
    pool = cf.ThreadPoolExecutor(8)
    bank_id = cfg.get("bank", prop)
    def bank_job():
        exe, err, bt = build_harness()
        if exe is None: return None, (None, None, "bounded harness does not build: " + err), bt
        return exe, run_bank(exe, bank_id, tier, seed, cfg.get("scale", 4.0) if tier == "quick" else cfg.get("thorough_scale", 40.0)), bt
    bj = pool.submit(bank_job)
    ujobs = {u: pool.submit(verify.verify_unit, REPO, os.path.join(HERE, "contracts"), u, os.path.join(WORK, "verus-%s" % prop), probe_rlimit=1 if tier == "quick" else 4) for u in cfg["units"]}
    exe, (rep, fail, note), build_s = bj.result()
    units = {u: j.result() for u, j in ujobs.items()}
    # ---- what the verifier says about the functions this property rests on
    failed, undecided, functions, trusted, obligations, discharged, smt, cmds, rewrites, breakdown, elsewhere = [], [], [], [], 0, 0, 0.0, [], [], [], []
    for u, rx in cfg["units"].items():
        r = units[u]; rx = re.compile(rx)
        smt += r["smt_ms"]
        if r["cmd"]: cmds.append(r["cmd"])
        for f in r["functions"]:
            if rx.search(f["path"]): functions.append(dict(unit=u, function=f["path"], state=f["state"]))
        for o in r["failed"]:
            if (o["function"] == "(contract text)" or rx.search(o["function"])) and (not o.get("tags") or prop in o["tags"]): failed.append(dict(unit=u, **o))
        for x in r["lost"]: undecided.append("%s: %s" % (u, x))
        for x in r["undecided"]:
            if rx.search(x.split(": ")[0]) or x.startswith("unit:"): undecided.append("%s: %s" % (u, x))
        elsewhere += [x for x in r["elsewhere"] if x.split(": ")[0] not in cfg["units"]]
        for x in r["trusted"]:
            if x not in trusted: trusted.append(x)
        rewrites += [x for x in r["rewrites"] if x not in rewrites]
        obligations += len(r["breakdown"]); discharged += sum(1 for b in r["breakdown"] if b[3])
        breakdown += [dict(unit=u, function=b[0], mode=b[1], us=b[2], ok=b[3]) for b in r["breakdown"] if not b[0].endswith("::unimplemented")]
    violations = []
    # a listed known finding stays listed; anything else the bank meets is a violation
    listed = {i for p, i, _ in known_findings() if p == prop}
    extra_known = [k for k in (rep or {}).get("known", []) if k["id"] not in listed]
    if extra_known and not fail:
        k = extra_known[0]; fail = dict(input=k["input"], what="finding %s, which is not listed for this property" % k["id"], case=None, cmd=[], all=[])
    # ---- obligation refuted, or not decided: look harder for a failing input
    searched = []
    if exe and not fail and (failed or undecided):
        for s2 in (seed + 1000, seed + 2000, seed + 3000):
            if time.time() - t0 > 520: break
            rep2, fail, n2 = run_bank(exe, bank_id, "thorough", s2, cfg.get("search_scale", 20.0), timeout=min(200, 640 - int(time.time() - t0)))
            searched.append(dict(seed=s2, evals=(rep2 or {}).get("evals", 0), note=n2))
            if fail: break
    def replay(name, obj):
        p = os.path.join(rdir, "%s-%s.json" % (prop, name)); json.dump(obj, open(p, "w"), indent=1, ensure_ascii=False); return p
    if fail:
        obj = dict(property=prop, kind="failing input on the real library", input=fail["input"], what=fail["what"], others=fail["all"][1:],
                   obligations_failed=failed,
                   reproduce="cd %s && cargo build --offline && $CARGO_TARGET_DIR/debug/harness %s" % (os.path.join(HERE, "harness"), " ".join(fail["cmd"][1:] + (["--only", str(fail["case"])] if fail["case"] is not None else []))))
        violations.append("VIOLATION property=%s replay=%s" % (prop, replay("input", obj)))
        print("failing input: %s\n  %s" % (fail["input"][:500], fail["what"][:500]))
        for o in failed[:5]: print("  obligation: %s: %s: %s" % (o["function"], o["kind"], o["what"][:200]))
    elif failed:
        obj = dict(property=prop, kind="proof obligation refuted, no failing input found", obligations_failed=failed, verifier_cmd=cmds, searched=searched)
        violations.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay("obligation", obj)))
        for o in failed[:5]: print("obligation failed: %s: %s: %s" % (o["function"], o["kind"], o["what"][:200]))
    for x in undecided[:10]: print("UNDECIDED (bounded bank stands in): %s" % x[:300])
    if note: print("note: " + note[:500])
    for p, i, text in known_findings():
        if p == prop: print("KNOWN-FINDING: property=%s %s" % (p, text))
    wall = time.time() - t0
    cov = dict(
        obligations=obligations, discharged=discharged, checker_cmd=" ; ".join(cmds),
        trusted_base=trusted + ["Verus 0.2026.09.13 and Z3 (back end of every obligation)", "vstd's specifications of the standard library", "tools/vx/extract.py (mechanical extraction, rewrites listed below)"],
        contract=cfg["what"],
        functions_under_contract=functions,
        functions_proved=sum(f["state"] == "proved" for f in functions), functions_trusted=[f["function"] for f in functions if f["state"] == "trusted"],
        contracts_proved_in_other_units=elsewhere,
        undecided=undecided, failed=[dict(function=o["function"], kind=o["kind"], what=o["what"]) for o in failed],
        solver="z3 (through Verus)", solver_time_s=round(smt / 1000, 2),
        slowest=[b for b in sorted(breakdown, key=lambda b: -b["us"])[:5]],
        extraction_rewrites=rewrites,
        bounded=dict(label="bounded, never counted as proved", bank=bank_id, what=cfg["bank_what"], report=rep, note=note, search=searched, build_s=round(build_s, 1)),
    )
    if rep:
        cov.update(evaluations=rep["evals"], distinct_nontrivial=rep["distinct"] + rep["enumerated"], samples=rep["samples"],
                   rule="bounded bank only: " + cfg["bank_what"] + "; a case counts once per distinct input, enumerated cases are distinct by construction")
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="proof", coverage=cov, wall_s=round(wall, 1), violations=len(violations),
              assumptions=cfg.get("assumptions", []) + ["machine arithmetic is checked by the verifier at machine width; no mathematical-integer approximation of code"])
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    print("%s: %d of %d verifier queries discharged over %d contracted functions, bounded bank %s cases, %.0f s" % (prop, discharged, obligations, len(functions), (rep or {}).get("evals", 0), wall))
    if violations:
        print(violations[0]); sys.exit(1)
    sys.exit(0)

main()
