#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property: rebuilds the verifier, generates the proof obligations
of every contract the property rests on from /repo's current source, has the
solvers discharge them, and runs the differential search that supplies
concrete failing inputs (and stands in, bounded, for what has no contract).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
T0 = time.time()


def log(*a):
    print(*a, flush=True)


def build(work):
    env = dict(os.environ, GOFLAGS="-mod=vendor", GOWORK="off")
    g = subprocess.Popen(["go", "build", "-o", work + "/gover", "."], cwd=VERIF + "/gover", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def harness(skip):
        files = [f for f in sorted(os.listdir(VERIF + "/harness")) if f.endswith(".go")]
        ov = {}
        for f in files:
            if f == "kernel.go" and skip:
                ov[f"{REPO}/zzverif/{f}"] = VERIF + "/harness/stub/kernel_stub.go"
            else:
                ov[f"{REPO}/zzverif/{f}"] = f"{VERIF}/harness/{f}"
        json.dump({"Replace": ov}, open(work + "/ov.json", "w"))
        env2 = dict(os.environ, GOFLAGS="-mod=mod", GOWORK="off")
        return subprocess.run(["go", "build", "-buildvcs=false", "-overlay", work + "/ov.json", "-o", work + "/harness", "./zzverif"], cwd=REPO, env=env2, capture_output=True, text=True)

    h = harness(False)
    if h.returncode != 0:
        first = h.stdout + h.stderr
        h = harness(True)
        if h.returncode != 0:
            log("harness does not build:", first[-2000:])
            log(h.stdout + h.stderr)
    out, _ = g.communicate()
    if g.returncode != 0:
        log("verifier does not build:", out)
        sys.exit(2)
    return h.returncode == 0


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = json.load(open(VERIF + "/checks.json"))[prop]
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        rc = decide(prop, tier, seed, cfg, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def findings(prop):
    out = []
    for line in open(VERIF + "/known-findings.txt"):
        m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3).strip()))
    return out


def decide(prop, tier, seed, cfg, work):
    thorough = tier == "thorough"
    have = build(work)
    tb = time.time() - T0
    # ---- proof
    cmd = [work + "/gover", "-repo", REPO, "-specs", VERIF + "/contracts", "-f", ",".join(cfg["targets"]), "-cone", "-json", work + "/proof.json", "-budget", "600" if thorough else "240"]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=1500 if thorough else 600)
        perr = p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        perr = "the verifier did not finish in time\n" + str(e.stdout or "")[-2000:]
    tp = time.time() - T0 - tb
    proof = None
    if os.path.exists(work + "/proof.json"):
        proof = json.load(open(work + "/proof.json"))
    failed = []
    if proof is None:
        failed.append({"function": "?", "kind": "load", "obligation": "obligations could be generated", "detail": perr[-3000:]})
    else:
        for f in proof["functions"]:
            if f["status"] == "error":
                failed.append({"function": f["name"], "kind": "error", "obligation": "contract fits the code", "detail": f["error"][:3000]})
            if f["status"] in ("failed", "error"):
                for o in f.get("failed") or []:
                    failed.append(dict(o, function=f["name"]))
        log(f"{prop}: {len(proof['functions'])} functions under contract, {sum(f['obligations'] for f in proof['functions'])} obligations, {proof['solver_seconds']:.0f} s solver time, {len(failed)} failed")
    # ---- search
    reps, cases, counts = [], 0, {}
    secs = cfg.get("secs", 12)
    if thorough:
        secs = cfg.get("thorough_secs", 240)
    elif failed:
        secs = max(secs, 45)  # look harder for an input that shows it
    if have:
        cmd = [work + "/harness", "search", "-ops", cfg["ops"], "-secs", str(secs), "-seed", str(seed)]
        if cfg.get("aspects"):
            cmd += ["-aspects", cfg["aspects"]]
        for k, v in cfg.get("bias", {}).items():
            cmd += ["-" + k, str(v)]
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 120)
        for line in p.stdout.splitlines():
            if line.startswith("{"):
                reps.append(json.loads(line))
            elif line.startswith("CASES"):
                _, n, c = line.split(" ", 2)
                cases, counts = int(n), json.loads(c)
        if p.returncode not in (0, 1) or (not counts and not reps):
            reps.append({"case": None, "aspect": "crash", "fails": ["the program died: " + (p.stdout + p.stderr)[-3000:]]})
    else:
        failed.append({"function": "?", "kind": "build", "obligation": "the public API compiles as documented", "detail": "the replay harness does not build"})
    # ---- known findings
    known = 0
    for case, text in findings(prop):
        if have:
            p = subprocess.run([work + "/harness", "replay", VERIF + "/" + case], capture_output=True, text=True, timeout=60)
            if p.returncode == 1:
                known += 1
                log(f"KNOWN-FINDING: property={prop} {text}")
    # ---- verdict
    outdir = VERIF + "/out/replay"
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        if f.startswith(prop + "-"):
            os.unlink(outdir + "/" + f)
    rc = 0
    nv = 0
    obl = [{k: v for k, v in o.items() if k != "facts"} for o in failed[:8]]
    for i, r in enumerate(reps[:5]):
        path = f"{outdir}/{prop}-{i}.json"
        r["property"] = prop
        r["failed_obligations"] = obl
        r["how_to_replay"] = "harness replay FILE (see check.py); it calls the real code with the given operands"
        json.dump(r, open(path, "w"), indent=1)
        log(f"{prop}: {(r['case'] or {}).get('op')}: {'; '.join(r['fails'])[:600]}")
        log(f"VIOLATION property={prop} replay={path}")
        rc, nv = 1, nv + 1
    if failed and not reps:
        path = f"{outdir}/{prop}-proof.json"
        json.dump({"property": prop, "failed_obligations": failed, "verifier_output": perr[-6000:]}, open(path, "w"), indent=1)
        for o in failed[:5]:
            log(f"{prop}: obligation of {o['function']} not discharged: [{o.get('kind')}] {o.get('obligation')} {o.get('case', '')} {o.get('detail', '')[:300]}")
        log(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        rc, nv = 1, nv + 1
    elif failed:
        for o in failed[:5]:
            log(f"{prop}: obligation of {o['function']} not discharged: [{o.get('kind')}] {o.get('obligation')}")
    evidence(prop, tier, seed, cfg, proof, failed, cases, counts, secs, nv, known, tb, tp, have)
    if rc == 0:
        log(f"{prop}: held ({time.time() - T0:.0f} s)")
    return rc


def evidence(prop, tier, seed, cfg, proof, failed, cases, counts, secs, nv, known, tb, tp, have):
    fns = proof["functions"] if proof else []
    total = sum(f["obligations"] for f in fns)
    bad = sum(max(len(f.get("failed") or []), 1 if f["status"] == "error" else 0) for f in fns)
    trusted = ["the verifier gover (path-wise symbolic execution of go/ssa, mathematical integers with wrap-around obligations)",
               "golang.org/x/tools/go/ssa (vendored) and go/types translate the source faithfully",
               "z3 5.3.2 (z3-new), z3 4.8.12, cvc5 1.1.2: unsat answers are trusted"]
    assume = []
    models = set()
    for f in fns:
        if f.get("trusted"):
            trusted.append(f"contract of {f['name']} assumed: {f['trusted']}")
        for d in f.get("assumed_domain") or []:
            assume.append(f"{f['name']}: only inputs with {d}")
        for n in f.get("notes") or []:
            assume.append(f"{f['name']}: {n}")
        models |= set(f.get("models") or [])
    if models:
        trusted.append("models of external functions: " + ", ".join(sorted(models)))
    assume += cfg.get("assumptions", [])
    level = cfg.get("level", "other")
    proved = [f["name"] for f in fns if f["status"] == "proved"]
    cov = {
        "obligations": total, "discharged": max(total - bad, 0),
        "checker_cmd": f"gover -repo /repo -specs contracts -cone -f {','.join(cfg['targets'])}",
        "trusted_base": trusted,
        "functions_under_contract": [{"name": f["name"], "status": f["status"], "cases": f["cases"], "paths": f["paths"], "obligations": f["obligations"], "by_simplification": f["discharged_by_simplification"], "contract_file": "contracts/" + f["contract_file"]} for f in fns],
        "proved_functions": len(proved),
        "top_level": cfg["targets"],
        "discharged_by_back_end": proof["discharged_by"] if proof else {},
        "solver_seconds": round(proof["solver_seconds"], 1) if proof else 0,
        "slowest_query_seconds": round(proof["slowest_query_seconds"], 2) if proof else 0,
        "feasibility_queries": proof["feasibility_queries"] if proof else 0,
        "source_files_loaded": proof["source_files"] if proof else 0,
        "failed_obligations": [f"{o['function']}: {o.get('obligation')}" for o in failed[:20]],
        "bounded_search": {"what": cfg.get("bounded", "differential calls of the real code against exact big-integer arithmetic; supplies concrete inputs and is not counted as proof"),
                           "operations": counts, "cases": cases, "seconds": secs, "seed": seed, "aspects": cfg.get("aspects", "all")},
        "bounded_only": cfg.get("bounded_only", []),
        "build_seconds": round(tb, 1), "proof_seconds": round(tp, 1),
    }
    if level == "other":
        cov["explanation"] = cfg.get("explanation", "Part of the property is proved by discharged contract obligations (functions_under_contract); the functions in bounded_only have no contract yet and are covered by the bounded search only.")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assume,
          "wall_s": round(time.time() - T0, 1), "violations": nv}
    if known:
        cov["known_findings_reproduced"] = known
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)


if __name__ == "__main__":
    main()
