#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current source.

1. pyvc proves the property's contracts against the functions parsed from /repo (deciding step);
2. the executable contract of the same property drives the real code (counterexample search, cross-check of the
   verifier, and bounded stand-in for functions the verifier cannot reach).
Exit 0: held.  Exit 1 with a VIOLATION line: broken.
"""
import argparse
import hashlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
PROVER = "python3-vt"


def run(cmd, out, timeout, env):
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=HERE, env=env, text=True, start_new_session=True)
    return p, out, time.time() + timeout


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.communicate()


def wait(h):
    p, out, deadline = h
    try:
        _, err = p.communicate(timeout=max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        stop(p)
        return None, "timed out"
    try:
        return json.load(open(out)), err[-2000:]
    except Exception:
        return None, f"exit {p.returncode}: {err[-3000:]}"


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                # known: property=Pxx key=<substring of the failure message> :: text
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out.append((key.removeprefix("key="), text))
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = a.prop
    t0 = time.time()
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONPATH=HERE + (":" + os.environ["PYVC_REPO"] + "/python" if "PYVC_REPO" in os.environ else ""), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", LSST_RESOURCES_NUM_WORKERS="2")
    tmp = tempfile.mkdtemp(prefix="pyvc-")
    env["TMPDIR"] = tmp
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    budget = 40 if tier == "quick" else 400
    pt = 360 if tier == "quick" else 1800
    has_spec = os.path.exists(os.path.join(HERE, "specs", prop + ".py"))
    has_har = os.path.exists(os.path.join(HERE, "harness", prop + ".py"))
    hp = run([PROVER, "-m", "pyvc.run", prop, "--tier", tier, "--out", f"{tmp}/proof.json"], f"{tmp}/proof.json", pt, env) if has_spec else None
    hh = run([VENV, f"{HERE}/harness/{prop}.py", "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--out", f"{tmp}/h.json"],
             f"{tmp}/h.json", budget + 200, env) if has_har else None
    har, herr = wait(hh) if hh else (None, "no harness")
    if hp and har and [f for f in har["failures"] if not any(k in f["message"] for k, _ in known_findings(prop))]:
        hp = (hp[0], hp[1], min(hp[2], time.time() + 60))     # the answer is known: do not wait long for the proof as well
    proof, perr = wait(hp) if hp else (None, "no specification")

    failed, undecided, obls = [], [], []
    if proof is None:
        undecided.append(["verifier", perr])
    else:
        obls = proof["obligations"]
        failed = [o for o in obls if o["status"] != "valid"]
        undecided = proof["undecided"]
    failures = har["failures"] if har else []
    known = known_findings(prop)
    # a failed obligation: search harder for a failing input, and retry the proof with larger limits
    extra_cases = 0
    if failed and not failures:
        h2 = h3 = None
        if har is not None and not har.get("unavailable"):
            h2 = run([VENV, f"{HERE}/harness/{prop}.py", "--tier", "thorough", "--seed", str(seed + 7919), "--budget", "120", "--out", f"{tmp}/h2.json"],
                     f"{tmp}/h2.json", 200, env)
        if tier == "quick" and any(o["status"] == "unknown" for o in failed):
            h3 = run([PROVER, "-m", "pyvc.run", prop, "--tier", "thorough", "--out", f"{tmp}/proof3.json"], f"{tmp}/proof3.json", 240, env)
        if h2:
            har2, _ = wait(h2)
            if har2:
                failures = har2["failures"]
                extra_cases = har2["cases"]
        if h3:
            if failures:
                stop(h3[0])
            else:
                proof3, _ = wait(h3)
                if proof3 is not None:
                    f3 = [o for o in proof3["obligations"] if o["status"] != "valid"]
                    if len(f3) < len(failed):
                        proof, obls, failed, undecided = proof3, proof3["obligations"], f3, proof3["undecided"]
    real, shown = [], set()
    for f in failures:
        k = next(((key, text) for key, text in known if key in f["message"]), None)
        if k is None:
            real.append(f)
        else:
            shown.add(k)
    kobl = [o for o in failed if any(key in o["name"] for key, _ in known)]
    for o in kobl:
        shown.add(next((key, text) for key, text in known if key in o["name"]))
    failed = [o for o in failed if o not in kobl]
    for key, text in known:
        print(f"KNOWN-FINDING: property={prop} {text}" + ("" if (key, text) in shown else " (not met in this run)"))

    wall = round(time.time() - t0, 2)
    functions = proof["functions"] if proof else {}
    proved_funcs = [k for k, v in functions.items() if v["obligations"]]
    level = manifest_level(prop)
    cov = dict(
        obligations=len(obls), discharged=sum(o["status"] == "valid" for o in obls),
        checker_cmd=f"cd /verif && PYTHONPATH=. python3-vt -m pyvc.run {prop} --tier {tier} -v",
        trusted_base=["pyvc translator (/verif/pyvc: Python subset semantics, container axioms)", "z3 (python3-vt z3-solver)", "cvc5 1.1.2 (fallback)",
                      "CPython/ast parse of /repo's current source"],
        functions_under_contract=sorted(proved_funcs), functions_inlined=sorted(k for k in functions if k not in proved_funcs),
        function_hashes={k: v["sha"] for k, v in functions.items() if v["obligations"]},
        paths=proof["paths"] if proof else 0, solver_s=proof["solver_s"] if proof else 0, solver_queries=proof["queries"] if proof else 0,
        backends=proof["by"] if proof else {}, loops=proof["loops"] if proof else {},
        undecided=[f"{n}: {w}"[:1500] for n, w in undecided],
        bounded=dict(evaluations=har["cases"] + extra_cases if har else 0, exhausted=har["exhausted"] if har else False,
                     unavailable=(har or {}).get("unavailable") or ("" if har else herr), note="bounded executable contract on the real code; never counted as proved",
                     samples=har["samples"] if har else []),
    )
    if level != "proof":
        cov["evaluations"] = har["cases"] + extra_cases if har else 0
        cov["explanation"] = "contracts discharged where listed; remaining clauses decided by the bounded executable contract"
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=proof["assumptions"] if proof else [], wall_s=wall, violations=0)
    rc = 0
    lines = []
    if real or failed:
        rc = 1
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        body = dict(property=prop, failed_obligations=failed[:20], failing_inputs=real[:3], input=real[0]["input"] if real else None,
                    how_to_replay=f"cd /verif && {VENV} harness/{prop}.py --replay <this file>" if real else cov["checker_cmd"])
        h = hashlib.sha256(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(HERE, "replays", f"{prop}-{h}.json")
        json.dump(body, open(path, "w"), indent=1, default=str)
        ev["violations"] = max(1, len(real))
        for o in failed[:10]:
            print(f"failed obligation: {o['name']} ({o['status']}, {o['backend']})")
        for f in real[:2]:
            print("failing input:", json.dumps(f["input"], default=str)[:1500], "->", f["message"][:500])
        lines.append(f"VIOLATION property={prop} replay={path}" + ("" if real else " no-failing-input-found"))
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    print(f"{prop} [{tier}] obligations {cov['discharged']}/{cov['obligations']} undecided {len(undecided)} bounded cases {cov['bounded']['evaluations']} "
          f"wall {wall}s")
    for n, w in undecided[:6]:
        print("undecided (bounded stand-in decides):", n, "-", w.splitlines()[0][:300])
    if har is not None and har.get("unavailable"):
        print("bounded check unavailable:", har["unavailable"].splitlines()[0][:300])
    elif har is None and has_har:
        print("bounded check did not finish:", herr[-300:])
    for l in lines:
        print(l)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def manifest_level(prop):
    try:
        m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "proof"


if __name__ == "__main__":
    main()
