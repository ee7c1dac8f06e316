#!/usr/bin/env python3
"""Run one check: `check.py ID [--tier quick|thorough]`.

Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it is broken, and the
replay file reproduces it. Exit 2: no answer.
"""
import fcntl
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
SYMEX = os.path.join(VERIF, "symex")
KANI = os.path.join(VERIF, "kani")
TOOLCHAIN = "stable"

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def environment():
    env = dict(os.environ)
    for name in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        env.pop(name, None)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def locked(name):
    handle = open(os.path.join(VERIF, f".lock-{name}"), "w")
    fcntl.flock(handle, fcntl.LOCK_EX)
    return handle


def build_symex():
    env = environment()
    env["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    with locked("symex"):
        run = subprocess.run(
            ["cargo", "build", "--release", "--offline", "--quiet"],
            cwd=SYMEX, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
    if run.returncode != 0:
        errors = [l for l in run.stdout.splitlines() if l.startswith("error")]
        print("the harness does not build against /repo:", file=sys.stderr)
        print("\n".join(run.stdout.splitlines()[-60:]), file=sys.stderr)
        return False, errors
    return True, []


def known_findings(prop):
    path = os.path.join(VERIF, "known-findings.txt")
    found = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: ") and f"property={prop} " in line + " ":
                found.append(line[len("finding: "):])
    return found


def main():
    prop = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    check = CHECKS[prop]
    start = time.time()
    limit = 800 if tier == "quick" else 6 * 3600
    evidence_path = os.path.join(VERIF, "evidence", f"{prop}.json")
    os.makedirs(os.path.dirname(evidence_path), exist_ok=True)
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    for stale in (evidence_path, os.path.join(replays, f"{prop}.json")):
        if os.path.exists(stale):
            os.remove(stale)

    status, summary, kani = 0, None, None
    if check.get("symex", True):
        ok, _ = build_symex()
        if not ok:
            return 2
        out = os.path.join(replays, f".{prop}.summary.json")
        if os.path.exists(out):
            os.remove(out)
        run = subprocess.run(
            [os.path.join(SYMEX, "target/release/symex"), "check", prop, "--tier", tier,
             "--out", out, "--replays", replays,
             "--budget", str(int(limit - (time.time() - start)))],
            cwd=VERIF, env=environment(),
        )
        status = run.returncode
        if os.path.exists(out):
            summary = json.load(open(out))
            os.remove(out)
        else:
            status = 2
        if status not in (0, 1):
            status = 2
    if status != 1 and check.get("kani"):
        import kani_run
        kani = kani_run.run(prop, check["kani"], tier, limit - (time.time() - start), replays, environment())
        if kani["violation"]:
            status = 1
        elif kani["inconclusive"] and status == 0:
            status = 2

    evidence = make_evidence(prop, tier, check, summary, kani, time.time() - start, status)
    with open(evidence_path, "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    for finding in known_findings(prop):
        print(f"KNOWN-FINDING: {finding}")
    if status == 1:
        replay = (summary or {}).get("replay") or (kani or {}).get("replay")
        violation = (summary or {}).get("violation") or (kani or {}).get("violation")
        print(f"{prop}: {violation['case']}: {violation['message']}")
        print(f"VIOLATION property={prop} replay={replay}")
    elif status == 0:
        print(f"{prop}: held on everything explored ({tier}, {time.time() - start:.1f} s)")
    else:
        reasons = (summary or {}).get("inconclusive", []) + (kani or {}).get("inconclusive", [])
        print(f"{prop}: no answer: {reasons}", file=sys.stderr)
    return status


def make_evidence(prop, tier, check, summary, kani, wall, status):
    cases = (summary or {}).get("cases", [])
    harnesses = (kani or {}).get("harnesses", [])
    samples = [s for c in cases for s in c["samples"][:1]][:12]
    samples += [f"{h['harness']}: {h['verdict']}, {h['checks']} checks" for h in harnesses][:6]
    bounds = [f"{c['case']}: {c['bounds']}" for c in cases] + [f"{h['harness']}: {h['bounds']}" for h in harnesses]
    coverage = {
        "states": sum(c["paths"] for c in cases) + sum(h["vccs"] for h in harnesses),
        "transitions": sum(c["decisions"] for c in cases) + sum(h["checks"] for h in harnesses),
        "traces_validated_against_impl": sum(c["paths_replayed_natively_with_equal_outcome"] for c in cases),
        "samples": samples,
        "functions_encoded": (summary or {}).get("functions", []) + sorted({f for h in harnesses for f in h["functions"]}),
        "bounds": bounds,
        "queries": sum(c["queries"] for c in cases) + sum(h["checks"] for h in harnesses),
        "queries_unsat": sum(c["queries_unsat"] for c in cases),
        "queries_sat": sum(c["queries_sat"] for c in cases),
        "queries_unknown": sum(c["queries_unknown"] for c in cases),
        "solver_s": round(sum(c["solver_s"] for c in cases) + sum(h["solver_s"] for h in harnesses), 3),
        "explanation": "states: complete symbolic paths (each covers every input that satisfies its path condition) "
                       "plus verification conditions of the Kani harnesses; transitions: solver-decided branches on "
                       "them plus checks of the Kani harnesses; traces_validated_against_impl: paths whose model was "
                       "run through the real f64 and f32 code with the same outcome.",
        "cases": cases,
        "kani_harnesses": harnesses,
    }
    return {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": check.get("level", "model_checking"),
        "coverage": coverage,
        "assumptions": (summary or {}).get("assumptions", []) + check.get("assumptions", []),
        "wall_s": round(wall, 3),
        "violations": 1 if status == 1 else 0,
    }


if __name__ == "__main__":
    sys.exit(main())
