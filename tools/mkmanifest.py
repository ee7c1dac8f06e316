#!/usr/bin/env python3
"""Write MANIFEST.json from checks.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
NOTES = "Symbolic execution of the compiled generic code within the stated bounds (see evidence: bounds per case); nothing is claimed outside them. Trusted: rustc, the SMT solver, the symbolic number types of /verif/symex; every explored path is re-run on the real f64/f32 instantiation of the code."
GRID = "symbolic execution of the real generic code with an SMT-backed number type (bit-vectors, cvc5)"
REAL = "symbolic execution of the real generic code with an SMT-backed number type (reals with error bounds, linear arithmetic, lemmas of powf and cbrt on demand, cvc5)"
REALS = "C01 C02 C03 C04 C05 C06 C08".split()
checks = []
for prop, c in CHECKS.items():
    checks.append({
        "property": prop,
        "quick_cmd": f"python3 check.py {prop} --tier quick",
        "thorough_cmd": f"python3 check.py {prop} --tier thorough",
        "evidence_file": f"evidence/{prop}.json",
        "technique": c.get("technique", REAL if prop in REALS else GRID),
        "level": c.get("level", "model_checking"),
        "level_note": c.get("level_note", NOTES),
    })
NA = {
    "C25": "HDBSCAN::fit is an unimplemented stub (todo!()) and nothing can reach it; there is no code to encode.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": NA.get(p, "no check built yet")} for p in props if p not in CHECKS]
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
json.dump({
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {"guard": "auto_palette_verif", "enable": "RUSTFLAGS=\"--cfg auto_palette_verif\" (set by /verif/symex/.cargo/config.toml and /verif/kani_run.py)", "source_commits": commits},
    "checks": checks,
    "not_applicable": na,
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
