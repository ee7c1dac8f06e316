"""Run the Kani harnesses of a property: bounded model checking of the compiled code (MIR) by CBMC."""
import fcntl
import glob
import json
import os
import re
import signal
import subprocess
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
KANI = os.path.join(VERIF, "kani")
PREFIX = "bodies::proofs::"


def command(cmd, env, timeout, **kw):
    """Run in its own process group, so that a solver that runs out of time is stopped with it."""
    process = subprocess.Popen(cmd, cwd=KANI, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, start_new_session=True, errors="replace", **kw)
    try:
        out, _ = process.communicate(timeout=max(timeout, 1))
        return process.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(process.pid, signal.SIGKILL)
        out, _ = process.communicate()
        return None, out


def parse(out):
    """The checks of one harness: (name, status, description, function)."""
    checks = []
    for block in re.split(r"\nCheck \d+: ", out)[1:]:
        name = block.split("\n", 1)[0].strip()
        status = re.search(r"- Status: (\S+)", block)
        description = re.search(r'- Description: "(.*)"', block)
        function = re.search(r"- Location: (\S+) in function (\S+)", block)
        checks.append({
            "name": name,
            "status": status.group(1) if status else "?",
            "description": description.group(1) if description else "",
            "file": function.group(1) if function else "",
            "function": function.group(2) if function else "",
        })
    return checks


def loops(harness, env):
    """The names of the loops of a harness, from its goto program."""
    pattern = os.path.join(KANI, "target/kani/**/*" + f"6proofs{len(harness)}{harness}.out")
    found = sorted(glob.glob(pattern, recursive=True), key=os.path.getmtime)
    cbmc = sorted(glob.glob(os.path.expanduser("~/.kani/kani-*/bin/cbmc"))) or ["cbmc"]
    if not found:
        return []
    code, out = command([cbmc[-1], "--show-loops", found[-1]], env, 120)
    return re.findall(r"^Loop (\S+):", out, re.M)


def unwindset(spec, harness, env):
    """Tighter bounds for some loops; whether they suffice is checked with the rest."""
    bounds = []
    for name in loops(harness, env):
        for include, exclude, bound in spec["tighten"]:
            if include in name and not any(e in name for e in exclude):
                bounds.append(f"{name}:{bound}")
                break
    return ["--cbmc-args", "--unwindset", ",".join(bounds)] if bounds else []


def replay(binary, harness, values, env):
    try:
        run = subprocess.run([binary, harness, *values], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, timeout=20)
    except subprocess.TimeoutExpired:
        return 1, f"inputs: {' '.join(values)}\nfailed: does not return"
    return run.returncode, run.stdout.strip()


def playbacks(out):
    """The inputs of each counterexample that Kani prints, as hexadecimal numbers."""
    found = []
    for test in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        values = []
        for line in re.findall(r"^\s*vec!\[([\d,\s]*)\],?\s*$", test, re.M):
            data = bytes(int(b) for b in line.replace(" ", "").split(",") if b)
            values.append(format(int.from_bytes(data, "little"), "x"))
        found.append(values)
    return found


def one(prop, spec, deadline, env, binary):
    harness = spec["harness"]
    result = {"harness": harness, "verdict": None, "checks": 0, "vccs": 0, "solver_s": 0.0,
              "bounds": spec["bounds"], "functions": [], "wall_s": 0.0}
    start = time.time()
    base = ["cargo", "kani", "--harness", PREFIX + harness, "--exact", "-Z", "unstable-options",
            "--no-memory-safety-checks"]
    attempts = [unwindset(spec, harness, env), []] if spec.get("tighten") else [[]]
    for extra in attempts:
        cmd = base + spec.get("flags", []) + extra
        code, out = command(cmd, env, deadline - time.time())
        result["wall_s"] = round(time.time() - start, 3)
        if code is None:
            result["verdict"] = "TIMEOUT"
            return result, None
        checks = parse(out)
        result["checks"] = len(checks)
        result["vccs"] = sum(int(n) for n in re.findall(r"Generated (\d+) VCC", out))
        result["solver_s"] = round(sum(float(n) for n in re.findall(r"Runtime decision procedure: ([\d.e-]+)s", out)), 3)
        result["functions"] = sorted({c["function"] for c in checks if "/repo/" in c["file"] or "auto_palette::" in c["function"]})
        failed = [c for c in checks if c["status"] == "FAILURE"]
        returned = [c["status"] for c in checks if c["description"] == "returned"]
        unwinding = [c for c in failed if "unwinding" in c["description"]]
        if not unwinding or len(unwinding) < len(failed):
            break
    refuses = spec.get("refuses", False)
    successful = "VERIFICATION:- SUCCESSFUL" in out and checks
    if refuses:
        holds = successful and returned and all(s in ("UNREACHABLE", "UNSATISFIABLE") for s in returned)
        suspicious = "SATISFIED" in returned
    else:
        holds = successful and not failed and returned == ["SATISFIED"]
        suspicious = bool(failed)
    if holds:
        result["verdict"] = "HOLDS"
        return result, None
    if not suspicious:
        result["verdict"] = "NO ANSWER: " + " ".join(out.split())[-300:]
        return result, None
    cmd = base + ["-Z", "concrete-playback", "--concrete-playback=print"] + spec.get("flags", []) + extra
    code, out = command(cmd, env, max(deadline - time.time(), 60))
    for values in playbacks(out):
        code, text = replay(binary, harness, values, env)
        if code == 1:
            result["verdict"] = "VIOLATED"
            inputs, _, message = text.partition("\n")
            return result, {"case": harness, "message": f"{message} ({inputs})", "harness": harness, "values": values}
    if unwinding and len(unwinding) == len(failed):
        result["verdict"] = "UNWIND"
        return result, None
    what = "; ".join(c["description"] for c in failed[:3]) or "accepted what has to be refused"
    result["verdict"] = f"UNCONFIRMED: {what}"
    return result, None


def run(prop, specs, tier, limit, replays, env):
    start = time.time()
    env = dict(env)
    # As released: without debug assertions, but with overflow reported.
    env["RUSTFLAGS"] = "--cfg auto_palette_verif -C debug-assertions=off -C overflow-checks=on"
    env.pop("RUSTUP_TOOLCHAIN", None)
    outcome = {"violation": None, "replay": None, "inconclusive": [], "harnesses": []}
    specs = [s for s in specs if tier == "thorough" or s.get("tier", "quick") == "quick"]
    with open(os.path.join(VERIF, ".lock-kani"), "w") as handle:
        fcntl.flock(handle, fcntl.LOCK_EX)
        for cmd in (["cargo", "build", "--offline", "--quiet"],
                    ["cargo", "kani", "--only-codegen"] + [a for s in specs for a in ("--harness", PREFIX + s["harness"])] + ["--exact"]):
            code, out = command(cmd, env, limit)
            if code != 0:
                outcome["inconclusive"].append("the harnesses do not build against /repo: " + out[-2000:])
                return outcome
        binary = os.path.join(KANI, "target/debug/replay")
        with ThreadPoolExecutor(max_workers=4) as pool:
            results = list(pool.map(lambda s: one(prop, s, start + limit, env, binary), specs))
    for spec, (result, violation) in zip(specs, results):
        outcome["harnesses"].append(result)
        print(f"  {result['harness']:32} {result['checks']:5} checks {result['wall_s']:8.2f} s  solver {result['solver_s']:8.2f} s {result['verdict']}")
        if violation and not outcome["violation"]:
            outcome["violation"] = violation
            path = os.path.join(replays, f"{prop}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, **violation,
                           "replay_cmd": f"cd /verif/kani && RUSTFLAGS='--cfg auto_palette_verif -C debug-assertions=off -C overflow-checks=on' cargo run --offline --bin replay {violation['harness']} {' '.join(violation['values'])}"}, f, indent=1)
            outcome["replay"] = os.path.relpath(path, VERIF)
        elif result["verdict"] not in ("HOLDS", "VIOLATED"):
            if result["verdict"] in ("TIMEOUT", "UNWIND") and spec.get("optional"):
                result["bounds"] = "NOT EXPLORED (ran out of time or bounds): " + result["bounds"]
                continue
            outcome["inconclusive"].append(f"{result['harness']}: {result['verdict']}")
    return outcome
