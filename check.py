#!/usr/bin/env python3
"""Decides one property: builds the harness from /repo's working tree, runs the
symbolic executor on the property's entry points, replays what it reports
against the native build, and writes the evidence file."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, V)
import spec  # noqa: E402

ENGINE = f"{V}/build/engine/release/symir"
SXH = f"{V}/build/sxh"
BC = f"{V}/build/sxh.bc"
NATIVE_TIMEOUT = 20
KNOWN = []


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Broken(Exception):
    pass


def source_hash():
    h = hashlib.sha256()
    for root in (f"{REPO}/src", f"{V}/harness/in_crate", f"{V}/harness/src", f"{V}/shims"):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            if "target" in ds:
                ds.remove("target")
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    h.update(open(f"{REPO}/Cargo.toml", "rb").read())
    return h.hexdigest()


def build():
    os.makedirs(f"{V}/build", exist_ok=True)
    with open(f"{V}/build/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        def sh(cmd):
            r = subprocess.run(cmd, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise Broken("build failed: " + " ".join(cmd) + "\n" + r.stdout[-6000:])
        sh(["tools/build_engine.sh"])
        want = source_hash()
        stamp = f"{V}/build/sources"
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if want != have:
            # make cargo look again even if a file's time stamp went backwards
            import shutil
            for d in (f"{V}/build/target/release/.fingerprint",):
                if os.path.isdir(d):
                    for n in os.listdir(d):
                        if n.startswith(("plusendi-", "sxh-")):
                            shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        if want != have or not os.path.exists(SXH) or not os.path.exists(BC):
            sh(["tools/build_harness.sh"])
            open(stamp, "w").write(want)


def native(entry, data, params):
    """Runs the native harness; (kind, observations, message)."""
    try:
        r = subprocess.run([SXH, entry, data, ",".join(map(str, params))] if params else [SXH, entry, data],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=NATIVE_TIMEOUT)
    except subprocess.TimeoutExpired:
        return "hang", [], "does not end"
    out = r.stdout.decode(errors="replace")
    obs = [tuple(map(int, m)) for m in re.findall(r"^OBS (\d+) (\d+)$", out, re.M)]
    if r.returncode == 0 and out.endswith("END\n"):
        return "ok", obs, ""
    m = re.search(r"^ASSERT (.*)$", out, re.M)
    if r.returncode == 4 and m:
        return "assert", obs, m.group(1)
    if r.returncode == 3:
        return "assume", obs, ""
    err = r.stderr.decode(errors="replace").strip()
    return "crash", obs, f"exit {r.returncode}: {err[-600:]}"


def run_one(pid, run, tier, budget, stop):
    params = run.get("params", [])
    fd, out = tempfile.mkstemp(prefix="symir-out-")
    os.close(fd)
    cmd = [ENGINE, BC, run["entry"], "--out", out, "--stop", "50" if any(k[0] == pid for k in KNOWN) else "1", "--time", str(run.get("time", budget)),
           "--jobs", str(run.get("jobs", 8))]
    if params:
        cmd += ["--params", ",".join(map(str, params))]
    if not run.get("merge", True):
        cmd += ["--no-merge"]
    if "conc" in run:
        cmd += ["--conc", str(run["conc"])]
    if "steps" in run:
        cmd += ["--steps", str(run["steps"])]
    if stop.is_set():
        os.unlink(out)
        return None
    log_fd, logp = tempfile.mkstemp(prefix="symir-log-")
    pr = subprocess.Popen(cmd, stdout=log_fd, stderr=log_fd, start_new_session=True)
    os.close(log_fd)
    limit = time.time() + run.get("time", budget) + 60
    why = None
    while pr.poll() is None:
        if stop.is_set():
            why = "stopped"
        elif time.time() > limit:
            why = "late"
        if why:
            try:
                os.killpg(pr.pid, 9)
            except ProcessLookupError:
                pass
            pr.wait()
            break
        time.sleep(0.02)
    said = open(logp, errors="replace").read()[-3000:]
    os.unlink(logp)
    if why == "stopped":
        os.unlink(out)
        return None
    try:
        res = json.load(open(out))
    except Exception:
        raise Broken(f"{run['entry']}{params}: the executor " + ("ran over its time" if why else f"ended with {pr.returncode}: {said}"))
    finally:
        os.unlink(out)
    res["entry"], res["params"] = run["entry"], params
    for v in res["violations"]:
        v["native"] = native(run["entry"], v["bytes"], params)
        if v["native"][0] in ("assert", "crash", "hang") and not known_hit(pid, run["entry"], v):
            stop.set()
    return res


def known_hit(pid, entry, v):
    kind, _, msg = v["native"]
    claim = msg if kind == "assert" else f"{v['msg']} at {v['at']}"
    return claim if (pid, entry, claim) in KNOWN else None


def covered_functions(lines):
    """Names of the functions of /repo whose lines were executed."""
    by = {}
    for x in lines:
        f, l = x.rsplit(":", 1)
        by.setdefault(f, set()).add(int(l))
    names, count = set(), 0
    for f, ls in by.items():
        try:
            src = open(f, errors="replace").read().split("\n")
        except OSError:
            continue
        count += len(ls)
        cur, start = None, {}
        for i, t in enumerate(src, 1):
            m = re.match(r"\s*(?:pub(?:\([^)]*\))?\s+)?(?:const\s+)?(?:async\s+)?fn\s+([A-Za-z0-9_]+)", t)
            if m:
                cur = m.group(1)
            start[i] = cur
        for l in ls:
            if start.get(l):
                names.add(f"{os.path.relpath(f, REPO)}::{start[l]}")
    return sorted(names), count


def load_known():
    known = []
    p = f"{V}/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) claim=(.*)$", l.strip())
            if m:
                known.append(m.groups())
    return known


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    p = spec.PROPERTIES[pid]
    try:
        build()
    except Broken as e:
        log(e)
        return 2
    tb = time.time()
    runs = p["quick"] if tier == "quick" else p.get("thorough", p["quick"])
    runs = [r if isinstance(r, dict) else {"entry": r} for r in runs]
    if len(sys.argv) > 3:
        runs = [r for r in runs if r["entry"] in sys.argv[3:]]
    budget = 600 if tier == "quick" else 3 * 3600
    results, broken, skipped = [], [], 0
    stop = threading.Event()
    KNOWN.extend(load_known())
    have = set(subprocess.run([SXH], stdout=subprocess.PIPE, text=True).stdout.split())
    missing = [r for r in runs if r["entry"] not in have]
    runs = [r for r in runs if r["entry"] in have]
    if not runs:
        log("no part of this check compiles against the tree; left out: " + open(f"{V}/build/left_out").read())
        return 2
    conc = 1 if all(r.get("alone") for r in runs) else (2 if tier == "quick" else 2)
    with cf.ThreadPoolExecutor(p.get("concurrency", conc)) as ex:
        futs = [(r, ex.submit(run_one, pid, r, tier, budget, stop)) for r in runs]
        for r, f in futs:
            try:
                res = f.result()
                if res is None:
                    skipped += 1
                    continue
                res["spec"] = r
                results.append(res)
            except Broken as e:
                broken.append(str(e))
    violations, knownhit, validated, samples, notes = [], [], 0, [], []
    covers = {}
    for res in results:
        tag = res["entry"] + (str(res["params"]) if res["params"] else "")
        log(f"{tag}: paths {res['paths']} instrs {res['instructions']} queries {res['queries']} "
            f"(unsat {res['unsat']} sat {res['sat']} cached {res['cached']}) merges {res['merges']} "
            f"solver {res['solver_us'] / 1e6:.1f}s total {res['seconds']:.1f}s complete {res['complete']} covers {res['covers']}")
        for k, n in res["covers"].items():
            covers.setdefault(res["entry"], {})
            covers[res["entry"]][int(k)] = covers[res["entry"]].get(int(k), 0) + n
        for v in res["violations"]:
            kind, obs, msg = v["native"]
            if kind in ("assert", "crash", "hang"):
                if known_hit(pid, res["entry"], v):
                    knownhit.append(known_hit(pid, res["entry"], v))
                    continue
                violations.append({"property": pid, "entry": res["entry"], "params": res["params"],
                                   "bytes": v["bytes"], "claim": v["msg"], "at": v["at"],
                                   "native_outcome": kind, "native_message": msg,
                                   "replay_cmd": f"{SXH} {res['entry']} {v['bytes']} {','.join(map(str, res['params']))}"})
            else:
                broken.append(f"{tag}: reported {v} but the native run says {kind}")
        if res["errors"]:
            broken.append(f"{tag}: " + "; ".join(res["errors"][:3]))
        elif not res["complete"] and not res["violations"]:
            if res["spec"].get("partial"):
                notes.append(f"{tag}: stopped by the time limit after {res['paths']} paths, nothing claimed")
            else:
                broken.append(f"{tag}: not completed ({res['paths']} paths, {res['pending']} pending)")
        for s in res["samples"][:p.get("native_samples", 12)]:
            kind, obs, msg = native(res["entry"], s["bytes"], res["params"])
            mine = [tuple(map(int, x.split(":"))) for x in s["obs"].split(",") if x]
            if kind == "ok" and obs == mine:
                validated += 1
                if len(samples) < 6:
                    samples.append({"entry": res["entry"], "params": res["params"], "path_input_hex": s["bytes"],
                                    "observations": [list(o) for o in mine[:40]]})
            elif kind == "hang":
                broken.append(f"{tag}: native run of {s['bytes']} does not end")
            elif res["violations"]:
                pass
            else:
                broken.append(f"{tag}: native run of {s['bytes']} gives {kind} {obs[:8]} {msg}, symbolic run gave {mine[:8]}")
        for c in res["spec"].get("covers", []):
            if int(c) not in {int(k) for k in res["covers"]} and not res["violations"] and res["complete"]:
                broken.append(f"{tag}: no execution reaches witness {c}")
    lines = sorted({l for r in results for l in r["lines"] if "/repo/" in l})
    funcs, nlines = covered_functions(lines)
    complete = [r for r in results if r["complete"]]
    cov = {
        "states": sum(r["paths"] for r in results),
        "transitions": sum(r["instructions"] for r in results),
        "traces_validated_against_impl": validated,
        "samples": samples,
        "queries": sum(r["queries"] for r in results),
        "queries_answered_from_cache": sum(r["cached"] for r in results),
        "unsat": sum(r["unsat"] for r in results),
        "sat": sum(r["sat"] for r in results),
        "unknown": sum(r["unknown"] for r in results),
        "solver_s": round(sum(r["solver_us"] for r in results) / 1e6, 3),
        "claims_checked_on_paths": sum(r["assertions"] for r in results),
        "paths_outside_assumptions": sum(r["assumed_away"] for r in results),
        "branch_merges": sum(r["merges"] for r in results),
        "max_symbolic_bytes": max([r["max_symbols"] for r in results] or [0]),
        "max_path_constraints": max([r["max_path_constraints"] for r in results] or [0]),
        "runs": [{"entry": r["entry"], "params": r["params"], "paths": r["paths"], "complete": r["complete"],
                  "seconds": round(r["seconds"], 2), "witnesses": r["covers"]} for r in results],
        "functions_encoded": funcs,
        "source_lines_executed": nlines,
        "ir_functions_entered": len({f for r in results for f in r["functions"]}),
        "bounds": p["bounds"],
        "exhaustive": len(complete) == len(results) and not broken and not missing,
        "explanation": "states = complete symbolic paths, transitions = LLVM instructions executed symbolically; "
                       "each path stands for every input satisfying its constraints, and each claim on it was decided by Z3",
    }
    if notes:
        cov["not_completed"] = notes
    if missing:
        cov["not_run"] = [f"{r['entry']}: names items the tree no longer has" for r in missing]
    if skipped:
        cov["runs_stopped_after_a_violation"] = skipped
    ev = {"property": pid, "tier": "thorough" if tier == "thorough" else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": cov, "assumptions": p.get("assumptions", []) + spec.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for k in sorted(set(knownhit)):
        print(f"KNOWN-FINDING: property={pid} {k}")
    log(f"build {tb - t0:.1f}s, total {time.time() - t0:.1f}s, native validations {validated}")
    if violations:
        os.makedirs(f"{V}/build/replays", exist_ok=True)
        path = f"{V}/build/replays/{pid}.json"
        json.dump(violations, open(path, "w"), indent=1)
        for v in violations[:5]:
            log(f"  {v['entry']}{v['params']}: {v['claim']} at {v['at']} [{v['native_outcome']}] bytes {v['bytes'][:200]}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if broken:
        for b in broken:
            log("ERROR", b)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
