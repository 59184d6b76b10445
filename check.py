#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: decide one property.

1. every section of contracts/<id>.py is run in its own process: the functions are
   extracted from /repo's current source, executed symbolically, and every obligation
   is discharged (or not) for all inputs;
2. bounded/<id>.py is run against the real code under the real interpreter: it looks for
   a failing input to replay, and stands in (labelled bounded) for sections the verifier
   cannot reach.
"""
import importlib
import json
import multiprocessing as mp
import os
import resource
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def known_findings(prop):
    known = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("known: "):
                continue
            fields = line[len("known: "):].split(" ", 2)
            pr, key = fields[0].split("=", 1)[1], fields[1].split("=", 1)[1]
            if pr == prop:
                known[key] = fields[2] if len(fields) > 2 else ""
    return known


def worker(conn, sec):
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    from pyvc import harness
    try:
        out = harness.run_section(sec)
    except BaseException as e:          # never leave the driver without an answer
        out = dict(name=sec[0], status="unsupported", error=f"{type(e).__name__}: {e}"[:500], results=[], assumptions=[],
                   notes=[], executed=[], wall=0.0, z3_queries=0, z3_time=0.0)
    conn.send(out)
    conn.close()


def run_sections(sections, jobs, deadline):
    """one fresh process per section, at most `jobs` at a time, none after the deadline"""
    pending = list(sections)
    running = []
    done = []
    while pending or running:
        while pending and len(running) < jobs:
            sec = pending.pop(0)
            if time.time() > deadline:
                done.append(dict(name=sec[0], status="unsupported", error="time limit of the check reached", results=[], assumptions=[],
                                 notes=[], executed=[], wall=0.0, z3_queries=0, z3_time=0.0))
                continue
            a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=(b, sec), daemon=True)
            p.start()
            b.close()
            running.append((sec, p, a, time.time()))
        time.sleep(0.02)
        still = []
        for sec, p, a, t0 in running:
            out = None
            if a.poll():
                try:
                    out = a.recv()
                except EOFError:
                    out = None
                    if p.is_alive():
                        p.join(1)
            if out is None and (not p.is_alive() or time.time() - t0 > sec[2] + 20 or time.time() > deadline):
                if a.poll():
                    try:
                        out = a.recv()
                    except EOFError:
                        out = None
                if out is None:
                    why = "time budget exceeded (hard)" if p.is_alive() else f"process ended with {p.exitcode}"
                    p.kill()
                    out = dict(name=sec[0], status="unsupported", error=why, results=[], assumptions=[], notes=[],
                               executed=[], wall=time.time() - t0, z3_queries=0, z3_time=0.0)
            if out is not None:
                p.join(2)
                if p.is_alive():
                    p.kill()
                done.append(out)
            else:
                still.append((sec, p, a, t0))
        running = still
    order = {s[0]: i for i, s in enumerate(sections)}
    done.sort(key=lambda d: order[d["name"]])
    return done


def start_companion(prop, tier, seed, jobs):
    if not os.path.exists(os.path.join(HERE, "bounded", prop.lower() + ".py")):
        return None
    out = os.path.join(HERE, "evidence", f".companion_{prop}.json")
    if os.path.exists(out):
        os.remove(out)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("NUMBA_", "PYTHON"))}
    env.update(NUMBA_DISABLE_JIT="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO + ":" + HERE,
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    p = subprocess.Popen([PY, "-m", "bounded.run", prop, tier, str(seed), out, str(jobs)], cwd=HERE, env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p, out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known = known_findings(prop)
    comp = start_companion(prop, tier, seed, 3)

    secs = []
    mod = None
    if os.path.exists(os.path.join(HERE, "contracts", prop.lower() + ".py")):
        mod = importlib.import_module(f"contracts.{prop.lower()}")
        secs = mod.sections(tier)
    only = os.environ.get("VERIF_SECTION")
    if only:
        secs = [s for s in secs if only in s[0]]
    done = run_sections(secs, 6 if comp else 8, t0 + (620 if tier == "quick" else 7200))

    cres = dict(cases=0, failures=[], samples=[], distinct=0, rule="", error="")
    if comp:
        p, out = comp
        limit = 500 if tier == "quick" else 5000
        try:
            text, _ = p.communicate(timeout=max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            text = "companion timed out"
        if os.path.exists(out):
            cres = json.load(open(out))
            os.remove(out)
        else:
            cres["error"] = text[-1500:]

    # ---- verdict
    obligations = [o for d in done for o in d["results"]]
    proved = [o for o in obligations if o["status"] == "proved"]
    failed = [o for o in obligations if o["status"] not in ("proved", "beyond")]
    for d in done:
        far = [o for o in d["results"] if o["status"] == "beyond"]
        if far and d["status"] == "ok":
            d["status"], d["error"] = "unsupported", f"{len(far)} obligation(s), first {far[0]['name']}: {far[0]['detail'][:200]}"
    reach = [d for d in done if d["status"] != "ok"]
    lines = []
    viol = []
    for f in cres["failures"]:
        if f["key"] in known:
            lines.append(f"KNOWN-FINDING: property={prop} {known[f['key']]} [{f['key']}]")
        else:
            viol.append(("input", f))
    for o in failed:
        key = "obligation:" + o["name"].replace(" ", "_")
        if key in known:
            lines.append(f"KNOWN-FINDING: property={prop} {known[key]} [{key}]")
        else:
            viol.append(("obligation", o))
    replay = None
    if viol:
        replay = os.path.join(HERE, "evidence", f"replay_{prop}.json")
        inputs = [f for k, f in viol if k == "input"]
        json.dump(dict(property=prop, seed=seed, tier=tier,
                       failing_inputs=inputs[:10], failed_obligations=[o for k, o in viol if k == "obligation"][:30],
                       rerun=[f"cd {HERE} && NUMBA_DISABLE_JIT=1 MPLBACKEND=Agg PYTHONPATH={REPO}:{HERE} {PY} -m bounded.run {prop} {tier} {seed} - 1 {f['case']}:{f['i']}" for f in inputs[:10]]),
                  open(replay, "w"), indent=1, default=str)
        tail = "" if inputs else " no-failing-input-found"
        for k, v in viol[:6]:
            print(("failing input: " + v["case"] + ": " + v["what"][:300]) if k == "input" else f"failed obligation: {v['name']} [{v['status']}] {v['detail'][:200]}")
        print(f"VIOLATION property={prop} replay={replay}{tail}")
    for line in sorted(set(lines)):
        print(line)
    broken = bool(cres.get("error"))
    if reach and not viol:
        for d in reach:
            print(f"note: section {d['name']} is outside the verifier's reach ({d['status']}: {d['error'].strip().splitlines()[-1][:200] if d['error'] else ''}); decided by the bounded stand-in only")

    executed = sorted({e for d in done for e in d["executed"]})
    backends = {}
    for o in proved:
        b = o["how"].split(":")[0] or "evaluation"
        backends[b] = backends.get(b, 0) + 1
    assumptions = sorted({a for d in done for a in d["assumptions"]} | set(getattr(mod, "ASSUMPTIONS", [])) | set(BASE_ASSUMPTIONS if mod else []))
    cov = {}
    level = getattr(mod, "LEVEL", "proof") if mod else "exploration"
    if mod:
        cov.update(obligations=len(obligations) + len(reach), discharged=len(proved),
                   checker_cmd=f"python3-vt check.py {prop} {tier}",
                   trusted_base=TRUSTED,
                   functions_under_contract=getattr(mod, "FUNCTIONS", []),
                   functions_executed_symbolically=executed,
                   sections=[dict(name=d["name"], status=d["status"], obligations=len(d["results"]),
                                  discharged=sum(o["status"] == "proved" for o in d["results"]), wall_s=round(d["wall"], 2),
                                  error=d["error"][-300:]) for d in done],
                   obligation_names=[o["name"] for o in obligations][:400],
                   discharged_by_back_end=backends,
                   undischarged=[dict(name=o["name"], status=o["status"], detail=o["detail"][:200]) for o in obligations if o["status"] != "proved"][:40],
                   solver_queries=sum(d["z3_queries"] for d in done), solver_time_s=round(sum(d["z3_time"] for d in done), 2))
    cov["bounded_companion" if mod else "exploration"] = dict(
        label="bounded: never counted as proved; it searches for a failing input to replay and stands in for sections out of reach",
        evaluations=cres["cases"], distinct_nontrivial=cres["distinct"], rule=cres["rule"], samples=cres["samples"][:8],
        per_case=cres.get("per_case", {}), stand_in_for=[d["name"] for d in reach], bounded_only=getattr(mod, "BOUNDED_ONLY", []))
    if not mod:
        cov.update(evaluations=cres["cases"], distinct_nontrivial=cres["distinct"], rule=cres["rule"], samples=cres["samples"][:8])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    print(f"{prop} {tier}: {len(proved)}/{len(obligations)} obligations discharged in {len(done)} sections ({len(reach)} out of reach), "
          f"{cres['cases']} concrete cases, {round(time.time() - t0, 1)} s")
    if viol:
        return 1
    if broken:
        print("companion error:", cres["error"][-1500:])
        return 2
    return 0


TRUSTED = [
    "pyvc: the AST instrumenter (pyvc/instr.py), the symbolic semantics of Python and numpy in pyvc/runtime.py, arr.py, symnp.py",
    "pyvc/term.py normal forms and pyvc/solve.py reductions; z3 (python z3-solver) for the remaining arithmetic",
    "CPython's ast module (parsing of the real source files)",
]
BASE_ASSUMPTIONS = [
    "machine floating point is treated as exact real arithmetic; numpy index arithmetic as unbounded integers",
    "numba.njit and functools decorators other than lru_cache-like caches do not change the meaning of a function",
]

if __name__ == "__main__":
    sys.exit(main())
