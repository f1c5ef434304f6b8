"""check.py PROP: decide one property.

1. every contract task of contracts/<prop>.py is run on /repo's current source
   (the deciding step: all obligations must be discharged);
2. next to it, replay/run.py runs the real code on generated inputs: it turns a
   broken property into a concrete failing input, and is the labelled bounded
   stand-in for what the contracts assume.
Exit 0: all obligations discharged and no failing input.  Exit 1: VIOLATION.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
from pathlib import Path

V = Path(__file__).resolve().parent
sys.path.insert(0, str(V))
sys.dont_write_bytecode = True
PYREAL = "/opt/venv/bin/python"


def task(prop, name, q, budget):
    sys.setrecursionlimit(20000)
    try:
        from pyded.driver import Runner
        mod = importlib.import_module("contracts." + prop.lower())
        R = Runner(prop, budget=budget)
        dict(list(mod.TASKS) + list(getattr(mod, 'THOROUGH', ())))[name](R)
        q.put((name, dict(
            clauses=[(c.name, c.vcs, len(c.bad), round(c.secs, 3), sorted(c.backends),
                      [(o.status, o.detail[:3000]) for o in c.bad[:2]]) for c in R.clauses.values()],
            functions=R.functions, inlined=sorted(R.inlined), trusted=sorted(R.trusted), used=sorted(map(str, R.used)),
            solver_time=R.solver_time, queries=R.queries, paths=R.paths, undecided=R.undecided, log=R.log)))
    except BaseException as e:
        q.put((name, dict(error=f"{type(e).__name__}: {e}", traceback=traceback.format_exc()[-3000:])))


def contracts(prop, budget, procs, thorough=False):
    mod = importlib.import_module("contracts." + prop.lower())
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    todo = [n for n, _ in list(getattr(mod, 'THOROUGH', ())) * thorough + list(mod.TASKS)]
    run, out = {}, {}
    while todo or run:
        while todo and len(run) < procs:
            n = todo.pop(0)
            p = ctx.Process(target=task, args=(prop, n, q, budget))
            p.start()
            run[n] = (p, time.time())
        try:
            n, r = q.get(timeout=0.5)
            out[n] = r
            run.pop(n)[0].join()
        except Exception:
            pass
        for n, (p, t) in list(run.items()):
            if n not in out and (time.time() - t > budget + 30 or (not p.is_alive() and q.empty() and time.time() - t > 5)):
                p.terminate()
                out[n] = dict(error="time limit" if p.exitcode is None else f"verifier process ended with {p.exitcode}", traceback="")
                run.pop(n)
    return out, mod


def search(prop, seed, seconds, procs, out):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    if Path(out).exists():
        Path(out).unlink()
    return subprocess.Popen([PYREAL, str(V / "replay/run.py"), prop, "--seed", str(seed), "--seconds", str(seconds),
                             "--procs", str(procs), "--out", str(out)], env=env, stdout=subprocess.DEVNULL,
                            stderr=subprocess.PIPE, text=True)


def finish(p, out, limit):
    try:
        _, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        return dict(evaluations=0, distinct=0, samples=[], violation=None, error="search hangs", wall_s=limit)
    try:
        return json.loads(Path(out).read_text())
    except Exception:
        return dict(evaluations=0, distinct=0, samples=[], violation=None, error=(err or "no result")[-3000:], wall_s=0)


def known(prop):
    out = []
    for l in (V / "known_findings.txt").read_text().splitlines():
        if l.startswith("finding:") and f"property={prop} " in l:
            out.append(l[len("finding:"):].strip())
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick") if len(sys.argv) < 3 else sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = V / "evidence"
    scratch.mkdir(exist_ok=True)
    tmpout = scratch / f".search-{prop}.json"
    thorough = tier == "thorough"
    have = (V / "contracts" / f"{prop.lower()}.py").exists()
    s = search(prop, seed, 300 if thorough else 25, 3, tmpout)
    res, mod = contracts(prop, 400 if not thorough else 1500, 5 if not thorough else 7, thorough) if have else ({}, None)
    r = finish(s, tmpout, 450)
    clauses, bad, functions, inlined, trusted, used = [], [], [], set(), set(), set()
    st = qn = paths = 0
    log = []
    for n, t in res.items():
        if "error" in t:
            bad.append((f"{prop}/{n}/verifier", "undecided", t["error"] + "\n" + t["traceback"]))
            clauses.append((f"{prop}/{n}/verifier", 1, 1, 0, [], []))
            continue
        clauses += t["clauses"]
        for c in t["clauses"]:
            if c[2]:
                bad.append((c[0], c[5][0][0], c[5][0][1]))
        if not t["clauses"]:
            bad.append((f"{prop}/{n}/obligations", "undecided", "no obligations were generated"))
        functions += t["functions"]
        inlined |= set(t["inlined"])
        trusted |= set(t["trusted"])
        used |= set(t["used"])
        st += t["solver_time"]
        qn += t["queries"]
        paths += t["paths"]
        log += t["log"]
    searches = [r]
    if bad and not r["violation"]:
        # an obligation failed: look longer for an input that shows it
        for k in range(1, 3):
            s = search(prop, seed + 1000 * k, 120 if not thorough else 200, 8, tmpout)
            r2 = finish(s, tmpout, 330)
            searches.append(r2)
            if r2["violation"]:
                r = r2
                break
    if tmpout.exists():
        tmpout.unlink()
    viol = r["violation"]
    findings = known(prop)
    obl = sum(c[1] for c in clauses)
    nbad = sum(c[2] for c in clauses)
    backends = {}
    for c in clauses:
        for b in c[4]:
            backends[b] = backends.get(b, 0) + 1
    status = 0
    rep = None
    if viol or bad:
        status = 1
        (V / "replays").mkdir(exist_ok=True)
        key = hashlib.sha1(json.dumps([prop, viol and viol["mismatch"], [b[0] for b in bad]]).encode()).hexdigest()[:10]
        rep = V / "replays" / f"{prop}-{key}.json"
        rep.write_text(json.dumps(dict(
            property=prop, seed=viol["seed"] if viol else seed, idx=viol["idx"] if viol else None,
            mismatch=viol["mismatch"] if viol else None, case=viol["case"] if viol else None,
            rerun=f"{PYREAL} {V}/replay/run.py {prop} --case {rep}" if viol else None,
            failed_obligations=[dict(obligation=b[0], status=b[1], verifier_output=b[2]) for b in bad]), indent=1))
        for b in bad[:20]:
            print(f"obligation {b[0]}: {b[1]}: {b[2].splitlines()[0][:200] if b[2] else ''}")
        if viol:
            print("failing input:", viol["mismatch"][:600])
    for f in findings:
        print("KNOWN-FINDING:", f)
    trustbase = sorted({f"assumed contract: {t}" for t in trusted} |
                       {"pyded (verification condition generator, /verif/pyded)", "z3 4.x", "CPython ast"})
    ev = dict(
        property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=getattr(mod, "LEVEL", "proof"),
        coverage=dict(
            obligations=obl, discharged=obl - nbad, named_obligations=len(clauses),
            named_discharged=sum(1 for c in clauses if not c[2]),
            checker_cmd=f"python3-vt {V}/check.py {prop}", trusted_base=trustbase,
            functions_under_contract=sorted(set(functions)),
            functions_inlined_and_checked_with_their_callers=sorted(inlined),
            contracts_used_at_call_sites=sorted(used),
            back_ends=backends, solver_time_s=round(st, 2), solver_queries=qn, paths_explored=paths,
            per_function_log=log,
            failed=[dict(obligation=b[0], status=b[1]) for b in bad],
            bounded_stand_in=dict(
                label="bounded: generated inputs run through the real code; never counted as proved",
                what=getattr(mod, "BOUNDED", "well-formed files drawn by replay/lib.py; see DESIGN.md"),
                evaluations=sum(x["evaluations"] for x in searches), distinct_nontrivial=sum(x["distinct"] for x in searches),
                skipped=sum(x.get("skipped", 0) for x in searches), wall_s=sum(x["wall_s"] for x in searches),
                errors=[x["error"] for x in searches if x["error"]],
                samples=[str(x)[:1500] for x in r["samples"][:1]])),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
        violations=1 if status else 0, wall_s=round(time.time() - t0, 2))
    (scratch / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{prop}: {obl - nbad}/{obl} obligations discharged over {len(set(functions))} functions under contract, "
          f"{sum(x['evaluations'] for x in searches)} replay evaluations, {time.time() - t0:.0f} s")
    for x in searches:
        if x["error"]:
            print("search harness:", x["error"][-600:])
    if status:
        print(f"VIOLATION property={prop} replay={rep}" + ("" if viol else " no-failing-input-found"))
    sys.exit(status)


if __name__ == "__main__":
    main()
