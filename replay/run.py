"""bounded search: run.py PROP --seed S --seconds T --out FILE [--procs N]
replay:          run.py PROP --case FILE"""
import argparse
import hashlib
import json
import logging
import multiprocessing as mp
import os
import random
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

sys.path.insert(0, str(Path(__file__).parent))
sys.dont_write_bytecode = True


def one(prop, seed, idx, gr, tmp):
    """-> (description, mismatch)"""
    import cases
    rng = random.Random(f"{prop}/{seed}/{idx}")
    try:
        return getattr(cases, "case_" + prop)(rng, gr, tmp)
    except cases.Skip:
        return None, None
    except Exception as e:
        # where the real code raised on a well-formed input
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if "georinex" in f.filename]
        if not inside:
            raise
        rng = random.Random(f"{prop}/{seed}/{idx}")
        d = getattr(cases, "describe", lambda *a: {})(prop, rng)
        d["traceback"] = traceback.format_exc()[-3000:]
        return d, f"{type(e).__name__}: {e} at {inside[-1].filename.split('/')[-1]}:{inside[-1].lineno}"


def work(prop, seed, k, procs, seconds, q, maxcases):
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import georinex as gr
    end = time.time() + seconds
    n = skipped = 0
    digest = set()
    sample = None
    with tempfile.TemporaryDirectory() as tmp:
        idx = k
        while time.time() < end and n < maxcases:
            try:
                d, m = one(prop, seed, idx, gr, tmp)
            except Exception:
                q.put(("error", dict(idx=idx, traceback=traceback.format_exc()[-3000:])))
                return
            if d is None:
                skipped += 1
            else:
                n += 1
                key = json.dumps(d, default=str, sort_keys=True)
                digest.add(hashlib.md5(key.encode()).digest()[:8])
                if sample is None and len(key) > 20:
                    sample = json.loads(key)
            if m:
                q.put(("violation", dict(property=prop, seed=seed, idx=idx, mismatch=m, case=json.loads(json.dumps(d, default=str)))))
                return
            idx += procs
    q.put(("done", dict(n=n, skipped=skipped, distinct=digest, sample=sample)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=15)
    ap.add_argument("--procs", type=int, default=4)
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--out")
    ap.add_argument("--case")
    a = ap.parse_args()
    if a.case:
        c = json.load(open(a.case))
        warnings.simplefilter("ignore")
        logging.disable(logging.CRITICAL)
        import georinex as gr
        with tempfile.TemporaryDirectory() as tmp:
            d, m = one(c["property"], c["seed"], c["idx"], gr, tmp)
        print(json.dumps(d, default=str)[:4000])
        print("MISMATCH" if m else "agrees", m or "")
        sys.exit(1 if m else 0)
    q = mp.Queue()
    ps = [mp.Process(target=work, args=(a.prop, a.seed, k, a.procs, a.seconds, q, a.max)) for k in range(a.procs)]
    for p in ps:
        p.start()
    res = dict(evaluations=0, distinct=0, skipped=0, samples=[], violation=None, error=None)
    t0 = time.time()
    left = len(ps)
    seen = set()
    while left:
        try:
            kind, v = q.get(timeout=1)
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                res["error"] = res["error"] or "search worker died"
                break
            if time.time() - t0 > a.seconds + 90:
                res["error"] = "search worker hangs"
                break
            continue
        left -= 1
        if kind == "done":
            res["evaluations"] += v["n"]
            seen |= v["distinct"]
            res["distinct"] = len(seen)
            res["skipped"] += v["skipped"]
            if v["sample"]:
                res["samples"].append(v["sample"])
        elif kind == "violation":
            if res["violation"] is None or v["idx"] < res["violation"]["idx"]:
                res["violation"] = v
            break
        else:
            res["error"] = v["traceback"]
    for p in ps:
        p.terminate()
    res["wall_s"] = round(time.time() - t0, 2)
    if a.out:
        Path(a.out).write_text(json.dumps(res, default=str))
    else:
        res["samples"] = len(res["samples"])
        v = res["violation"]
        if v:
            Path("/tmp/violation.json").write_text(json.dumps(v))
            res["violation"] = dict(idx=v["idx"], mismatch=v["mismatch"], tb=v["case"].get("traceback"))
        print(json.dumps(res, indent=1, default=str))
    sys.exit(1 if res["violation"] else 2 if res["error"] else 0)


if __name__ == "__main__":
    main()
