"""run contract tasks of the given modules (default: all) and print what is not discharged
usage: all.py [-jN] [c01 c02 ...]"""
import sys, time, importlib, multiprocessing as mp
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
import check


def main():
    a = sys.argv[1:]
    j = 4
    if a and a[0].startswith("-j"):
        j = int(a.pop(0)[2:])
    mods = a or sorted(p.stem for p in (V / "contracts").glob("c[0-9][0-9].py"))
    bad = 0
    seen = set()
    for m in mods:
        mod = importlib.import_module("contracts." + m)
        t = time.time()
        out, _ = check.contracts(m.upper(), 600, j)
        n = k = 0
        for name, r in sorted(out.items()):
            if "error" in r:
                print(m, name, "ERROR", r["error"][:500], r["traceback"][-400:]); bad += 1
                continue
            for c in r["clauses"]:
                n += c[1]
                if c[2]:
                    bad += 1
                    print("  ", c[0], c[5][0][0], c[5][0][1][:400].replace("\n", " | "))
        print(m, n, "obligations", round(time.time() - t), "s", flush=True)
    print("bad:", bad)


if __name__ == "__main__":
    main()
