"""one attempt at a hard query: python3-vt port.py FILE TACTIC SEED (prints unsat/sat/unknown)"""
import random
import sys

TACTICS = (("smt",), ("simplify", "propagate-values", "solve-eqs", "smt"), ("simplify", "propagate-values", "smt"),
           ("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "smt"))


def main(f, tac, seed):
    import z3
    a = list(z3.parse_smt2_file(f))
    if seed:
        random.Random(seed).shuffle(a)
    t = TACTICS[tac]
    s = z3.Solver() if len(t) == 1 else z3.Then(*t).solver()
    for c in a:
        s.add(c)
    print(s.check(), flush=True)


def run(text, tries=18, width=6, seconds=15):
    """many short attempts under different presentations of the same query; True once one says unsat"""
    import os
    import subprocess
    import tempfile
    import time
    d = tempfile.mkdtemp(prefix="pyded")
    f = os.path.join(d, "q.smt2")
    live = []
    try:
        with open(f, "w") as h:
            h.write(text)
        todo = [(k % len(TACTICS), k // len(TACTICS) + k % 2) for k in range(tries)]
        while todo or live:
            while todo and len(live) < width:
                t, s = todo.pop(0)
                p = subprocess.Popen([sys.executable, __file__, f, str(t), str(s)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                live.append((p, time.time()))
            time.sleep(0.1)
            for x in list(live):
                p, t0 = x
                if p.poll() is not None:
                    live.remove(x)
                    out = p.stdout.read().strip()
                    if out == "unsat":
                        return True
                    if out == "sat":
                        return False
                elif time.time() - t0 > seconds:
                    p.kill()
                    p.wait()
                    live.remove(x)
        return False
    finally:
        for p, _ in live:
            p.kill()
            p.wait()
        os.unlink(f)
        os.rmdir(d)


if __name__ == "__main__":
    main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
