"""Runs function contracts and collects obligations."""
import time
import traceback
import z3
from .values import *
from .engine import *
from .interp import Interp
from . import lib, loops, arrays


class Clause:
    """one named obligation of a function contract (all its paths)"""

    def __init__(self, name):
        self.name, self.vcs, self.bad = name, 0, []
        self.secs = 0.0
        self.backends = set()


class Runner:
    def __init__(self, prop, repo=None, budget=240.0):
        self.prop = prop
        self.repo = repo or Repo()
        self.functions = []
        self.clauses = {}
        self.inlined, self.trusted, self.used = set(), set(), set()
        self.solver_time = 0.0
        self.queries = 0
        self.paths = 0
        self.undecided = []
        self.budget = budget
        self.log = []

    def clause(self, name):
        return self.clauses.setdefault(name, Clause(name))

    def verify(self, qual, setup, ensures=None, raises=None, contracts=None, name=None, floats=None, cover=True,
               init=None, budget=None, minreturn=1, body=None):
        """check one function against its contract

        setup(ctx) -> (args, kw, ghost); ensures(ctx, ghost, result) and
        raises(ctx, ghost, exc) state obligations with ctx.oblige.
        """
        label = name or qual
        t0 = time.time()
        ctx = Interp(self.repo, contracts)
        ctx.globals["#verifying"] = qual
        ctx.deadline = t0 + (budget or self.budget)
        if floats == "rounding":
            from . import floats as fm
            ctx.globals["#floats"] = "rounding"
            fm.install(ctx)
        elif floats == "real":
            ctx.globals["#floats"] = "real"
        if init:
            init(ctx)
        pre = f"{self.prop}/{label}/"
        if body is None:
            self.functions.append(label)
        covered = [0]
        try:
            fn = self.repo.func(qual) if body is None else None

            def run():
                g0 = dict(ctx.globals)
                try:
                    args, kw, ghost = setup(ctx)
                    try:
                        r = ctx.call_func(fn, args, kw) if body is None else body(ctx)
                    except PyRaise as e:
                        if raises is None:
                            ctx.oblige("no-exception", False, f"{e.exc}")
                        else:
                            raises(ctx, ghost, e.exc)
                        raise
                    if ensures:
                        ensures(ctx, ghost, r)
                    if cover and covered[0] < minreturn and ctx.check([], 3000)[0] == z3.sat:
                        covered[0] += 1
                    return r
                finally:
                    ctx.globals.clear()
                    ctx.globals.update(g0)
            paths = ctx.explore(run)
            self.paths += len(paths)
            if cover and not covered[0]:
                self.clause(pre + "cover").bad.append(
                    Obl("cover", "failed", 0, "no returning path is satisfiable: the contract would hold vacuously"))
            elif cover:
                self.clause(pre + "cover").vcs += 1
        except (Unsupported, NeedFork, RecursionError, z3.Z3Exception, NotImplementedError, AttributeError, TypeError, KeyError,
                IndexError, ValueError, AssertionError) as e:
            tb = traceback.format_exc().strip().splitlines()
            self.undecided.append((label, f"{type(e).__name__}: {e}"))
            self.clause(pre + "reach").bad.append(
                Obl("reach", "undecided", 0, f"{type(e).__name__}: {e}\n" + "\n".join(tb[-7:])))
        for o in ctx.obls:
            c = self.clause(pre + o.name)
            c.vcs += 1
            c.secs += o.secs
            c.backends.add(o.backend)
            if o.status != "discharged":
                c.bad.append(o)
        self.inlined |= ctx.inlined
        self.trusted |= ctx.trusted
        self.used |= ctx.used_contracts
        self.solver_time += ctx.solver_time
        self.queries += ctx.nqueries
        self.log.append((label, round(time.time() - t0, 2), ctx.allpaths))
        return ctx

    def argue(self, name, body, **kw):
        """a lemma over the contracts' own functions: body(ctx) states obligations"""
        return self.verify(None, lambda ctx: ([], {}, None), None, None, name="lemma/" + name, body=body, **kw)

    def lemma(self, name, goal, facts=(), ms=10000):
        s = z3.Solver()
        s.set("timeout", ms)
        for f in facts:
            s.add(f)
        s.add(zb(Not(goal)))
        t = time.time()
        r = s.check()
        c = self.clause(f"{self.prop}/lemma/{name}")
        c.vcs += 1
        c.secs += time.time() - t
        c.backends.add("z3")
        self.solver_time += time.time() - t
        if r != z3.unsat:
            c.bad.append(Obl(name, "refuted" if r == z3.sat else "unknown", time.time() - t, str(goal)[:1000]))

    @property
    def failed(self):
        return [c for c in self.clauses.values() if c.bad]

    def report(self):
        out = []
        for c in self.clauses.values():
            st = "ok" if not c.bad else c.bad[0].status
            out.append(f"{st:10s} {c.name}  ({c.vcs} VCs, {c.secs:.2f}s)" + ("" if not c.bad else "\n      " + c.bad[0].detail[:1500]))
        return "\n".join(out)
