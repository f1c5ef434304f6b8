"""Symbolic executor / verification-condition generator for Python source.

Direct style: one run follows one path; every undecided branch consults a
trail and unexplored alternatives are re-run from the start of the enclosing
`explore`.  Heap records are immutable, so a snapshot is a dict copy.
"""
import ast
import time
import z3
from pathlib import Path as HostPath
from . import port
from .values import *


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, value):
        self.value = value


class Infeasible(Exception):
    pass


class NeedFork(Exception):
    pass


EXC_PARENTS = {
    "ValueError": "Exception", "TypeError": "Exception", "KeyError": "LookupError",
    "IndexError": "LookupError", "LookupError": "Exception", "AttributeError": "Exception",
    "OSError": "Exception", "FileNotFoundError": "OSError", "IOError": "OSError",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "AssertionError": "Exception",
    "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "StopIteration": "Exception",
    "OverflowError": "ArithmeticError", "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception", "UnboundLocalError": "NameError", "NameError": "Exception",
    "UnicodeDecodeError": "ValueError", "UnicodeError": "ValueError", "BaseException": None, "Exception": "BaseException",
    "BadZipFile": "Exception", "EOFError": "Exception", "MergeError": "ValueError",
}


def exc_isa(t, parent):
    while t is not None:
        if t == parent:
            return True
        t = EXC_PARENTS.get(t)
    return False


class Frame:
    __slots__ = ("vars", "parent", "mod", "qual")

    def __init__(self, mod, parent=None, qual=""):
        self.vars, self.parent, self.mod, self.qual = {}, parent, mod, qual

    def lookup(self, name):
        f = self
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        raise KeyError(name)


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = path.read_text()
        self.tree = ast.parse(self.src)
        self.defs = {}
        self.scan(self.tree.body)

    def scan(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.defs[n.name] = n
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    key = a.asname or (a.name.split(".")[0] if isinstance(n, ast.Import) else a.name)
                    self.defs[key] = (n, a)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("expr", n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.defs[n.target.id] = ("expr", n.value)
            elif isinstance(n, ast.Try):
                self.scan(n.body)  # optional imports are assumed present
            elif isinstance(n, ast.If):
                pass


class Repo:
    def __init__(self, root="/repo/src/georinex", pkg="georinex"):
        self.root, self.pkg = HostPath(root), pkg
        self.mods = {}

    def mod(self, name):
        if name not in self.mods:
            p = self.root / f"{name}.py"
            if not p.is_file():
                raise Unsupported(f"no module {name}")
            self.mods[name] = Module(name, p)
        return self.mods[name]

    def func(self, qual):
        m, f = qual.split(":")
        mod = self.mod(m)
        node = mod.defs.get(f)
        if isinstance(node, tuple) and isinstance(node[0], ast.ImportFrom):
            return self.func(f"{(node[0].module or '').lstrip('.')}:{node[1].name}")
        if not isinstance(node, ast.FunctionDef):
            raise Unsupported(f"function {qual} not found in the source")
        return VFunc(mod, node)


class Trail:
    def __init__(self, prefix):
        self.prefix, self.dec, self.alts = prefix, [], []


class PathRes:
    def __init__(self, kind, value, pc, state, trail, guards=()):
        self.kind, self.value, self.pc, self.state, self.trail = kind, value, pc, state, trail
        self.guards = list(guards)


class Obl:
    def __init__(self, name, status, secs, detail="", model=None, backend="z3"):
        self.name, self.status, self.secs, self.detail, self.model, self.backend = name, status, secs, detail, model, backend


class Ctx:
    FEAS_MS = 400
    PROVE_MS = 10000

    def __init__(self, repo=None, contracts=None):
        self.repo = repo or Repo()
        self.contracts = dict(contracts or {})  # qual -> callable(ctx, args, kw) (call contract)
        self.pc = []
        self.guards = []
        self.heap = {}
        self.frame = None
        self.nid = 0
        self.seq = 0
        self.trails = []
        self.obls = []
        self.memo = {}
        self.solver_time = 0.0
        self.nqueries = 0
        self.nofork = 0
        self.dry = 0            # > 0: loop effects are being learned, nothing is proved
        self.factlogs = []
        self.rounds = []
        self.loopks = []
        self.globals = {}
        self.loopspecs = []
        self.yields = []
        self.trusted = set()
        self.inlined = set()
        self.used_contracts = set()
        self.depth = 0
        self.factset = set()
        self.loopspec_for = None
        self.deadline = None
        self.keep = []
        self.loopcache, self.groundmemo, self.appmemo, self.memos = {}, {}, {}, {}
        self.inc, self.levels, self.results = z3.Solver(), [], {}
        self.allpaths = 0

    # ---- state
    def save(self):
        return (list(self.pc), dict(self.heap), self.frame, dict(self.frame.vars) if self.frame else None,
                self.nid, self.seq, list(self.yields), set(self.factset), self.depth, list(self.guards))

    def restore(self, s):
        self.pc, self.heap, self.frame = list(s[0]), dict(s[1]), s[2]
        if self.frame is not None:
            self.frame.vars = dict(s[3])
        self.nid, self.seq, self.yields, self.factset, self.depth = s[4], s[5], list(s[6]), set(s[7]), s[8]
        self.guards = list(s[9])

    def pathkey(self):
        return tuple(tuple(t.dec) for t in self.trails)

    def fresh(self, name, sort):
        self.seq += 1
        key = hash(self.pathkey()) & 0xFFFFFFFFFFFF
        return z3.Const(f"{name}!{self.seq}.{key:x}", sort)

    def freshf(self, name, *sorts):
        self.seq += 1
        key = hash(self.pathkey()) & 0xFFFFFFFFFFFF
        return z3.Function(f"{name}!{self.seq}.{key:x}", *sorts)

    def alloc(self, rec):
        self.nid += 1
        self.heap[self.nid] = rec
        return Ref(self.nid)

    def get(self, ref):
        return self.heap[ref.id]

    def put(self, ref, rec):
        self.heap[ref.id] = rec

    # ---- logic
    def assume(self, c):
        c = sx(c) if is_z3(c) else c
        if c is True:
            return
        if self.nofork:
            raise NeedFork()
        if c is False:
            raise Infeasible()
        self.pc.append(c)

    def fact(self, c):
        """axiom instance (deduplicated)"""
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        for l in self.factlogs:
            l.append(c)
        k = c.get_id()
        if k in self.factset:
            return
        self.keep.append(c)
        self.factset.add(k)
        self.pc.append(c)

    def remember(self, name, terms, make):
        """the facts make() adds, remembered under the name and terms (which must determine them)"""
        key = (name,) + tuple(t.get_id() for t in terms)
        hit = self.memos.get(key)
        if hit is None:
            log = []
            self.factlogs.append(log)
            try:
                make()
            finally:
                self.factlogs.pop()
            self.memos[key] = (list(dict((f.get_id(), f) for f in log).values()), terms)
            return
        for f in hit[0]:
            self.fact(f)

    def sync(self):
        """the incremental solver holds exactly the current path condition"""
        s, lv = self.inc, self.levels
        ids = [c if isinstance(c, bool) else c.get_id() for c in self.pc]
        n = k = 0
        while k < len(lv) and ids[n:n + len(lv[k])] == lv[k]:
            n += len(lv[k])
            k += 1
        if k < len(lv):
            s.pop(len(lv) - k)
            del lv[k:]
        if n < len(ids):
            s.push()
            lv.append(ids[n:])
            for c in self.pc[n:]:
                s.add(c)
        return ids

    def check(self, extra, ms):
        """satisfiability of the path condition and extra (incremental, memoised)"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of this contract exhausted")
        t = time.time()
        ids = self.sync()
        extra = [zb(c) for c in extra]
        key = (tuple(ids), tuple(c.get_id() for c in extra))
        r = self.results.get(key)
        if r is None:
            s = self.inc
            s.set("timeout", ms)
            s.push()
            for c in extra:
                s.add(c)
            r = s.check()
            s.pop()
            self.nqueries += 1
            if r != z3.unknown:
                self.results[key] = r
                self.keep.extend(extra)
                self.keep.extend(self.pc)
        self.solver_time += time.time() - t
        return r, None

    def check_alone(self, extra, ms, seed=None):
        s = z3.Solver()
        s.set("timeout", ms)
        if seed:
            s.set("smt.random_seed", seed)
        for c in self.pc:
            s.add(c)
        for c in extra:
            s.add(zb(c))
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.nqueries += 1
        return r, s

    def apps(self, t):
        """ids of the uninterpreted applications in t"""
        hit = self.appmemo.get(t.get_id())
        if hit is None:
            out, seen, todo = set(), set(), [t]
            while todo:
                x = todo.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                        out.add(i)
                    todo.extend(x.children())
            hit = self.appmemo[t.get_id()] = (out, t)
        return hit[0]

    def check_relevant(self, extra):
        """try with the facts that share terms with the goal only; unsat is an answer, anything else is not"""
        facts = [c for c in self.pc if is_z3(c)]
        freq = {}
        for f in facts:
            for i in self.apps(f):
                freq[i] = freq.get(i, 0) + 1
        S, chosen, last = set(self.apps(extra)), set(), -1
        for ms in (1500, 3000, 3000):
            rare = {i for i in S if freq.get(i, 0) <= max(5, len(facts) // 2)}
            for k, f in enumerate(facts):
                if k not in chosen and (not self.apps(f) or self.apps(f) & rare):
                    chosen.add(k)
            if len(chosen) == last or len(chosen) == len(facts):
                break
            last = len(chosen)
            for k in chosen:
                S |= self.apps(facts[k])
            s = z3.Solver()
            s.set("timeout", ms)
            for k in sorted(chosen):
                s.add(facts[k])
            s.add(extra)
            t = time.time()
            r = s.check()
            self.solver_time += time.time() - t
            self.nqueries += 1
            if r == z3.unsat:
                return r
        return z3.unknown

    def feasible(self, c):
        c = sx(c) if is_z3(c) else c
        if isinstance(c, bool):
            return c
        return self.check([c], self.FEAS_MS)[0] != z3.unsat

    def proves(self, c):
        """like valid, with more effort"""
        c = sx(c)
        if isinstance(c, bool):
            return c
        self.ground(c)
        r = self.check([Not(c)], 700)[0]
        if r == z3.unknown and self.portfolio(Not(c), 6, 12):
            r = z3.unsat
        if r == z3.unknown:
            r = self.check_relevant(Not(c))
        if r == z3.unknown and self.portfolio(Not(c)):
            r = z3.unsat
        return r == z3.unsat

    def portfolio(self, extra, tries=18, seconds=15):
        if self.deadline and time.time() > self.deadline:
            return False
        so = z3.Solver()
        for c in self.pc:
            so.add(c)
        so.add(zb(extra))
        t = time.time()
        r = port.run(so.to_smt2(), tries=tries, seconds=seconds)
        self.solver_time += time.time() - t
        return r

    def valid(self, c, ms=None):
        """True iff c is provable here"""
        c = sx(c) if is_z3(c) else c
        if isinstance(c, bool):
            return c
        self.ground(c)
        key = (c.get_id(), tuple(p.get_id() for p in self.pc))
        if key in self.memo:
            return self.memo[key][0]
        self.keep.extend(self.pc)
        r = self.check([Not(c)], ms or 1500)[0]
        if r == z3.unknown and (ms or 1500) >= 1500:
            r = self.check_alone([Not(c)], ms or 1500)[0]
        r = r == z3.unsat
        self.memo[key] = (r, c)
        return r

    def branch(self, c):
        if is_z3(c):
            c = sx(c)
        if isinstance(c, bool):
            return c
        if c is None:
            return False
        if self.nofork:
            # usable only when decided
            if self.valid(c, self.FEAS_MS):
                return True
            if self.valid(Not(c), self.FEAS_MS):
                return False
            raise NeedFork()
        tr = self.trails[-1]
        i = len(tr.dec)
        if i < len(tr.prefix):
            d = tr.prefix[i]
        else:
            f1 = self.feasible(c)
            f0 = self.feasible(Not(c))
            if not f1 and not f0:
                raise Infeasible()
            d = f1
            if f1 and f0:
                tr.alts.append(tr.dec + [False])
            else:
                d = 3 if f1 else 2
        tr.dec.append(d)
        forced = not isinstance(d, bool)
        d = d is True or d == 3
        g = c if d else Not(c)
        self.pc.append(g)
        if not forced:
            # a forced decision follows from what is known already
            self.guards.append(g)
        return d

    def choose(self, n):
        """demonic choice of 0..n-1 (all explored)"""
        for i in range(n - 1):
            if self.branch(self.fresh("choice", B)):
                return i
        return n - 1

    def explore(self, fn, limit=4000):
        base = self.save()
        out = []
        todo = [[]]
        while todo:
            prefix = todo.pop()
            self.restore(base)
            tr = Trail(prefix)
            self.trails.append(tr)
            nf, self.nofork = self.nofork, 0
            kind = val = ghost = None
            try:
                val = fn()
                kind = "normal"
            except PyRaise as e:
                kind, val, ghost = "raise", e.exc, getattr(e, "ghost", None)
            except BreakX as e:
                kind, ghost = "break", getattr(e, "ghost", None)
            except ContinueX:
                kind = "continue"
            except ReturnX as e:
                kind, val, ghost = "return", e.value, getattr(e, "ghost", None)
            except Infeasible:
                pass
            finally:
                self.trails.pop()
                self.nofork = nf
            todo.extend(tr.alts)
            if kind:
                out.append(PathRes(kind, val, self.pc[len(base[0]):], self.save(), tuple(tr.dec),
                                   self.guards[len(base[9]):]))
                out[-1].ghost = ghost
                self.allpaths += 1
            if len(out) > limit:
                raise Unsupported("too many paths")
        self.restore(base)
        return out

    def pure(self, fn):
        """run fn without forking; returns (ok, value)"""
        s = self.save()
        self.nofork += 1
        try:
            v = fn()
            if any(self.heap.get(k) is not r for k, r in s[1].items()):
                raise NeedFork()
            return True, v
        except (NeedFork, PyRaise, BreakX, ContinueX, ReturnX):
            self.restore(s)
            return False, None
        finally:
            self.nofork -= 1

    def ground(self, goal):
        """universal text axioms at the terms of the goal"""
        from . import strs
        if not is_z3(goal):
            return
        hit = self.groundmemo.get(goal.get_id())
        if hit is None:
            out, seen, todo = [], set(), [goal]
            while todo:
                x = todo.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_app(x):
                    if x.num_args() == 1 and x.decl().eq(lenf):
                        out.append(x.arg(0))
                    todo.extend(x.children())
            hit = self.groundmemo[goal.get_id()] = (out, goal)
        for t in hit[0]:
            strs.text_facts(self, t)

    # ---- obligations
    def oblige(self, name, goal, note=""):
        """one proof obligation on the current path"""
        if self.dry:
            return True
        goal = sx(goal) if is_z3(goal) else goal
        t = time.time()
        if goal is True:
            self.obls.append(Obl(name, "discharged", 0.0, "by simplification", backend="simplify"))
            return True
        self.ground(goal)
        r, s = self.check([Not(goal)], 2000 if len(self.pc) < 300 else 700)
        if r == z3.unknown:
            r = self.check_relevant(zb(Not(goal)))
        dt = time.time() - t
        if r == z3.unsat:
            self.obls.append(Obl(name, "discharged", dt))
            return True
        backend = "z3"
        hard = sum(1 for o in self.obls if o.status == "unknown" and o.secs > 5)
        r, s = self.check_alone([Not(goal)], 3000 if len(self.pc) > 50 else self.PROVE_MS)
        if r == z3.unknown and hard < 3 and len(self.pc) > 50:
            if self.portfolio(Not(goal)):
                r = z3.unsat
        elif r == z3.unknown and hard < 3:
            r, s = self.check_alone([Not(goal)], self.PROVE_MS * 3, 7)
        if r == z3.unsat:
            self.obls.append(Obl(name, "discharged", time.time() - t))
            return True
        model = None
        if r == z3.sat:
            try:
                model = str(s.model())[:4000]
            except z3.Z3Exception:
                pass
        self.obls.append(Obl(name, "refuted" if r == z3.sat else "unknown", time.time() - t,
                             f"goal {str(goal)[:1500]} {note}", model, backend))
        return False

    def failobl(self, name, detail):
        if self.dry:
            return False
        self.obls.append(Obl(name, "failed", 0.0, detail))
        return False

    def raise_(self, typ, msg=""):
        raise PyRaise(VExc(typ, msg))
