"""Hoare rule for loops with an invariant given by the contract.

A spec describes the loop's state after m records (or m iterations); the rule
checks that the state holds on entry, that one iteration from any such state
leads to such a state again, and continues after the loop from such a state.
What the body modifies is found by running it, not by naming variables.
"""
import ast
import z3
from .values import *
from .engine import *
from . import strs, loops


class LoopInv:
    """base class of loop specifications"""
    name = "loop"
    busy = False

    def applies(self, ctx, node, it):
        raise NotImplementedError

    def entry(self, ctx):
        pass

    def begin(self, ctx, node):
        """new ghost state; assume where the iteration starts; returns (ghost, ends)"""
        raise NotImplementedError

    def var(self, ctx, name, init, g):
        """value of a carried local in the state g (default: unsupported)"""
        return Poison(f"{name} is carried by the loop")

    def heap(self, ctx, id, rec0, g):
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def after(self, ctx, g):
        """ghost state after an iteration that started in g; None if none may follow"""
        raise NotImplementedError

    def check_var(self, ctx, name, got, want, g, g2):
        same(ctx, f"{self.name}-keeps-count", got, want)

    def check_heap(self, ctx, id, rec, rec0, g, g2):
        same_rec(ctx, f"{self.name}-invariant", rec, self.heap(ctx, id, rec0, g2))

    def exit(self, ctx):
        """ghost state when the loop is exhausted"""
        raise NotImplementedError

    # loops over files
    def item(self, ctx, g):
        return None


def modified(ctx, paths, H0):
    mod = set()
    for p in paths:
        for i, r in p.state[1].items():
            if i in H0 and r is not H0[i]:
                mod.add(i)
    return mod


def install(ctx, *specs):
    ctx.loopspecs = list(ctx.loopspecs) + [lambda c, n, it, s=s: run(c, n, it, s) for s in specs]


def run(ctx, node, it, spec):
    if not spec.applies(ctx, node, it):
        return False
    fr = ctx.frame
    names = loops.assigned_names(node.body)
    if isinstance(node, ast.For):
        names |= loops.assigned_names_target(node.target)
    spec.it = it
    spec.entry(ctx)
    S0 = ctx.save()
    vars0, heap0 = dict(fr.vars), dict(ctx.heap)
    heapmod = set()
    rebound = set()
    g0 = dict(ctx.globals)

    def put_state(g):
        for x in sorted(names):
            if x not in vars0:
                continue
            if not isinstance(vars0[x], Ref):
                fr.vars[x] = spec.var(ctx, x, vars0[x], g)
            elif x in rebound:
                i = vars0[x].id
                fr.vars[x] = ctx.alloc(spec.heap(ctx, i, heap0[i], g))
        for i in sorted(heapmod):
            ctx.heap[i] = spec.heap(ctx, i, heap0[i], g)

    def one(g, whilecond=True):
        """one iteration from state g"""
        if isinstance(node, ast.For):
            v = spec.item(ctx, g)
            ctx.assign(node.target, v)
        else:
            if not ctx.branch(ctx.truth(ctx.ev(node.test))):
                e = BreakX()
                e.test = True
                raise e
        spec.busy = True
        try:
            ctx.block(node.body)
        except ContinueX:
            pass
        finally:
            spec.busy = False

    key = (id(node), tuple(ctx.rounds), ctx.pathkey(), ctx.seq, ctx.nid, tuple(c.get_id() for c in ctx.pc if is_z3(c)))
    hit = ctx.loopcache.get(key)
    if hit:
        # this very point was reached before (the path is being replayed)
        exits, heapmod, rebound = hit[:3]
    # what the loop modified the last time it was met is a good guess
    guesses = ctx.memos.setdefault("loop-guess", {})
    guess = guesses.get(id(node))
    if guess and not hit and all(i in heap0 and type(heap0[i]) is t for i, t in guess[0].items()):
        heapmod, rebound = set(guess[0]), set(guess[1])
    else:
        guess = None
    for rnd in () if hit else range(1 if guess else 0, 9):
        ctx.restore(S0)
        nobl = len(ctx.obls)
        mods, reb = set(), set()

        def checks(g, g2, joined=False):
            for x in sorted(names):
                if x in vars0 and not isinstance(vars0[x], Ref):
                    want = spec.var(ctx, x, vars0[x], g2)
                    if not isinstance(want, Poison):
                        spec.check_var(ctx, x, fr.vars[x], want, g, g2)
            for i in sorted(heapmod):
                if not (joined and isinstance(heap0[i], HFile)):
                    spec.check_heap(ctx, i, ctx.heap[i], heap0[i], g, g2)
            for x in sorted(rebound):
                v = fr.vars[x]
                if not isinstance(v, Ref):
                    raise Unsupported(f"{x} changes its type")
                spec.check_heap(ctx, vars0[x].id, ctx.heap[v.id], heap0[vars0[x].id], g, g2)

        def iteration():
            ctx.globals.clear()
            ctx.globals.update(g0)
            g = spec.begin(ctx, node)
            put_state(g)
            H = dict(ctx.heap)
            try:
                one(g)
            except BreakX as e:
                spec.done(ctx, g, not (spec.by_test and getattr(e, "test", False)))
                if spec.join:
                    # leaves with the state of the exhausted loop, but for files
                    mods.update(i for i, r in ctx.heap.items() if i in heap0 and i in H and r is not H[i])
                    if mods <= heapmod and not ctx.dry:
                        checks(g, spec.joined(ctx, g), True)
                    raise Infeasible()
                e.ghost = dict(ctx.globals)
                raise
            except (PyRaise, ReturnX) as e:
                e.ghost = dict(ctx.globals)
                raise
            finally:
                mods.update(i for i, r in ctx.heap.items() if i in heap0 and i in H and r is not H[i])
            for x in names:
                if x in vars0 and isinstance(vars0[x], Ref) and x not in rebound and fr.vars.get(x) != vars0[x]:
                    reb.add(x)
            if mods <= heapmod and not reb and not ctx.dry:
                g2 = spec.after(ctx, g)
                checks(g, g2)
        # loops inside start over in every round: what this one modifies is known better
        ctx.rounds.append((id(node), rnd))
        # the first round only learns what is modified: nothing is to be proved in it
        ctx.dry += rnd == 0
        try:
            paths = ctx.explore(iteration)
        except Unsupported:
            if not guess:
                raise
            reb.add("")
        finally:
            ctx.rounds.pop()
            ctx.dry -= rnd == 0
        if guess and (mods != heapmod or reb):
            guess, heapmod, rebound = None, set(), set()
            del ctx.obls[nobl:]
            continue
        if rnd and mods <= heapmod and not reb:
            break
        spec.observe(ctx, paths, heap0)
        heapmod |= mods
        rebound |= reb
        # the object a rebound local held at first is another one's business from now on
        heapmod -= {vars0[x].id for x in reb}
        del ctx.obls[nobl:]
    else:
        if not hit:
            raise Unsupported("loop effects do not stabilise")
    if not hit:
        exits = [p for p in paths if p.kind != "normal"]
        guesses[id(node)] = ({i: type(heap0[i]) for i in heapmod if i in heap0}, set(rebound))
        ctx.loopcache[key] = (exits, heapmod, rebound, list(ctx.pc))
    ctx.restore(S0)
    ctx.globals.clear()
    ctx.globals.update(g0)
    # entry: the initial state is the state of zero records
    ge = spec.initial(ctx)
    if ge is not None:
        for x in sorted(names):
            if x in vars0 and not isinstance(vars0[x], Ref):
                want = spec.var(ctx, x, vars0[x], ge)
                if not isinstance(want, Poison):
                    same(ctx, f"{spec.name}-starts-right", vars0[x], want)
        for i in () if ctx.dry else sorted(heapmod | {vars0[x].id for x in rebound}):
            spec.check_initial(ctx, i, heap0[i], ge)
    ch = ctx.choose(1 + len(exits))
    for x in names:
        if x not in vars0:
            fr.vars[x] = Poison(f"{x} after the loop")
    if ch == 0:
        if isinstance(node, ast.While) and (spec.by_test or isinstance(node.test, ast.Constant)):
            # left where the condition fails: one of the exits
            if node.orelse:
                raise Unsupported("else of a while loop")
            raise Infeasible()
        g = spec.exit(ctx)
        if ctx.check([], ctx.FEAS_MS)[0] == z3.unsat:
            raise Infeasible()
        put_state(g)
        if spec.join:
            for i in heapmod:
                r = ctx.heap[i]
                if isinstance(r, HFile):
                    ctx.heap[i] = HFile(r.text, ctx.fresh("left_at", I), r.kind, r.info)
        if isinstance(node, ast.While):
            if ctx.branch(ctx.truth(ctx.ev(node.test))):
                raise Infeasible()
        spec.done(ctx, g, False)
        ctx.block(node.orelse)
        return True
    p = exits[ch - 1]
    ctx.restore(p.state)
    ctx.globals.clear()
    ctx.globals.update(p.ghost)
    if p.kind == "raise":
        raise PyRaise(p.value)
    if p.kind == "return":
        raise ReturnX(p.value)
    return True


LoopInv.join = False        # leaves by break in the state of the exhausted loop
LoopInv.by_test = False     # a while loop left in any of its states, where the condition fails
LoopInv.initial = lambda self, ctx: None
LoopInv.check_initial = lambda self, ctx, i, rec, g: same_rec(ctx, f"{self.name}-starts-right", rec, self.heap(ctx, i, rec, g))
LoopInv.observe = lambda self, ctx, paths, heap0: None
LoopInv.done = lambda self, ctx, g, broke: None


def same(ctx, label, got, want):
    """obligation: two values are equal"""
    if got is want:
        return ctx.oblige(label, True)
    if isinstance(want, Poison):
        return
    if want is None or got is None:
        return ctx.oblige(label, got is want, f"{got} / {want}")
    if isinstance(want, (VDT, VTD)):
        return ctx.oblige(label, iv(got.us) == iv(want.us) if type(got) is type(want) else False, f"{got} / {want}")
    if is_str(want):
        return ctx.oblige(label, strs.eq(ctx, got, want) if is_str(got) else False, f"{got} / {want}")
    if is_int(want) and is_int(got):
        return ctx.oblige(label, iv(got) == iv(want))
    if is_bool(want) and is_bool(got):
        return ctx.oblige(label, zb(got) == zb(want))
    if is_flt(want) and is_flt(got):
        return ctx.oblige(label, ctx.tofl(got) == ctx.tofl(want))
    if isinstance(want, tuple) and isinstance(got, tuple) and len(want) == len(got):
        for a, b in zip(got, want):
            same(ctx, label, a, b)
        return
    if isinstance(want, VOpq) and isinstance(got, VOpq):
        return ctx.oblige(label, got.term == want.term)
    if isinstance(want, Ref) and isinstance(got, Ref) and want == got:
        return ctx.oblige(label, True)
    ctx.failobl(label, f"{got} is not {want}")


def same_rec(ctx, label, got, want):
    """obligation: two heap records of the same object are equal"""
    if isinstance(want, HFile):
        return ctx.oblige(label, iv(got.cur) == iv(want.cur))
    if isinstance(want, HList):
        if got is want:
            return ctx.oblige(label, True)
        a, b = ctx.list_seq(got), ctx.list_seq(want)
        return same_seq(ctx, label, a, b)
    raise Unsupported(f"comparison of {type(want).__name__}")


def same_seq(ctx, label, a, b, lo=0):
    ctx.oblige(label + ":length", iv(a.n) == iv(b.n))
    n = sx(b.n)
    if isinstance(n, int) and n <= lo:
        return
    s = ctx.save()
    q = ctx.fresh("q", I)
    ctx.assume(z3.And(q >= lo, q < iv(b.n), q < iv(a.n)))
    if ctx.feasible(True if False else q >= lo):
        same(ctx, label + ":items", a.fn(q), b.fn(q))
    pc = ctx.pc
    ctx.pc, ctx.factset = list(s[0]), set(s[7])
