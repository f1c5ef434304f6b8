"""Loops: unrolling, DOALL summaries with induction variables, file scans."""
import ast
import hashlib
import z3
from .values import *
from .engine import *
from . import strs
from .lib import ZipIter


def assigned_names(body):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Lambda(self, n):
            pass
    for s in body:
        V().visit(s)
    return out


# ---------------------------------------------------------------- entry points
def for_loop(ctx, n, it):
    for h in ctx.loopspecs:
        if h(ctx, n, it):
            return
    names = assigned_names(n.body) | assigned_names_target(n.target)

    def body(v):
        ctx.assign(n.target, v)
        ctx.block(n.body)
    run_for(ctx, it, body, names, n.orelse)


def assigned_names_target(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def run_for(ctx, it, body, names, orelse=()):
    if isinstance(it, Ref) and isinstance(ctx.get(it), HFile):
        return file_for(ctx, [it], body, names, orelse, single=True)
    if isinstance(it, ZipIter):
        return file_for(ctx, it.parts, body, names, orelse)
    try:
        items = ctx.concrete_items(it)
    except Unsupported:
        items = None
    if items is not None:
        try:
            for v in items:
                try:
                    body(v)
                except ContinueX:
                    pass
        except BreakX:
            return
        ctx.block(orelse)
        return
    seq = ctx.seq_of(it)
    summarize(ctx, seq.n, seq.fn, body, names, orelse, filt=seq.filt)


def file_for(ctx, parts, body, names, orelse, single=False):
    """for over a text file, or zip of ranges and one file"""
    files = [p for p in parts if isinstance(p, Ref)]
    if len(files) != 1:
        raise Unsupported("zip of several files")
    f = files[0]
    h = ctx.get(f)
    c0 = h.cur
    avail = imax(0, sx(nlines(h.text) - iv(c0)))
    n = avail
    before = None
    if not single:
        seqs = [p for p in parts if isinstance(p, Seq)]
        for s in seqs:
            n = s.n if n is avail and not isinstance(sx(n), int) and ctx.valid(iv(avail) >= iv(s.n)) else imin(n, s.n)
        pos = parts.index(f)
        # zip reads its arguments in order: a file before an exhausted range loses one line
        if any(isinstance(p, Seq) for p in parts[pos + 1:]):
            before = [p for p in parts[pos + 1:] if isinstance(p, Seq)]

    def item(k):
        ln = View(line(h.text, sx(iv(c0) + iv(k))))
        strs.text_facts(ctx, ln.base)
        from .lib import schema_at
        schema_at(ctx, h.text, sx(iv(c0) + iv(k)))
        if single:
            return ln
        if parts and parts[0] == "count":
            return (sx(iv(k) + iv(parts[2])), ln)
        return tuple(ln if p is f else p.fn(k) for p in parts)

    def pre(v):
        # the iterator consumes the line before the body runs
        hh = ctx.get(f)
        ctx.put(f, HFile(hh.text, sx(iv(hh.cur) + 1), hh.kind, hh.info))
        body(v)
    def lost():
        if before is not None:
            m = before[0].n
            hh = ctx.get(f)
            extra = sx(z3.If(iv(avail) > iv(m), z3.IntVal(1), z3.IntVal(0)))
            ctx.put(f, HFile(hh.text, sx(iv(hh.cur) + iv(extra)), hh.kind, hh.info))

    k = sx(n)
    if isinstance(k, int) and k <= ctx.MAXUNROLL:
        try:
            for i in range(k):
                try:
                    pre(item(i))
                except ContinueX:
                    pass
        except BreakX:
            return
        lost()
        ctx.block(orelse)
        return
    summarize(ctx, n, item, pre, names, orelse, filecheck=(f, c0))
    lost()


def while_loop(ctx, n):
    for h in ctx.loopspecs:
        if h(ctx, n, None):
            return
    names = assigned_names(n.body)
    # bounded unrolling while the condition is decided
    for _ in range(ctx.MAXUNROLL):
        c = ctx.truth(ctx.ev(n.test))
        c = sx(c) if is_z3(c) else c
        if not isinstance(c, bool):
            if ctx.valid(c):
                c = True
            elif ctx.valid(Not(c)):
                c = False
        if isinstance(c, bool):
            if not c:
                ctx.block(n.orelse)
                return
            if isinstance(n.test, ast.Constant):
                break
            try:
                ctx.block(n.body)
            except ContinueX:
                pass
            except BreakX:
                return
            continue
        break

    def body(v):
        ctx.block(n.body)

    def cond():
        return ctx.truth(ctx.ev(n.test))
    summarize(ctx, None, lambda k: None, body, names, n.orelse, cond=cond)


# ---------------------------------------------------------------- comprehension
def comprehension(ctx, n, kind):
    if len(n.generators) != 1 or n.generators[0].is_async:
        raise Unsupported("nested comprehension")
    g = n.generators[0]
    it = ctx.ev(g.iter)
    outer = ctx.frame
    if kind == "dict":
        elt = ast.Tuple([n.key, n.value], ast.Load())
    else:
        elt = n.elt
    out = ctx.alloc(HList())
    inner = Frame(outer.mod, parent=outer, qual=outer.qual)
    ctx.frame = inner
    names = assigned_names_target(g.target)

    def body(v):
        ctx.assign(g.target, v)
        for c in g.ifs:
            if not ctx.branch(ctx.truth(ctx.ev(c))):
                return
        x = ctx.ev(elt)
        r = ctx.get(out)
        ctx.put(out, HList(r.parts + (("item", x),)))
    try:
        run_for(ctx, it, body, names)
    finally:
        ctx.frame = outer
    r = ctx.get(out)
    if kind == "dict":
        if r.concrete and all(isinstance(x[0], (str, int)) and not isinstance(x[0], VStr) for x in r.items()):
            return ctx.alloc(HDict({k: (True, v) for k, v in r.items()}))
        from . import dicts
        return dicts.from_seq(ctx, ctx.list_seq(r))
    if kind == "set":
        from .lib import _set
        return _set(ctx, [out], {})
    return out


def map_seq(ctx, seq, f):
    out = ctx.alloc(HList())
    inner = Frame(ctx.frame.mod, parent=ctx.frame)
    outer, ctx.frame = ctx.frame, inner

    def body(v):
        x = f(ctx, v)
        r = ctx.get(out)
        ctx.put(out, HList(r.parts + (("item", x),)))
    try:
        run_for(ctx, seq, body, set())
    finally:
        ctx.frame = outer
    return out


# ---------------------------------------------------------------- summaries
def has(v, syms):
    """does the value mention one of the symbols (z3 consts)?"""
    ids = {s.get_id() for s in syms}
    found = []

    def f(t):
        if mentions(t, ids):
            found.append(1)
        return t
    vmap_deep(v, f)
    return bool(found)


def mentions(t, ids):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in ids:
            return True
        if i in seen:
            continue
        seen.add(i)
        todo.extend(x.children())
        if z3.is_quantifier(x):
            todo.append(x.body())
    return False


def vmap_deep(v, f):
    if isinstance(v, Seq):
        f(iv(v.n))
        q = z3.Int("q!probe")
        vmap_deep(v.fn(q), f)
        return
    if isinstance(v, (Rep, CatSeq)):
        f(iv(v.n))
        q = z3.Int("q!probe")
        vmap_deep(v.fn(q), f)
        return
    vmap(v, f)


class Carried:
    def __init__(self, id):
        self.id = id


def bodyconsts(terms, seq0, trails):
    """fresh constants created inside the loop body, to be indexed by the iteration"""
    out = {}
    seen = set()
    todo = list(terms)
    while todo:
        x = todo.pop()
        if not is_z3(x):
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if "!" in nm and "." in nm:
                try:
                    s = int(nm.split("!")[1].split(".")[0])
                except ValueError:
                    s = -1
                if s > seq0:
                    out[i] = x
        todo.extend(x.children())
    return list(out.values())


def summarize(ctx, n, item, body, names, orelse, cond=None, filecheck=None, filt=None):
    """summarise a loop whose iterations are independent up to induction variables

    n iterations (or, with `cond`, while the condition holds); iteration k
    receives item(k).
    """
    fr = ctx.frame
    S0 = ctx.save()
    k = ctx.fresh("k", I)
    seq0 = ctx.seq
    S0k = ctx.save()
    heapmod = set()
    ckey = (k.get_id(), tuple(ctx.rounds), frozenset(names), ctx.pathkey(), ctx.nid, ctx.nofork > 0, tuple(c.get_id() for c in ctx.pc if is_z3(c)))
    hit = ctx.loopcache.get(ckey)
    if hit:
        # the path is being replayed: the body was explored from here before
        paths, heapmod, env, syms, poisoned, base, H0, gl, _ = hit
        ctx.globals.update(gl)
    for rnd in range(0 if hit else 6):
        ctx.restore(S0k)
        env, syms, poisoned = havoc(ctx, fr, names, heapmod)
        ctx.pc.append(k >= 0)
        if n is not None:
            ctx.pc.append(k < iv(n))
        H0 = dict(ctx.heap)

        def run():
            if cond is not None:
                if not ctx.branch(cond()):
                    raise BreakX()
            try:
                body(item(k))
            except ContinueX:
                pass
        base = ctx.save()
        ctx.loopks.append(k)
        ctx.rounds.append((k.get_id(), rnd))
        try:
            paths = ctx.explore(run)
        finally:
            ctx.loopks.pop()
            ctx.rounds.pop()
        mod = set()
        for p in paths:
            for i, r in p.state[1].items():
                if i in H0 and r is not H0[i]:
                    mod.add(i)
        if mod <= heapmod:
            break
        heapmod |= mod
    else:
        if not hit:
            raise Unsupported("loop effects do not stabilise")
    if not hit:
        ctx.loopcache[ckey] = (paths, heapmod, env, syms, poisoned, base, H0, dict(ctx.globals), list(ctx.pc))
    ctx.restore(base)
    normal = [p for p in paths if p.kind == "normal"]
    exits = [p for p in paths if p.kind != "normal"]
    if not normal and cond is None and not exits:
        ctx.restore(S0)
        return
    carried = [s for _, s in syms]
    # ---- closed forms of the induction variables
    sub_ = []
    closed = {}
    counters = []
    for key, s in syms:
        init = initial(S0, fr, key)
        deltas = []
        for p in normal:
            v = final(p, key)
            d = delta(v, s)
            deltas.append(d)
        if not normal:
            closed[key] = init
            sub_.append((s, iv(init) if s.sort() == I else init_term(init)))
            continue
        if all(d is not None and isinstance(d, int) and d == deltas[0] for d in deltas):
            e = sx(iv(init_us(init)) + deltas[0] * k)
            closed[key] = ("ind", deltas[0])
            sub_.append((s, iv(e)))
        elif all(d is not None and not has(d, carried) and not has(d, [k]) and sx(iv(d) - iv(deltas[0])) == 0 for d in deltas):
            e = sx(iv(init_us(init)) + iv(deltas[0]) * k)
            closed[key] = ("ind", deltas[0])
            sub_.append((s, iv(e)))
        elif all(isinstance(d, int) and d in (0, 1) for d in deltas):
            counters.append((key, s, deltas))
        else:
            closed[key] = None
    for key, s, deltas in counters:
        closed[key] = ("cnt", deltas)
    # variables that are not in closed form may not be read by anything kept
    S1 = lambda t: z3.substitute(t, *sub_) if sub_ else t
    bad = [s for key, s in syms if not any(s is a for a, _ in sub_)]
    cond_exit = [p for p in exits if p.kind == "break" and cond is not None and len(p.trail) and first_is_cond(p)]
    # ---- iteration-indexed versions of constants made in the body
    allterms = []
    for p in paths:
        allterms += [zb(g) for g in p.guards] + [zb(g) for g in p.pc]
        collect(p, syms, heapmod, allterms)
    fresh = [c for c in bodyconsts(allterms, seq0, None) if not any(c.eq(s) for s in carried) and not c.eq(k)]
    outer = list(ctx.loopks)
    skol = [(c, z3.Function(c.decl().name() + "@", *([I] * (1 + len(outer))), c.sort())) for c in fresh]

    def at(t, kk):
        t = S1(t)
        return z3.substitute(t, *([(c, g(*outer, iv(kk))) for c, g in skol] + [(k, iv(kk))]))

    def guard(p, kk):
        return sx(And(*[at(zb(g), kk) for g in p.guards])) if p.guards else True

    def facts(p, kk):
        """what the body path established at iteration kk, each under the guards taken before it"""
        gs = {g.get_id() for g in p.guards if is_z3(g)}
        pre, fs = [sx(iv(kk) >= 0)] + ([sx(iv(kk) < iv(n))] if n is not None else []), []
        for c in p.pc:
            if not is_z3(c):
                continue
            if c.get_id() in gs:
                pre.append(at(c, kk))
            else:
                fs.append(Implies(And(*pre), at(c, kk)))
        return fs
    for p in paths:
        for g in p.guards:
            if bad and mentions(zb(g), {s.get_id() for s in bad}):
                raise Unsupported("loop guard depends on an unsummarised variable")
    # ---- number of iterations
    ctx.restore(S0k)
    if cond is not None:
        N = ctx.fresh("trips", I)
        ctx.fact(N >= 0)
        C = lambda kk: Not(Or(*[guard(p, kk) for p in exits if p in cond_exit]))
        if not cond_exit:
            C = lambda kk: True
        k2 = z3.Int("k2!mono")
        s = z3.Solver()
        s.set("timeout", 3000)
        for c in ctx.pc:
            s.add(c)
        s.add(k2 >= 0, zb(C(sx(k2 + 1))), zb(Not(C(k2))))
        if cond_exit and s.check() != z3.unsat:
            raise Unsupported("while condition is not monotone")
        bexits = [p for p in exits if p not in cond_exit]
        if not cond_exit and not bexits:
            raise Unsupported("endless loop")
        if bexits:
            raise Unsupported("while loop with other exits")
        ctx.assume(zb(Not(C(N))))
        ctx.assume(zb(Or(N == 0, C(sx(N - 1)))))
        ctx.trusted.add("loops terminate")
        exits = []
        n = N
    # ---- early exits
    if exits:
        e = ctx.fresh("exit", I)
        ex = lambda kk: Or(*[guard(p, kk) for p in exits])
        take = ctx.choose(2)
        if take == 1:
            ctx.assume(z3.And(e >= 0, e < iv(n)))
            for p in exits:
                pass
            ctx.assume(zb(ex(e)))
            add_schema(ctx, "no-exit-before", lambda kk: Implies(z3.And(iv(kk) >= 0, iv(kk) < e), Not(ex(kk))))
            n_eff = e
        else:
            add_schema(ctx, "no-exit", lambda kk: Implies(z3.And(iv(kk) >= 0, iv(kk) < iv(n)), Not(ex(kk))))
            n_eff = n
    else:
        take = 0
        n_eff = n
    # ---- effects after n_eff iterations
    ctx.globals["#loopvar"] = k
    apply_effects(ctx, fr, S0, normal, names, syms, closed, heapmod, n_eff, k, at, guard, facts, bad, H0, filt)
    if take == 1:
        # run the exiting iteration itself
        fr2 = ctx.frame
        v = item(e)
        body_exit(ctx, body, v)
        return
    ctx.block(orelse)


def body_exit(ctx, body, v):
    """the last, exiting iteration; it must exit"""
    try:
        body(v)
    except ContinueX:
        raise Infeasible()
    except BreakX:
        return
    raise Infeasible()


def first_is_cond(p):
    return p.trail[0] is False or p.trail[0] == 2


def add_schema(ctx, name, f):
    ctx.globals.setdefault("#schemas", [])
    ctx.globals["#schemas"] = ctx.globals["#schemas"] + [(name, f)]


def init_us(v):
    return v.us if isinstance(v, (VDT, VTD)) else v


def init_term(v):
    v = init_us(v)
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, View):
        return strs.term(None, v)
    if isinstance(v, str):
        return lit(v)
    if isinstance(v, float):
        return flit(v)
    return v


def initial(S0, fr, key):
    if key[0] == "var":
        return S0[3][key[1]]
    return S0[1][key[1]].cur


def final(p, key):
    if key[0] == "var":
        return p.state[3].get(key[1])
    return p.state[1][key[1]].cur


def delta(v, s):
    v = init_us(v)
    if isinstance(v, bool) or not is_int(v) or s.sort() != I:
        return None
    d = sx(iv(v) - s)
    if is_z3(d) and mentions(d, {s.get_id()}):
        return None
    return d


def havoc(ctx, fr, names, heapmod):
    """arbitrary values for what the loop changes; returns (env, [(key, symbol)])"""
    syms = []
    poisoned = []
    for x in sorted(names):
        if x not in fr.vars:
            continue
        v = fr.vars[x]
        if is_int(v):
            s = ctx.fresh("v_" + x, I)
            fr.vars[x] = s
            syms.append((("var", x), s))
        elif isinstance(v, (VDT, VTD)):
            s = ctx.fresh("v_" + x, I)
            fr.vars[x] = type(v)(s)
            syms.append((("var", x), s))
        elif isinstance(v, Ref):
            pass
        elif isinstance(v, (str, VStr)):
            s = ctx.fresh("v_" + x, Ln)
            fr.vars[x] = View(s)
            syms.append((("var", x), s))
        elif is_bool(v):
            s = ctx.fresh("v_" + x, B)
            fr.vars[x] = s
            syms.append((("var", x), s))
        else:
            fr.vars[x] = Poison("carried by a loop")
            poisoned.append(x)
    for i in sorted(heapmod):
        r = ctx.heap.get(i)
        if isinstance(r, HFile):
            s = ctx.fresh("cur", I)
            ctx.heap[i] = HFile(r.text, s, r.kind, r.info)
            syms.append((("file", i), s))
        elif isinstance(r, HList):
            h = HList([("carried", i)])
            try:
                h.n0 = ctx.list_len(r)
            except Unsupported:
                h.n0 = None
            ctx.heap[i] = h
        elif isinstance(r, HArr):
            def rd(idx):
                raise Unsupported("array read in a loop that writes it")
            ctx.heap[i] = HArr(r.shape, r.dtype, rd, (), r.tag)
        else:
            raise Unsupported(f"loop changes a {type(r).__name__}")
    return None, syms, poisoned


def collect(p, syms, heapmod, out):
    def f(t):
        out.append(t)
        return t
    for key, s in syms:
        v = final(p, key)
        try:
            vmap_deep(v, f)
        except (TypeError, Unsupported):
            pass
    for i in heapmod:
        r = p.state[1].get(i)
        if isinstance(r, HList):
            for kk, x in r.parts:
                if kk != "carried":
                    try:
                        vmap_deep(x, f)
                    except (TypeError, Unsupported):
                        pass
        if isinstance(r, HArr):
            idx = tuple(z3.Int(f"ix!{j}") for j in range(len(r.shape)))
            for c, v in r.ovl:
                out.append(zb(c(idx)))
                vmap_deep(v(idx), f)


def apply_effects(ctx, fr, S0, normal, names, syms, closed, heapmod, n, k, at, guard, facts, bad, H0, filt=None):
    badids = {s.get_id() for s in bad}

    def M(v, kk, p=None):
        """value v of the body at iteration kk"""
        if p is not None:
            emit(p, kk)
        return vmap_lazy(v, Mapper(ctx, lambda t: at(t, kk)))

    emitted = set()

    def emit(p, kk):
        fs = facts(p, kk)
        for f in fs:
            ctx.fact(f)
    for nm in names:
        if nm in fr.vars and isinstance(fr.vars[nm], Poison):
            pass
    # locals
    for x in sorted(names):
        if x not in S0[3]:
            # first defined in the loop: keep the last iteration's value when that is definite
            vals = [(p, p.state[3].get(x)) for p in normal]
            if len(vals) == 1 and vals[0][1] is not None and not isinstance(vals[0][1], (Poison, Ref, VFunc)) and not has_bad(vals[0][1], badids):
                p, v = vals[0]
                if ctx.valid(iv(n) >= 1):
                    fr.vars[x] = M(v, sx(iv(n) - 1), p)
                    continue
            fr.vars[x] = Poison(f"{x} after a loop")
    for key, s in syms:
        c = closed[key]
        init = initial(S0, fr, key)
        if c is not None and c[0] == "ind":
            e = sx(iv(init_us(init)) + iv(c[1]) * iv(n))
            v = e if not isinstance(init, (VDT, VTD)) else type(init)(e)
        elif c is not None and c[0] == "cnt":
            pred = lambda kk, ps=[p for p, d in zip(normal, c[1]) if d == 1]: Or(*[guard(p, kk) for p in ps])
            fl = get_filter(ctx, n, pred)
            v = sx(iv(init) + iv(fl.count))
        elif key[0] == "var":
            v = after_value(ctx, key[1], s, normal, init, n, k, at, guard, M, badids)
        else:
            raise Unsupported("file position after a loop")
        if key[0] == "var":
            fr.vars[key[1]] = v
        else:
            r = S0[1][key[1]]
            ctx.heap[key[1]] = HFile(r.text, v, r.kind, r.info)
    for i in sorted(heapmod):
        r0 = S0[1][i]
        if isinstance(r0, HList):
            ctx.heap[i] = list_effect(ctx, i, r0, normal, n, guard, M, badids)
        elif isinstance(r0, HArr):
            ctx.heap[i] = arr_effect(ctx, i, r0, normal, n, k, at, guard, emit, filt)


def has_bad(v, badids):
    if not badids:
        return False
    found = []

    def f(t):
        if mentions(t, badids):
            found.append(1)
        return t
    try:
        vmap_deep(v, f)
    except TypeError:
        return True
    return bool(found)


def vmap_lazy(v, f):
    return vmap(v, f)


def after_value(ctx, x, s, normal, init, n, k, at, guard, M, badids):
    vals = [p.state[3].get(x) for p in normal]
    # unchanged
    if all(same_value(ctx, v, s) for v in vals):
        return init
    # string accumulation  x = x + piece
    pieces = [str_piece(v, s) for v in vals]
    if all(q is not None for q in pieces) and len(pieces) == 1 and not has_bad(pieces[0], badids):
        p = normal[0]
        return CatSeq(init, n, lambda kk: M(pieces[0], kk, p))
    # overwritten independently of the past
    if all(not isinstance(v, (Poison, type(None))) and not has_bad(v, badids) for v in vals) and len(vals) == 1:
        last = M(vals[0], sx(iv(n) - 1), normal[0])
        try:
            return ctx.ite(sx(iv(n) > 0), last, init) if not ctx.valid(iv(n) > 0) else last
        except NeedFork:
            pass
    return Poison(f"{x} is carried by a loop")


def same_value(ctx, v, s):
    v = init_us(v)
    if isinstance(v, View) and s.sort() == Ln:
        return strs.term(ctx, v).eq(s)
    return is_z3(v) and v.eq(s)


def str_piece(v, s):
    if s.sort() == Ln and isinstance(v, Cat):
        p0 = v.parts[0]
        if isinstance(p0, View) and p0.base.eq(s) and p0.a == 0 and isinstance(p0.b, int) and p0.b >= INF:
            return cat(*v.parts[1:])
    return None


def get_filter(ctx, n, pred):
    """the Filter of this predicate (shared when provably the same)"""
    k = ctx.globals.setdefault("#fk", z3.Int("k!filter"))
    c = sx(pred(k))
    for fl in ctx.globals.get("#filters", ()):
        c2 = fl.sym
        d = sx(iv(fl.n) - iv(n))
        if isinstance(d, int) and d == 0 or is_z3(d) and is_z3(c) and is_z3(c2) and c.eq(c2) and ctx.valid(d == 0):
            if (is_z3(c) and is_z3(c2) and c.eq(c2)) or ctx.valid(z3.Implies(z3.And(k >= 0, k < iv(n)), zb(c) == zb(c2))):
                return fl
    h = hashlib.md5(((c.sexpr() if is_z3(c) else str(c)) + "/" + (n.sexpr() if is_z3(n) else str(n))).encode()).hexdigest()[:12]
    fl = Filter(n, pred, h, bound_consts(c, n))
    fl.sym = c
    ctx.globals["#filters"] = ctx.globals.get("#filters", []) + [fl]
    ctx.fact(z3.And(fl.count >= 0, fl.count <= iv(n)))
    return fl


def filter_facts(ctx, fl, q=None, b=None):
    """axioms of the filter at rank q / base index b; ranks given as numbers are compared with the indices"""
    pairs = ()
    if q is not None:
        u = fl.unrank(iv(q))
        ctx.fact(z3.Implies(z3.And(iv(q) >= 0, iv(q) < fl.count),
                            z3.And(u >= 0, u < iv(fl.n), zb(fl.pred(u)), fl.rank(u) == iv(q))))
    if b is not None:
        r = fl.rank(iv(b))
        ctx.fact(z3.Implies(z3.And(iv(b) >= 0, iv(b) < iv(fl.n), zb(fl.pred(b))),
                            z3.And(r >= 0, r < fl.count, fl.unrank(r) == iv(b))))
    if (q is not None and z3.is_int_value(iv(q))) or b is not None:
        key = "#filterseen:" + str(fl.count)
        qs, bs = ctx.globals.get(key, ((), ()))
        if q is not None and z3.is_int_value(iv(q)) and not any(iv(q).eq(o) for o in qs):
            qs += (iv(q),)
            pairs += tuple((iv(q), o) for o in bs)
        if b is not None and not any(iv(b).eq(o) for o in bs):
            bs += (iv(b),)
            pairs += tuple((o, iv(b)) for o in qs)
        ctx.globals[key] = (qs, bs)
    for q, b in pairs:
        ctx.fact(z3.Implies(z3.And(q >= 0, q < fl.count, b >= 0, b < iv(fl.n), zb(fl.pred(b))),
                            (q <= fl.rank(b)) == (fl.unrank(q) <= b)))


def list_effect(ctx, i, r0, normal, n, guard, M, badids):
    adds = []
    for p in normal:
        parts = p.state[1][i].parts
        if not parts or parts[0] != ("carried", i):
            raise Unsupported("loop rewrites a list")
        adds.append(parts[1:])
    if any(kk == "write" for a in adds for kk, v in a):
        if any(kk != "write" for a in adds for kk, v in a) or any(len(a) > 1 for a in adds):
            raise Unsupported("loop changes a list in several ways")
        old = ctx.list_seq(r0)
        kvar = ctx.globals["#loopvar"]
        for a in adds:
            for _, (ix, v) in a:
                if sx(iv(ix) - kvar) != 0:
                    raise Unsupported("list write not indexed by the loop")

        def wfn(q):
            out = old.fn(q)
            for p, a in zip(normal, adds):
                if a:
                    out = ctx.ite(sx(And(iv(q) < iv(n), guard(p, q))), M(a[0][1][1], q, p), out)
            return out
        return HList([("seq", Seq(old.n, wfn))])
    for a in adds:
        for kk, v in a:
            if kk != "item":
                raise Unsupported("loop appends sequences")
    cnt = {len(a) for a in adds}
    if cnt == {0}:
        return r0
    if len(cnt) == 1:
        m = cnt.pop()

        def fn(q):
            if m == 1:
                kk, j = q, 0
            else:
                kk, j = sx(iv(q) / m), sx(iv(q) % m)

            def pickj(a, p):
                vs = [M(x, kk, p) for _, x in a]
                return ctx.pick(vs, j)
            out = pickj(adds[-1], normal[-1])
            for a, p in list(zip(adds, normal))[-2::-1]:
                out = ctx.merge(guard(p, kk), pickj(a, p), out)
            return out
        return HList(r0.parts + (("seq", Seq(sx(iv(n) * m), fn)),))
    if cnt == {0, 1}:
        ps = [(p, a[0][1]) for p, a in zip(normal, adds) if a]
        pred = lambda kk: Or(*[guard(p, kk) for p, _ in ps])
        fl = get_filter(ctx, n, pred)

        def fnb(b):
            out = M(ps[-1][1], b, ps[-1][0])
            for p, v in ps[-2::-1]:
                out = ctx.merge(guard(p, b), M(v, b, p), out)
            return out

        def fn(q):
            filter_facts(ctx, fl, q=q)
            return fnb(fl.unrank(iv(q)))
        s = Seq(fl.count, fn, fl)
        s.fnb = fnb
        return HList(r0.parts + (("seq", s),))
    raise Unsupported("loop appends a varying number of items")


def arr_effect(ctx, i, r0, normal, n, k, at, guard, emit, filt=None):
    """cells written by the iterations.  A write whose cell determines the iteration is
    read back through that; otherwise the last iteration writing a cell is named by a
    function of the cell (scatter)."""
    idx = tuple(z3.Int(f"ix!{j}") for j in range(len(r0.shape)))
    new = []
    for p in normal:
        for c, v in p.state[1][i].ovl:
            h = zb(And(zb(c(idx)), *[zb(g) for g in p.guards]))
            new.append((p, c, v, solve_for(k, sx(at(h, k)), idx), sx(at(h, k))))
    out = []
    for p, c, v, sol, h in new:
        mp = lambda kk: Mapper(ctx, lambda t: at(t, kk))

        def cnd(kk, ix, p=p, c=c, mp=mp):
            return sx(And(iv(kk) >= 0, iv(kk) < iv(n), guard(p, kk), under(mp(kk), lambda: zb(c(tuple(ix))))))
        if sol is not None:
            def hit(ix, sol=sol, cnd=cnd):
                return cnd(sx(z3.substitute(sol, *zip(idx, [iv(t) for t in ix]))), ix)

            def val(ix, p=p, v=v, sol=sol, mp=mp):
                kk = sx(z3.substitute(sol, *zip(idx, [iv(t) for t in ix])))
                emit(p, kk)
                return under(mp(kk), lambda: v(tuple(ix)))
        else:
            hit, val = scatter(ctx, n, k, idx, h, cnd, lambda kk, ix, p=p, v=v, mp=mp: (emit(p, kk), under(mp(kk), lambda: v(tuple(ix))))[1], filt)
        out.append((hit, val, sol))
    for a in range(len(out)):
        for b in range(a + 1, len(out)):
            sa, sb = out[a][2], out[b][2]
            if sa is None or sb is None or not sa.eq(sb):
                g = And(out[a][0](idx), out[b][0](idx), sa != sb if sa is not None and sb is not None else True)
                if not ctx.valid(Not(g)):
                    raise Unsupported("array writes of different iterations overlap")
    return HArr(r0.shape, r0.dtype, r0.base, r0.ovl + tuple((h, v) for h, v, _ in out), r0.tag)


def scatter(ctx, n, k, idx, h, cnd, value, filt):
    """the last iteration that writes a cell, as a function of the cell"""
    key = hashlib.md5((z3.substitute(h, (k, z3.Int("k!scatter"))).sexpr() + "/" + iv(n).sexpr()).encode()).hexdigest()[:12]
    skip = {k.get_id()} | {j.get_id() for j in idx}
    args = [a for a in bound_consts(h, iv(n)) if a.get_id() not in skip]
    so = [I] * len(idx) + [a.sort() for a in args]
    ff, lf = z3.Function(f"written{key}", *so, B), z3.Function(f"writer{key}", *so, I)
    free = [c for c in conjuncts(h) if not mentions(c, {k.get_id()})]

    def hit(ix):
        a = [iv(t) for t in ix] + args
        f, w = ff(*a), lf(*a)
        ctx.fact(z3.Implies(f, zb(cnd(w, ix))))
        seen = []
        for b in ctx.globals.get("#posb", ()):
            r = b
            if filt is not None:
                filter_facts(ctx, filt, b=b)
                r = filt.rank(iv(b))
            seen.append(r)
        for r in tuple(ctx.globals.get("#posq", ())) + tuple(seen):
            ctx.fact(z3.Implies(zb(cnd(r, ix)), z3.And(f, w >= iv(r))))
        return sx(And(f, *[z3.substitute(c, *zip(idx, [iv(t) for t in ix])) for c in free]))

    def val(ix):
        return value(lf(*([iv(t) for t in ix] + args)), ix)
    return hit, val


def conjuncts(c):
    if isinstance(c, bool):
        return []
    if z3.is_and(c):
        out = []
        for x in c.children():
            out += conjuncts(x)
        return out
    return [c]


def solve_for(k, cond, idx):
    """an expression of k in terms of idx, from an equality in cond"""
    best = None
    for c in conjuncts(cond):
        if z3.is_eq(c) and c.arg(0).sort() == I and mentions(c, {k.get_id()}):
            # arg0 - arg1 == 0, linear in k?
            e = z3.simplify(c.arg(0) - c.arg(1), som=True)
            e0 = z3.simplify(z3.substitute(e, (k, z3.IntVal(0))), som=True)
            e1 = z3.simplify(z3.substitute(e, (k, z3.IntVal(1))), som=True)
            a = sx(e1 - e0)
            if not isinstance(a, int) or a == 0:
                continue
            if sx(e - (e0 + a * k)) != 0:
                continue
            if not any(mentions(e0, {j.get_id()}) for j in idx):
                continue
            s = -e0 if a == 1 else (e0 if a == -1 else None)
            if s is None:
                s = (-e0) / a if a > 0 else e0 / (-a)
            s = z3.simplify(s)
            if a in (1, -1):
                return s
            best = best if best is not None else s
    return best
