"""Navigation headers: navheader2, navheader3.

The mapping is modelled as a key-indexed history: what it holds at a key after
the header lines up to line m, for every key.  One line writes under its own
label (columns 61 on, blanks stripped), nothing else changes.
"""
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, loops, records
from pyded.interp import METHODS
from pyded.records import LoopInv
from .common import *
from .recfile import G

PRES = z3.Function("header_has", FileS, Ln, I, B)       # key, lines before m
SUBHAS = z3.Function("coefficients_has", FileS, Ln, Ln, I, B)
EOH = z3.Function("first_end_of_header", FileS, I)
IONO, TSC = "IONOSPHERIC CORR", "TIME SYSTEM CORR"


def iseoh(T, i):
    return contains(line(T, iv(i)), lit("END OF HEADER"))


def label(ctx, L):
    return Strip(strs.slice_(ctx, View(L), 60, None))


# ------------------------------------------------------------ the mapping
def entry(ctx, o, k):
    """newest write at key k in the log: (found?, value)"""
    for key, v in reversed(o.attrs["log"]):
        if ctx.branch(zb(ctx.equal(key, k))):
            if isinstance(v, Guarded):
                if not ctx.branch(v.cond):
                    continue
                v = v.value(ctx)
            return True, v
    return False, None


class Guarded:
    """an entry written on some of the paths that were merged"""

    def __init__(self, cond, kind, what):
        self.cond, self.kind, self.what = cond, kind, what

    def value(self, ctx):
        return ctx.alloc(self.what) if self.kind == "ref" else self.what

    def __repr__(self):
        return f"{self.what} if {self.cond}"


def merge_try(ctx, n):
    """one state after a try statement: what its paths wrote, under their conditions"""
    if ctx.globals.get("#intry"):
        return False
    from pyded import loops
    s0 = ctx.save()
    heap0, vars0 = dict(ctx.heap), dict(ctx.frame.vars)
    g0 = dict(ctx.globals)

    def body():
        ctx.globals["#intry"] = True
        try:
            ctx.plain_try(n)
        finally:
            ctx.globals.pop("#intry", None)
    paths = ctx.explore(body)
    if any(p.kind != "normal" for p in paths):
        return False
    writes, conds = {}, []
    for p in paths:
        c = z3.And(*[zb(x) for x in p.guards]) if p.guards else z3.BoolVal(True)
        conds.append(z3.And(*[zb(x) for x in p.pc]) if p.pc else z3.BoolVal(True))
        heap = p.state[1]
        for i, r in heap.items():
            if i not in heap0 or r is heap0[i]:
                continue
            old = heap0[i]
            if not (isinstance(r, HObj) and r.cls == "HMAP" and r.attrs["log"][:len(old.attrs["log"])] == old.attrs["log"]):
                return False
            for k, v in r.attrs["log"][len(old.attrs["log"]):]:
                if isinstance(v, Guarded):
                    return False
                if isinstance(v, Ref):
                    if not isinstance(heap[v.id], (HList, HArr)):
                        return False
                    e = Guarded(c, "ref", heap[v.id])
                elif v is None or is_str(v) or is_int(v) or is_flt(v) or isinstance(v, (VDT, tuple)):
                    e = Guarded(c, "value", v)
                else:
                    return False
                writes.setdefault(i, []).append((k, e))
    ctx.restore(s0)
    if not paths:
        raise Infeasible()
    ctx.pc.append(z3.Or(*conds))
    for i, w in writes.items():
        o = ctx.heap[i]
        ctx.heap[i] = o.with_(log=o.attrs["log"] + tuple(w))
    for x in loops.assigned_names([n]):
        ctx.frame.vars[x] = Poison(f"{x} after the try statement")
    return True


def hm_contains(ctx, r, k):
    o = ctx.get(r)
    if entry(ctx, o, k)[0]:
        return True
    return o.attrs["has"](ctx, k)


def hm_getitem(ctx, r, k):
    o = ctx.get(r)
    hit, v = entry(ctx, o, k)
    if hit:
        return v
    if not ctx.branch(zb(o.attrs["has"](ctx, k))):
        ctx.raise_("KeyError", "header label")
    return o.attrs["value"](ctx, k)


def hm_setitem(ctx, r, k, v):
    o = ctx.get(r)
    d = ctx.get(v) if isinstance(v, Ref) else None
    if o.cls == "HMAP" and isinstance(d, HDict) and not (d.entries or d.base or d.layers):
        # a new table of coefficients
        ctx.put(v, HObj("HSUB", {"log": (), "has": lambda c, k: False, "value": None}))
    ctx.put(r, o.with_(log=o.attrs["log"] + ((k, v),)))


def hm_get(ctx, r, k, default=None):
    return hm_getitem(ctx, r, k) if ctx.branch(zb(hm_contains(ctx, r, k))) else default


def hm_setdefault(ctx, r, k, v=None):
    if not ctx.branch(zb(hm_contains(ctx, r, k))):
        ctx.setitem(r, k, v)
    return ctx.getitem(r, k)


for c in ("HMAP", "HSUB"):
    METHODS[(c, "contains")] = hm_contains
    METHODS[(c, "getitem")] = hm_getitem
    METHODS[(c, "setitem")] = hm_setitem
    METHODS[(c, "get")] = hm_get
    METHODS[(c, "setdefault")] = hm_setdefault


def hmap(T, m, subs, tables=()):
    """the mapping before line m"""
    def has(ctx, k):
        for s in tables:
            if ctx.branch(zb(ctx.equal(k, s))):
                return PRES(T, lit(s), iv(m))
        return PRES(T, strs.term(ctx, k), iv(m))

    def value(ctx, k):
        for s, ref in subs.items():
            if ctx.branch(zb(ctx.equal(k, s))):
                return ref
        raise Unsupported("text of an earlier header line")
    return HObj("HMAP", {"log": (), "has": has, "value": value, "upto": m, "subs": subs})


def hsub(T, kind, m):
    def has(ctx, k):
        return SUBHAS(T, lit(kind), strs.term(ctx, k), iv(m))

    def value(ctx, k):
        raise Unsupported("coefficients of an earlier header line")
    return HObj("HSUB", {"log": (), "has": has, "value": value, "upto": m, "of": kind})


# ------------------------------------------------------------ contracts
def c_info_map(ctx, b):
    """the facts of the first line, as entries of the mapping"""
    r = c_info(ctx, b)
    d = ctx.get(r)
    T = ctx.get(b["f"]).text
    info = dict(d.entries)

    def has(ctx, k):
        return Or(*[And(p, ctx.equal(k, x)) for x, (p, v) in info.items()])

    def value(ctx, k):
        for x, (p, v) in info.items():
            if ctx.branch(zb(ctx.equal(k, x))):
                return v
    return ctx.alloc(HObj("HMAP", {"log": (), "has": has, "value": value, "upto": firstk(T) + 1, "subs": {}}))


def c_rsf(ctx, b):
    t = strs.num(ctx, strs.replace(ctx, next(iter(b.values())), "D", "E"))
    strs.is_blank_facts(ctx, t)
    if not ctx.branch(fltok(t)):
        ctx.raise_("ValueError", "not a number")
    return fltval(t)


def number(ctx, L, a, b):
    t = strs.num(ctx, strs.replace(ctx, View(L, a, b), "D", "E"))
    return t


def coefs(ctx, L, kind):
    """the terms of the coefficients on a line, and when they can be read"""
    if kind == IONO:
        gal = ctx.branch(zb(strs.eq_lit(ctx, Strip(View(L, 0, 4)), "GAL")))
        t = [number(ctx, L, 5 + 12 * i, 17 + 12 * i) for i in range(3 if gal else 4)]
        return [fltval(x) for x in t], z3.And(*[fltok(x) for x in t])
    t = [number(ctx, L, 5, 22), number(ctx, L, 22, 38)]
    u = [strs.num(ctx, View(L, 38, 45)), strs.num(ctx, View(L, 45, 50))]
    return [fltval(x) for x in t] + [intval(x) for x in u], z3.And(*[fltok(x) for x in t], *[intok(x) for x in u])


class Lines(LoopInv):
    name = "header-loop"

    def __init__(self, tables=()):
        self.tables = tables

    def applies(self, ctx, node, it):
        if isinstance(node, ast.For):
            if not (isinstance(it, Ref) and ctx.kind(it) == "file"):
                return False
            f = it
        else:
            return False
        hs = [v for v in ctx.frame.vars.values() if isinstance(v, Ref) and v.id in ctx.heap and ctx.kind(v) == "HMAP"]
        if self.busy or not hs:
            return False
        self.f, self.h, self.T = f, hs[0], ctx.get(f).text
        return True

    def entry(self, ctx):
        ctx.oblige("header-starts-after-the-first-line", iv(ctx.get(self.f).cur) == firstk(self.T) + 1)

    def initial(self, ctx):
        return G(m=sx(firstk(self.T) + 1), subs={}, case="start")

    def begin(self, ctx, node):
        m = ctx.fresh("m", I)
        E = EOH(self.T)
        ctx.assume(z3.And(m > firstk(self.T), m <= E, m < nlines(self.T)))
        subs = {}
        g = G(m=m, subs=subs, case="line")
        for k in self.tables:
            if ctx.branch(PRES(self.T, lit(k), m)):
                subs[k] = ctx.alloc(hsub(self.T, k, m))
        return g

    def item(self, ctx, g):
        ln = line(self.T, iv(g.m))
        strs.text_facts(ctx, ln)
        lib.schema_at(ctx, self.T, g.m)
        h = ctx.get(self.f)
        ctx.put(self.f, HFile(self.T, sx(iv(g.m) + 1), h.kind, h.info))
        return View(ln)

    def after(self, ctx, g):
        ctx.oblige("goes-on-only-before-END-OF-HEADER", iv(g.m) < EOH(self.T))
        return G(m=sx(iv(g.m) + 1), subs=g.subs, case="after", line=line(self.T, iv(g.m)))

    def exit(self, ctx):
        ctx.assume(EOH(self.T) == nlines(self.T))
        return G(m=nlines(self.T), subs={}, case="exit")

    def heap(self, ctx, id, rec0, g):
        if isinstance(rec0, HFile):
            return HFile(rec0.text, g.m, rec0.kind, rec0.info)
        if isinstance(rec0, HObj) and rec0.cls == "HMAP":
            return hmap(self.T, g.m, g.subs, self.tables)
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def check_initial(self, ctx, i, rec, g):
        if isinstance(rec, HObj):
            return ctx.oblige("starts-with-the-first-line-only", not rec.attrs["log"])
        records.same_rec(ctx, "header-loop-starts-right", rec, self.heap(ctx, i, rec, g))

    def check_heap(self, ctx, id, rec, rec0, g, g2):
        if isinstance(rec0, HFile):
            return ctx.oblige("one-line-at-a-time", iv(rec.cur) == iv(g2.m))
        if not (isinstance(rec, HObj) and rec.cls == "HMAP"):
            raise Unsupported("header mapping")
        L = g2.line
        lab = label(ctx, L)
        log = rec.attrs["log"]
        ctx.oblige("every-line-is-recorded", bool(log))
        if not log:
            return
        for key, v in log:
            ctx.oblige("under-its-own-label", zb(ctx.equal(key, lab)))
        v = log[-1][1]
        for k in self.tables:
            if ctx.branch(zb(ctx.equal(lab, k))):
                return self.table(ctx, k, L, v, g)
        records.same(ctx, "first-60-columns", v, View(L, 0, 60)) if is_str(v) else ctx.failobl("first-60-columns", f"{v}")

    def table(self, ctx, kind, L, v, g):
        pass


class Lines3(Lines):
    """with coefficient tables"""

    def __init__(self):
        Lines.__init__(self, (IONO, TSC))

    def check_heap(self, ctx, id, rec, rec0, g, g2):
        if isinstance(rec0, HFile):
            return Lines.check_heap(self, ctx, id, rec, rec0, g, g2)
        L = g2.line
        lab = label(ctx, L)
        for k in self.tables:
            if ctx.branch(zb(ctx.equal(lab, k))):
                for key, v in rec.attrs["log"]:
                    ctx.oblige("under-its-own-label", zb(ctx.equal(key, lab)))
                if k in g.subs:
                    last = rec.attrs["log"][-1][1] if rec.attrs["log"] else g.subs[k]
                    ctx.oblige("earlier-coefficients-kept", isinstance(last, Ref) and last == g.subs[k])
                    self.coefficients(ctx, k, L, g.subs[k])
                else:
                    ctx.oblige("table-added", bool(rec.attrs["log"]))
                    if rec.attrs["log"]:
                        self.coefficients(ctx, k, L, rec.attrs["log"][-1][1])
                for k2, r in g.subs.items():
                    if k2 != k:
                        ctx.oblige("other-tables-kept", not ctx.get(r).attrs["log"])
                return
        for k, r in g.subs.items():
            ctx.oblige("other-tables-kept", not ctx.get(r).attrs["log"])
        Lines.check_heap(self, ctx, id, rec, rec0, g, g2)

    def coefficients(self, ctx, kind, L, ref):
        """one entry, under the name in the first four columns"""
        if not isinstance(ref, Ref):
            return ctx.failobl("coefficients", f"{ref}")
        o = ctx.get(ref)
        ck = Strip(View(L, 0, 4))
        if isinstance(o, HObj) and o.cls == "HSUB":
            log = list(o.attrs["log"])
            ctx.oblige("one-new-entry", bool(log))
        else:
            return ctx.failobl("coefficients", f"{o}")
        for key, v in log:
            ctx.oblige("coefficients-under-their-own-name", zb(ctx.equal(key, ck)) if is_str(key) else False)
        if not log:
            return
        v = log[-1][1]
        want, _ = coefs(ctx, L, kind)
        if not isinstance(v, (Ref, tuple)):
            return ctx.failobl("coefficients-exact", f"{v}")
        s = ctx.seq_of(v)
        ctx.oblige("as-many-coefficients", iv(s.n) == len(want))
        for i, b in enumerate(want):
            a = s.fn(i)
            if b.sort() == I:
                ctx.oblige("coefficients-exact", iv(a) == b if is_int(a) else False)
            else:
                ctx.oblige("coefficients-exact", ctx.tofl(a) == b if is_flt(a) else False)


def wellformed(ctx, T, tables):
    E = EOH(T)
    strs.register_lit(ctx, "END OF HEADER")
    for k in tables:
        strs.register_lit(ctx, k)
    ctx.fact(z3.And(firstk(T) >= 0, firstk(T) < nlines(T), E > firstk(T), E <= nlines(T)))

    def schema(c, text, i):
        if not text.eq(T):
            return
        i = iv(i)
        c.fact(z3.Implies(z3.And(i > firstk(T), i < E), Not(iseoh(T, i))))
        c.fact(z3.Implies(z3.And(i == E, i < nlines(T)), iseoh(T, i)))
        for k in tables:
            L = line(T, i)
            lab = zb(strs.eq_lit(c, label(c, L), k))
            if k == IONO:
                gal = zb(strs.eq_lit(c, Strip(View(L, 0, 4)), "GAL"))
                t = [fltok(number(c, L, 5 + 12 * j, 17 + 12 * j)) for j in range(4)]
                ok = z3.And(*t[:3], z3.Or(gal, t[3]))
            else:
                ok = z3.And(*[fltok(number(c, L, a, b)) for a, b in ((5, 22), (22, 38))],
                            *[intok(strs.num(c, View(L, a, b))) for a, b in ((38, 45), (45, 50))])
            c.fact(z3.Implies(z3.And(i > firstk(T), i < E, lab), ok))
    ctx.globals["#lineschemas"] = (schema,)


def header(qual, spec, tables=()):
    def stream(R):
        def setup(ctx):
            ctx.loopspecs = []
            records.install(ctx, spec())
            wellformed(ctx, TEXT, tables)
            f = stream_arg(ctx, "TextIOWrapper")
            return [f], {}, f

        def ens(ctx, f, r):
            if not (isinstance(r, Ref) and ctx.kind(r) == "HMAP"):
                return ctx.failobl("returns-the-mapping", f"{r}")
            o = ctx.get(r)
            E = EOH(TEXT)
            ctx.oblige("all-header-lines", iv(o.attrs["upto"]) == E)
            ctx.oblige("nothing-else", not o.attrs["log"])
            ctx.oblige("stops-behind-END-OF-HEADER", iv(ctx.get(f).cur) == z3.If(E < nlines(TEXT), E + 1, nlines(TEXT)))

        def exc(ctx, f, e):
            ctx.oblige("refused-with-ValueError", e.type == "ValueError")
            ctx.oblige("refused-only-for-its-first-line", Not(okinfo(TEXT)))
        R.verify(qual, setup, ens, exc, contracts={"rio:rinexinfo": c_info_map, "common:rinex_string_to_float": c_rsf}, name=qual + "[stream]")

    def path(R):
        def rec(ctx, b):
            r = VOpq(ctx.fresh("header", Obj), "result")
            ctx.globals["#calls"] = calls(ctx) + (("header", b["f"], r),)
            return r

        def setup(ctx):
            ctx.assume(opens(PATH))
            fn = path_arg(ctx)
            ctx.assume(zb(lib.dyn_is_file(ctx, fn)))
            return [fn], {}, fn

        def ens(ctx, fn, r):
            cs = calls(ctx)
            ok = len(cs) == 1 and cs[0][2] is r and isinstance(cs[0][1], Ref) and ctx.kind(cs[0][1]) == "file"
            ctx.oblige("reads-the-opened-file", ok)
            if ok:
                T = ctx.get(cs[0][1]).text
                ctx.oblige("of-this-path-as-a-header", z3.Or(*[T == text_of(PATH, z3.BoolVal(True))]))
        R.verify(qual, setup, ens, None, contracts={"rio:opener": c_opener, qual: rec}, name=qual + "[path]")

    def task(R):
        stream(R)
        path(R)
    return task


nav2 = header("nav2:navheader2", Lines)
nav3 = header("nav3:navheader3", Lines3, (IONO, TSC))
ASSUMPTIONS = [
    "navigation headers: the numbers of IONOSPHERIC CORR and TIME SYSTEM CORR lines can be read (a table line that cannot be read raises ValueError)",
]
