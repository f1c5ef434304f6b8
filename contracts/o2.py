"""RINEX 2 observation files: ghost record structure, contracts of the helper
functions, invariants of the record loops."""
import ast
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, loops, records, arrays
from pyded.records import LoopInv
from pyded.interp import METHODS
from .common import *
from .recfile import *

NOBS = z3.Function("n_obs_types", FileS, I)


def nl_sv(T):
    return (NOBS(T) + 4) / 5


def nsv(ln):
    return intval(strs.num_term(sub(ln, z3.IntVal(29), z3.IntVal(32))))


def cont(n):
    return z3.If(n > 12, (n - 1) / 12, z3.IntVal(0))


def imin_(a, b):
    return z3.If(a < b, a, b)


class Obs2(RecFile):
    def __init__(self, T):
        RecFile.__init__(self, "obs2", T)

    def nsat(self, m):
        return nsv(self.first(m))

    def lines(self, m):
        n = self.nsat(m)
        return 1 + cont(n) + n * nl_sv(self.T)

    def body(self, m):
        """first line of the satellites' data"""
        return self.start(m) + 1 + cont(self.nsat(m))

    def facts(self, ctx, m):
        L, n = self.first(m), self.nsat(m)
        f = strs.num_term(sub(L, z3.IntVal(29), z3.IntVal(32)))
        ctx.fact(NOBS(self.T) >= 1)
        return [intok(f), n >= 0, n <= 999, clen(L) >= 32 + 3 * imin_(n, z3.IntVal(12))]

    def linefacts(self, ctx, m, i):
        c, n = i - self.start(m) - 1, self.nsat(m)
        return [z3.Implies(z3.And(c >= 0, c < cont(n)),
                           clen(line(self.T, i)) >= 32 + 3 * imin_(n - 12 * (c + 1), z3.IntVal(12)))]


def norm_name(L, k):
    """satellite name in slot k (0..11) of a line; a blank system letter means GPS"""
    a = sx(32 + 3 * iv(k))
    return Ite(at(L, iv(a)) == 32, Cat(("G", View(L, sx(iv(a) + 1), sx(iv(a) + 3)))), View(L, a, sx(iv(a) + 3)))


def name(T, first, i):
    """satellite i of the record whose first line is line `first`"""
    return norm_name(line(T, sx(iv(first) + iv(i) / 12)), sx(iv(i) % 12))


# ------------------------------------------------------------------ call contracts
def c_timeobs(ctx, b):
    t = strs.term(ctx, b["ln"])
    if ctx.branch(Obs2(TEXT).isep(t)):
        return VDT(Obs2(TEXT).ept(t))
    ctx.raise_("ValueError", "not an epoch line")


def seek_contract(ctx, f):
    h = ctx.get(f)
    return h.text, h.cur


def move(ctx, f, k):
    h = ctx.get(f)
    ctx.put(f, HFile(h.text, sx(iv(h.cur) + iv(k)), h.kind, h.info))


def c_skip_header(ctx, b):
    T, cur = seek_contract(ctx, b["f"])
    ctx.oblige("skip-header-from-the-top", iv(cur) == 0)
    ctx.put(b["f"], HFile(T, Obs2(T).hend, ctx.get(b["f"]).kind, ctx.get(b["f"]).info))
    return None


def pre_getsvind(ctx, f, ln):
    """requires: ln is the line before the file position, and it and its
    continuation lines are long enough for the satellites they announce"""
    T, cur = seek_contract(ctx, f)
    L = strs.term(ctx, ln)
    ctx.oblige("satellite-list-of-the-line-just-read", L == line(T, sx(iv(cur) - 1)))
    L = line(T, sx(iv(cur) - 1))
    fld = strs.num_term(sub(L, z3.IntVal(29), z3.IntVal(32)))
    n = nsv(L)
    strs.text_facts(ctx, L)
    ctx.oblige("satellite-list-wellformed", z3.And(intok(fld), n >= 0, clen(L) >= 32 + 3 * imin_(n, z3.IntVal(12))))
    c = ctx.fresh("cont", I)
    lib.schema_at(ctx, T, sx(iv(cur) + c))
    ctx.oblige("satellite-list-wellformed",
               z3.Implies(z3.And(c >= 0, c < cont(n)),
                          clen(line(T, sx(iv(cur) + c))) >= 32 + 3 * imin_(n - 12 * (c + 1), z3.IntVal(12))))
    return T, cur, n


def c_getsvind(ctx, b):
    T, cur, n = pre_getsvind(ctx, b["f"], b["ln"])
    ctx.fact(n >= 0)
    move(ctx, b["f"], cont(n))
    first = sx(iv(cur) - 1)

    def fn(k):
        lib.schema_at(ctx, T, sx(iv(first) + iv(k) / 12))
        return name(T, first, k)
    return ctx.alloc(HList([("seq", Seq(sx(n), fn))]))


def c_getSVlist(ctx, b):
    ln, N, sv = b["ln"], b["N"], b["sv"]
    L = strs.term(ctx, ln)
    strs.text_facts(ctx, L)
    ctx.oblige("room-for-the-satellites", z3.And(iv(N) >= 0, iv(N) <= 12, clen(L) >= 32 + 3 * iv(N)))
    r = ctx.get(sv)
    if r.parts:
        s = ctx.list_seq(r)
        q = ctx.fresh("q", I)
        ctx.assume(z3.And(q >= 0))
        x = s.fn(q)
        ctx.oblige("earlier-names-complete", z3.Implies(q < iv(s.n), z3.And(iv(strs.length(ctx, x)) >= 1,
                                                                            zb(Not(strs.starts_lit(ctx, x, " "))))))
    ctx.put(sv, HList(r.parts + (("seq", Seq(sx(iv(N)), lambda k: norm_name(L, k))),)))
    return sv


def c_skip(ctx, b):
    f, sv = b["f"], b["sv"]
    if sv is None:
        T, cur, n = pre_getsvind(ctx, f, b["ln"])
        k = cont(n) + n * iv(b["Nl_sv"])
    else:
        k = iv(ctx.list_len(ctx.get(sv))) * iv(b["Nl_sv"])
    h = ctx.get(f)
    ctx.oblige("skip-stays-in-the-file", z3.And(iv(h.cur) + k <= nlines(h.text)))
    move(ctx, f, k)
    return None


def c_obsheader2(ctx, b):
    """what the readers rely on (obsheader2 itself is discharged in C16)"""
    f = b["f"]
    ref = header_file(ctx, f)
    T = ref
    if ctx.kind(f) == "file":
        h = ctx.get(f)
        ctx.put(f, HFile(h.text, Obs2(T).hend, h.kind, h.info))
    return ctx.alloc(HDict(header2(ctx, T, b["useindicators"], b["meas"])))


def header_file(ctx, f):
    if ctx.kind(f) == "file":
        return ctx.get(f).text
    p = lib._Path(ctx, (f,), {})
    base = p.term.arg(0) if p.term.decl().name() == "expanduser" else p.term
    if not ctx.branch(zb(lib.dyn_is_file(ctx, p))):
        ctx.raise_("FileNotFoundError", "no such file")
    if not ctx.branch(opens(base)):
        ctx.raise_("ValueError", "not a RINEX text")
    return text_of(base, z3.BoolVal(False))


def header2(ctx, T, useind, meas):
    ctx.fact(NOBS(T) >= 1)
    return {"Nobs": (True, NOBS(T)), "Nl_sv": (True, sx(nl_sv(T)))}


def c_check_unique(ctx, b):
    return ctx.fresh("unique", B)


HELPERS = {"obs2:_timeobs": c_timeobs, "obs2:_skip_header": c_skip_header, "obs2:_getsvind": c_getsvind,
           "obs2:_skip": c_skip, "obs2:obsheader2": c_obsheader2, "rio:opener": c_opener,
           "common:check_unique_times": c_check_unique}


# ------------------------------------------------------------------ helper functions under contract
def helpers(R):
    svlist(R)
    getsvind(R)
    skip(R)
    skip_header(R)


Tq = z3.Const("text", FileS)


def skip_header(R):
    """the first line with END OF HEADER is the last header line"""
    eoh = lambda i: contains(line(Tq, iv(i)), lit("END OF HEADER"))

    def setup(ctx):
        strs.register_lit(ctx, "END OF HEADER")
        f = ctx.alloc(HFile(Tq, 0))
        E = z3.Int("eoh")
        ctx.assume(z3.And(E >= 0, E < nlines(Tq), eoh(E)))

        def schema(c, text, i):
            c.fact(z3.Implies(z3.And(iv(i) >= 0, iv(i) < E), Not(eoh(i))))
        ctx.globals["#lineschemas"] = (schema,)
        return [f], {}, (f, E)

    def ens(ctx, g, r):
        f, E = g
        for n, s in ctx.globals.get("#schemas", ()):
            ctx.fact(zb(s(E)))
        ctx.oblige("stops-after-END-OF-HEADER", iv(ctx.get(f).cur) == E + 1)
    R.verify("obs2:_skip_header", setup, ens, None)


def svlist(R):
    L = z3.Const("ln", Ln)
    old = z3.Function("old_name", I, Ln)
    N, n0 = z3.Ints("N n_old")

    def setup(ctx):
        strs.text_facts(ctx, L)
        ctx.assume(z3.And(N >= 0, N <= 12, n0 >= 0, clen(L) >= 32 + 3 * N))

        def fn(k):
            strs.text_facts(ctx, old(iv(k)))
            ctx.fact(z3.And(lenf(old(iv(k))) >= 1, at(old(iv(k)), z3.IntVal(0)) != 32))
            return View(old(iv(k)))
        sv = ctx.alloc(HList([("seq", Seq(n0, fn))]) if ctx.choose(2) == 0 else HList())
        k = ctx.get(sv).concrete
        return [View(L), N, sv], {}, (sv, 0 if k else n0, fn)

    def ens(ctx, g, r):
        sv, n, fn = g
        if not (isinstance(r, Ref) and ctx.kind(r) == "list"):
            return ctx.oblige("returns-the-list", False)
        s = ctx.list_seq(ctx.get(r))
        ctx.oblige("as-many-satellites", iv(s.n) == iv(n) + N)
        q = ctx.fresh("q", I)
        ctx.assume(z3.And(q >= 0, q < iv(n) + N))
        if ctx.branch(q < iv(n)):
            records.same(ctx, "earlier-satellites-kept", s.fn(q), fn(q))
        else:
            records.same(ctx, "satellite-names-from-their-columns", s.fn(q), norm_name(L, sx(q - iv(n))))
    R.verify("obs2:_getSVlist", setup, ens, None)


class ContLoop(LoopInv):
    """reading continuation lines of the satellite list"""
    name = "satellite-list-loop"

    def __init__(self, f, T, P0, N):
        self.f, self.T, self.P0, self.N = f, T, P0, N

    def applies(self, ctx, node, it):
        return ctx.frame.qual.endswith("_getsvind") and ("readline" in called(node) or "_getSVlist" in called(node))

    def initial(self, ctx):
        return G(c=0)

    def begin(self, ctx, node):
        c = ctx.fresh("c", I)
        ctx.assume(z3.And(c >= 0, z3.Or(c == 0, 12 * c < self.N)))
        if isinstance(node, ast.For):
            self.seq = ctx.seq_of(self.it)
            ctx.assume(c < iv(self.seq.n))
        return G(c=c)

    def item(self, ctx, g):
        return self.seq.fn(g.c)

    def after(self, ctx, g):
        return G(c=sx(iv(g.c) + 1))

    def exit(self, ctx):
        if isinstance(self.it, (Seq, Ref)):
            return G(c=ctx.seq_of(self.it).n)
        c = ctx.fresh("c", I)
        ctx.assume(z3.And(c >= 0, z3.Or(c == 0, 12 * c < self.N)))
        return G(c=c)

    def var(self, ctx, x, init, g):
        if is_int(init):
            return sx(iv(init) - 12 * iv(g.c))
        return Poison(x)

    def heap(self, ctx, id, rec0, g):
        if isinstance(rec0, HFile):
            return HFile(rec0.text, sx(self.P0 + iv(g.c)), rec0.kind, rec0.info)
        if isinstance(rec0, HList):
            def fn(k):
                lib.schema_at(ctx, self.T, sx(self.P0 - 1 + iv(k) / 12))
                return name(self.T, sx(self.P0 - 1), k)
            return HList([("seq", Seq(imin(self.N, sx(12 * (iv(g.c) + 1))), fn))])
        raise Unsupported("satellite list loop")


def svind_setup(ctx):
    P0 = z3.Int("pos")
    L = line(Tq, P0 - 1)
    N = nsv(L)
    strs.text_facts(ctx, L)
    ctx.assume(z3.And(P0 >= 1, P0 <= nlines(Tq)))
    fld = strs.num_term(sub(L, z3.IntVal(29), z3.IntVal(32)))
    ctx.assume(z3.And(intok(fld), N >= 0, clen(L) >= 32 + 3 * imin_(N, z3.IntVal(12))))
    ctx.assume(P0 + cont(N) <= nlines(Tq))

    def schema(c, text, i):
        strs.text_facts(c, line(Tq, iv(i)))
        j = iv(i) - P0
        c.fact(z3.Implies(z3.And(j >= 0, j < cont(N)), clen(line(Tq, iv(i))) >= 32 + 3 * imin_(N - 12 * (j + 1), z3.IntVal(12))))
    ctx.globals["#lineschemas"] = (schema,)
    f = ctx.alloc(HFile(Tq, P0))
    return P0, L, N, f


def getsvind(R):
    def setup(ctx):
        P0, L, N, f = svind_setup(ctx)
        ctx.loopspecs = []
        records.install(ctx, ContLoop(f, Tq, P0, N))
        return [f, View(L)], {}, (P0, L, N, f)

    def ens(ctx, g, r):
        P0, L, N, f = g
        if not (isinstance(r, Ref) and ctx.kind(r) == "list"):
            return ctx.oblige("returns-the-list", False)
        s = ctx.list_seq(ctx.get(r))
        ctx.oblige("as-many-satellites-as-announced", iv(s.n) == N)
        ctx.oblige("exactly-the-continuation-lines-consumed", iv(ctx.get(f).cur) == P0 + cont(N))
        q = ctx.fresh("q", I)
        ctx.assume(z3.And(q >= 0, q < N))
        records.same(ctx, "satellite-names-in-order", s.fn(q), name(Tq, sx(P0 - 1), q))
    R.verify("obs2:_getsvind", setup, ens, None, contracts={"obs2:_getSVlist": c_getSVlist})


def skip(R):
    for form in ("list unread", "list read"):
        def setup(ctx):
            P0, L, N, f = svind_setup(ctx)
            K = z3.Int("lines_per_satellite")
            ctx.assume(K >= 0)
            if form == "list unread":
                ctx.assume(P0 + cont(N) + N * K <= nlines(Tq))
                return [f, View(L), K], {}, (P0 + cont(N) + N * K, f)
            n = z3.Int("n_sats")
            ctx.assume(z3.And(n >= 0, P0 + n * K <= nlines(Tq)))
            sv = ctx.alloc(HList([("seq", Seq(n, lambda k: View(z3.Function("svname", I, Ln)(iv(k)))))]))
            return [f, View(L), K, sv], {}, (P0 + n * K, f)

        def ens(ctx, g, r):
            ctx.oblige("skips-exactly-the-satellites'-lines", clamp(ctx.get(g[1])) == g[0])
        R.verify("obs2:_skip", setup, ens, None, contracts={"obs2:_getsvind": c_getsvind}, name=f"obs2:_skip[{form}]")
