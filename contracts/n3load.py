"""rinexnav3: the record loop, the satellites, the passes over repeated epochs.

A record is an epoch line and 7 (GLONASS, SBAS 3) orbit lines.  Row b is the
b-th record kept; OCC(b) is how many earlier rows have its satellite and epoch.
Pass c of a satellite's loop turns its rows with OCC = c into one dataset.
"""
import ast
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, loops, records, arrays, xr
from pyded.interp import METHODS, MODELS, model
from pyded.records import LoopInv
from replay import lib as table
from .common import *
from .recfile import *
from .nv import Nav3, NL3, c_epoch, c_skip, header_file
from .o2sys import Conf, J, K, LO, HI

OCC = z3.Function("nav3_earlier_copies", I, I)
PREV = z3.Function("nav3_previous_copy", I, I)
NFR = z3.Function("nav3_fields_of_text", Ln, I)         # up to the last character
NFS = z3.Function("nav3_fields_of_satellite", Ln, I)
RUN = z3.Function("nav3_runs_before", I, I)             # runs of rows of one system
FR = z3.Function("nav3_first_row_of_run", I, I)
DUP = z3.Function("nav3_copies_left", I, I, B)          # satellite, pass
DUPW = z3.Function("nav3_copy_left", I, I, I)
USE = {s: z3.Bool("use_" + s) for s in NL3}
METRES = {p + a + s for a in "XYZ" for p, s in (("", ""), ("d", ""), ("d", "2"))}
W = 19


def shapes(s):
    """number of fields -> the parameters they are"""
    out = {}
    for n, names in table.NAV3SHAPES[s].items():
        out[n] = list(names) if not (s == "J" and n == 28) else list(table.NAV3F[s][:29])
    return out


def places(s, n):
    """(line, column) of every field of a record of n fields, and the number on each line
    (None: nothing is said about the line's width)"""
    names, full = table.NAV3SHAPES[s][n], list(table.NAV3F[s])
    mid = any(f not in names for f in full[:full.index(names[-1])])
    at_, cnt = [], {}
    for f in full:
        i = full.index(f)
        r = 0 if i < 3 else 1 + (i - 3) // 4
        if f in names:
            j = cnt.get(r, 0)
            at_.append((r, (23 if r == 0 else 4) + W * j))
            cnt[r] = j + 1
    last = max(cnt)
    width = {}
    for r, g in cnt.items():
        if r < last:
            top = 3 if r == 0 else 4
            width[r] = ("whole",) if g == top else ("ends", 4 + W * g)
    return at_, width, last


class UseSet:
    pass


def use_contains(ctx, o, x):
    if isinstance(x, str):
        return USE.get(x, False)
    return Or(*[And(ctx.equal(x, s), c) for s, c in USE.items()])


METHODS[("USESET", "contains")] = use_contains


class Nav3K(Nav3):
    cut = False

    def __init__(self, T, cf, use):
        Nav3.__init__(self, T)
        self.cf, self.use = cf, use

    def kept(self, m):
        m = iv(m)
        out = [m >= 0, m < self.n]
        if self.cf.tlim:
            out += [self.epoch(m) >= LO, self.epoch(m) <= HI]
        if self.use:
            out.append(z3.Or(*[z3.And(self.sys(m) == ord(s), c) for s, c in USE.items()]))
        return z3.And(*out)

    def facts(self, ctx, m):
        return Nav3.facts(self, ctx, m) + [lenf(self.first(m)) >= 23]

    def norb(self, s):
        return NL3[s]

    def orb(self, m, r):
        return line(self.T, sx(self.start(m) + r))

    def raw(self, m, norb):
        de = lambda r, a: View(replDE(nonl(self.orb(m, r))), a, 80)
        return Cat([de(0, 23)] + [de(r, 4) for r in range(1, norb + 1)])

    def rawt(self, ctx, m):
        """the joined text as one term, per number of lines"""
        m = iv(m)
        memo = ctx.memos.setdefault("nav3-raw-terms", {})
        key = (self.T.get_id(), m.get_id())

        def make():
            memo[key] = self.rawt_(ctx, m), m
        ctx.remember("nav3-raw", (self.T, m), make)
        return memo[key][0]

    def rawt_(self, ctx, m):
        c = self.sys(m)
        for n in (3, 7):
            for r in range(n + 1):
                strs.text_facts(ctx, replDE(nonl(self.orb(m, r))))
        return z3.If(z3.Or(c == ord("R"), c == ord("S")), strs.term(ctx, self.raw(m, 3)), strs.term(ctx, self.raw(m, 7)))

    def label(self, m):
        return View(self.first(m), 0, 3)

    def lab(self, ctx, m):
        """the satellite's name as it is compared: blanks are zeros"""
        return strs.replace(ctx, self.label(m), " ", "0")

    def well(self, ctx, m):
        m = iv(m)
        ctx.remember("nav3-well", (self.T, m), lambda: self.well_(ctx, m))

    def well_(self, ctx, m):
        RecFile.well(self, ctx, m)
        inr = z3.And(m >= 0, m < self.n)
        ctx.fact(z3.Implies(inr, self.start(m) + self.lines(m) <= self.start(m + 1)))
        t = strs.term(ctx, self.lab(ctx, m))
        # only blanks change
        ctx.fact(z3.Implies(inr, z3.And(lenf(t) == 3, at(t, z3.IntVal(0)) == self.sys(m))))
        ctx.fact(J(z3.IntVal(0)) == 0)
        ctx.fact(J(m) >= 0)
        ctx.fact(z3.Implies(inr, z3.And(J(m + 1) == J(m) + z3.If(self.kept(m), 1, 0), z3.Implies(self.kept(m), K(J(m)) == m))))

    def row(self, ctx, b, m=None):
        """row b among the rows of the first m records (all of them)"""
        b = iv(b)
        m = self.n if m is None else iv(m)
        ctx.fact(z3.Implies(z3.And(b >= 0, b < J(m), m <= self.n), z3.And(K(b) >= 0, K(b) < m, J(K(b)) == b, self.kept(K(b)))))


# ------------------------------------------------------------------ call contracts
def header3(ctx, T):
    L = line(T, firstk(T))
    strs.text_facts(ctx, L)
    ctx.assume(lenf(L) > 40)
    e = {"version": (True, VOpq(z3.Function("hdr_version", FileS, Obj)(T), "hdr")), "filetype": (True, "N"), "rinextype": (True, "nav")}
    corr = {}
    for k in IONO:
        v = z3.Function("hdr_iono_" + k, FileS, I, Fl)
        corr[k] = (z3.Function("hdr_has_" + k, FileS, B)(T), ctx.alloc(HList([("item", v(T, z3.IntVal(i))) for i in range(IONO[k])])))
    e["IONOSPHERIC CORR"] = (z3.Function("hdr_has_iono", FileS, B)(T), ctx.alloc(HDict(corr)))
    return e


IONO = {"GPSA": 4, "GPSB": 4, "GAL": 3, "QZSA": 4, "QZSB": 4, "BDSA": 4, "BDSB": 4, "IRNA": 4, "IRNB": 4}


def c_header3(ctx, b):
    T = header_file(ctx, b["f"])
    h = ctx.get(b["f"])
    ctx.put(b["f"], HFile(h.text, Nav3(T).hend, h.kind, h.info))
    return ctx.alloc(HDict(header3(ctx, T)))


def c_fields(ctx, b):
    s = b["sv_sys"]
    if not isinstance(s, str):
        raise Unsupported("layout of a system that is not fixed")
    if s not in NL3:
        ctx.raise_("ValueError", s)
    return ctx.alloc(HList([("item", x) for x in table.NAV3F[s]]))


def c_sparefields(ctx, b):
    cf, s, N = b["cf"], b["sys"], b["N"]
    got = ctx.concrete_items(cf)
    if not isinstance(s, str):
        raise Unsupported("layout of a system that is not fixed")
    ctx.oblige("layout-of-its-own-system", list(got) == list(table.NAV3F.get(s, ())))
    for n, names in shapes(s).items():
        if ctx.branch(sx(iv(N) == n)):
            ctx.globals["#shape"] = (s, n)
            return ctx.alloc(HList([("item", x) for x in names]))
    ctx.raise_("ValueError", "number of fields")


def c_num_fields(ctx, b):
    return NFR(strs.term(ctx, b["raw"]))


# ------------------------------------------------------------------ the record loop
class Loop3(Records):
    def __init__(self, cf, use, roles):
        self.cf, self.use, self.roles = cf, use, roles

    def make(self, T):
        return Nav3K(T, self.cf, self.use)

    def begin(self, ctx, node):
        g = Records.begin(self, ctx, node)
        rf = self.rf
        ctx.globals["#chars"] = ()
        if g.case == "record":
            s = "GCRSJEI"[ctx.choose(7)]
            ctx.assume(rf.sys(g.m) == ord(s))
            g.s = s
            ctx.globals["#chars"] = ((rf.first(g.m), 0, s),)
            self.runfacts(ctx, J(iv(g.m)), g.m)
        else:
            # blank lines end the reading
            nl = strs.starts_lit(ctx, View(line(self.T, iv(g.P))), "\n")
            ctx.assume(z3.Implies(iv(g.m) < rf.n, z3.Not(zb(nl))))
        return g

    def runfacts(self, ctx, b, m):
        """runs of one system among the rows before b and at b"""
        rf = self.rf
        b = iv(b)
        for x in (b - 1, b):
            rf.row(ctx, x, m)
        lt = lambda x: rf.sys(K(x))
        ctx.fact(RUN(z3.IntVal(0)) == 0)
        new = z3.Or(b == 0, lt(b) != lt(b - 1))
        ctx.fact(z3.Implies(b >= 0, z3.And(RUN(b) >= 0, (RUN(b) == 0) == (b == 0), RUN(b + 1) == RUN(b) + z3.If(new, 1, 0),
                                           z3.Implies(new, FR(RUN(b)) == b))))
        # the last run before b is the one row b-1 is in
        f = FR(RUN(b) - 1)
        ctx.fact(z3.Implies(b > 0, z3.And(f >= 0, f < b, lt(f) == lt(b - 1))))
        rf.well(ctx, K(f))
        rf.well(ctx, K(b - 1))
        rf.row(ctx, f, m)

    def after(self, ctx, g):
        g2 = Records.after(self, ctx, g)
        self.rf.well(ctx, g.m)
        self.rf.well(ctx, g2.m)
        return g2

    join = True

    def joined(self, ctx, g):
        ctx.assume(iv(g.m) == self.rf.n)      # obliged in done
        return G(m=self.rf.n, P=self.rf.n, case="end", i=0)

    def done(self, ctx, g, broke):
        rf = self.rf
        rf.well(ctx, g.m)
        if broke:
            ctx.oblige("stops-early-only-behind-the-last-record", iv(g.m) == rf.n)
        ctx.globals["#rows3"] = J(rf.n)
        ctx.globals["#rf3"] = rf
        ctx.globals["#chars"] = ()
        self.runfacts(ctx, J(rf.n), rf.n)

    def observe(self, ctx, paths, heap0):
        for p in paths:
            for i, r in p.state[1].items():
                if i in heap0 and r is not heap0[i] and isinstance(r, HList) and r.parts and r.parts[-1][0] == "item":
                    x = r.parts[-1][1]
                    if isinstance(x, VDT):
                        self.roles[i] = "time"
                    elif isinstance(x, str) or isinstance(x, View) and sx(iv(x.b) - iv(x.a)) == 1:
                        self.roles[i] = "system"
                    elif isinstance(x, View):
                        self.roles[i] = "sat"
                    elif isinstance(x, Cat):
                        self.roles[i] = "raw"

    def initial(self, ctx):
        self.runfacts(ctx, z3.IntVal(0), self.rf.n)
        return Records.initial(self, ctx)

    def hasl(self, ctx, s, b):
        """a row of system s among the first b"""
        f = z3.Function("nav3_has_system_" + s, I, B)
        b = iv(b)
        ctx.fact(z3.Not(f(z3.IntVal(0))))
        ctx.fact(z3.Implies(b > 0, f(b) == z3.Or(f(b - 1), self.rf.sys(K(b - 1)) == ord(s))))
        return f(b)

    def state(self, ctx, id, rec0, g):
        rf = self.rf
        b = J(iv(g.m))
        if isinstance(rec0, HDict):
            e = {}
            for s in NL3:
                e[s] = (self.hasl(ctx, s, b), ctx.alloc(HList([("item", x) for x in table.NAV3F[s]])))
            return HDict(e)
        if not isinstance(rec0, HList):
            raise Unsupported(f"loop changes a {type(rec0).__name__}")
        role = self.roles.get(id)

        def at_(q):
            m = K(iv(q))
            rf.well(ctx, m)
            rf.row(ctx, q, g.m)
            return m

        def raw(q):
            return View(rf.rawt(ctx, at_(q)))
        fn = {"time": lambda q: VDT(rf.epoch(at_(q))), "sat": lambda q: rf.lab(ctx, at_(q)), "raw": raw}.get(role)
        if fn:
            return HList([("seq", Seq(b, fn))])
        if role == "system":
            return HList([("seq", Seq(RUN(b), lambda q: View(rf.first(at_(FR(iv(q)))), 0, 1)))])
        raise Unsupported("a list of something else")

    def check_initial(self, ctx, i, rec, g):
        if isinstance(rec, HDict):
            return ctx.oblige("no-layout-known-at-first", not rec.entries and not rec.layers and not rec.base)
        Records.check_initial(self, ctx, i, rec, g)

    def check_state(self, ctx, id, rec, rec0, g, g2):
        if isinstance(rec0, HDict):
            want = self.state(ctx, id, rec0, g2)
            for s in NL3:
                p, v = rec.entries.get(s, (False, None))
                ctx.oblige("layout-known-for-the-systems-seen", zb(p) == zb(want.entries[s][0]))
                if p is not False:
                    ctx.oblige("layout-of-its-own-system", ctx.kind(v) == "list" and list(ctx.concrete_items(v)) == list(table.NAV3F[s]))
            return ctx.oblige("layout-known-for-the-systems-seen", set(rec.entries) <= set(NL3) and not rec.layers)
        if isinstance(rec0, HList) and g.case == "record":
            self.runfacts(ctx, J(iv(g2.m)), g2.m)
        Records.check_state(self, ctx, id, rec, rec0, g, g2)


# ------------------------------------------------------------------ rows and copies
def lt(rf, b):
    return rf.sys(K(iv(b)))


def labt(ctx, rf, b):
    return strs.term(ctx, rf.lab(ctx, K(iv(b))))


def rowf(ctx, b):
    """row b: its record, its copies, its number of fields"""
    b = iv(b)
    sat = (strs.term(ctx, ctx.globals["#sat3"][2]),) if "#sat3" in ctx.globals else ()
    ctx.remember("nav3-row", (b, ctx.globals["#rows3"]) + sat, lambda: rowf_(ctx, b))


def rowf_(ctx, b):
    rf, n = ctx.globals["#rf3"], ctx.globals["#rows3"]
    b = iv(b)
    m = K(b)
    rf.well(ctx, m)
    rf.row(ctx, b)
    inr = z3.And(b >= 0, b < n)
    p = PREV(b)
    rf.well(ctx, K(p))
    rf.row(ctx, p)
    ctx.fact(z3.Implies(inr, z3.And(OCC(b) >= 0, z3.Implies(OCC(b) > 0, z3.And(p >= 0, p < b, same(ctx, rf, p, b), OCC(p) == OCC(b) - 1)))))
    if "#sat3" in ctx.globals:
        # three equal characters make equal names
        v = ctx.globals["#sat3"][2]
        t, tv = labt(ctx, rf, b), strs.term(ctx, v)
        ctx.fact(z3.Implies(z3.And(inr, lenf(tv) == 3, *[at(t, z3.IntVal(i)) == at(tv, z3.IntVal(i)) for i in range(3)]), t == tv))
    # all records of one satellite give the same number of fields, one the layout knows
    t = rf.rawt(ctx, m)
    ctx.fact(z3.Implies(inr, NFR(t) == NFS(labt(ctx, rf, b))))
    for s in NL3:
        ctx.fact(z3.Implies(z3.And(inr, lt(rf, b) == ord(s)), z3.And(z3.Or(*[NFR(t) == k for k in table.NAV3SHAPES[s]]),
                                                                       z3.Function("nav3_has_system_" + s, I, B)(n))))


def same(ctx, rf, a, b):
    return z3.And(labt(ctx, rf, a) == labt(ctx, rf, b), rf.epoch(K(iv(a))) == rf.epoch(K(iv(b))))


def later(ctx, a, b):
    """a later row of the same satellite and epoch is a later copy"""
    rf, n = ctx.globals["#rf3"], ctx.globals["#rows3"]
    a, b = iv(a), iv(b)
    ctx.fact(z3.Implies(z3.And(a >= 0, b < n, a < b, same(ctx, rf, a, b)), OCC(a) < OCC(b)))


def mono(ctx, fl, a, b):
    """filters keep the order (base indices a, b)"""
    for x in (a, b):
        loops.filter_facts(ctx, fl, b=x)
    ok = lambda x: z3.And(iv(x) >= 0, iv(x) < iv(fl.n), zb(fl.pred(iv(x))))
    ctx.fact(z3.Implies(z3.And(ok(a), ok(b)), (iv(a) < iv(b)) == (fl.rank(iv(a)) < fl.rank(iv(b)))))


def piece(ctx, t, k):
    return strs.num(ctx, View(t, sx(W * iv(k)), sx(W * iv(k) + W)))


def row_pieces(ctx, b, s, n):
    """the fields of row b, a record of system s with n fields"""
    rf = ctx.globals["#rf3"]
    m = K(iv(b))
    t = strs.term(ctx, rf.raw(m, NL3[s]))
    ok = z3.And(iv(b) >= 0, iv(b) < ctx.globals["#rows3"], rf.sys(m) == ord(s), NFR(t) == n)
    pl = places(s, n)[0]
    for k in range(len(shapes(s)[n])):
        a = piece(ctx, t, k)
        strs.is_blank_facts(ctx, a)
        if k < n:
            r, c = pl[k]
            f = strs.num(ctx, View(replDE(rf.orb(m, r)), c, c + W))
            strs.is_blank_facts(ctx, f)
            ctx.fact(z3.Implies(ok, z3.And(a == f, z3.Or(blank(f), fltok(f)))))
        else:
            ctx.fact(z3.Implies(ok, blank(a)))


def cell(ctx, b, s, n, f):
    """parameter f of row b, a record of system s with n fields"""
    rf = ctx.globals["#rf3"]
    names = shapes(s)[n]
    if f not in names:
        return NaN
    k = names.index(f)
    m = K(iv(b))
    if k >= n:
        v = flit(0.0)
    else:
        r, c = places(s, n)[0][k]
        t = strs.num(ctx, View(replDE(rf.orb(m, r)), c, c + W))
        v = z3.If(blank(t), flit(0.0), fltval(t))
    if s in "RS" and f in METRES:
        v = ctx.tofl(ctx.binop(ast.Mult(), v, 1000))
    return v


# ------------------------------------------------------------------ the satellites
class Satellites(LoopInv):
    """the datasets of the first u satellites are merged"""
    name = "satellite-loop"

    def __init__(self, only=None):
        self.only = only

    def applies(self, ctx, node, it):
        if self.busy or not isinstance(node, ast.For) or "#rf3" not in ctx.globals:
            return False
        try:
            s = ctx.seq_of(it)
        except Exception:
            return False
        us = [u for u, _ in ctx.globals.get("#uniq", {}).values() if isinstance(u.s.fn(z3.Int("q!sat")), View)]
        if len(us) != 1 or s.filt is not None or not is_z3(sx(s.n)):
            return False
        self.seq, self.svu = s, us[0]
        return True

    def entry(self, ctx):
        ctx.oblige("every-satellite-is-read", iv(self.seq.n) == self.svu.U)
        ctx.oblige("satellites-of-all-rows", iv(self.svu.s.n) == ctx.globals["#rows3"])

    def initial(self, ctx):
        return G(u=0, c=0)

    def begin(self, ctx, node):
        u = ctx.fresh("u", I)
        ctx.assume(z3.And(u >= 0, u < self.svu.U))
        s = self.only if self.only else "GCRSJEI"[ctx.choose(7)]
        v = self.svu.value(ctx, u)
        b = self.svu.wit(u)
        rowf(ctx, b)
        rf = ctx.globals["#rf3"]
        ctx.assume(at(strs.term(ctx, v), z3.IntVal(0)) == ord(s))
        ctx.globals["#chars"] = ((strs.term(ctx, v), 0, s),)
        ctx.globals["#sat3"] = (u, s, v, b)
        return G(u=u, c=0, s=s)

    def item(self, ctx, g):
        return self.seq.fn(g.u)

    def after(self, ctx, g):
        return G(u=sx(iv(g.u) + 1), c=0)

    def exit(self, ctx):
        ctx.globals["#chars"] = ()
        return G(u=self.svu.U, c=0)

    def heap(self, ctx, id, rec0, g):
        if isinstance(rec0, HObj) and rec0.cls in ("XDS", "NFOLD"):
            return nfold(ctx, g.u, g.c)
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def check_initial(self, ctx, id, rec, g):
        ok = isinstance(rec, HObj) and rec.cls == "XDS"
        if ok:
            v = ctx.get(rec.attrs["vars"])
            ok = v.concrete and not v.items()
            for k, (p, x) in ctx.get(rec.attrs["coords"]).entries.items():
                ok = ok and sx(ctx.list_len(ctx.get(x))) == 0
        ctx.oblige("starts-from-an-empty-dataset", ok)

    def check_heap(self, ctx, id, rec, rec0, g, g2):
        if not (isinstance(rec, HObj) and rec.cls == "NFOLD"):
            return ctx.failobl("every-copy-of-the-satellite-is-merged", str(rec))
        u, c = rec.attrs["at"]
        ctx.oblige("every-satellite-is-merged-once", iv(u) == iv(g.u))
        # no row of the satellite is left for a later pass
        rf = ctx.globals["#rf3"]
        s0 = ctx.save()
        b = ctx.fresh("row", I)
        rowf(ctx, b)
        ctx.assume(z3.And(b >= 0, b < ctx.globals["#rows3"], labt(ctx, rf, b) == strs.term(ctx, ctx.globals["#sat3"][2])))
        dup_facts(ctx, iv(u), iv(c), b)
        if ctx.feasible(b >= 0):
            ctx.oblige("every-copy-of-the-satellite-is-merged", OCC(b) < iv(c))
        ctx.pc, ctx.factset = list(s0[0]), set(s0[7])

    def done(self, ctx, g, broke):
        if broke:
            ctx.oblige("every-satellite-is-read", False)
        ctx.globals["#satdone"] = self


def dup_facts(ctx, u, c, b=None):
    """DUP(u, c): a row of satellite u is a copy with c or more before it (c = 0: the first pass is due)"""
    rf, n = ctx.globals["#rf3"], ctx.globals["#rows3"]
    lab = strs.term(ctx, ctx.globals["#sat3"][2])
    w = DUPW(u, c)
    rowf(ctx, w)
    ctx.fact(DUP(u, z3.IntVal(0)))
    ctx.fact(z3.Implies(z3.And(c > 0, DUP(u, c)), z3.And(w >= 0, w < n, labt(ctx, rf, w) == lab, OCC(w) >= c)))
    if b is not None:
        ctx.fact(z3.Implies(z3.And(c > 0, b >= 0, b < n, labt(ctx, rf, b) == lab, OCC(b) >= c), DUP(u, c)))
    return w


def nfold(ctx, u, c):
    """the merged datasets of the passes before pass c of satellite u"""
    return HObj("NFOLD", {"at": (u, c), "attrs": ctx.alloc(HDict())})


def fold_len(ctx, o):
    u, c = ctx.get(o).attrs["at"]
    n = ctx.fresh("n_variables", I)
    ctx.assume(z3.And(n >= 0, (n == 0) == z3.And(iv(u) == 0, iv(c) == 0)))
    return n


METHODS[("attr", "NFOLD", "attrs")] = lambda ctx, o: ctx.get(o).attrs["attrs"]
METHODS[("len", "NFOLD")] = fold_len
METHODS[("len", "XDS")] = lambda ctx, o: len(ctx.get(ctx.get(o).attrs["vars"]).items())


_merge = MODELS["xarray.merge"]


@model("xarray.merge")
def merge(ctx, a, kw):
    parts = ctx.concrete_items(a[0])
    if any(ctx.kind(p) == "NFOLD" for p in parts):
        if kw or len(a) != 1:
            raise Unsupported("merge options")
        ctx.trusted.add("xarray.merge: union of the labels, each cell from the dataset that has it")
        return ctx.alloc(HObj("NMERGE", {"parts": tuple(ctx.get(p) for p in parts), "attrs": ctx.alloc(HDict())}))
    return _merge(ctx, a, kw)


class Passes(LoopInv):
    """pass c: the rows with c copies before them"""
    name = "pass-loop"
    by_test = True

    def __init__(self, outer, inner):
        self.outer, self.inner = outer, inner

    def applies(self, ctx, node, it):
        if self.busy or not self.outer.busy or not isinstance(node, ast.While):
            return False
        self.mask = [v for v in ctx.frame.vars.values() if isinstance(v, Ref) and v.id in ctx.heap and isinstance(ctx.get(v), HArr)
                     and len(ctx.get(v).shape) == 1 and ctx.get(v).dtype == "bool"]
        if len(self.mask) != 1:
            return False
        self.mask = self.mask[0]
        return True

    def entry(self, ctx):
        self.u, self.s, self.v, self.b = ctx.globals["#sat3"]
        lab = strs.term(ctx, self.v)
        # the filter of the satellite's rows
        rf = ctx.globals["#rf3"]
        self.fl = loops.get_filter(ctx, ctx.globals["#rows3"], lambda k: zb(strs.eq(ctx, rf.lab(ctx, K(iv(k))), self.v)))
        ctx.oblige("one-mark-per-row-of-the-satellite", iv(ctx.get(self.mask).shape[0]) == self.fl.count)

    def initial(self, ctx):
        dup_facts(ctx, self.u, z3.IntVal(0))
        return G(u=self.u, c=0)

    def check_initial(self, ctx, id, rec, g):
        if isinstance(rec, HObj):
            ok = rec.cls == "NFOLD"
            return ctx.oblige("pass-loop-starts-right", z3.And(iv(rec.attrs["at"][0]) == iv(self.u), iv(rec.attrs["at"][1]) == 0) if ok else False)
        if isinstance(rec, HArr):
            s0 = ctx.save()
            j = ctx.fresh("jj", I)
            ctx.assume(z3.And(j >= 0, j < self.fl.count))
            if ctx.feasible(j >= 0):
                ctx.oblige("pass-loop-starts-right", zb(arrays.read(ctx, rec, (j,))) == zb(arrays.read(ctx, self.heap(ctx, id, rec, g), (j,))))
            ctx.pc, ctx.factset = list(s0[0]), set(s0[7])
            return
        LoopInv.check_initial(self, ctx, id, rec, g)

    def begin(self, ctx, node):
        c = ctx.fresh("pass", I)
        ctx.assume(c >= 0)
        dup_facts(ctx, self.u, c)
        ctx.globals["#pass3"] = c
        # the first record of the satellite tells the number of fields
        loops.filter_facts(ctx, self.fl, b=self.b)
        loops.filter_facts(ctx, self.fl, q=z3.IntVal(0))
        rowf(ctx, self.fl.unrank(z3.IntVal(0)))
        return G(u=self.u, c=c)

    def var(self, ctx, x, init, g):
        if isinstance(init, bool):
            return DUP(self.u, iv(g.c))
        if isinstance(init, int):
            return g.c
        return Poison(f"{x} is carried by the loop")

    def check_var(self, ctx, x, got, want, g, g2):
        if is_bool(want):
            return self.check_dup(ctx, got, g, g2)
        records.same(ctx, "passes-are-counted", got, want)

    def heap(self, ctx, id, rec0, g):
        if isinstance(rec0, HObj):
            return nfold(ctx, g.u, g.c)
        if isinstance(rec0, HArr) and len(rec0.shape) == 1:
            def mark(ix):
                loops.filter_facts(ctx, self.fl, q=ix[0])
                b = self.fl.unrank(iv(ix[0]))
                rowf(ctx, b)
                return OCC(b) >= iv(g.c)
            return HArr(rec0.shape, "bool", mark)
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def after(self, ctx, g):
        return G(u=self.u, c=sx(iv(g.c) + 1))

    def masked(self, ctx):
        """the filter of the rows of this pass and later ones, and their epochs"""
        c = ctx.globals["#pass3"]
        fl2 = loops.get_filter(ctx, self.fl.count, lambda k: OCC(self.fl.unrank(iv(k))) >= c)
        us = [u for u, s in ctx.globals.get("#uniq", {}).values() if isinstance(u.s.fn(z3.Int("q!time")), VDT) and
              ctx.valid(iv(u.s.n) == fl2.count)]
        if len(us) != 1:
            raise Unsupported("epochs of the pass")
        return fl2, us[0]

    def check_dup(self, ctx, got, g, g2):
        fl2, u2 = self.masked(ctx)
        s0 = ctx.save()
        w = dup_facts(ctx, self.u, iv(g2.c))
        self.chain(ctx, w, fl2, u2)
        for q in u2.dup:
            j = fl2.unrank(q)
            loops.filter_facts(ctx, fl2, q=q)
            loops.filter_facts(ctx, self.fl, q=j)
            rowf(ctx, self.fl.unrank(j))
        ja, jb = [fl2.unrank(q) for q in u2.dup]
        mono(ctx, fl2, ja, jb)
        ba, bb = self.fl.unrank(ja), self.fl.unrank(jb)
        mono(ctx, self.fl, ba, bb)
        later(ctx, ba, bb)
        dup_facts(ctx, self.u, iv(g2.c), bb)
        ctx.oblige("another-pass-while-copies-are-left", zb(got) == DUP(self.u, iv(g2.c)))
        ctx.pc, ctx.factset = list(s0[0]), set(s0[7])

    def chain(self, ctx, b, fl2, u2):
        """row b of the satellite, the copy before it, the first marked row of its epoch"""
        rowf(ctx, b)
        bp = PREV(b)
        rowf(ctx, bp)
        for x in (b, bp):
            loops.filter_facts(ctx, self.fl, b=x)
        j, jp = self.fl.rank(b), self.fl.rank(bp)
        for x in (j, jp):
            loops.filter_facts(ctx, self.fl, q=x)
            loops.filter_facts(ctx, fl2, b=x)
        mono(ctx, self.fl, bp, b)
        mono(ctx, fl2, jp, j)
        r, rp = fl2.rank(j), fl2.rank(jp)
        for x in (r, rp):
            loops.filter_facts(ctx, fl2, q=x)
            u2.item(ctx, x)
        q = u2.pos(r)
        r1 = u2.wit(q)
        loops.filter_facts(ctx, fl2, q=r1)
        u2.item(ctx, r1)
        j1 = fl2.unrank(r1)
        loops.filter_facts(ctx, self.fl, q=j1)
        b1 = self.fl.unrank(j1)
        rowf(ctx, b1)
        mono(ctx, fl2, j1, j)
        mono(ctx, self.fl, b1, b)
        later(ctx, b1, b)
        return q

    def check_heap(self, ctx, id, rec, rec0, g, g2):
        fl2, u2 = self.masked(ctx)
        if isinstance(rec0, HArr):
            if not isinstance(rec, HArr):
                return ctx.failobl("rows-of-the-pass-are-done", type(rec).__name__)
            s0 = ctx.save()
            j = ctx.fresh("jj", I)
            ctx.assume(z3.And(j >= 0, j < self.fl.count))
            loops.filter_facts(ctx, self.fl, q=j)
            b = self.fl.unrank(j)
            q = self.chain(ctx, b, fl2, u2)
            ctx.globals["#posq"] = ctx.globals.get("#posq", ()) + (q,)
            got = arrays.read(ctx, rec, (j,))
            fx = [x for x in named(zb(got), "pos")]
            for x in fx:
                u2.item(ctx, u2.wit(x))
                u2.value(ctx, x)
            want = OCC(b) >= iv(g2.c)
            if ctx.feasible(j >= 0):
                ctx.oblige("rows-of-the-pass-are-done", zb(got) == want)
            ctx.globals["#posq"] = ctx.globals["#posq"][:-1]
            ctx.pc, ctx.factset = list(s0[0]), set(s0[7])
            return
        if isinstance(rec0, HObj):
            return self.check_fold(ctx, rec, g, fl2, u2)
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def check_fold(self, ctx, rec, g, fl2, u2):
        at_ = rec.attrs.get("at") if isinstance(rec, HObj) and rec.cls == "NFOLD" else None
        if at_ is None and isinstance(rec, HObj) and rec.cls == "NMERGE":
            parts = rec.attrs["parts"]
        elif isinstance(rec, HObj) and rec.cls == "XDS":
            parts = (None, rec)
            ctx.oblige("nothing-merged-is-dropped", z3.And(iv(g.u) == 0, iv(g.c) == 0))
        else:
            return ctx.failobl("one-dataset-per-pass", str(rec))
        if len(parts) != 2:
            return ctx.failobl("one-dataset-per-pass", f"{len(parts)} datasets")
        if parts[0] is not None:
            fs = [p for p in parts if p.cls == "NFOLD"]
            if len(fs) != 1:
                return ctx.failobl("one-dataset-per-pass", str(parts))
            ctx.oblige("nothing-merged-is-dropped", z3.And(iv(fs[0].attrs["at"][0]) == iv(g.u), iv(fs[0].attrs["at"][1]) == iv(g.c)))
            ds = [p for p in parts if p.cls == "XDS"]
            if len(ds) != 1:
                return ctx.failobl("one-dataset-per-pass", str(parts))
        else:
            ds = [rec]
        self.check_ds(ctx, ds[0], g, fl2, u2)

    def check_ds(self, ctx, h, g, fl2, u2):
        rf, n = ctx.globals["#rf3"], ctx.globals["#rows3"]
        c = iv(g.c)
        co = ctx.get(h.attrs["coords"]).entries
        if set(co) != {"time", "sv"}:
            return ctx.failobl("coordinates", str(set(co)))
        tm, sv = ctx.seq_of(co["time"][1]), ctx.seq_of(co["sv"][1])
        ctx.oblige("one-satellite-name-per-pass", iv(sv.n) == 1)
        nm = sv.fn(0)
        s0 = ctx.save()
        want = strs.cat(self.v, "_", ctx.format(c, ""))
        for first in (True, False):
            ctx.pc, ctx.factset = list(s0[0]), set(s0[7])
            ctx.assume(c == 0 if first else c > 0)
            if ctx.feasible(c >= 0):
                x = nm
                while isinstance(x, Ite):
                    x = x.x if ctx.valid(zb(x.c)) else x.y
                ctx.oblige("later-copies-under-suffixed-names", strs.term(ctx, x) == strs.term(ctx, self.v if first else want))
        # ---- every row of the pass has its epoch in the table
        ctx.pc, ctx.factset = list(s0[0]), set(s0[7])
        b = ctx.fresh("row", I)
        ctx.assume(z3.And(b >= 0, b < n, labt(ctx, rf, b) == strs.term(ctx, self.v), OCC(b) == c))
        if ctx.feasible(b >= 0):
            q = self.chain(ctx, b, fl2, u2)
            ctx.oblige("epoch-of-every-row-of-the-pass", z3.And(q >= 0, q < iv(tm.n), iv(tm.fn(q).us) == rf.epoch(K(b))))
        # ---- every epoch of the table is that of a row of the pass, with the row's values
        ctx.pc, ctx.factset = list(s0[0]), set(s0[7])
        q = ctx.fresh("it", I)
        ctx.assume(z3.And(q >= 0, q < iv(tm.n)))
        s, k = ctx.globals["#shape"]
        full = list(table.NAV3F[s])
        vs = ctx.get(h.attrs["vars"])
        ctx.oblige("one-variable-per-parameter", vs.concrete and {x[0] for x in vs.items()} == set(full))
        if ctx.feasible(q >= 0):
            u2.value(ctx, q)
            r = u2.wit(q)
            loops.filter_facts(ctx, fl2, q=r)
            j = fl2.unrank(r)
            loops.filter_facts(ctx, self.fl, q=j)
            b = self.fl.unrank(j)
            rowf(ctx, b)
            self.chain(ctx, b, fl2, u2)
            ctx.oblige("rows-of-the-pass-only", z3.And(b >= 0, b < n, labt(ctx, rf, b) == strs.term(ctx, self.v), OCC(b) == c,
                                                       rf.epoch(K(b)) == iv(tm.fn(q).us)))
            row_pieces(ctx, b, s, k)
            ref = ctx.alloc(h)
            for f in full:
                v = xr.find(ctx, ref, f)
                if v is None:
                    ctx.failobl("parameter-present", f)
                    continue
                a = v[2].h if isinstance(v[2], Frozen) else None
                if not isinstance(a, HArr) or len(a.shape) != 2:
                    ctx.failobl("variables-over-time-and-satellite", f)
                    continue
                ctx.oblige("variables-over-time-and-satellite", v[1] == ("time", "sv"))
                ctx.oblige("table-shape", z3.And(iv(a.shape[0]) == iv(tm.n), iv(a.shape[1]) == 1))
                ctx.oblige(f"{f}-from-its-own-columns", ctx.tofl(arrays.read(ctx, a, (q, 0))) == cell(ctx, b, s, k, f))
        ctx.pc, ctx.factset = list(s0[0]), set(s0[7])

    def done(self, ctx, g, broke):
        if broke:
            ctx.oblige("every-copy-of-the-satellite-is-merged", False)


def named(t, prefix):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args():
            if x.decl().name().startswith(prefix) and x.decl().name()[len(prefix):].isdigit():
                out.append(x)
            todo.extend(x.children())
    return out


class Cells(LoopInv):
    """the first j rows of the table are filled in"""
    name = "row-loop"

    def __init__(self):
        self.outer = None

    def applies(self, ctx, node, it):
        if self.busy or self.outer is None or not self.outer.busy or not isinstance(node, ast.For):
            return False
        tabs = [v for v in ctx.frame.vars.values() if isinstance(v, Ref) and v.id in ctx.heap and isinstance(ctx.get(v), HArr) and len(ctx.get(v).shape) == 2]
        try:
            s = ctx.seq_of(it)
        except Exception:
            return False
        if len(tabs) != 1 or not is_z3(sx(s.n)) or "#shape" not in ctx.globals:
            return False
        self.tab, self.seq = tabs[0], s
        return True

    def entry(self, ctx):
        self.fl = self.outer.fl
        self.sk = ctx.globals["#shape"]
        sh = ctx.get(self.tab).shape
        ctx.oblige("one-row-per-record-of-the-satellite", z3.And(iv(self.seq.n) == self.fl.count, iv(sh[0]) == self.fl.count,
                                                                  iv(sh[1]) == len(table.NAV3F[self.sk[0]])))

    def initial(self, ctx):
        return G(j=0)

    def begin(self, ctx, node):
        j = ctx.fresh("j", I)
        ctx.assume(z3.And(j >= 0, j < self.fl.count))
        loops.filter_facts(ctx, self.fl, q=j)
        b = self.fl.unrank(j)
        rowf(ctx, b)
        rf = ctx.globals["#rf3"]
        self.same_shape(ctx, b)
        row_pieces(ctx, b, *self.sk)
        return G(j=j)

    def same_shape(self, ctx, b):
        """the satellite's letter and number of fields are this row's"""
        rowf(ctx, ctx.globals["#sat3"][3])

    def item(self, ctx, g):
        return self.seq.fn(g.j)

    def after(self, ctx, g):
        return G(j=sx(iv(g.j) + 1))

    def exit(self, ctx):
        return G(j=self.fl.count)

    def raw_cell(self, ctx, j, col):
        """column col of the record's row, before the change of units"""
        s, k = self.sk
        b = self.fl.unrank(iv(j))
        rf = ctx.globals["#rf3"]
        names, full = shapes(s)[k], list(table.NAV3F[s])
        loops.filter_facts(ctx, self.fl, q=j)
        rowf(ctx, b)
        t = strs.term(ctx, rf.raw(K(b), NL3[s]))
        out = NaN
        for c, f in enumerate(full):
            if f in names:
                x = piece(ctx, t, names.index(f))
                v = z3.If(blank(x), flit(0.0), fltval(x))
                if isinstance(sx(col), int):
                    if sx(col) == c:
                        return v
                else:
                    out = z3.If(iv(col) == c, v, out)
        return out

    def heap(self, ctx, id, rec0, g):
        if isinstance(rec0, HArr) and len(rec0.shape) == 2:
            return HArr(rec0.shape, rec0.dtype, lambda ix: z3.If(iv(ix[0]) < iv(g.j), self.raw_cell(ctx, ix[0], ix[1]), NaN))
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def generic(self, ctx, label, rec, want):
        s0 = ctx.save()
        j = ctx.fresh("jj", I)
        ctx.assume(z3.And(j >= 0, j < self.fl.count))
        if ctx.feasible(j >= 0):
            loops.filter_facts(ctx, self.fl, q=j)
            b = self.fl.unrank(j)
            rowf(ctx, b)
            row_pieces(ctx, b, *self.sk)
            for c in range(len(table.NAV3F[self.sk[0]])):
                ctx.oblige(label, ctx.tofl(arrays.read(ctx, rec, (j, c))) == ctx.tofl(arrays.read(ctx, want, (j, c))))
        ctx.pc, ctx.factset = list(s0[0]), set(s0[7])

    def check_initial(self, ctx, id, rec, g):
        self.generic(ctx, "cells-start-as-NaN", rec, self.heap(ctx, id, rec, g))

    def check_heap(self, ctx, id, rec, rec0, g, g2):
        if not isinstance(rec, HArr):
            return ctx.failobl("record-goes-to-its-own-row", type(rec).__name__)
        self.generic(ctx, "record-goes-to-its-own-row", rec, self.heap(ctx, id, rec0, g2))

    def done(self, ctx, g, broke):
        if broke:
            ctx.oblige("every-row-is-read", False)


# ------------------------------------------------------------------ the function
def ensures(cf, use, path):
    def f(ctx, T, r):
        h = ctx.get(r)
        S = ctx.globals.get("#satdone")
        if S is None:
            return ctx.failobl("reads-the-records", "no loop over the satellites was found")
        if not (isinstance(h, HObj) and h.cls == "NFOLD"):
            return ctx.failobl("returns-the-merged-dataset", str(h))
        u, c = h.attrs["at"]
        ctx.oblige("every-satellite-is-merged", z3.And(iv(u) == S.svu.U, iv(c) == 0))
        rf, n = ctx.globals["#rf3"], ctx.globals["#rows3"]
        s0 = ctx.save()
        b = ctx.fresh("row", I)
        ctx.assume(z3.And(b >= 0, b < n))
        rowf(ctx, b)
        if ctx.feasible(b >= 0):
            p = S.svu.item(ctx, b)
            ctx.oblige("satellite-of-every-record", z3.And(p >= 0, p < S.svu.U, zb(strs.eq(ctx, S.svu.value(ctx, p), rf.lab(ctx, K(b))))))
        ctx.pc, ctx.factset = list(s0[0]), set(s0[7])
        e = ctx.get(h.attrs["attrs"]).entries
        ctx.oblige("rinextype-attribute", e.get("rinextype", (0, 0))[1] == "nav")
        ctx.oblige("filename-attribute", ("filename" in e) == path)
        ctx.oblige("version-attribute", isinstance(e.get("version", (0, 0))[1], VOpq) and e["version"][1].term.eq(z3.Function("hdr_version", FileS, Obj)(T)))
        has = lambda k: z3.And(z3.Function("hdr_has_iono", FileS, B)(T), z3.Function("hdr_has_" + k, FileS, B)(T))
        for nm, ks in (("GPS", ("GPSA", "GPSB")), ("GAL", ("GAL",)), ("QZS", ("QZSA", "QZSB")), ("BDS", ("BDSA", "BDSB")), ("IRN", ("IRNA", "IRNB"))):
            a = e.get("ionospheric_corr_" + nm)
            ctx.oblige("ionospheric-coefficients-when-given", z3.And(*[has(k) for k in ks]) == zb(a[0] if a else False))
            if a:
                s = ctx.seq_of(a[1])
                want = [z3.Function("hdr_iono_" + k, FileS, I, Fl)(T, z3.IntVal(i)) for k in ks for i in range(IONO[k])]
                ctx.oblige("ionospheric-coefficients-in-order", sx(s.n) == len(want) and
                           all(is_z3(s.fn(i)) and s.fn(i).eq(w) for i, w in enumerate(want)))
    return f


def joined(s):
    """lemma: 19 columns of the joined text are the field's own columns of its own line"""
    def task(R):
        T, m = z3.Const("text", FileS), z3.Int("m")
        rf = Nav3K(T, Conf(), False)
        for n in shapes(s):
            def body(ctx, n=n):
                ctx.assume(z3.And(m >= 0, m < rf.n))
                at_, width, last = places(s, n)
                ctx.globals["#lengths"] = (W, 2 * W, 3 * W)
                for r in range(NL3[s] + 1):
                    strs.text_facts(ctx, replDE(nonl(rf.orb(m, r))))
                    c = clen(rf.orb(m, r))
                    if r in width:
                        ctx.assume(c >= 80 if width[r][0] == "whole" else c == width[r][1])
                    elif r == last:
                        # the last field is whole
                        g = max(x for q, x in at_ if q == r)
                        ctx.assume(c >= g + 1)
                    else:
                        ctx.assume(c <= 4)          # an empty line behind the last field
                for k in range(n):
                    a = strs.num(ctx, strs.slice_(ctx, rf.raw(m, NL3[s]), W * k, W * k + W))
                    r, c = at_[k]
                    b = strs.num(ctx, View(replDE(rf.orb(m, r)), c, c + W))
                    for t in (a, b):
                        strs.is_blank_facts(ctx, t)
                    ctx.oblige("joined-text-keeps-every-field", a == b)
            R.argue(f"nav3-record[{s},{n} fields]", body)
    return task


CONTRACTS = {"nav3:_time": c_epoch(Nav3), "nav3:_skip": c_skip, "nav3:navheader3": c_header3, "nav3:_fields": c_fields,
             "nav3:_sparefields": c_sparefields, "nav3:_num_fields": c_num_fields, "rio:opener": c_opener}


def main(form, use=False, only=None, **conf):
    cf = Conf(**conf)

    def task(R):
        roles = {}

        def setup(ctx):
            ctx.loopspecs = []
            cells = Cells()
            sats = Satellites(only)
            ps = Passes(sats, cells)
            cells.outer = ps
            records.install(ctx, Loop3(cf, use, roles), cells, ps, sats)
            kw = {"tlim": (VDT(LO), VDT(HI)) if cf.tlim else None}
            if use:
                kw["use"] = ctx.alloc(HObj("USESET", {}))
            if form == "path":
                ctx.assume(opens(PATH))
                fn = path_arg(ctx)
                ctx.assume(zb(lib.dyn_is_file(ctx, fn)))
                ctx.assume(lib.pis_file(lib.pexpand(PATH)))
                return [fn], kw, text_of(PATH, z3.BoolVal(False))
            return [stream_arg(ctx)], kw, TEXT
        R.verify("nav3:rinexnav3", setup, ensures(cf, use, form == "path"), None, contracts=CONTRACTS,
                 name=f"nav3:rinexnav3[{cf}{',use' if use else ''}{',' + only if only else ''};{form}]")
    return task


TASKS = [(f"rinexnav3-{s}", main("path" if s in "GER" else "stream", only=s)) for s in "GCRSJEI"]
TASKS += [("rinexnav3-joined", lambda R: [joined(s)(R) for s in NL3])]
# time limits and systems only matter to the record loop (all systems are covered there)
TASKS += [("rinexnav3-tlim", main("stream", only="R", tlim=True)), ("rinexnav3-use", main("path", use=True, only="R"))]
THOROUGH = [(f"rinexnav3-both-{s}", main("stream", use=True, only=s, tlim=True)) for s in "GCRSJEI"]
ASSUMPTIONS = [
    "RINEX 3 navigation records: an epoch line and 7 (GLONASS, SBAS 3) orbit lines; all records of one satellite have the same number of "
    "fields, one that _sparefields knows; lines before the last field are whole, or end with their last field where a spare is missing; "
    "every field is blank or a number; lines between records carry no epoch and only blank lines follow the last record",
    "rinexnav3 is verified against the contracts of _time, _skip, _fields, _sparefields and _num_fields, which are proved on their own; "
    "what navheader3 returns is used by its contract (discharged in C16): the version and the ionospheric coefficients as lists of 4 (Galileo 3) numbers",
    "xarray.merge is trusted: all labels, each cell from the dataset that has it",
    "satellites with the same system letter and number, blank or zero padded, are one satellite",
]
