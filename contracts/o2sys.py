"""rinexsystem2: the record loop and its result, one satellite system of a
RINEX 2 observation file."""
import ast
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, loops, records, arrays, xr
from pyded.interp import METHODS, MODELS
from .common import *
from .recfile import *
from . import o2

SYSTEM = z3.Const("system", Ln)
CP, CB, CS = z3.Ints("cell_page cell_row cell_sat")     # a generic cell
LO, HI, IVL = z3.Ints("t_lo t_hi interval")
J = z3.Function("kept_before", I, I)      # records kept among the first m
K = z3.Function("kept_record", I, I)      # record behind row b
WR = z3.Function("in_window_before", I, I)
STOP = z3.Int("first_past_stop")
NF = z3.Int("n_selected")
SEL = z3.Function("selected_obs", I, I)
OBSNAME = z3.Function("obs_type", FileS, I, Ln)
FOUND = z3.Function("sat_observed", I, I, B)      # record's line, satellite
SATA = z3.Function("sat_slot", I, I, I)


class Conf:
    """one configuration of options; None marks what is left out"""

    def __init__(self, ind=False, meas=False, tlim=False, ivl=False, fast=False):
        self.ind, self.meas, self.tlim, self.ivl, self.fast = ind, meas, tlim, ivl, fast

    def __str__(self):
        return ",".join(k for k, v in self.__dict__.items() if v) or "plain"


CI = z3.Int("cell_observable")


def pages(cf):
    """the pages of the data array, as values of the generic observable CI"""
    return [sx(3 * CI + c) for c in range(3)] if cf.ind else [CP]


def cell_range(ctx, cp, arr):
    ctx.assume(z3.And(CI >= 0, iv(cp) >= 0, iv(cp) < iv(arr.shape[0]), CB >= 0, CB < iv(arr.shape[1]), CS >= 0, CS < iv(arr.shape[2])))


def sel(cf, q):
    return SEL(iv(q)) if cf.meas else iv(q)


def nf(cf, T):
    return NF if cf.meas else o2.NOBS(T)


def sat_facts(ctx, T, first, k):
    """satellite k of the record at line `first`: two-digit numbers, each satellite once"""
    first, k = iv(first), iv(k)
    L = line(T, first)
    n = o2.nsv(L)
    ln, c = line(T, sx(first + k / 12)), sx(32 + 3 * (k % 12))
    mine = z3.If(at(ln, iv(c)) == 32, at(SYSTEM, 0) == ord("G"), at(ln, iv(c)) == at(SYSTEM, 0))
    num = strs.num_term(sub(ln, sx(iv(c) + 1), sx(iv(c) + 3)))
    inr = z3.And(k >= 0, k < n)
    ctx.fact(z3.Implies(inr, z3.And(intok(num), intval(num) >= 1, intval(num) <= 99)))
    ctx.fact(z3.Implies(z3.And(inr, mine, intval(num) == CS + 1), z3.And(FOUND(first, CS), SATA(first, CS) == k)))
    return mine, num


def cell_facts(ctx, T, first):
    first = iv(first)
    a = SATA(first, CS)
    mine, num = sat_facts(ctx, T, first, a)
    ctx.fact(z3.Implies(FOUND(first, CS), z3.And(a >= 0, a < o2.nsv(line(T, first)), mine, intval(num) == CS + 1)))


def field(ctx, T, first, a, u, c):
    """what observable u's field says: c 0 value, 1 loss of lock, 2 signal strength"""
    first, a, u = iv(first), iv(a), iv(u)
    n = o2.nsv(line(T, first))
    ln = line(T, sx(first + 1 + o2.cont(n) + a * o2.nl_sv(T) + u / 5))
    strs.text_facts(ctx, ln)
    col = 16 * (u % 5)
    lo, hi = [(col, col + 14), (col + 14, col + 15), (col + 15, col + 16)][c]
    v = View(ln, sx(lo), sx(hi))
    bl = zb(strs.is_blank(ctx, v))
    t = strs.num(ctx, v)
    strs.is_blank_facts(ctx, t)
    return bl, t


def factors(t, out, depth=0):
    if z3.is_app(t) and t.sort() == I and depth < 30:
        if t.decl().kind() == z3.Z3_OP_MUL:
            for c in t.children():
                if not z3.is_int_value(c):
                    out[c.get_id()] = c
        for c in t.children():
            factors(c, out, depth + 1)


def numbers(rf, m):
    """precondition: an observation field is blank or a number, its two flags blank or a digit"""
    def hook(ctx, t, kind):
        if kind != "float" or t.decl().name() != "sub" or t.arg(0).decl().name() != "line":
            return
        T, l = t.arg(0).children()
        if not T.eq(rf.T):
            return
        first = iv(rf.start(m))
        n = o2.nsv(line(T, first))
        cand = {}
        factors(l, cand)
        lo, hi = t.arg(1), t.arg(2)
        for a in list(cand.values())[:6]:
            r = l - (first + 1 + o2.cont(n) + a * o2.nl_sv(T))
            isdata = z3.And(a >= 0, a < n, r >= 0, r < o2.nl_sv(T))
            c = lo % 16
            cols = z3.And(lo >= 0, lo < 80, z3.Or(z3.And(c == 0, hi == lo + 14), z3.And(c == 14, hi == lo + 1), z3.And(c == 15, hi == lo + 1)))
            v = View(t.arg(0), sx(lo), sx(hi))
            ctx.fact(z3.Implies(z3.And(isdata, cols), z3.Or(zb(strs.is_blank(ctx, v)), fltok(t))))
    return hook


def value(ctx, cf, T, rf, b, p, s=CS):
    """the number cell (page p, satellite s) of record b must hold"""
    first = rf.start(b)
    cell_facts(ctx, T, first)
    a = SATA(first, iv(s))
    p = iv(p)
    i, c = (divsimp(p / 3), divsimp(p % 3)) if cf.ind else (p, z3.IntVal(0))
    u = sel(cf, i)
    vals = []
    for cc in ((0, 1, 2) if cf.ind else (0,)):
        bl, t = field(ctx, T, first, a, u, cc)
        vals.append(z3.If(bl, NaN, fltval(t)))
    if cf.ind:
        nm = View(OBSNAME(T, u))
        strs.text_facts(ctx, nm.base)
        isS, isL = zb(strs.starts_lit(ctx, nm, "S")), zb(strs.starts_lit(ctx, nm, "L"))
        v = z3.If(c == 0, vals[0], z3.If(isS, NaN, z3.If(c == 2, vals[2], z3.If(isL, vals[1], NaN))))
    else:
        v = vals[0]
    return z3.If(z3.And(i < nf(cf, T), FOUND(first, iv(s))), v, NaN)


class Keep:
    """which records a reading keeps: time limits and decimation"""

    def inwin(self, m):
        m = iv(m)
        return z3.And(m >= 0, m < STOP, self.epoch(m) >= LO if self.cf.tlim else z3.BoolVal(True))

    def kept(self, m):
        m = iv(m)
        w = self.inwin(m)
        if self.cf.ivl:
            w = z3.And(w, z3.Or(J(m) == 0, self.epoch(m) >= self.epoch(K(z3.IntVal(0))) + J(m) * IVL))
        return w

    def defs(self, m):
        """definitions of the ghost counters at m: where reading stops, records kept
        among the first m, the record behind a row, records inside the window"""
        m = iv(m)
        inr = z3.And(m >= 0, m < self.n)
        out = [z3.And(STOP >= 0, STOP <= self.n), J(z3.IntVal(0)) == 0, WR(z3.IntVal(0)) == 0]
        if self.cf.tlim:
            past = z3.And(self.epoch(m) >= LO, self.epoch(m) > HI)
            out.append(z3.Implies(inr, z3.And(z3.Implies(m < STOP, z3.Not(past)), z3.Implies(m == STOP, past))))
        else:
            out.append(STOP == self.n)
        inw = z3.And(self.epoch(m) >= LO, self.epoch(m) <= HI) if self.cf.tlim else z3.BoolVal(True)
        out.append(z3.Implies(inr, z3.And(J(m + 1) == J(m) + z3.If(self.kept(m), 1, 0), z3.Implies(self.kept(m), K(J(m)) == m))))
        out.append(z3.Implies(inr, WR(m + 1) == WR(m) + z3.If(inw, 1, 0)))
        return out

    def keep_facts(self, ctx, m):
        m = iv(m)
        inr = z3.And(m >= 0, m < self.n)
        for f in self.defs(m):
            ctx.fact(f)
        # by induction over the records (o2parts.lemmas)
        ctx.fact(J(m) >= 0)
        ctx.fact(z3.Implies(z3.And(m >= 0, m <= self.n), z3.And(J(m) <= WR(m), WR(m) <= WR(self.n))))
        ctx.fact(z3.Implies(inr, WR(m + 1) <= WR(self.n)))
        self.row(ctx, z3.IntVal(0), m)

    def row(self, ctx, b, m):
        """row b among the rows of the first m records"""
        b, m = iv(b), iv(m)
        ctx.fact(z3.Implies(z3.And(b >= 0, b < J(m), m <= self.n), z3.And(K(b) >= 0, K(b) < m, J(K(b)) == b)))


class Sys2(Keep, o2.Obs2):
    def __init__(self, T, cf):
        o2.Obs2.__init__(self, T)
        self.cf = cf

    def well(self, ctx, m):
        o2.Obs2.well(self, ctx, m)
        self.keep_facts(ctx, m)


def named(t, prefix):
    """applications in t of functions whose name starts so"""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args():
            if x.decl().name().startswith(prefix):
                out.append(x)
            todo.extend(x.children())
    return out


class SysLoop(Records):
    name = "record-loop"

    def __init__(self, cf):
        self.cf = cf

    def make(self, T):
        return Sys2(T, self.cf)

    def begin(self, ctx, node):
        g = Records.begin(self, ctx, node)
        ctx.assume(z3.And(iv(g.m) <= STOP, J(iv(g.m)) <= ctx.globals["#rows"]))
        ctx.globals["#numhooks"] = tuple(ctx.globals.get("#numhooks", ())) + (numbers(self.rf, g.m),)
        return g

    def exit(self, ctx):
        g = Records.exit(self, ctx)
        self.rf.well(ctx, self.rf.n)
        ctx.assume(z3.And(iv(g.m) <= STOP, J(iv(g.m)) <= ctx.globals["#rows"]))
        return g

    def after(self, ctx, g):
        g2 = Records.after(self, ctx, g)
        self.rf.well(ctx, g.m)
        self.rf.well(ctx, g2.m)
        ctx.oblige("reading-stops-at-the-first-epoch-past-the-end", iv(g2.m) <= STOP)
        ctx.oblige("a-row-for-every-kept-epoch", J(iv(g2.m)) <= ctx.globals["#rows"])
        return g2

    def done(self, ctx, g, broke):
        ctx.globals["#final"] = g
        self.rf.well(ctx, g.m)
        if broke:
            ctx.oblige("stops-early-only-past-the-end-of-the-window", iv(g.m) == STOP)

    def var(self, ctx, x, init, g):
        if init is None or isinstance(init, VDT):
            if not self.cf.ivl:
                return None
            if ctx.branch(J(iv(g.m)) == 0):
                return None
            return VDT(sx(self.rf.epoch(K(z3.IntVal(0))) + (J(iv(g.m)) - 1) * IVL))
        if is_int(init):
            return sx(iv(init) + J(iv(g.m)))
        return Poison(x)

    def check_var(self, ctx, x, got, want, g, g2):
        if want is None or isinstance(want, VDT):
            label = "decimation-reference-epoch"
        else:
            label = "row-counter-counts-the-kept-epochs"
        records.same(ctx, label, got, want)

    def state(self, ctx, id, rec0, g):
        rf = self.rf
        if isinstance(rec0, HArr) and len(rec0.shape) == 1:
            def times(ix):
                e = rf.epoch(K(iv(ix[0])))
                try:
                    old = rec0.base(ix) if not rec0.ovl else arrays.read(ctx, rec0, ix)
                    old = iv(old.us)
                except Unsupported:
                    old = z3.Function("unset_time", I, I)(iv(ix[0]))
                return VDT(z3.If(iv(ix[0]) < J(iv(g.m)), e, old))
            return HArr(rec0.shape, rec0.dtype, times)
        if isinstance(rec0, HArr) and len(rec0.shape) == 3:
            def cells(ix):
                p, b, s = ix
                return z3.If(z3.And(iv(b) >= 0, iv(b) < J(iv(g.m))), value(ctx, self.cf, self.T, rf, K(iv(b)), p, s), NaN)
            return HArr(rec0.shape, rec0.dtype, cells)
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def check_initial(self, ctx, i, rec, g):
        if isinstance(rec, HArr) and len(rec.shape) == 3:
            self.cell(ctx, rec, rec, g, "cells-start-as-NaN")

    def cell(self, ctx, rec, rec0, g2, label, g=None):
        for cp in pages(self.cf):
            s0 = ctx.save()
            cell_range(ctx, cp, rec0)
            if g is not None:
                # the place the cell's satellite has in the record's list
                cell_facts(ctx, self.T, self.rf.start(g.m))
                self.rf.row(ctx, CB, g.m)
                a = SATA(self.rf.start(g.m), CS)
                for fl in ctx.globals.get("#filters", ()):
                    loops.filter_facts(ctx, fl, b=a)
                    arrays.witness(ctx, fl.rank(a))
            got = arrays.read(ctx, rec, (cp, CB, CS))
            want = self.state(ctx, 0, rec0, g2).base((cp, CB, CS))
            if g is None:
                ctx.oblige(label, divsimp(ctx.tofl(got) == want))
            else:
                self.cases(ctx, label, ctx.tofl(got), want, g)
            ctx.pc, ctx.factset = list(s0[0]), set(s0[7])

    def cases(self, ctx, label, got, want, g):
        """got == want, row by row: rows before this record's, its own, later ones"""
        m = iv(g.m)
        first = iv(self.rf.start(m))
        a, fo = SATA(first, CS), FOUND(first, CS)
        for row in (CB < J(m), CB == J(m), CB > J(m)):
            for seen in (fo, z3.Not(fo)):
                s0 = ctx.save()
                ctx.assume(row)
                ctx.assume(seen)
                if ctx.feasible(row):
                    goal = got == want
                    if row.decl().kind() == z3.Z3_OP_EQ:
                        goal = z3.substitute(goal, (CB, J(m)))
                        yes = seen.eq(fo)
                        rw = [(K(J(m)), m)] + [(f, z3.BoolVal(yes)) for f in named(goal, "found")]
                        if yes:
                            rw += [(u, a) for u in named(goal, "unrank")]
                        for l, r in rw:
                            if l.sort() == r.sort() and ctx.proves(l == r):
                                goal = z3.substitute(goal, (l, r))
                                ctx.fact(l == r)
                        goal = z3.substitute(goal, (fo, z3.BoolVal(yes)))
                    ctx.oblige(label, divsimp(goal))
                ctx.pc, ctx.factset = list(s0[0]), set(s0[7])

    def check_state(self, ctx, id, rec, rec0, g, g2):
        if isinstance(rec0, HArr) and len(rec0.shape) == 3:
            return self.cell(ctx, rec, rec0, g2, "each-cell-is-its-record's-field", g)
        if isinstance(rec0, HArr) and len(rec0.shape) == 1:
            s0 = ctx.save()
            ctx.assume(z3.And(CB >= 0, CB < iv(rec0.shape[0]), CB < J(iv(g2.m))))
            self.rf.row(ctx, CB, g.m)
            got = arrays.read(ctx, rec, (CB,))
            records.same(ctx, "each-row's-time-is-its-record's-epoch", got, VDT(self.rf.epoch(K(CB))))
            ctx.pc, ctx.factset = list(s0[0]), set(s0[7])
            return
        Records.check_state(self, ctx, id, rec, rec0, g, g2)


# ------------------------------------------------------------------ call contracts
def c_getsvind(ctx, b):
    r = o2.c_getsvind(ctx, b)
    s = ctx.list_seq(ctx.get(r))
    T, cur = o2.seek_contract(ctx, b["f"])
    first = None
    L = strs.term(ctx, b["ln"])
    P = L.arg(1)

    def fn(k):
        sat_facts(ctx, T, P, k)
        return s.fn(k)
    ctx.put(r, HList([("seq", Seq(s.n, fn))]))
    return r


def c_skip(ctx, b):
    return o2.c_skip(ctx, b)


def header(cf):
    def c(ctx, b):
        f = b["f"]
        T = o2.header_file(ctx, f)
        NO = o2.NOBS(T)
        ctx.fact(NO >= 1)
        ctx.globals["#hdr"] = T
        hs = z3.Function("hdr_systems", FileS, Ln)(T)
        strs.text_facts(ctx, hs)
        ctx.fact(lenf(hs) == 1)
        if cf.meas:
            ctx.fact(z3.And(NF >= 0, NF <= NO))

        def ob(q):
            u = sel(cf, q)
            ctx.fact(z3.Implies(z3.And(iv(q) >= 0, iv(q) < nf(cf, T)), z3.And(u >= 0, u < NO)))
            strs.text_facts(ctx, OBSNAME(T, u))
            return View(OBSNAME(T, u))

        def si(q):
            u = sel(cf, q)
            ctx.fact(z3.Implies(z3.And(iv(q) >= 0, iv(q) < nf(cf, T)), z3.And(u >= 0, u < NO)))
            return sx(u)
        n = sx(nf(cf, T))
        fields = ctx.alloc(HList([("seq", Seq(n, ob))]))
        ind = ctx.alloc(HArr((n,), "int", lambda ix: si(ix[0])))
        hB = lambda nm: z3.Function("hdr_has_" + nm, FileS, B)(T)
        o = lambda nm: VOpq(z3.Function("hdr_" + nm, FileS, Obj)(T), "hdr")
        return ctx.alloc(HDict({
            "systems": (True, View(hs)), "Nobs": (True, NO), "Nl_sv": (True, sx(o2.nl_sv(T))),
            "fields": (True, fields), "fields_ind": (True, ind), "Nobsused": (True, sx(NO * 3 if cf.ind else NO)),
            "version": (True, o("version")), "interval": (hB("interval"), o("interval")), "position": (hB("position"), o("position")),
            "position_geodetic": (hB("position_geodetic"), o("position_geodetic")), "rxmodel": (hB("rxmodel"), o("rxmodel"))}))
    return c


def c_fast_alloc(ctx, b):
    ctx.oblige("lines-per-satellite-positive", iv(b["Nl_sv"]) >= 1)
    n = ctx.fresh("Nextra", I)
    ctx.fact(n >= 0)
    return n


def num_times(cf):
    def c(ctx, b):
        T = ctx.globals["#hdr"]
        rf = Sys2(T, cf)
        if ctx.branch(iv(b["Nextra"]) > 0):
            n = ctx.fresh("Nt", I)
            ctx.fact(n >= 0)
            ctx.globals["#rows"] = n

            def base(ix):
                raise Unsupported("time that was never set")
            return ctx.alloc(HArr((n,), "object", base))
        rf.well(ctx, rf.n)
        u = z3.Function("window_time", I, I)
        lim = b["tlim"]
        if lim is not None:
            ctx.oblige("preallocated-for-the-limits-asked-for", cf.tlim and identical(lim[0].us, LO) and identical(lim[1].us, HI))
        rows = WR(rf.n) if lim is not None or not cf.tlim else rf.n
        # as many rows as records, or as records inside the limits (o2parts.num_times, lemmas)
        ctx.fact(z3.And(WR(rf.n) >= 0, WR(rf.n) <= rf.n))
        ctx.globals["#rows"] = rows
        return ctx.alloc(HArr((rows,), "datetime64[us]", lambda ix: VDT(u(iv(ix[0])))))
    return c


def c_interval(ctx, b):
    x = b["interval"]
    if x is None or isinstance(x, VTD):
        return x
    raise Unsupported("interval in another form")


def c_nothing(ctx, b):
    return None


def c_time_system(ctx, b):
    ctx.globals["#ts"] = b["header"]
    return VOpq(z3.Const("time_system", Obj), "hdr")


def contracts(cf):
    c = dict(o2.HELPERS)
    c.update({"obs2:_getsvind": c_getsvind, "obs2:obsheader2": header(cf), "obs2:_fast_alloc": c_fast_alloc,
              "obs2:_num_times": num_times(cf), "common:check_time_interval": c_interval, "common:check_ram": c_nothing,
              "common:determine_time_system": c_time_system})
    return c


def setup(cf):
    def f(ctx, fn, T):
        records.install(ctx, SysLoop(cf))
        strs.text_facts(ctx, SYSTEM)
        ctx.assume(lenf(SYSTEM) == 1)
        if cf.ivl:
            ctx.assume(IVL >= 0)
        args = [fn, View(SYSTEM)]
        kw = {"tlim": (VDT(LO), VDT(HI)) if cf.tlim else None, "useindicators": cf.ind,
              "meas": ctx.alloc(HList([("item", View(z3.Const("meas0", Ln)))])) if cf.meas else None,
              "fast": cf.fast, "interval": VTD(IVL) if cf.ivl else None}
        return args, kw, T
    return f


# ------------------------------------------------------------------ the result
LLI = ("L1", "L2", "L5")
NOSSI = ("S1", "S2", "S5")


def hdr_opq(T, nm):
    return VOpq(z3.Function("hdr_" + nm, FileS, Obj)(T), "hdr")


def hdr_has(T, nm):
    return z3.Function("hdr_has_" + nm, FileS, B)(T)


def label(ctx, v):
    """a label with its number written out"""
    def lits(p):
        if isinstance(p, View) and p.base.decl().name() == "fmt:02d" and isinstance(sx(p.base.arg(0)), int):
            return f"{sx(p.base.arg(0)):02d}"
        return p
    if isinstance(v, Cat):
        return cat(*[lits(p) for p in v.parts])
    return lits(v)


def attr(ctx, d, key):
    """(present, value) of an attribute"""
    e = ctx.get(d)
    if e.base is not None or e.layers:
        raise Unsupported("attributes of an unknown mapping")
    return e.entries.get(key, (False, None))


def ensures(cf, path):
    def f(ctx, T, r):
        hs = z3.Function("hdr_systems", FileS, Ln)(T)
        listed = z3.Or(zb(strs.eq_lit(ctx, View(hs), "M")), zb(strs.eq(ctx, View(hs), View(SYSTEM))))
        h = ctx.get(r).attrs
        vs = ctx.get(h["vars"])
        if "#final" not in ctx.globals:
            ctx.oblige("empty-result-only-for-an-absent-system", zb(Not(listed)))
            ctx.oblige("absent-system-gives-an-empty-dataset", vs.concrete and not vs.items())
            return
        g = ctx.globals["#final"]
        rf = Sys2(T, cf)
        J_ = J(iv(g.m))
        c = ctx.get(h["coords"]).entries
        ctx.oblige("coordinates-are-time-and-sv", set(c) == {"time", "sv"})
        time = ctx.get(c["time"][1])
        sv = ctx.seq_of(c["sv"][1])
        # ---- labels
        ctx.oblige("row-per-kept-epoch", iv(time.shape[0]) >= J_)
        s0 = ctx.save()
        ctx.assume(z3.And(CB >= 0, CB < J_))
        rf.row(ctx, CB, g.m)
        records.same(ctx, "time-label-is-the-epoch-of-the-record", arrays.read(ctx, time, (CB,)), VDT(rf.epoch(K(CB))))
        ctx.pc, ctx.factset = list(s0[0]), set(s0[7])
        ctx.oblige("ninety-nine-satellite-labels", iv(sv.n) == 99)
        for k in range(99):
            records.same(ctx, "satellite-label", label(ctx, sv.fn(k)), Cat((View(SYSTEM), f"{k + 1:02d}")))
        # ---- variables
        for cp, want_here, want_name in expected(ctx, cf, T):
            s0 = ctx.save()
            ctx.assume(z3.And(CI >= 0, CI < nf(cf, T)))
            here, (name, dims, data), n = xr.entry(ctx, r, sx(CI if not cf.ind else cp))
            ctx.oblige("variables-are-the-observables", iv(n) == nf(cf, T) * (3 if cf.ind else 1))
            w = want_here(ctx)
            ctx.oblige("variable-present-exactly-when-expected", divsimp(zb(here) == zb(w)) if is_z3(sx(zb(here) == zb(w))) else sx(zb(here) == zb(w)))
            if w is not True:
                ctx.assume(zb(w))
            if ctx.feasible(CI >= 0):
                ctx.oblige("variable-name", zb(strs.eq(ctx, name, want_name)) if is_str(name) else False, f"{name} / {want_name}")
                ctx.oblige("variable-dimensions", dims == ("time", "sv"))
                ctx.assume(z3.And(CB >= 0, CB < iv(time.shape[0]), CS >= 0, CS < 99))
                rf.row(ctx, CB, g.m)
                got = arrays.read(ctx, data.h, (CB, CS))
                p = CI if not cf.ind else cp
                want = z3.If(CB < J_, value(ctx, cf, T, rf, K(CB), p), NaN)
                ctx.oblige("cell-of-the-result-is-the-record's-field", divsimp(ctx.tofl(got) == want))
            ctx.pc, ctx.factset = list(s0[0]), set(s0[7])
        # ---- rows and columns without any value are dropped, nothing else
        ctx.oblige("only-empty-rows-and-columns-dropped", sorted(h["ops"]) == [("dropna", "sv", "all"), ("dropna", "time", "all")])
        attributes(ctx, cf, T, h, path)
    return f


def expected(ctx, cf, T):
    """(page, condition that it is a variable, its name) of the generic observable CI"""
    nm = View(OBSNAME(T, sel(cf, CI)))
    one = lambda lits: lambda ctx: sx(Or(*[strs.eq_lit(ctx, nm, x) for x in lits]))
    out = [(sx(3 * CI) if cf.ind else CI, lambda ctx: True, nm)]
    if cf.ind:
        out.append((sx(3 * CI + 1), one(LLI), Cat((nm, "lli"))))
        out.append((sx(3 * CI + 2), lambda ctx: Not(one(NOSSI)(ctx)), Cat((nm, "ssi"))))
    return out


def attributes(ctx, cf, T, h, path):
    at_ = h["attrs"]
    p, v = attr(ctx, at_, "version")
    ctx.oblige("version-attribute", p is True and isinstance(v, VOpq) and v.term.eq(hdr_opq(T, "version").term))
    p, v = attr(ctx, at_, "rinextype")
    ctx.oblige("rinextype-attribute", p is True and v == "obs")
    p, v = attr(ctx, at_, "time_system")
    ctx.oblige("time-system-of-the-header", p is True and isinstance(v, VOpq) and v.term.eq(z3.Const("time_system", Obj)))
    p, v = attr(ctx, at_, "filename")
    ctx.oblige("filename-attribute", p is True if path else p is False)
    # ---- sampling interval: the header's, else the median step of the times
    p, v = attr(ctx, at_, "interval")
    inhdr = ctx.valid(hdr_has(T, "interval"))
    if inhdr:
        ctx.oblige("interval-of-the-header", p is True and isinstance(v, VOpq) and v.term.eq(hdr_opq(T, "interval").term))
    else:
        ctx.oblige("header-interval-not-ignored", Not(hdr_has(T, "interval")))
        ok = p is True and isinstance(v, VOpq) and v.kind == "median"
        ctx.oblige("interval-is-the-median-step", ok)
        if ok:
            d = v.info.attrs
            ctx.oblige("interval-in-seconds", d["unit"] == 10 ** 6)
            ctx.oblige("interval-of-the-kept-times", d["of"].attrs["name"] == "time" and sorted(d["of"].attrs.get("ops", ())) == sorted(h["ops"]))
    for k in ("rxmodel", "position", "position_geodetic"):
        carried(ctx, T, at_, k)


def carried(ctx, T, at_, k):
    """attribute k is there exactly when the header has it, and is the header's"""
    p, v = attr(ctx, at_, k)
    has = hdr_has(T, k)
    ctx.oblige(f"{k}-attribute-when-the-header-has-it", zb(p) == has)
    if p is not False:
        ctx.oblige(f"{k}-of-the-header", isinstance(v, VOpq) and v.term.eq(hdr_opq(T, k).term))


def main(forms=("path",), **conf):
    """rinexsystem2 under one configuration of options"""
    cf = Conf(**conf)
    s = setup(cf)

    def task(R):
        def exc(ctx, g, e):
            ctx.oblige("refused-only-when-speculation-fails", e.type == "IndexError" and cf.fast, str(e))
        for form in forms:
            def setup_(ctx):
                ctx.loopspecs = []
                if form == "path":
                    ctx.assume(opens(PATH))
                    fn = path_arg(ctx)
                    ctx.assume(zb(lib.dyn_is_file(ctx, fn)))
                    return s(ctx, fn, text_of(PATH, z3.BoolVal(False)))
                return s(ctx, stream_arg(ctx), TEXT)
            R.verify("obs2:rinexsystem2", setup_, ensures(cf, form == "path"), exc, contracts=contracts(cf),
                     name=f"obs2:rinexsystem2[{cf};{form}]")
    return task


ASSUMPTIONS = [
    "well-formed RINEX 2 observation file: as for the list of times (C11), satellite numbers 01-99, each satellite at most once per record, "
    "observation fields blank or a number, loss-of-lock/signal-strength columns blank or a digit",
    "each line of satellite data is at most 81 characters long where its flags are read (longer lines are cut at 80 by the code itself)",
    "the header mapping has Nobs, fields, fields_ind, systems as obsheader2's own contract says (C16)",
    "numpy arrays, xarray Dataset construction, dropna(how='all') and merge behave as documented (modelled)",
]
