"""rinexnav2: the record loop, the satellite and epoch tables, the dataset.

A record is an epoch line and 7 (GLONASS 3) orbit lines.  NFLD(m) is the
number of 19-column fields record m gives, blank ones included; the lines
before its last field are whole and nothing follows it.
"""
import ast
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, loops, records, arrays, xr
from pyded.records import LoopInv
from .common import *
from .recfile import *
from .nv import Nav2, c20, c_epoch, c_skip, header_file
from .o2sys import Keep, Conf, J, K, STOP, LO, HI

NFLD = z3.Function("nav2_fields_given", FileS, I, I)
ROW = z3.Function("nav2_row_of", Ln, I, I)          # kept record of this satellite and epoch
FIELDS = {
    "N": "SVclockBias SVclockDrift SVclockDriftRate IODE Crs DeltaN M0 Cuc Eccentricity Cus sqrtA Toe Cic Omega0 Cis Io Crc omega "
         "OmegaDot IDOT CodesL2 GPSWeek L2Pflag SVacc health TGD IODC TransTime FitIntvl".split(),
    "G": "SVclockBias SVrelFreqBias MessageFrameTime X dX dX2 health Y dY dY2 FreqNum Z dZ dZ2 AgeOpInfo".split(),
    "E": "SVclockBias SVclockDrift SVclockDriftRate IODnav Crs DeltaN M0 Cuc Eccentricity Cus sqrtA Toe Cic Omega0 Cis Io Crc omega "
         "OmegaDot IDOT DataSrc GALWeek SISA health BGDe5a BGDe5b TransTime".split()}
LETTER = {"N": "G", "G": "R", "E": "E"}
METRES = {p + a + s for a in "XYZ" for p, s in (("", ""), ("d", ""), ("d", "2"))}
W = 19


class Nav2K(Keep, Nav2):
    def __init__(self, T, cf, ft):
        Nav2.__init__(self, T)
        self.cf, self.ft = cf, ft
        self.norb = 3 if ft == "G" else 7

    def orbit(self):
        return z3.IntVal(self.norb)

    def orb(self, m, r):
        """line r of record m"""
        return line(self.T, sx(self.start(m) + r))

    def raw(self, m):
        """the record's fields in one text: numbers with E exponents, no line ends"""
        de = lambda r, a: View(replDE(nonl(self.orb(m, r))), a, 79)
        return Cat([de(0, 22)] + [de(r, 3) for r in range(1, self.norb + 1)])

    def label(self, m):
        return Cat([LETTER[self.ft], View(self.first(m), 0, 2)])

    def whole(self, ctx, m):
        """how long the lines of record m are"""
        m = iv(m)
        ctx.remember("nav2-whole", (self.T, m), lambda: ctx.fact(z3.Implies(z3.And(m >= 0, m < self.n), z3.And(*self.lens(ctx, m)))))

    def lens(self, ctx, m):
        nf = NFLD(self.T, iv(m))
        fs = [nf >= 3, nf <= 3 + 4 * self.norb, clen(self.first(m)) >= 79]
        for r in range(self.norb + 1):
            strs.text_facts(ctx, replDE(nonl(self.orb(m, r))))
        for r in range(1, self.norb + 1):
            c = clen(self.orb(m, r))
            g = nf - 3 - 4 * (r - 1)                # fields from this line on
            fs += [z3.Implies(g >= 4, c >= 79),
                   z3.Implies(z3.And(g > 0, g < 4), z3.And(c >= 3 + W * g, c < 3 + W * (g + 1))),
                   z3.Implies(g <= 0, c <= 3)]
        return fs

    def facts(self, ctx, m):
        return []

    def well(self, ctx, m):
        m = iv(m)
        ctx.remember("nav2-well", (self.T, m), lambda: self.well_(ctx, m))

    def well_(self, ctx, m):
        RecFile.well(self, ctx, m)
        inr = z3.And(m >= 0, m < self.n)
        ctx.fact(self.start(0) >= self.hend)
        ctx.fact(z3.Implies(inr, c20(self.T) == ord(self.ft)))
        self.keep_facts(ctx, m)

    def place(self, k):
        """line and columns of field k"""
        return (0, 22 + W * k) if k < 3 else (1 + (k - 3) // 4, 3 + W * ((k - 3) % 4))

    def field(self, ctx, m, k):
        r, c = self.place(k)
        return strs.num(ctx, View(replDE(self.orb(m, r)), c, c + W))

    def piece(self, ctx, m, k):
        """field k of the record's text (any k)"""
        return strs.num(ctx, View(strs.term(ctx, self.raw(m)), sx(W * iv(k)), sx(W * iv(k) + W)))

    def pieces(self, ctx, m, k=None):
        """the fields of the joined text are the columns of its lines; each is blank or a number"""
        self.whole(ctx, m)
        nf = NFLD(self.T, iv(m))
        ms = z3.And(iv(m) >= 0, iv(m) < self.n)
        for c in range(3 + 4 * self.norb) if k is None else (k,):
            a, b = self.piece(ctx, m, c), self.field(ctx, m, c)
            strs.is_blank_facts(ctx, b)
            ctx.fact(z3.Implies(z3.And(ms, c < nf), z3.And(z3.Or(blank(b), fltok(b)), blank(a) == blank(b), fltok(a) == fltok(b), fltval(a) == fltval(b))))


def text(ctx, v):
    """the label as it is compared"""
    return strs.term(ctx, strs.replace(ctx, v, " ", "0"))


def row_fact(ctx, rf, q):
    """record at row q is the only one of its satellite and epoch"""
    q = iv(q)
    m = K(q)
    n = ctx.globals["#rows2"]
    rf.well(ctx, m)
    rf.row(ctx, q, ctx.globals["#final"].m)
    ctx.fact(z3.Implies(z3.And(q >= 0, q < n), ROW(text(ctx, rf.label(m)), rf.epoch(m)) == q))


# ------------------------------------------------------------------ call contracts
def header2(ft):
    def f(ctx, T):
        L = line(T, firstk(T))
        strs.text_facts(ctx, L)
        ctx.assume(z3.And(lenf(L) > 40, c20(T) == ord(ft)))
        e = {"version": (True, VOpq(z3.Function("hdr_version", FileS, Obj)(T), "hdr")),
             "filetype": (True, ft), "rinextype": (True, "nav"), "systems": (True, LETTER[ft])}
        for nm in ("ION ALPHA", "ION BETA"):
            t = z3.Function("hdr_" + nm, FileS, Ln)(T)
            strs.text_facts(ctx, t)
            ctx.fact(lenf(t) == 60)
            ctx.fact(clen(t) == 60)
            e[nm] = (z3.Function("hdr_has_" + nm, FileS, B)(T), View(t))
        return e
    return f


def c_header2(ft):
    def c(ctx, b):
        T = header_file(ctx, b["f"])
        h = ctx.get(b["f"])
        ctx.put(b["f"], HFile(h.text, Nav2(T).hend, h.kind, h.info))
        return ctx.alloc(HDict(header2(ft)(ctx, T)))
    return c


def c_r2f(ctx, b):
    x = next(iter(b.values()))
    t = strs.num(ctx, strs.replace(ctx, x, "D", "E"))
    return fltval(t)


# ------------------------------------------------------------------ loops
class Loop2(Records):
    def __init__(self, cf, ft, roles):
        self.cf, self.ft, self.roles = cf, ft, roles

    def make(self, T):
        return Nav2K(T, self.cf, self.ft)

    def begin(self, ctx, node):
        g = Records.begin(self, ctx, node)
        ctx.assume(iv(g.m) <= STOP)
        return g

    def exit(self, ctx):
        g = Records.exit(self, ctx)
        self.rf.well(ctx, self.rf.n)
        ctx.assume(iv(g.m) <= STOP)
        return g

    def after(self, ctx, g):
        g2 = Records.after(self, ctx, g)
        self.rf.well(ctx, g.m)
        self.rf.well(ctx, g2.m)
        ctx.oblige("reading-stops-at-the-first-epoch-past-the-end", iv(g2.m) <= STOP)
        return g2

    def done(self, ctx, g, broke):
        ctx.globals["#final"] = g
        ctx.globals["#rows2"] = J(iv(g.m))
        ctx.globals["#rf2"] = self.rf
        self.rf.well(ctx, g.m)
        if broke:
            ctx.oblige("stops-early-only-past-the-end-of-the-window", iv(g.m) == STOP)

    def observe(self, ctx, paths, heap0):
        """which list takes the epochs, the satellites, the texts"""
        for p in paths:
            for i, r in p.state[1].items():
                if i in heap0 and r is not heap0[i] and isinstance(r, HList) and r.parts and r.parts[-1][0] == "item":
                    x = r.parts[-1][1]
                    if isinstance(x, VDT):
                        self.roles[i] = "time"
                    elif isinstance(x, Cat):
                        self.roles[i] = "sat" if isinstance(x.parts[0], str) and len(x.parts[0]) == 1 else "raw"

    def state(self, ctx, id, rec0, g):
        rf = self.rf
        if not isinstance(rec0, HList):
            raise Unsupported(f"loop changes a {type(rec0).__name__}")
        role = self.roles.get(id)

        def at_(q):
            m = K(iv(q))
            rf.well(ctx, m)
            rf.row(ctx, q, g.m)
            return m
        fn = {"time": lambda q: VDT(rf.epoch(at_(q))), "sat": lambda q: rf.label(at_(q)), "raw": lambda q: rf.raw(at_(q))}.get(role)
        if fn is None:
            raise Unsupported("a list of something else")
        return HList([("seq", Seq(J(iv(g.m)), fn))])


class Rows:
    """what a cell of the table says once record rows are filled in"""

    def cell(self, ctx, k, it, lab, us):
        """field k of satellite `lab` (text term) at epoch `us`, and the row it comes from"""
        rf = ctx.globals["#rf2"]
        n = ctx.globals["#rows2"]
        r = ROW(lab, us)
        row_fact(ctx, rf, r)
        m = K(r)
        have = z3.And(r >= 0, r < n, text(ctx, rf.label(m)) == lab, rf.epoch(m) == us)
        p = rf.piece(ctx, m, k)
        strs.is_blank_facts(ctx, p)
        nf = len(FIELDS[rf.ft])
        v = z3.If(z3.And(iv(k) < NFLD(rf.T, m), iv(k) < nf), z3.If(blank(p), NaN, fltval(p)), NaN)
        return have, r, v


class Satellites(LoopInv, Rows):
    """columns of the first j satellites are filled in"""
    name = "satellite-loop"
    inner = None

    def applies(self, ctx, node, it):
        if self.busy or not isinstance(node, ast.For) or "#rf2" not in ctx.globals:
            return False
        try:
            s = ctx.seq_of(it)
        except Exception:
            return False
        tabs = [v for v in ctx.frame.vars.values() if isinstance(v, Ref) and v.id in ctx.heap and isinstance(ctx.get(v), HArr) and len(ctx.get(v).shape) == 3]
        if len(tabs) != 1 or s.filt is not None or not is_z3(sx(s.n)):
            return False
        self.tab, self.seq = tabs[0], s
        return True

    def entry(self, ctx):
        x = self.seq.fn(z3.Int("q!sat"))
        us = [(u, s) for u, s in ctx.globals.get("#uniq", {}).values()]
        self.svu = [u for u, s in us if not isinstance(u.s.fn(z3.Int("q!sat")), VDT)]
        self.tu = [u for u, s in us if isinstance(u.s.fn(z3.Int("q!sat")), VDT)]
        if len(self.svu) != 1 or not self.tu:
            raise Unsupported("tables of satellites and epochs")
        self.svu, self.tu = self.svu[0], self.tu[0]
        ctx.globals["#svu"], ctx.globals["#tu"] = self.svu, self.tu
        ctx.oblige("a-column-for-every-satellite", iv(self.seq.n) == self.svu.U)
        sh = ctx.get(self.tab).shape
        ctx.oblige("table-of-fields-epochs-satellites", z3.And(iv(sh[0]) >= 1, iv(sh[1]) == self.tu.U, iv(sh[2]) == self.svu.U))

    def initial(self, ctx):
        return G(j=0)

    def begin(self, ctx, node):
        j = ctx.fresh("j", I)
        ctx.assume(z3.And(j >= 0, j < self.svu.U))
        ctx.globals["#satcol"] = j
        return G(j=j)

    def item(self, ctx, g):
        return self.seq.fn(g.j)

    def after(self, ctx, g):
        return G(j=sx(iv(g.j) + 1))

    def exit(self, ctx):
        return G(j=self.svu.U)

    def full(self, ctx, ix):
        k, it, jj = ix
        lab = strs.term(ctx, self.svu.value(ctx, jj))
        us = iv(self.tu.value(ctx, it).us)
        return self.cell(ctx, k, it, lab, us)

    def heap(self, ctx, id, rec0, g):
        if isinstance(rec0, HArr) and len(rec0.shape) == 3:
            def cells(ix):
                have, r, v = self.full(ctx, ix)
                return z3.If(z3.And(iv(ix[2]) < iv(g.j), have), v, NaN)
            return HArr(rec0.shape, rec0.dtype, cells)
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def generic(self, ctx, label, rec, want, extra=None):
        s0 = ctx.save()
        k, it, jj = ctx.fresh("k", I), ctx.fresh("it", I), ctx.fresh("jj", I)
        sh = want.shape
        ctx.assume(z3.And(k >= 0, k < iv(sh[0]), it >= 0, it < self.tu.U, jj >= 0, jj < self.svu.U))
        if ctx.feasible(k >= 0):
            self.full(ctx, (k, it, jj))
            if extra:
                extra(k, it, jj)
            ctx.oblige(label, ctx.tofl(arrays.read(ctx, rec, (k, it, jj))) == ctx.tofl(arrays.read(ctx, want, (k, it, jj))))
        ctx.pc, ctx.factset = list(s0[0]), set(s0[7])

    def check_initial(self, ctx, id, rec, g):
        self.generic(ctx, "cells-start-as-NaN", rec, self.heap(ctx, id, rec, g))

    def check_heap(self, ctx, id, rec, rec0, g, g2):
        want = self.heap(ctx, id, rec0, g2)
        if not isinstance(rec, HArr):
            return ctx.failobl("satellite-column-filled", type(rec).__name__)

        def extra(k, it, jj):
            # the row of this cell among the satellite's rows
            r = self.full(ctx, (k, it, jj))[1]
            for fl in ctx.globals.get("#filters", ()):
                loops.filter_facts(ctx, fl, b=r)
            # a satellite has no two records of one epoch
            for u, s in ctx.globals.get("#uniq", {}).values():
                if s.filt is not None and hasattr(u, "dup"):
                    for w in u.dup:
                        row_fact(ctx, ctx.globals["#rf2"], s.filt.unrank(w))
        self.generic(ctx, "satellite-column-filled", rec, want, extra)

    def done(self, ctx, g, broke):
        if broke:
            ctx.oblige("every-satellite-is-read", False)
        ctx.globals["#satdone"] = self


class SatRows(Satellites):
    """the first q rows of satellite j are filled in"""
    name = "satellite-rows-loop"

    def __init__(self, outer):
        self.outer = outer

    def applies(self, ctx, node, it):
        if self.busy or not self.outer.busy or not isinstance(node, ast.For):
            return False
        try:
            s = ctx.seq_of(it)
        except Exception:
            return False
        if s.filt is None:
            return False
        self.seq, self.tab = s, self.outer.tab
        return True

    def entry(self, ctx):
        self.svu, self.tu = self.outer.svu, self.outer.tu
        self.j = ctx.globals["#satcol"]
        ctx.oblige("rows-are-those-of-all-records", iv(self.seq.filt.n) == ctx.globals["#rows2"])

    def initial(self, ctx):
        return G(q=0)

    def begin(self, ctx, node):
        q = ctx.fresh("q", I)
        ctx.assume(z3.And(q >= 0, q < self.seq.filt.count))
        loops.filter_facts(ctx, self.seq.filt, q=q)
        i = self.seq.filt.unrank(q)
        rf = ctx.globals["#rf2"]
        row_fact(ctx, rf, i)
        rf.pieces(ctx, K(i))
        p = self.tu.item(ctx, i)
        ctx.globals["#maskwit"] = (p,)
        return G(q=q, i=i, p=p)

    def item(self, ctx, g):
        return self.seq.fn(g.q)

    def after(self, ctx, g):
        return G(q=sx(iv(g.q) + 1), i=g.i)

    def exit(self, ctx):
        return G(q=self.seq.filt.count)

    def heap(self, ctx, id, rec0, g):
        if isinstance(rec0, HArr) and len(rec0.shape) == 3:
            def cells(ix):
                have, r, v = self.full(ctx, ix)
                fl = self.seq.filt
                loops.filter_facts(ctx, fl, b=r)
                mine = z3.And(iv(ix[2]) == iv(self.j), fl.rank(r) < iv(g.q))
                return z3.If(z3.And(have, z3.Or(iv(ix[2]) < iv(self.j), mine)), v, NaN)
            return HArr(rec0.shape, rec0.dtype, cells)
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def check_heap(self, ctx, id, rec, rec0, g, g2):
        want = self.heap(ctx, id, rec0, g2)
        if not isinstance(rec, HArr):
            return ctx.failobl("row-goes-to-its-own-satellite-and-epoch", type(rec).__name__)
        self.generic(ctx, "row-goes-to-its-own-satellite-and-epoch", rec, want)

    def done(self, ctx, g, broke):
        if broke:
            ctx.oblige("every-row-is-read", False)


# ------------------------------------------------------------------ the function
def ensures(cf, ft, path):
    def f(ctx, T, r):
        h = ctx.get(r)
        if not (isinstance(h, HObj) and h.cls == "XDS"):
            return ctx.failobl("returns-a-dataset", str(h))
        S = ctx.globals.get("#satdone")
        if S is None:
            return ctx.failobl("reads-the-records", "no loop over the satellites was found")
        rf, n = ctx.globals["#rf2"], ctx.globals["#rows2"]
        co = ctx.get(h.attrs["coords"]).entries
        ctx.oblige("coordinates", set(co) == {"time", "sv"})
        tm, sv = ctx.seq_of(co["time"][1]), ctx.seq_of(co["sv"][1])
        # ---- labels: every record's epoch and satellite, and nothing else
        s0 = ctx.save()
        i = ctx.fresh("row", I)
        ctx.assume(z3.And(i >= 0, i < n))
        row_fact(ctx, rf, i)
        if ctx.feasible(i >= 0):
            m = K(i)
            p = S.tu.item(ctx, i)
            ctx.oblige("epoch-of-every-record", z3.And(p >= 0, p < iv(tm.n), iv(tm.fn(p).us) == rf.epoch(m)))
            p = S.svu.item(ctx, i)
            ctx.oblige("satellite-of-every-record", z3.And(p >= 0, p < iv(sv.n), strs.term(ctx, sv.fn(p)) == text(ctx, rf.label(m))))
        ctx.pc, ctx.factset = list(s0[0]), set(s0[7])
        s0 = ctx.save()
        a, b = ctx.fresh("a", I), ctx.fresh("b", I)
        ctx.assume(z3.And(a >= 0, a < b, b < iv(tm.n)))
        if ctx.feasible(a >= 0):
            ctx.oblige("epochs-ascend", iv(tm.fn(a).us) < iv(tm.fn(b).us))
        ctx.pc, ctx.factset = list(s0[0]), set(s0[7])
        # ---- cells
        names = FIELDS[ft]
        it, jj = ctx.fresh("it", I), ctx.fresh("jj", I)
        ctx.assume(z3.And(it >= 0, it < iv(tm.n), jj >= 0, jj < iv(sv.n)))
        vs = ctx.get(h.attrs["vars"])
        ctx.oblige("one-variable-per-parameter", {x[0] for x in vs.items()} == set(names))
        if ctx.feasible(it >= 0):
            lab, us = strs.term(ctx, sv.fn(jj)), iv(tm.fn(it).us)
            have, rr, _ = S.cell(ctx, 0, it, lab, us)
            m = K(rr)
            rf.pieces(ctx, m)
            for k, nm in enumerate(names):
                v = xr.find(ctx, r, nm)
                if v is None:
                    ctx.failobl("parameter-present", nm)
                    continue
                ctx.oblige("variables-over-time-and-satellite", v[1] == ("time", "sv"))
                a = v[2].h if isinstance(v[2], Frozen) else None
                if not isinstance(a, HArr) or len(a.shape) != 2:
                    ctx.failobl("variables-over-time-and-satellite", nm)
                    continue
                ctx.oblige("table-shape", z3.And(iv(a.shape[0]) == iv(tm.n), iv(a.shape[1]) == iv(sv.n)))
                t = rf.field(ctx, m, k)
                want = z3.If(z3.And(have, k < NFLD(T, m)), z3.If(blank(t), NaN, fltval(t)), NaN)
                if ft == "G" and nm in METRES:
                    want = ctx.tofl(ctx.binop(ast.Mult(), want, 1e3))
                ctx.oblige(f"{nm}-from-its-own-columns", ctx.tofl(arrays.read(ctx, a, (it, jj))) == want)
        # ---- attributes
        at_ = ctx.get(h.attrs["attrs"]).entries
        ctx.oblige("rinextype-attribute", at_.get("rinextype", (0, 0))[1] == "nav")
        ctx.oblige("filename-attribute", ("filename" in at_) == path)
        ion(ctx, T, at_.get("ionospheric_corr_GPS"))
    return f


def contracts(ft):
    return {"nav2:_timenav": c_epoch(Nav2), "nav2:_skip": c_skip, "nav2:navheader2": c_header2(ft), "rio:opener": c_opener,
            "common:rinex_string_to_float": c_r2f}


def ion(ctx, T, a):
    """the eight ionospheric coefficients, when the header gives both lines"""
    both = z3.And(*[z3.Function("hdr_has_" + nm, FileS, B)(T) for nm in ("ION ALPHA", "ION BETA")])
    ctx.oblige("ionospheric-coefficients-when-both-lines-are-given", both == zb(a[0] if a else False))
    if not a or not ctx.feasible(both):
        return
    s = ctx.seq_of(a[1])
    ctx.oblige("eight-ionospheric-coefficients", iv(s.n) == 8)
    s0 = ctx.save()
    ctx.assume(both)
    for i in range(8):
        t = z3.Function("hdr_" + ("ION ALPHA", "ION BETA")[i // 4], FileS, Ln)(T)
        c = 2 + 12 * (i % 4)
        x = strs.num(ctx, strs.replace(ctx, View(t, c, c + 12), "D", "E"))
        ctx.oblige("ionospheric-coefficients-from-their-own-columns", ctx.tofl(s.fn(i)) == fltval(x))
    ctx.pc, ctx.factset = list(s0[0]), set(s0[7])


def joined(ft):
    """lemma: 19 columns of the joined text are the field's own columns of its own line"""
    def task(R):
        T, m = z3.Const("text", FileS), z3.Int("m")
        rf = Nav2K(T, Conf(), ft)
        n = 3 + 4 * rf.norb
        for nf in range(3, n + 1):
            def body(ctx, nf=nf):
                ctx.assume(z3.And(m >= 0, m < rf.n, NFLD(T, m) == nf))
                rf.whole(ctx, m)
                for k in range(nf):
                    a = strs.num(ctx, strs.slice_(ctx, rf.raw(m), W * k, W * k + W))
                    b = rf.field(ctx, m, k)
                    for t in (a, b):
                        strs.is_blank_facts(ctx, t)
                    ctx.oblige("joined-text-keeps-every-field", a == b)
            R.argue(f"nav2-record[{ft},{nf} fields]", body)
    return task


def main(ft, form, **conf):
    cf = Conf(**conf)

    def task(R):
        roles = {}                     # found on the loop's first round, the same on every path

        def setup(ctx):
            ctx.loopspecs = []
            out = Satellites()
            records.install(ctx, Loop2(cf, ft, roles), SatRows(out), out)
            kw = {"tlim": (VDT(LO), VDT(HI)) if cf.tlim else None}
            if form == "path":
                ctx.assume(opens(PATH))
                fn = path_arg(ctx)
                ctx.assume(zb(lib.dyn_is_file(ctx, fn)))
                ctx.assume(lib.pis_file(lib.pexpand(PATH)))
                return [fn], kw, text_of(PATH, z3.BoolVal(False))
            return [stream_arg(ctx)], kw, TEXT
        R.verify("nav2:rinexnav2", setup, ensures(cf, ft, form == "path"), None, contracts=contracts(ft),
                 name=f"nav2:rinexnav2[{ft},{cf};{form}]")
    return task


TASKS = [(f"{ft}-{'tlim' if tl else 'plain'}", main(ft, "path" if (ft == "G") != tl else "stream", tlim=tl)) for ft in "NGE" for tl in (False, True)]
TASKS += [(f"{ft}-joined-plain", joined(ft)) for ft in "NG"]
ASSUMPTIONS = [
    "RINEX 2 navigation records: an epoch line and 7 (GLONASS 3) orbit lines; the lines before the record's last field are whole, nothing "
    "follows that field, every field is blank or a number; lines between records carry no epoch",
    "no two records of one satellite and epoch in a RINEX 2 navigation file (C14's duplicates are not in this contract)",
    "navheader2 is used by contract (discharged in C16): file type and version from the first line, ION lines as 60 columns",
]
