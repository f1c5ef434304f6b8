"""rinexobs3: the record loop, one _epoch call per kept record."""
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, loops, records, arrays, xr
from pyded.interp import METHODS, MODELS, method
from .common import *
from .recfile import *
from . import o3
from .o2 import header_file
from .o2sys import Keep, Conf, J, K, WR, STOP, LO, HI, IVL, attr, hdr_opq, hdr_has, carried

HDR = z3.Const("header", Obj)


def nsv3(ln):
    return intval(strs.num_term(sub(ln, z3.IntVal(32), z3.IntVal(35))))


class Obs3(Keep, RecFile):
    """records follow each other without lines between them"""

    def __init__(self, T, cf):
        RecFile.__init__(self, "obs3", T)
        self.cf = cf

    def nsat(self, m):
        return nsv3(self.first(m))

    def lines(self, m):
        return 1 + self.nsat(m)

    def facts(self, ctx, m):
        L, n = self.first(m), self.nsat(m)
        f = strs.num_term(sub(L, z3.IntVal(32), z3.IntVal(35)))
        return [intok(f), n >= 0, n <= 999, zb(strs.starts_lit(ctx, View(L), "> "))]

    def well(self, ctx, m):
        RecFile.well(self, ctx, m)
        m = iv(m)
        inr = z3.And(m >= 0, m < self.n)
        ctx.fact(self.start(0) == self.hend)
        ctx.fact(z3.Implies(inr, self.start(m + 1) == self.end(m)))
        self.keep_facts(ctx, m)

    def satline(self, m, r):
        return line(self.T, sx(self.start(m) + 1 + iv(r)))


class Loop3(Records):
    def __init__(self, cf):
        self.cf = cf

    def make(self, T):
        return Obs3(T, self.cf)

    def begin(self, ctx, node):
        g = Records.begin(self, ctx, node)
        ctx.assume(iv(g.m) <= STOP)
        ctx.globals["#rec3"] = (self.rf, g.m)
        return g

    def exit(self, ctx):
        g = Records.exit(self, ctx)
        self.rf.well(ctx, self.rf.n)
        ctx.assume(iv(g.m) <= STOP)
        return g

    def after(self, ctx, g):
        g2 = Records.after(self, ctx, g)
        self.rf.well(ctx, g.m)
        self.rf.well(ctx, g2.m)
        ctx.oblige("reading-stops-at-the-first-epoch-past-the-end", iv(g2.m) <= STOP)
        return g2

    def done(self, ctx, g, broke):
        ctx.globals["#final"] = g
        self.rf.well(ctx, g.m)
        if broke:
            ctx.oblige("stops-early-only-past-the-end-of-the-window", iv(g.m) == STOP)

    def var(self, ctx, x, init, g):
        if init is None or isinstance(init, VDT):
            if not self.cf.ivl:
                return None
            if ctx.branch(J(iv(g.m)) == 0):
                return None
            return VDT(sx(self.rf.epoch(K(z3.IntVal(0))) + (J(iv(g.m)) - 1) * IVL))
        return Poison(x)

    def check_var(self, ctx, x, got, want, g, g2):
        records.same(ctx, "decimation-reference-epoch", got, want)

    def state(self, ctx, id, rec0, g):
        if isinstance(rec0, HObj) and rec0.cls in ("XDS", "FOLD"):
            return fold(ctx, J(iv(g.m)))
        if isinstance(rec0, HList):
            # receiver clock offsets: any
            n = ctx.fresh("noffsets", I)
            ctx.assume(n >= 0)
            f = z3.Function(n.decl().name() + "_v", I, Fl)
            return HList([("seq", Seq(n, lambda k: f(iv(k))))])
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def check_initial(self, ctx, i, rec, g):
        if isinstance(rec, HFile):
            return Records.check_initial(self, ctx, i, rec, g)
        if isinstance(rec, HObj):
            ctx.oblige("starts-from-an-empty-dataset", empty(ctx, rec))

    def check_heap(self, ctx, id, rec, rec0, g, g2):
        if isinstance(rec0, HObj):
            if not (isinstance(rec, HObj) and rec.cls in ("FOLD", "XDS")):
                return ctx.failobl("every-kept-record-is-added-once", str(rec))
            j = rec.attrs["j"] if rec.cls == "FOLD" else z3.IntVal(0)
            return ctx.oblige("every-kept-record-is-added-once", iv(j) == J(iv(g2.m)))
        if isinstance(rec0, HList):
            return
        Records.check_heap(self, ctx, id, rec, rec0, g, g2)


def empty(ctx, rec):
    if rec.cls != "XDS":
        return False
    v = ctx.get(rec.attrs["vars"])
    ok = v.concrete and not v.items()
    for k, (p, x) in ctx.get(rec.attrs["coords"]).entries.items():
        ok = ok and isinstance(x, Ref) and sx(ctx.list_len(ctx.get(x))) == 0
    return ok


def fold(ctx, j):
    """the dataset after the first j kept records were added to it"""
    return HObj("FOLD", {"j": j, "attrs": ctx.alloc(HDict()), "labels": None})


SVN = z3.Function("sat_label", I, Ln)
NSV = z3.Int("n_sat_labels")


def fold_sv(ctx, o):
    """the satellite labels of the dataset"""
    h = ctx.get(o)
    if h.attrs["labels"] is not None:
        return h.attrs["labels"]
    ctx.fact(NSV >= 0)

    def fn(q):
        strs.text_facts(ctx, SVN(iv(q)))
        return View(SVN(iv(q)))
    return Seq(NSV, fn)


def fold_getattr(ctx, o, name):
    if name == "sv":
        s = fold_sv(ctx, o)
        return ctx.alloc(HObj("FLABELS", {"values": ctx.alloc(HArr((s.n,), "str", lambda ix: s.fn(ix[0])))}))
    if name == "time":
        return ctx.alloc(HObj("XDA", {"name": "time", "dims": ("time",), "data": None, "ops": (), "of": ctx.get(o).attrs["j"]}))
    return VBound(o, name)


METHODS[("FOLD", "getattr")] = fold_getattr
METHODS[("attr", "FOLD", "attrs")] = lambda ctx, o: ctx.get(o).attrs["attrs"]
METHODS[("attr", "FOLD", "coords")] = lambda ctx, o: ctx.alloc(HDict({"time": (True, None), "sv": (True, None)}))
METHODS[("attr", "FLABELS", "values")] = lambda ctx, o: ctx.get(o).attrs["values"]


@method("FOLD", "assign_coords")
def fold_assign(ctx, o, **kw):
    if set(kw) != {"sv"}:
        raise Unsupported("assign_coords")
    s = ctx.seq_of(kw["sv"])
    ctx.trusted.add("xarray.Dataset.assign_coords replaces the labels, cells stay")
    ctx.oblige("as-many-labels-as-satellites", iv(s.n) == iv(fold_sv(ctx, o).n))
    h = ctx.get(o)
    return ctx.alloc(h.with_(labels=s))


def c_epoch(cf):
    def c(ctx, b):
        rf, m = ctx.globals["#rec3"]
        m = iv(m)
        T = rf.T
        d = ctx.get(b["data"])
        j = d.attrs["j"] if d.cls == "FOLD" else 0 if empty(ctx, d) else -1
        rf.well(ctx, m)
        ctx.oblige("added-to-the-dataset-so-far", iv(j) == J(m))
        ctx.oblige("only-kept-records-are-added", rf.kept(m))
        records.same(ctx, "added-at-its-own-epoch", b["time"], VDT(rf.epoch(m)))
        ctx.oblige("header-of-the-file", isinstance(b["hdr"], Ref) and b["hdr"].id == ctx.globals["#hdr3"])
        ctx.oblige("indicators-as-asked", b["useindicators"] is cf.ind)
        # ---- its satellites and their lines
        sv = ctx.list_seq(ctx.get(b["sv"]))
        n = rf.nsat(m)
        ctx.oblige("all-satellites-of-the-record", iv(sv.n) == n)
        raw = b["raw"]
        cnt, row = rows(ctx, raw)
        ctx.oblige("all-lines-of-the-record", iv(cnt) == n)
        q = ctx.fresh("q", I)
        s0 = ctx.save()
        ctx.assume(z3.And(q >= 0, q < n))
        if ctx.feasible(q >= 0):
            ln = rf.satline(m, q)
            strs.text_facts(ctx, ln)
            records.same(ctx, "satellite-named-on-its-own-line", sv.fn(q), View(ln, 0, 3))
            records.same(ctx, "fields-of-the-satellite's-own-line", row(q), Cat((View(nonl(ln), 3), "\n")))
        ctx.pc, ctx.factset = list(s0[0]), set(s0[7])
        return ctx.alloc(fold(ctx, sx(J(m) + 1)))
    return c


def rows(ctx, raw):
    if isinstance(raw, str):
        return (0, None) if raw == "" else (-1, None)
    if isinstance(raw, CatSeq) and raw.head == "":
        return raw.n, raw.fn
    if isinstance(raw, Rep):
        return raw.n, raw.fn
    raise Unsupported(f"record text {raw}")


def c_header3(ctx, b):
    f = b["f"]
    T = header_file(ctx, f)
    o = lambda nm: VOpq(z3.Function("hdr_" + nm, FileS, Obj)(T), "hdr")
    hB = lambda nm: z3.Function("hdr_has_" + nm, FileS, B)(T)
    rf = Obs3(T, Conf())
    h = ctx.get(f)
    ctx.put(f, HFile(h.text, rf.hend, h.kind, h.info))
    ctx.globals["#use"], ctx.globals["#meas"] = b["use"], b["meas"]
    co = z3.Function("hdr_clock_offset", FileS, Ln)(T)
    strs.text_facts(ctx, co)
    r = ctx.alloc(HDict({"version": (True, o("version")), "interval": (hB("interval"), o("interval")),
                         "position": (hB("position"), o("position")),
                         "position_geodetic": (z3.And(hB("position"), hB("position_geodetic")), o("position_geodetic")),
                         "RCV CLOCK OFFS APPL": (hB("clock_offset"), View(co))}))
    ctx.globals["#hdr3"] = r.id
    return r


def c_interval(ctx, b):
    x = b["interval"]
    if x is None or isinstance(x, VTD):
        return x
    raise Unsupported("interval in another form")


def c_time_system(ctx, b):
    ctx.oblige("time-system-of-this-header", isinstance(b["header"], Ref) and b["header"].id == ctx.globals["#hdr3"])
    return VOpq(z3.Const("time_system", Obj), "hdr")


def contracts(cf):
    return {"obs3:_timeobs": o3.c_timeobs, "obs3:obsheader3": c_header3, "obs3:_epoch": c_epoch(cf), "rio:opener": c_opener,
            "common:check_time_interval": c_interval, "common:determine_time_system": c_time_system}


def setup(cf, use=None, meas=None):
    def f(ctx, fn, T):
        records.install(ctx, Loop3(cf))
        if cf.ivl:
            ctx.assume(IVL >= 0)
        kw = {"tlim": (VDT(LO), VDT(HI)) if cf.tlim else None, "useindicators": cf.ind,
              "interval": VTD(IVL) if cf.ivl else None}
        return [fn], kw, T
    return f


def ensures(cf, path):
    def f(ctx, T, r):
        h = ctx.get(r)
        g = ctx.globals["#final"]
        ctx.oblige("result-holds-every-kept-record", h.cls == "FOLD" and ctx.valid(iv(h.attrs["j"]) == J(iv(g.m))))
        # ---- labels
        s = fold_sv(ctx, r)
        q = ctx.fresh("q", I)
        s0 = ctx.save()
        ctx.assume(z3.And(q >= 0, q < NSV))
        if ctx.feasible(q >= 0):
            strs.text_facts(ctx, SVN(q))
            records.same(ctx, "blank-in-a-satellite-name-is-a-zero", s.fn(q), strs.replace(ctx, View(SVN(q)), " ", "0"))
        ctx.pc, ctx.factset = list(s0[0]), set(s0[7])
        # ---- attributes
        at_ = h.attrs["attrs"]
        p, v = attr(ctx, at_, "version")
        ctx.oblige("version-attribute", p is True and isinstance(v, VOpq) and v.term.eq(hdr_opq(T, "version").term))
        p, v = attr(ctx, at_, "rinextype")
        ctx.oblige("rinextype-attribute", p is True and v == "obs")
        p, v = attr(ctx, at_, "time_system")
        ctx.oblige("time-system-of-the-header", p is True and isinstance(v, VOpq) and v.term.eq(z3.Const("time_system", Obj)))
        p, v = attr(ctx, at_, "filename")
        ctx.oblige("filename-attribute", p is True if path else p is False)
        p, v = attr(ctx, at_, "interval")
        if ctx.valid(hdr_has(T, "interval")):
            ctx.oblige("interval-of-the-header", p is True and isinstance(v, VOpq) and v.term.eq(hdr_opq(T, "interval").term))
        else:
            ctx.oblige("header-interval-not-ignored", Not(hdr_has(T, "interval")))
            ok = p is True and isinstance(v, VOpq) and v.kind == "median"
            ctx.oblige("interval-is-the-median-step", ok)
            if ok:
                d = v.info.attrs
                ctx.oblige("interval-in-seconds", d["unit"] == 10 ** 6)
                ctx.oblige("interval-of-the-kept-times", d["of"].attrs["name"] == "time" and ctx.valid(iv(d["of"].attrs["of"]) == J(iv(g.m))))
        carried(ctx, T, at_, "position")
        p, v = attr(ctx, at_, "position_geodetic")
        ctx.oblige("position_geodetic-attribute-when-the-header-has-it", zb(p) == z3.And(hdr_has(T, "position"), hdr_has(T, "position_geodetic")))
        if p is not False:
            ctx.oblige("position_geodetic-of-the-header", isinstance(v, VOpq) and v.term.eq(hdr_opq(T, "position_geodetic").term))
    return f


USE0, MEAS0, MEAS1 = z3.Consts("use0 meas0 meas1", Ln)


def selection(ctx, use, meas):
    """(arguments, what obsheader3 is to be asked for)"""
    for t in (USE0, MEAS0, MEAS1):
        strs.text_facts(ctx, t)
    u, m0, m1 = View(USE0), View(MEAS0), View(MEAS1)
    ctx.assume(lenf(USE0) == 1)
    kw, want = {}, {"use": None, "meas": None}
    if use == "str":
        kw["use"], want["use"] = u, [u]
    elif use:
        kw["use"] = want["use"] = VSet([u])
    blank0 = strs.is_blank(ctx, m0)
    if meas == "str":
        kw["meas"], want["meas"] = m0, [m0]
    elif meas:
        kw["meas"] = want["meas"] = ctx.alloc(HList([("item", m0), ("item", m1)]))
        want["blank"] = blank0
    if meas == "str":
        want["blank"] = blank0
    return kw, want


def check_selection(ctx, want):
    got = ctx.globals["#use"]
    w = want["use"]
    if w is None:
        ctx.oblige("systems-asked-for", got is None)
    elif isinstance(w, list):
        ok = isinstance(got, VSet) and len(got.items) == 1
        ctx.oblige("systems-asked-for", strs.eq(ctx, got.items[0], w[0]) if ok else False, str(got))
    else:
        ok = isinstance(got, VSet) and len(got.items) == 1
        ctx.oblige("systems-asked-for", strs.eq(ctx, got.items[0], w.items[0]) if ok else False, str(got))
    got, w = ctx.globals["#meas"], want["meas"]
    if w is None:
        return ctx.oblige("measurements-asked-for", got is None)
    # a blank first entry asks for all
    if got is None:
        return ctx.oblige("measurements-asked-for", want["blank"])
    ctx.oblige("measurements-asked-for", Not(want["blank"]))
    if isinstance(w, list):
        s = ctx.seq_of(got) if not is_str(got) else None
        ctx.oblige("a-single-measurement-becomes-a-list", And(iv(s.n) == 1, strs.eq(ctx, s.fn(0), w[0])) if s else False)
    else:
        ctx.oblige("measurements-asked-for", isinstance(got, Ref) and got == w)


def main(forms=("path",), use=None, meas=None, **conf):
    cf = Conf(**conf)
    s0 = setup(cf)
    want = {}

    def s(ctx, fn, T):
        a, kw, T = s0(ctx, fn, T)
        k2, w = selection(ctx, use, meas)
        kw.update(k2)
        want.clear()
        want.update(w)
        return a, kw, T

    def post(path):
        e = ensures(cf, path)

        def f(ctx, T, r):
            check_selection(ctx, want)
            e(ctx, T, r)
        return f

    def task(R):
        for form in forms:
            def setup_(ctx):
                ctx.loopspecs = []
                if form == "path":
                    ctx.assume(opens(PATH))
                    fn = path_arg(ctx)
                    ctx.assume(zb(lib.dyn_is_file(ctx, fn)))
                    return s(ctx, fn, text_of(PATH, z3.BoolVal(False)))
                return s(ctx, stream_arg(ctx), TEXT)
            R.verify("obs3:rinexobs3", setup_, post(form == "path"), None, contracts=contracts(cf),
                     name=f"obs3:rinexobs3[{cf}{',use:' + use if use else ''}{',meas:' + meas if meas else ''};{form}]")
    return task


TASKS = [("plain", main()), ("tlim", main(tlim=True)), ("ivl", main(ivl=True)), ("use-str", main(use="str", meas="str")), ("use-set", main(use="set", meas="list")), ("all", main(ind=True, tlim=True, ivl=True, forms=("path", "stream")))]
