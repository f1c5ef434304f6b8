"""Observation headers: obsheader2.

The mapping before line m holds, for each label met, the texts of its lines
joined by blanks, and under # / TYPES OF OBSERV the names on all its lines.
"""
import ast
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, loops, records
from pyded.interp import METHODS, MODELS, model
from pyded.records import LoopInv
from .common import *
from .hdr import *
from .hdr import Lines, Guarded, merge_try
from .recfile import G

TYPES = "# / TYPES OF OBSERV"
VAL = z3.Function("header_text", FileS, Ln, I, Ln)         # key, lines before m
NF = z3.Function("n_observables", FileS, I, I)             # names on the lines before m
NAME = z3.Function("observable_name", FileS, I, Ln)
FT = z3.Function("first_types_line", FileS, I)
HT = z3.Function("header_time", Ln, I)
HTOK = z3.Function("header_time_ok", Ln, B)
GEO = [z3.Function(f"geodetic_{i}", Fl, Fl, Fl, Fl) for i in range(3)]


def content(ctx, T, i):
    return View(line(T, iv(i)), 0, 60)


def lab2(ctx, L):
    return Strip(strs.slice_(ctx, View(L), 60, 80))


def count(T):
    return intval(strs.num_term(sub(line(T, FT(T)), z3.IntVal(0), z3.IntVal(6))))


def names_on(ctx, L):
    """the list of names on a types line"""
    return lib.split_term(ctx, View(L, 6, 60))


def c_timehdr(ctx, b):
    t = strs.term(ctx, b["ln"])
    if ctx.branch(HTOK(t)):
        return VDT(HT(t))
    ctx.raise_("ValueError", "not a date")


def geodetic(ctx, a, kw):
    if kw or len(a) != 3:
        raise Unsupported("ecef2geodetic")
    x = [ctx.tofl(v) for v in a]
    return tuple(g(*x) for g in GEO)


MODELS["pymap3d.ecef2geodetic"] = geodetic


def omap(T, m, types, info):
    def has(ctx, k):
        if isinstance(k, str) and k in info:
            return info[k][0]
        if ctx.branch(zb(ctx.equal(k, TYPES))):
            return FT(T) < iv(m)
        return PRES(T, strs.term(ctx, k), iv(m))

    def value(ctx, k):
        if isinstance(k, str) and k in info:
            return info[k][1]
        if ctx.branch(zb(ctx.equal(k, TYPES))):
            return types
        t = VAL(T, strs.term(ctx, k), iv(m))
        strs.text_facts(ctx, t)
        ctx.fact(z3.Implies(PRES(T, strs.term(ctx, k), iv(m)), z3.And(clen(t) >= 60, lenf(t) == clen(t))))
        return View(t)
    return HObj("HMAP", {"log": (), "has": has, "value": value, "upto": m, "types": types, "info": info})


def names(T, n):
    return HList([("seq", Seq(n, lambda k: View(NAME(T, iv(k)))))])


class LinesObs(Lines):
    name = "header-loop"
    lab = staticmethod(lab2)

    def initial(self, ctx):
        return G(m=sx(firstk(self.T) + 1), types=None, case="start")

    def begin(self, ctx, node):
        m = ctx.fresh("m", I)
        ctx.assume(z3.And(m > firstk(self.T), m <= EOH(self.T), m < nlines(self.T)))
        return self.ghost(ctx, m, "line")

    def ghost(self, ctx, m, case):
        g = G(m=m, types=None, case=case)
        if ctx.branch(FT(self.T) < iv(m)):
            ctx.fact(NF(self.T, iv(m)) >= 0)
            g.types = ctx.alloc(names(self.T, NF(self.T, iv(m))))
        else:
            ctx.fact(NF(self.T, iv(m)) == 0)
        return g

    def exit(self, ctx):
        ctx.assume(EOH(self.T) == nlines(self.T))
        return self.ghost(ctx, nlines(self.T), "exit")

    def after(self, ctx, g):
        Lines.after(self, ctx, G(m=g.m, subs={}))
        return G(m=sx(iv(g.m) + 1), types=g.types, case="after", line=line(self.T, iv(g.m)))

    def var(self, ctx, name, init, g):
        if is_int(init):
            # the declared number of observables
            return sx(z3.If(FT(self.T) < iv(g.m), count(self.T), z3.IntVal(0)))
        return Poison(f"{name} is carried by the loop")

    def check_var(self, ctx, name, got, want, g, g2):
        records.same(ctx, "declared-number-of-observables", got, want)

    def heap(self, ctx, id, rec0, g):
        if isinstance(rec0, HFile):
            return HFile(rec0.text, g.m, rec0.kind, rec0.info)
        if isinstance(rec0, HObj) and rec0.cls == "HMAP":
            return omap(self.T, g.m, g.types, rec0.attrs["info"])
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def check_heap(self, ctx, id, rec, rec0, g, g2):
        if isinstance(rec0, HFile):
            return ctx.oblige("one-line-at-a-time", iv(rec.cur) == iv(g2.m))
        T, m, L = self.T, iv(g.m), g2.line
        lab = self.lab(ctx, L)
        log = rec.attrs["log"]
        for key, v in log:
            ctx.oblige("under-its-own-label", zb(ctx.equal(key, lab)))
        if ctx.branch(zb(ctx.equal(lab, TYPES))):
            v = log[-1][1] if log else g.types
            if not (isinstance(v, Ref) and ctx.kind(v) == "list"):
                return ctx.failobl("observables-listed", f"{v}")
            t = names_on(ctx, L)
            n0 = NF(T, m)
            for q in (z3.Int("q!name"),):
                pass

            def fn(k):
                if ctx.branch(iv(k) < n0):
                    return View(NAME(T, iv(k)))
                return View(lib.tok_fact(ctx, t, sx(iv(k) - n0)))
            records.same_seq(ctx, "observables-listed", ctx.list_seq(ctx.get(v)), Seq(sx(n0 + ntok(t)), fn))
            return
        if g.types is not None:
            records.same_seq(ctx, "observables-kept", ctx.list_seq(ctx.get(g.types)), Seq(NF(T, m), lambda k: View(NAME(T, iv(k)))))
        ctx.oblige("every-line-is-recorded", bool(log))
        if not log:
            return
        v = log[-1][1]
        c = strs.slice_(ctx, View(L), None, 60)
        if ctx.branch(PRES(T, strs.term(ctx, lab), m)):
            want = cat(View(VAL(T, strs.term(ctx, lab), m)), " ", c)
        else:
            want = c
        if not is_str(v):
            return ctx.failobl("texts-joined", f"{v}")
        records.same(ctx, "texts-joined", v, want)


def entries(ctx, o, k):
    """what was written at a fixed key after the loop: [(condition, value)], newest first"""
    out = []
    for key, v in reversed(o.attrs["log"]):
        if not isinstance(key, str):
            raise Unsupported("key of the result")
        if key == k:
            if isinstance(v, Guarded):
                out.append((v.cond, v.value(ctx)))
            else:
                out.append((z3.BoolVal(True), v))
    return out


def expect(ctx, o, k, present, check, under=None):
    """the entry at k is there exactly if present, and then check(value) holds"""
    es = entries(ctx, o, k)
    ctx.oblige(f"{k}-when-it-can-be-read", (z3.Or(*[c for c, _ in es]) if es else z3.BoolVal(False)) == zb(present))
    newer = []
    for c, v in es:
        given(ctx, z3.And(c, *[z3.Not(x) for x in newer]), lambda: check(v))
        newer.append(c)


def given(ctx, cond, body):
    """obligations that are to hold where cond does"""
    s = ctx.save()
    try:
        ctx.assume(cond)
        body()
    except Infeasible:
        pass
    ctx.restore(s)


def text_at(ctx, o, T, k):
    """(is there a line with this label, the joined text)"""
    E = iv(o.attrs["upto"])
    return PRES(T, lit(k), E), VAL(T, lit(k), E)


def wellformed2(ctx, T):
    E = EOH(T)
    strs.register_lit(ctx, "END OF HEADER")
    strs.register_lit(ctx, TYPES)
    ctx.fact(z3.And(firstk(T) >= 0, firstk(T) < nlines(T), E > firstk(T), E <= nlines(T), FT(T) > firstk(T)))
    ctx.fact(z3.And(intok(strs.num_term(sub(line(T, FT(T)), z3.IntVal(0), z3.IntVal(6)))), count(T) >= 1))

    def schema(c, text, i):
        if not text.eq(T):
            return
        i = iv(i)
        L = line(T, i)
        c.fact(z3.Implies(z3.And(i > firstk(T), i < E), Not(iseoh(T, i))))
        c.fact(z3.Implies(z3.And(i == E, i < nlines(T)), iseoh(T, i)))
        lab = lab2(c, L)
        ty = zb(strs.eq_lit(c, lab, TYPES))
        c.fact(zb(strs.contains_(c, lab, TYPES)) == ty)
        c.fact(z3.Implies(z3.And(i > firstk(T), i < FT(T)), z3.Not(ty)))
        c.fact(z3.Implies(z3.And(i == FT(T), i < E), ty))
        for k in INFO:
            c.fact(Not(strs.eq_lit(c, lab, k)))
        t = names_on(c, L)
        c.fact(ntok(t) >= 0)
        c.fact(NF(T, i + 1) == z3.If(ty, NF(T, i) + ntok(t), NF(T, i)))
    ctx.globals["#lineschemas"] = (schema,)


INFO = ("version", "filetype", "rinextype", "systems")


def c_info_obs(ctx, b):
    """four facts of the first line (C12), whatever they are"""
    f = b["f"]
    h = ctx.get(f)
    T = h.text
    ctx.put(f, HFile(T, 0, h.kind, h.info))
    if not ctx.branch(okinfo(T)):
        ctx.raise_("ValueError", "not a known/valid RINEX file")
    k = firstk(T)
    ctx.fact(z3.And(k >= 0, k <= 8))
    ctx.put(f, HFile(T, sx(k + 1), h.kind, h.info))
    inf = {x: (True, VOpq(z3.Const("info_" + x, Obj), "opt")) for x in INFO}

    def has(ctx, k):
        return Or(*[ctx.equal(k, x) for x in inf])

    def value(ctx, k):
        for x, (p, v) in inf.items():
            if ctx.branch(zb(ctx.equal(k, x))):
                return v
    return ctx.alloc(omap(T, k + 1, None, inf).with_(has=has, value=value))


DECODED = ("position", "position_geodetic", "# OF SATELLITES", "t0", "t1", "interval")


def floats_of(ctx, t):
    """the numbers of a text, and when all can be read: (count, k-th, ok)"""
    s = lib.split_term(ctx, View(t))
    ctx.fact(ntok(s) >= 0)
    return ntok(s), lambda k: fltval(strs.num_term(tok(s, iv(k)))), s


def decoded(ctx, o, T):
    """the well-known records"""
    # position: the first three numbers
    has, t = text_at(ctx, o, T, "APPROX POSITION XYZ")
    n, num, s = floats_of(ctx, t)
    es = entries(ctx, o, "position")
    k = z3.Int("k!pos")
    def pos3(v):
        ctx.oblige("position-only-if-given", has)
        q = ctx.seq_of(v)
        ctx.oblige("position-first-three-numbers", iv(q.n) == z3.If(n < 3, n, 3))
        for i in range(3):
            def one(i=i):
                a = q.fn(i)
                ctx.oblige("position-first-three-numbers", ctx.tofl(a) == num(i) if is_flt(a) else False)
            given(ctx, n > i, one)
    for c, v in es:
        given(ctx, c, lambda: pos3(v))
    ctx.oblige("position-when-given", z3.Implies(z3.And(has, z3.Not(z3.Or(*[c for c, _ in es]) if es else z3.BoolVal(False))),
                                                 z3.Not(allnum(ctx, s, n))))

    def geo(v):
        ctx.oblige("geodetic-of-the-position", isinstance(v, tuple) and len(v) == 3)
        x = [num(i) for i in range(3)]
        for a, g in zip(v, GEO):
            ctx.oblige("geodetic-of-the-position", ctx.tofl(a) == g(*x) if is_flt(a) else False)
    pos = z3.Or(*[c for c, _ in es]) if es else z3.BoolVal(False)
    expect(ctx, o, "position_geodetic", z3.And(pos, n >= 3), geo)
    for k, lab in (("t0", "TIME OF FIRST OBS"), ("t1", "TIME OF LAST OBS")):
        has, t = text_at(ctx, o, T, lab)
        expect(ctx, o, k, z3.And(has, HTOK(t)), lambda v, t=t, k=k: records.same(ctx, f"{k}-is-the-time-of-its-record", v, VDT(HT(t))))
    has, t = text_at(ctx, o, T, "INTERVAL")
    f = strs.num(ctx, View(t, 0, 10))
    expect(ctx, o, "interval", z3.And(has, fltok(f)),
           lambda v: ctx.oblige("interval-is-the-number-written", ctx.tofl(v) == fltval(f) if is_flt(v) else False))
    has, t = text_at(ctx, o, T, "# OF SATELLITES")
    g = strs.num(ctx, View(t, 0, 6))
    expect(ctx, o, "# OF SATELLITES", z3.And(has, intok(g)),
           lambda v: ctx.oblige("satellite-count-is-the-number-written", iv(v) == intval(g) if is_int(v) else False))
    has, t = text_at(ctx, o, T, "RINEX VERSION / TYPE")

    def letter(v):
        c = View(t, 40, 41)
        want = "G" if ctx.branch(zb(strs.eq_lit(ctx, c, " "))) else c
        records.same(ctx, "system-letter-of-the-packed-file", v, want)
    expect(ctx, o, "systems", has, letter)


def allnum(ctx, s, n):
    k = z3.Int("k!num")
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), fltok(strs.num_term(tok(s, k)))))


def strs_starts(ctx, s, p):
    return METHODS[("str", "startswith")](ctx, s, p)


def listed(ctx, o, T, u, ms=None):
    """the observables: every name on every line, their number, the lines a satellite takes"""
    E = iv(o.attrs["upto"])
    types = FT(T) < E
    n = z3.If(types, NF(T, E), 0)
    for key in ("Nobs", "Nl_sv", "Nobsused"):
        def number(v, key=key):
            want = {"Nobs": n, "Nl_sv": z3.If(types, (count(T) + 4) / 5, 0), "Nobsused": z3.If(u, 3 * n, n)}[key]
            ctx.oblige(f"{key}-of-the-declared-names", iv(v) == want if is_int(v) else False)
        expect(ctx, o, key, True, number)

    if ms is None:
        used = Seq(NF(T, E), lambda k: sx(iv(k)))
    else:
        # those that start with one of the codes asked for
        mask = HArr((NF(T, E),), "bool", lambda ix: Or(*[strs_starts(ctx, View(NAME(T, iv(ix[0]))), m) for m in ms]))
        used = ctx.seq_of(lib.MODELS["numpy.nonzero"](ctx, [ctx.alloc(mask)], {})[0])

    def fields(v):
        records.same_seq(ctx, "every-declared-observable-in-order" if ms is None else "observables-asked-for-in-order",
                         ctx.seq_of(v), Seq(used.n, lambda k: View(NAME(T, iv(used.fn(k))))))
    expect(ctx, o, "fields", types, fields)

    def ind(v):
        records.same_seq(ctx, "places-of-the-observables-used", ctx.seq_of(v), used)
    expect(ctx, o, "fields_ind", types, ind)


def obs2(meas=0, name="stream"):
    def task(R):
        run2(R, meas, name)
    return task


def run2(R, nmeas, name):
    def setup(ctx):
        ctx.loopspecs = []
        ctx.globals["#trymerge"] = merge_try
        records.install(ctx, LinesObs())
        wellformed2(ctx, TEXT)
        f = stream_arg(ctx, "TextIOWrapper" if ctx.choose(2) else "StringIO")
        u = z3.Bool("useindicators")
        ms = None
        if nmeas:
            ms = []
            for i in range(nmeas):
                M = z3.Const(f"meas_{i}", Ln)
                strs.text_facts(ctx, M)
                ctx.fact(clen(M) >= 1)
                ctx.fact(z3.Not(strs.is_blank(ctx, View(M))))
                ms.append(View(M))
        arg = ms and ctx.alloc(HList([("item", x) for x in ms]))
        return [f, u, arg], {}, (f, u, ms)

    def ens(ctx, g, r):
        f, u, ms = g
        if not (isinstance(r, Ref) and ctx.kind(r) == "HMAP"):
            return ctx.failobl("returns-the-mapping", f"{r}")
        o = ctx.get(r)
        E = EOH(TEXT)
        ctx.oblige("all-header-lines", iv(o.attrs["upto"]) == E)
        ctx.oblige("stops-behind-END-OF-HEADER", iv(ctx.get(f).cur) == z3.If(E < nlines(TEXT), E + 1, nlines(TEXT)))
        decoded(ctx, o, TEXT)
        listed(ctx, o, TEXT, u, ms)
        known = set(DECODED) | {"fields", "fields_ind", "Nobs", "Nl_sv", "Nobsused", "rxmodel", "systems"}
        for k, v in o.attrs["log"]:
            ctx.oblige("no-other-entry", k in known)

    def exc(ctx, f, e):
        ctx.oblige("refused-with-ValueError", e.type == "ValueError", e.type)
        ctx.oblige("refused-only-for-its-first-line", Not(okinfo(TEXT)))
    R.verify("obs2:obsheader2", setup, ens, exc, contracts={"rio:rinexinfo": c_info_obs, "obs2:_timehdr": c_timehdr}, name=f"obs2:obsheader2[{name}]")


def path2(R):
    """obsheader2 of a path: of the opened file, with the same selection"""
    def rec(ctx, b):
        r = VOpq(ctx.fresh("header", Obj), "result")
        ctx.globals["#calls"] = calls(ctx) + (("header", b, r),)
        return r

    def setup(ctx):
        ctx.assume(opens(PATH))
        fn = path_arg(ctx)
        ctx.assume(zb(lib.dyn_is_file(ctx, fn)))
        u, m = opq("u"), opq("meas")
        return [fn, u, m], {}, (u, m)

    def ens(ctx, g, r):
        cs = calls(ctx)
        ok = len(cs) == 1 and cs[0][2] is r and isinstance(cs[0][1]["f"], Ref) and ctx.kind(cs[0][1]["f"]) == "file"
        ctx.oblige("reads-the-opened-file", ok)
        if ok:
            b = cs[0][1]
            ctx.oblige("of-this-path-as-a-header", ctx.get(b["f"]).text == text_of(PATH, z3.BoolVal(True)))
            ctx.oblige("same-selection", identical(b["useindicators"], g[0]) and identical(b["meas"], g[1]))
    R.verify("obs2:obsheader2", setup, ens, None, contracts={"rio:opener": c_opener, "obs2:obsheader2": rec}, name="obs2:obsheader2[path]")


TASKS = [("obsheader2", obs2()), ("obsheader2 with one code", obs2(1, "one code")), ("obsheader2 with two codes", obs2(2, "two codes")),
         ("obsheader2 of a path", path2)]
ASSUMPTIONS = [
    "RINEX 2 observation headers: no label contains `# / TYPES OF OBSERV` without being it, and none is one of the mapping's own lower-case keys; "
    "the first types line declares at least one observable in columns 1-6; str.split gives the words of a text in order",
    "obsheader2 selects by lists of at most two measurement codes (any codes); ecef2geodetic (pymap3d) is trusted; a labelled line has its 60 columns",
    "the number of lines a satellite takes follows the declared number of observables",
]
