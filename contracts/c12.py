"""C12: kind and version come from the first line and select the matching reader."""
import z3
from pyded.values import *
from pyded.lib import truncf, finitef, is_z3
from pyded import strs, lib
from .common import *

L = z3.Const("first", Ln)
LABELS = ("RINEX VERSION / TYPE", "CRINEX VERS   / TYPE")


def num09(L):
    return strs.num_term(sub(L, z3.IntVal(0), z3.IntVal(9)))


def label_ok(ctx, v):
    return z3.Or(*[zb(strs.eq_lit(ctx, View(v.base, 60, 80), s)) for s in LABELS])


def versionline(ctx, v):
    """what the fixed columns of a label line say: (sp3, rinex)"""
    strs.text_facts(ctx, v.base)
    n = lenf(v.base)
    c0, c1 = strs.char_at(ctx, v, 0), strs.char_at(ctx, v, 1)
    sp3 = z3.And(n >= 2, c0 == ord("#"), z3.Or(*[c1 == ord(c) for c in "acd"]))
    rnx = z3.And(n >= 2, c0 != ord("#"), z3.Implies(n >= 80, label_ok(ctx, v)), fltok(num09(v.base)))
    return sp3, rnx


# ---- rio.rinex_version
def version(R):
    def setup(ctx):
        strs.text_facts(ctx, L)
        return [View(L)], {}, None

    def ens(ctx, g, r):
        sp3, rnx = versionline(ctx, View(L))
        ctx.oblige("accepts-only-label-lines", z3.Or(sp3, rnx))
        if not (isinstance(r, tuple) and len(r) == 2):
            return ctx.oblige("result", False)
        v, crx = r
        if is_str(v):
            ctx.oblige("sp3-version", z3.And(sp3, *[z3.Implies(strs.char_at(ctx, View(L), 1) == ord(c), zb(strs.eq_lit(ctx, v, "sp3" + c)))
                                                    for c in "acd"]))
            ctx.oblige("sp3-not-crinex", crx is False)
        else:
            ctx.oblige("version-is-columns-0-9", z3.And(rnx, v == fltval(num09(L))) if is_z3(v) else False)
            ctx.oblige("crinex-is-columns-20-40", zb(crx) == zb(strs.eq_lit(ctx, View(L, 20, 40), "COMPACT RINEX FORMAT")))

    def exc(ctx, g, e):
        sp3, rnx = versionline(ctx, View(L))
        ctx.oblige("refuses-with-ValueError", e.type == "ValueError")
        ctx.oblige("refuses-only-other-lines", z3.Not(z3.Or(sp3, rnx)))
    R.verify("rio:rinex_version", setup, ens, exc)


# ---- rio.first_nonblank_line
def firstline(R):
    def blankline(ctx, i):
        return zb(strs.is_blank(ctx, View(line(TEXT, z3.IntVal(i)))))

    def setup(ctx):
        return [stream_arg(ctx, cur=0)], {}, None

    def ens(ctx, g, r):
        if not (isinstance(r, View)):
            return ctx.oblige("result", False)
        for k in range(9):
            lk = line(TEXT, z3.IntVal(k))
            strs.text_facts(ctx, lk)
            cond = z3.And(*[blankline(ctx, i) for i in range(k)], z3.Not(blankline(ctx, k)))
            ctx.oblige("first-non-blank-line", z3.Implies(cond, strs.term(ctx, r) == lk))
            ctx.oblige("read-just-past-it", z3.Implies(cond, iv(ctx.get(g0[0]).cur) == k + 1))
        ctx.oblige("some-line-is-not-blank", z3.Or(*[z3.Not(blankline(ctx, k)) for k in range(9)]))

    def exc(ctx, g, e):
        ctx.oblige("refuses-with-ValueError", e.type == "ValueError")
        for i in range(9):
            strs.text_facts(ctx, line(TEXT, z3.IntVal(i)))
        ctx.oblige("refuses-only-blank-starts", z3.And(*[blankline(ctx, i) for i in range(9)]))
    g0 = [None]

    def setup2(ctx):
        a, k, g = setup(ctx)
        g0[0] = a[0]
        return a, k, g
    R.verify("rio:first_nonblank_line", setup2, ens, exc)


# ---- rio.rinexinfo
def expect_info(ctx, text, cols=40):
    k = firstk(text)
    ln = line(text, k)
    v = View(ln)
    sp3, rnx = versionline(ctx, v)
    n = lenf(ln)
    ver = fltval(num09(ln))
    ok = z3.And(hasfirst(text), z3.Or(sp3, z3.And(rnx, n > cols, finitef(ver))))
    return ln, sp3, ok, ver


def info_checks(ctx, r, text):
    ln, sp3, ok, ver = expect_info(ctx, text, 20)  # RINEX 2 NAV needs no system column
    ctx.oblige("accepts-only-label-lines", ok)
    d = ctx.get(r)
    if not isinstance(d, HDict) or d.base or d.layers:
        return ctx.oblige("result-is-a-mapping", False)
    get = lambda k: d.entries.get(k, (False, None))
    if ctx.branch(sp3):
        p, v = get("version")
        ctx.oblige("sp3-version", p if not is_str(v) else And(p, strs.eq(ctx, v, View(ln, 1, 2))))
        p, v = get("rinextype")
        ctx.oblige("sp3-kind", And(p, strs.eq(ctx, v, "sp3")) if is_str(v) else False)
        return
    c20, c40 = strs.char_at(ctx, View(ln), 20), strs.char_at(ctx, View(ln), 40)
    p, v = get("version")
    ctx.oblige("version", And(p, v == ver) if is_z3(v) else False)
    p, v = get("filetype")
    ctx.oblige("filetype-is-column-20", And(p, strs.eq(ctx, v, View(ln, 20, 21))) if is_str(v) else False)
    p, v = get("rinextype")
    nav = zb(strs.contains_(ctx, View(ln, 20, 40), "NAV"))
    if is_str(v):
        obs = z3.Or(c20 == ord("O"), c20 == ord("C"))
        nv = z3.And(z3.Not(obs), z3.Or(c20 == ord("N"), nav))
        ctx.oblige("observation-kind", And(p, z3.Implies(obs, zb(strs.eq(ctx, v, "obs")))))
        ctx.oblige("navigation-kind", And(p, z3.Implies(nv, zb(strs.eq(ctx, v, "nav")))))
        ctx.oblige("other-kind", z3.Implies(z3.Not(z3.Or(obs, nv)), zb(strs.eq(ctx, v, View(ln, 20, 21)))))
    else:
        ctx.oblige("kind", False)
    p, v = get("systems")
    if is_str(v):
        two = truncf(ver) == 2
        one = View(ln, 40, 41)
        blank2 = z3.And(two, c40 == 32, *[c20 != ord(c) for c in "NGE"])
        ctx.oblige("system-of-a-navigation-2-file", And(p, *[z3.Implies(z3.And(two, c20 == ord(a)), zb(strs.eq(ctx, v, b)))
                                                             for a, b in (("N", "G"), ("G", "R"), ("E", "E"))]))
        ctx.oblige("blank-system-2-is-GPS", z3.Implies(blank2, zb(strs.eq(ctx, v, "G"))))
        ctx.oblige("system-is-column-40", z3.Implies(z3.And(z3.Or(z3.Not(two), c40 != 32), z3.Or(z3.Not(two), *[z3.And(*[c20 != ord(c) for c in "NGE"])])),
                                                     zb(strs.eq(ctx, v, one))))
    else:
        ctx.oblige("system", False)


def info(R):
    for kind in ("StringIO", "TextIOWrapper"):
        ref = [None]

        def setup(ctx):
            ref[0] = stream_arg(ctx, kind)
            return [ref[0]], {}, None

        def ens(ctx, g, r):
            info_checks(ctx, r, TEXT)
            ctx.oblige("read-from-the-start", iv(ctx.get(ref[0]).cur) == firstk(TEXT) + 1)

        def exc(ctx, g, e):
            ln, sp3, ok, ver = expect_info(ctx, TEXT)
            ctx.oblige("refuses-with-ValueError", e.type == "ValueError")
            ctx.oblige("refuses-only-other-lines", z3.Not(ok))
        R.verify("rio:rinexinfo", setup, ens, exc, contracts={"rio:first_nonblank_line": c_first}, name=f"rio:rinexinfo[{kind}]")

    def setup(ctx):
        return [path_arg(ctx)], {}, None
    T1 = text_of(PATH, z3.BoolVal(True))

    def ens(ctx, g, r):
        info_checks(ctx, r, T1)

    def exc(ctx, g, e):
        ln, sp3, ok, ver = expect_info(ctx, T1)
        ctx.oblige("refuses-with-ValueError", e.type in ("ValueError", "FileNotFoundError"))
        ctx.oblige("missing-file", z3.Implies(e.type == "FileNotFoundError", z3.Not(z3.And(lib.pis_file(PATH), lib.pis_file(lib.pexpand(PATH))))))
        ctx.oblige("refuses-only-other-lines", z3.Not(z3.And(ok, lib.pis_file(PATH), lib.pis_file(lib.pexpand(PATH)), opens(PATH))))
    R.verify("rio:rinexinfo", setup, ens, exc, contracts={"rio:first_nonblank_line": c_first, "rio:opener": c_opener},
             name="rio:rinexinfo[path]")


# ---- dispatch
OPT = {k: opq(k) for k in ("use", "useindicators", "meas", "verbose", "fast", "interval", "overwrite")}
T0, T1_ = z3.Ints("tlim0 tlim1")


def texts(kind):
    return text_of(PATH, z3.BoolVal(True)) if kind == "path" else TEXT


def mkfn(ctx, kind):
    if kind == "path":
        return path_arg(ctx)
    return stream_arg(ctx)


def tlim_arg(ctx):
    if ctx.branch(z3.Const("has_tlim", B)):
        ctx.assume(T0 <= T1_)
        return (VDT(T0), VDT(T1_))
    return None


def same_fn(ctx, kind, a, fn):
    if kind == "path":
        return same_path(a, PATH)
    return a == fn


def dispatch(R, qual, readers, kind, kwnames, expect, fwd, refuse, extra=None, contracts=None, name=None):
    """the call reaches exactly the reader the first line selects, with the
    caller's options, and returns what it returns"""
    text = texts(kind)
    st = {}

    def setup(ctx):
        fn = mkfn(ctx, kind)
        st["fn"] = fn
        kw = {}
        for k in kwnames:
            kw[k] = tlim_arg(ctx) if k == "tlim" else False if k == "verbose" else OPT[k]
        st["kw"] = kw
        return [fn], kw, None

    def ens(ctx, g, r):
        cs = calls(ctx)
        if len(cs) != 1:
            return ctx.oblige("exactly-one-reader", False, str([c[0] for c in cs]))
        nm, b, ret = cs[0]
        want = expect(text)
        ctx.oblige("reader-of-that-kind-and-version", want.get(nm, False))
        ctx.oblige("same-file", same_fn(ctx, kind, b.get("fn", b.get("f")), st["fn"]))
        ctx.oblige("returns-the-reader's-result", identical(r, ret))
        for k in fwd.get(nm, ()):
            ctx.oblige(f"option-{k}-forwarded", k in b and identical(b[k], st["kw"][k]), f"{k}: {b.get(k)}")

    def exc(ctx, g, e):
        text_ok = z3.And(okinfo(text), opens(PATH), lib.pis_file(PATH), lib.pis_file(lib.pexpand(PATH))) if kind == "path" else okinfo(text)
        ctx.oblige("refuses-with-an-error", any(exc_isa(e.type, t) for t in refuse))
        # version 1 files may be read as version 2 or refused
        v1 = kinds(text)[3] == 1
        cs = calls(ctx)
        ctx.oblige("no-reader-before-refusing", len(cs) == 0)
        ctx.oblige("refuses-only-other-kinds", z3.Not(z3.And(text_ok, z3.Not(v1), z3.Or(*[zb(x) for x in expect(text).values()]))))
    cons = {"rio:rinexinfo": c_info}
    for n in readers:
        cons[n] = recorder(n.split(":")[1])
    cons.update(contracts or {})
    R.verify(qual, setup, ens, exc, contracts=cons, name=f"{name or qual}[{kind}]")


def strict(names, v1):
    """names: (kind, version) -> reader; v1 readers may also serve version 1"""
    def expect(text):
        sp3, obs, nav, V = kinds(text)
        out = {}
        for (k, n), nm in names.items():
            K = {"obs": obs, "nav": nav, "sp3": sp3}[k]
            if n is None:
                out[nm] = K
            elif n == 2:
                out[nm] = z3.And(K, z3.Or(V == 2, V == 1))
            else:
                out[nm] = z3.And(K, V == n)
        return out
    return expect


TIMES = {("obs", 2): "obstime2", ("obs", 3): "obstime3", ("nav", 2): "navtime2", ("nav", 3): "navtime3"}
HDRS = {("obs", 2): "obsheader2", ("obs", 3): "obsheader3", ("nav", 2): "navheader2", ("nav", 3): "navheader3"}
ERR = ("ValueError", "LookupError", "OSError", "AssertionError")


def gettime(R):
    for kind in ("path", "stream"):
        dispatch(R, "utils:gettime", [f"{n[:3]}{n[-1]}:{n}" for n in TIMES.values()], kind, [], strict(TIMES, True), {}, ERR)


def rinexheader(R):
    def expect_path(text):
        return strict(HDRS, True)(text)
    dispatch(R, "utils:rinexheader", [f"{n[:3]}{n[-1]}:{n}" for n in HDRS.values()], "stream", [], expect_path, {}, ERR)
    # a path is read through the opener in header mode
    text = text_of(PATH, z3.BoolVal(True))

    def setup(ctx):
        return [path_arg(ctx)], {}, None

    def ens(ctx, g, r):
        cs = calls(ctx)
        if len(cs) != 1:
            return ctx.oblige("exactly-one-reader", False)
        nm, b, ret = cs[0]
        ctx.oblige("reader-of-that-kind-and-version", strict(HDRS, True)(text).get(nm, False))
        f = b.get("f", b.get("fn"))
        h = ctx.get(f) if ctx.kind(f) == "file" else None
        ctx.oblige("same-file", same_path(f, PATH) if h is None else h.text == text)
        ctx.oblige("returns-the-reader's-result", identical(r, ret))

    def exc(ctx, g, e):
        ctx.oblige("refuses-with-an-error", any(exc_isa(e.type, t) for t in ERR))
        ok = z3.And(okinfo(text), opens(PATH), lib.pis_file(PATH), lib.pis_file(lib.pexpand(PATH)), kinds(text)[3] != 1)
        ctx.oblige("refuses-only-other-kinds", z3.Not(z3.And(ok, z3.Or(*strict(HDRS, True)(text).values()))))
    cons = {"rio:rinexinfo": c_info, "rio:opener": c_opener}
    cons.update({f"{n[:3]}{n[-1]}:{n}": recorder(n) for n in HDRS.values()})
    R.verify("utils:rinexheader", setup, ens, exc, contracts=cons, name="utils:rinexheader[path]")


def rinexnav(R):
    for kind in ("path", "stream"):
        dispatch(R, "base:rinexnav", ["nav2:rinexnav2", "nav3:rinexnav3"], kind, ["use", "tlim"],
                 lambda text: {"rinexnav2": z3.And(kinds(text)[2], kinds(text)[3] == 2), "rinexnav3": z3.And(kinds(text)[2], kinds(text)[3] == 3)},
                 {"rinexnav2": ["tlim"], "rinexnav3": ["use", "tlim"]}, ERR,
                 contracts={"rio:rinexinfo": only(c_info, "nav")})


OBSKW = ["use", "tlim", "useindicators", "meas", "verbose", "fast", "interval"]


def rinexobs(R):
    for kind in ("path", "stream"):
        dispatch(R, "base:rinexobs", ["obs2:rinexobs2", "obs3:rinexobs3"], kind, OBSKW,
                 lambda text: {"rinexobs2": z3.And(kinds(text)[1], z3.Or(kinds(text)[3] == 2, kinds(text)[3] == 1)),
                               "rinexobs3": z3.And(kinds(text)[1], kinds(text)[3] == 3)},
                 {"rinexobs2": OBSKW, "rinexobs3": OBSKW}, ERR,
                 contracts={"rio:rinexinfo": only(c_info, "obs")})


def only(c, want):
    """precondition of the kind-specific entry point: a text of that kind"""
    def f(ctx, b):
        r = c(ctx, b)
        d = ctx.get(r)
        if d.entries["rinextype"][1] != want:
            raise Infeasible()
        return r
    return f


def load(R):
    def expect(text):
        sp3, obs, nav, V = kinds(text)
        return {"rinexnav": nav, "rinexobs": obs, "load_sp3": sp3}
    for kind in ("path", "stream"):
        def exp(text, kind=kind):
            e = expect(text)
            if kind == "stream":
                e.pop("load_sp3")  # SP3 is read from paths only
            return e
        dispatch(R, "base:load", ["base:rinexnav", "base:rinexobs", "sp3:load_sp3"], kind,
                 ["use", "tlim", "useindicators", "meas", "verbose", "overwrite", "fast", "interval"], exp,
                 {"rinexnav": ["use", "tlim", "overwrite"], "rinexobs": OBSKW + ["overwrite"]}, ERR)


TASKS = [(f.__name__, f) for f in (version, firstline, info, gettime, rinexheader, rinexnav, rinexobs, load)]

ASSUMPTIONS = [
    "the first line is at most 81 characters long (readline(81) of a longer line splits it)",
    "opener() hands out the decoded text of the path, positioned at its start (C13 verifies opener itself)",
    "NetCDF paths (.nc) are C14's",
    "the kind-specific entry points rinexobs and rinexnav are called for a text of their kind (load() guarantees it)",
]
