"""C01: epoch decoders return exactly the written date and time."""
import z3
from pyded.values import *
from pyded.lib import US, DAY
from pyded import strs
from pyded.floats import rv, near

L = z3.Const("ln", Ln)


def fld(a, b):
    return strs.num_term(sub(L, z3.IntVal(a), z3.IntVal(b)))


def ival(a, b):
    return intval(fld(a, b))


def seconds_field(ctx, N, lo, dot, hi, ctxbase=L, full=False):
    """columns [lo,hi) of the line hold a number N / 10**(hi-dot-1), the point
    at column dot; with full=False trailing decimals may be left out"""
    dec = hi - dot - 1
    scale = 10 ** dec

    def hook(c, t, kind):
        if t.decl().name() != "sub" or not t.arg(0).eq(ctxbase):
            return
        a, b = sx(t.arg(1)), sx(t.arg(2))
        if not (isinstance(a, int) and isinstance(b, int)):
            return
        if a > dot and full and kind == "int" and b <= hi:
            c.fact(z3.And(intok(t), intval(t) == (N % scale) / 10 ** (hi - b) % 10 ** (b - a)))
            return
        if a >= dot or a > dot - 2 or b < dot:
            if a == dot and kind == "float" and b == hi:  # ".ddd"
                x = z3.ToReal(N % scale) / scale
                c.fact(z3.And(fltok(t), near(rv(fltval(t)), x), z3.Implies(N % scale == 0, rv(fltval(t)) == 0)))
            return
        if a < lo:
            return
        if b <= dot and kind == "int":
            c.fact(z3.And(intok(t), intval(t) == N / scale))
        if kind == "float":
            k = scale if b <= dot + 1 else (1 if b >= hi else 10 ** (hi - b))
            n = N if k == 1 else N / k * k
            x = z3.ToReal(n) / scale
            c.fact(z3.And(fltok(t), near(rv(fltval(t)), x)))
            c.fact(z3.Implies(n % scale == 0, rv(fltval(t)) == x))
        if kind == "int" and b > dot:
            c.fact(z3.Not(intok(t)))
    ctx.globals["#numhooks"] = ctx.globals.get("#numhooks", ()) + (hook,)


def civil(y, m, d, h, mi):
    return ((days(y, m, d) * 24 + h) * 60 + mi) * 60 * US


def dateok(y, m, d, h, mi, s):
    return z3.And(dvalid(y, m, d), h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60)


def oks(*ab):
    return z3.And(*[intok(fld(a, b)) for a, b in ab])


def check(ctx, r, us, label="timestamp"):
    if not isinstance(r, VDT):
        ctx.oblige(label, False, f"returned {r}")
    else:
        ctx.oblige(label, iv(r.us) == us)


def base_line(ctx, N, lo, dot, hi, full=False, maxsec=100):
    v = View(L)
    strs.text_facts(ctx, L)
    ctx.assume(z3.And(N >= 0, N < maxsec * 10 ** (hi - dot - 1), clen(L) >= hi))
    seconds_field(ctx, N, lo, dot, hi, full=full)
    return v


def only_valueerror(ctx, e, unless=False):
    ctx.oblige("rejects-with-ValueError", True if e.type == "ValueError" else unless)


# ---- RINEX 2 observation epoch line
def obs2(R):
    N = z3.Int("N")
    DEC = 10 ** 7
    cols = [(1, 3), (4, 6), (7, 9), (10, 12), (13, 15)]

    def setup(ctx):
        ln = base_line(ctx, N, 15, 18, 26)
        return [ln], {}, None
    yy, mo, d, h, mi = [ival(*c) for c in cols]
    y = z3.If(yy < 80, yy + 2000, yy + 1900)
    s = N / DEC
    us = civil(y, mo, d, h, mi) + s * US + (N % DEC) / 10
    flag = ival(28, 29)
    okflag = z3.And(intok(fld(28, 29)), z3.Or(*[flag == k for k in (0, 1, 5, 6)]))
    ok = z3.And(oks(*cols), dateok(y, mo, d, h, mi, s), okflag)

    def ens(ctx, g, r):
        check(ctx, r, us)
        ctx.oblige("accepts-only-valid", ok)

    def exc(ctx, g, e):
        only_valueerror(ctx, e, clen(L) < 29)
        strs.is_blank_facts(ctx, fld(28, 29))
        ctx.oblige("accepts-every-valid", z3.Not(ok))
    R.verify("obs2:_timeobs", setup, ens, exc, floats="rounding")


# ---- RINEX 3 observation epoch line
def obs3(R):
    N = z3.Int("N")
    DEC = 10 ** 7
    cols = [(2, 6), (7, 9), (10, 12), (13, 15), (16, 18)]

    def setup(ctx):
        return [base_line(ctx, N, 18, 21, 29)], {}, None
    y, mo, d, h, mi = [ival(*c) for c in cols]
    s = N / DEC
    us = civil(y, mo, d, h, mi) + s * US + (N % DEC) / 10

    def ens(ctx, g, r):
        check(ctx, r, us)
        ok = z3.And(oks(*cols), dateok(y, mo, d, h, mi, s), strs.starts_lit(ctx, View(L), ">"))
        ctx.oblige("accepts-only-valid", ok)

    def exc(ctx, g, e):
        only_valueerror(ctx, e)
        ok = z3.And(oks(*cols), dateok(y, mo, d, h, mi, s), strs.starts_lit(ctx, View(L), "> "))
        ctx.oblige("accepts-every-valid", z3.Not(ok))
    R.verify("obs3:_timeobs", setup, ens, exc, floats="rounding")


# ---- RINEX 2 navigation epoch line, F5.1 seconds
def nav2(R):
    N = z3.Int("N")
    cols = [(3, 5), (6, 8), (9, 11), (12, 14), (15, 17)]

    def setup(ctx):
        return [base_line(ctx, N, 17, 20, 22)], {}, None
    yy, mo, d, h, mi = [ival(*c) for c in cols]
    y = z3.If(yy < 80, yy + 2000, yy + 1900)
    s = N / 10
    us = civil(y, mo, d, h, mi) + s * US + (N % 10) * (US // 10)
    ok = z3.And(oks(*cols), dateok(y, mo, d, h, mi, s))

    def ens(ctx, g, r):
        check(ctx, r, us)
        ctx.oblige("accepts-only-valid", ok)

    def exc(ctx, g, e):
        only_valueerror(ctx, e)
        ctx.oblige("accepts-every-valid", z3.Not(ok))
    R.verify("nav2:_timenav", setup, ens, exc, floats="rounding")


# ---- RINEX 3 navigation epoch line, I2 seconds
def nav3(R):
    cols = [(4, 8), (9, 11), (12, 14), (15, 17), (18, 20), (21, 23)]

    def setup(ctx):
        strs.text_facts(ctx, L)
        return [View(L)], {}, None
    y, mo, d, h, mi, s = [ival(*c) for c in cols]
    us = civil(y, mo, d, h, mi) + s * US
    ok = z3.And(oks(*cols), dateok(y, mo, d, h, mi, s))

    def ens(ctx, g, r):
        check(ctx, r, us)
        ctx.oblige("accepts-only-valid", ok)

    def exc(ctx, g, e):
        only_valueerror(ctx, e)
        ctx.oblige("accepts-every-valid", z3.Not(ok))
    R.verify("nav3:_time", setup, ens, exc)


# ---- SP3 epoch line, F11.8 seconds
def sp3(R):
    N = z3.Int("N")
    DEC = 10 ** 8
    cols = [(3, 7), (8, 10), (11, 13), (14, 16), (17, 19)]

    def setup(ctx):
        ln = base_line(ctx, N, 19, 22, 31, full=True)
        return [ln], {}, None
    y, mo, d, h, mi = [ival(*c) for c in cols]
    s = N / DEC
    # 60 s, 60 min and 24 h are carried by adding them as durations
    us = civil(y, mo, d, h, mi) + s * US + (N % DEC) / 100
    ok = z3.And(oks(*cols), dvalid(y, mo, d), h >= 0, h <= 24, mi >= 0, mi <= 60, s <= 60)

    def ens(ctx, g, r):
        check(ctx, r, us)
        ctx.oblige("accepts-only-valid", ok)

    def exc(ctx, g, e):
        only_valueerror(ctx, e)
        ctx.oblige("accepts-every-valid", z3.Not(ok))
    R.verify("sp3:sp3dt", setup, ens, exc, floats="rounding")


# ---- TIME OF FIRST/LAST OBS, F13.7 seconds
def hdr2(R):
    N = z3.Int("N")
    DEC = 10 ** 7
    cols = [(0, 6), (6, 12), (12, 18), (18, 24), (24, 30)]

    def setup(ctx):
        return [base_line(ctx, N, 30, 35, 43, maxsec=60)], {}, None
    y, mo, d, h, mi = [ival(*c) for c in cols]
    s = N / DEC
    us = civil(y, mo, d, h, mi) + s * US + (N % DEC) / 10
    ok = z3.And(oks(*cols), dateok(y, mo, d, h, mi, s))

    def ens(ctx, g, r):
        check(ctx, r, us)
        ctx.oblige("accepts-only-valid", ok)

    def exc(ctx, g, e):
        only_valueerror(ctx, e)
        ctx.oblige("accepts-every-valid", z3.Not(ok))
    R.verify("obs2:_timehdr", setup, ens, exc, floats="rounding")


TASKS = [(f.__name__, f) for f in (obs2, obs3, nav2, nav3, sp3, hdr2)]


ASSUMPTIONS = [
    "int()/float() of a column depend on the column's text only (uninterpreted parse functions with range facts)",
    "days(y,m,d)/date_valid(y,m,d) are the proleptic Gregorian calendar of datetime, uninterpreted",
    "binary64: correctly rounded parse, multiplication and division, exact % 1, round() within one half",
]
