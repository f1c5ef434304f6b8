"""C17: keplerian2ecef computes the broadcast-orbit position (real arithmetic)."""
import datetime as D
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, arrays
from pyded.interp import METHODS, MODELS
from .common import *

R_ = z3.RealSort()
NT = z3.Int("n_times")
TIME = z3.Function("epoch_us", I, I)                 # sv["time"], microseconds
WEEK = z3.Function("week", I, I)
TOEUS = z3.Function("toe_us", I, I)                  # Toe in microseconds
PAR = {}
NAMES = ("sqrtA", "DeltaN", "Eccentricity", "M0", "omega", "Cuc", "Cus", "Cic", "Cis", "Crc", "Crs", "Io", "IDOT",
         "Omega0", "OmegaDot")
SVNAME = z3.Const("sv_name", Ln)
SVTYPE = z3.Const("svtype0", Ln)


def par(n):
    return PAR.setdefault(n, z3.Function("par_" + n, I, R_))


def rd(name):
    if name in ("GPSWeek", "GALWeek"):
        # the week variable of the other system holds something else
        w = z3.Function("par_" + name, I, R_)
        return w
    if name == "Toe":
        return lambda k: z3.ToReal(TOEUS(k)) / 1000000
    return par(name)


def da(ctx, name):
    return ctx.alloc(HObj("kDA", {"name": name}))


def kds_getitem(ctx, ds, key):
    if not isinstance(key, str):
        raise Unsupported("dataset key")
    if key == "sv" and not ctx.get(ds).attrs["hassv"]:
        ctx.raise_("KeyError", key)
    if key in ("sv", "time", "X", "Y", "Z", "GPSWeek", "GALWeek", "Toe") + NAMES:
        return da(ctx, key)
    ctx.raise_("KeyError", key)


METHODS[("kDS", "getitem")] = kds_getitem
METHODS[("kDS", "contains")] = lambda ctx, ds, k: ctx.get(ds).attrs["hassv"] if k == "sv" else k in ("time", "Toe") + NAMES
METHODS[("attr", "kDS", "svtype")] = lambda ctx, ds: ctx.alloc(HList([("item", View(SVTYPE, 0, 1))]))
METHODS[("attr", "kDS", "attrs")] = lambda ctx, ds: ctx.alloc(HDict({"svtype": (True, ctx.alloc(HList([("item", View(SVTYPE, 0, 1))])))}))
METHODS[("attr", "kDS", "time")] = lambda ctx, ds: da(ctx, "time")
METHODS[("attr", "kDS", "sizes")] = lambda ctx, ds: ctx.alloc(HDict({"time": (True, NT)}))


def kda_values(ctx, a):
    n = ctx.get(a).attrs["name"]
    if n == "sv":
        return VOpq(z3.Const("sv_value", Obj), "svvalue")
    if n == "time":
        return ctx.alloc(HArr((NT,), "datetime64[ns]", lambda ix: VDT(TIME(iv(ix[0])))))
    f = rd(n)
    return ctx.alloc(HArr((NT,), "float", lambda ix: f(iv(ix[0]))))


METHODS[("str", "opq:svvalue")] = lambda ctx, v: View(SVNAME)
METHODS[("attr", "kDA", "values")] = kda_values
METHODS[("attr", "kDA", "data")] = kda_values
METHODS[("attr", "kDA", "ndim")] = lambda ctx, a: 0 if ctx.get(a).attrs["name"] == "sv" else 1
METHODS[("attr", "kDA", "size")] = lambda ctx, a: 1 if ctx.get(a).attrs["name"] == "sv" else NT
METHODS[("len", "kDA")] = lambda ctx, a: NT
METHODS[("kDA", "item")] = lambda ctx, a: View(SVNAME)


def kda_seq(ctx, a):
    if ctx.get(a).attrs["name"] != "time":
        f = rd(ctx.get(a).attrs["name"])
        return Seq(NT, lambda k: f(iv(k)))
    return Seq(NT, lambda k: VOpq(iv(k), "t0d"))


METHODS[("kDA", "seq")] = kda_seq
METHODS[("attr", "opq:t0d", "values")] = lambda ctx, t: VOpq(t.term, "t0v")
METHODS[("attr", "opq:t0d", "data")] = METHODS[("attr", "opq:t0d", "values")]


def t0_astype(ctx, t, dt):
    d = arrays.dtname(dt)
    if d == "datetime64[us]":
        return VOpq(t.term, "t0us")
    if t.kind == "t0us" and isinstance(dt, VMod) and dt.name in ("datetime.datetime", "builtins.object"):
        return VDT(TIME(t.term))
    raise Unsupported("astype " + str(d))


METHODS[("opq:t0v", "astype")] = t0_astype
METHODS[("opq:t0us", "astype")] = t0_astype


def tdhook(ctx, unit, v, r):
    """timedelta(unit=x) is x rounded to whole microseconds"""
    per = {"weeks": 7 * lib.DAY, "seconds": lib.US, "days": lib.DAY, "hours": 3600 * lib.US}[unit]
    x = ctx.tofl(v) * per
    ctx.fact(z3.And(z3.ToReal(r) - x <= z3.Q(1, 2), x - z3.ToReal(r) <= z3.Q(1, 2)))


def rf(name, *a):
    f = z3.Function("r" + name, *([R_] * len(a)), R_)
    return f(*a)


GM = 3.986004418e14
OE = 7.2921151467e-5
GPS0 = (D.datetime(1980, 1, 6) - D.datetime(1970, 1, 1)) // D.timedelta(microseconds=1)


def expected(k, ctx):
    q = lambda x: z3.RealVal(repr(x))
    p = lambda n: par(n)(k)
    sin, cos, sqrt = (lambda x: rf("sin", x)), (lambda x: rf("cos", x)), (lambda x: rf("sqrt", x))
    A = p("sqrtA") * p("sqrtA")
    n = sqrt(q(GM) / (A * A * A)) + p("DeltaN")
    tk = z3.ToReal(TIME(k) - (GPS0 + WEEK(k) * 7 * lib.DAY) - TOEUS(k)) / 1000000
    M = p("M0") + n * tk
    e = p("Eccentricity")
    E = M + e * sin(M)
    nu = rf("arctan2", sqrt(1 - e * e) * sin(E), cos(E) - e)
    phi = nu + p("omega")
    c2, s2 = cos(2 * phi), sin(2 * phi)
    u = phi + p("Cuc") * c2 + p("Cus") * s2
    i = p("Io") + p("IDOT") * tk + p("Cic") * c2 + p("Cis") * s2
    r = A * (1 - e * cos(E)) + p("Crc") * c2 + p("Crs") * s2
    Om = p("Omega0") + (p("OmegaDot") - q(OE)) * tk - q(OE) * (z3.ToReal(TOEUS(k)) / 1000000)
    x, y = r * cos(u), r * sin(u)
    return (x * cos(Om) - y * sin(Om) * cos(i), x * sin(Om) + y * cos(Om) * cos(i), y * sin(i))


def kepler(R):
    for hassv in (True, False):
        for grp in ("kepler", "state", "other"):
            one(R, hassv, grp)


def one(R, hassv, grp):
    base = SVNAME if hassv else SVTYPE

    def setup(ctx):
        ctx.globals["#tdhook"] = tdhook
        strs.text_facts(ctx, base)
        ctx.assume(lenf(base) >= 1)
        ctx.assume(clen(base) >= 1)
        c = at(base, z3.IntVal(0))
        ctx.assume({"kepler": z3.Or(c == ord("G"), c == ord("E")), "state": z3.Or(c == ord("R"), c == ord("S")),
                    "other": z3.And(*[c != ord(x) for x in "GERS"])}[grp])
        ctx.assume(NT >= 1)
        return [ctx.alloc(HObj("kDS", {"hassv": hassv}))], {}, None

    def ens(ctx, g, r):
        if not (isinstance(r, tuple) and len(r) == 3):
            return ctx.oblige("three-coordinates", False)
        if grp == "state":
            for v, n in zip(r, "XYZ"):
                ok = isinstance(v, Ref) and ctx.kind(v) == "kDA" and ctx.get(v).attrs["name"] == n
                ctx.oblige("state-vector-unchanged", ok)
            return
        if grp == "other":
            return ctx.oblige("other-systems-are-refused", False)
        k = z3.Int("epoch")
        ctx.assume(z3.And(k >= 0, k < NT))
        c = at(base, z3.IntVal(0))
        # the week of the satellite's own system
        ctx.fact(z3.If(c == ord("E"), rd("GALWeek")(k), rd("GPSWeek")(k)) == z3.ToReal(WEEK(k)))
        want = expected(k, ctx)
        seeds = [WEEK(k) * (7 * lib.DAY), TOEUS(k)]
        for v, w, n in zip(r, want, "XYZ"):
            if not (isinstance(v, Ref) and ctx.kind(v) == "ndarray" and len(ctx.get(v).shape) == 1):
                return ctx.oblige("one-value-per-epoch", False)
            ctx.oblige("one-value-per-epoch", iv(ctx.get(v).shape[0]) == NT)
            got = arrays.read(ctx, ctx.get(v), (k,))
            prove_equal(ctx, n, got, w, seeds)

    def exc(ctx, g, e):
        ctx.oblige("refused-only-if-unknown-system", And(grp == "other", e.type == "ValueError"))
    R.verify("keplerian:keplerian2ecef", setup, ens, exc, floats="real", cover=grp != "other",
             name=f"keplerian:keplerian2ecef[{'one satellite' if hassv else 'one-satellite file'},{grp}]")


def prove_equal(ctx, n, got, want, seeds):
    """got == want as polynomials over function terms; integer quantities
    (weeks and times in microseconds) are identified by the solver"""
    from . import realeq
    ok, det = realeq.equal(ctx, got, want, seeds)
    if ok:
        return ctx.oblige("broadcast-position-" + n, True)
    ctx.failobl("broadcast-position-" + n, f"not equal to the broadcast algorithm: {det}")


TASKS = [("kepler", kepler)]
ASSUMPTIONS = [
    "real arithmetic: rounding of binary64 is not modelled; sin, cos, arctan2 and sqrt are uninterpreted",
    "Toe is a whole number of microseconds and weeks are whole",
    "one satellite, one-dimensional in time (the dataset is xarray's selection of one satellite)",
]
