"""C11: the list of times is exactly the list of epochs."""
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, loops, records, arrays
from .common import *
from .recfile import *
from . import o2, o3, nv


class Times2(Times):
    make = staticmethod(o2.Obs2)


def in_order(ctx, r, rf):
    if not (isinstance(r, Ref) and ctx.kind(r) == "ndarray" and len(ctx.get(r).shape) == 1):
        return ctx.oblige("an-array-of-times", False)
    a = ctx.get(r)
    ctx.oblige("as-many-times-as-epochs", iv(a.shape[0]) == rf.n)
    q = ctx.fresh("q", I)
    ctx.assume(z3.And(q >= 0, q < rf.n))
    records.same(ctx, "each-time-in-file-order", arrays.read(ctx, a, (q,)), VDT(rf.epoch(q)))


def obs2(R):
    o2.helpers(R)

    def setup(ctx, fn, T):
        records.install(ctx, Times2())
        return [fn], {}, T
    both_forms(R, "obs2:obstime2", setup, lambda ctx, T, r: in_order(ctx, r, o2.Obs2(T)), dict(o2.HELPERS))


class TimesN2(Times):
    make = staticmethod(nv.Nav2)


class TimesN3(Times):
    make = staticmethod(nv.Nav3)


def distinct(ctx, r, rf):
    """sorted, without repetition, exactly the epochs of the records"""
    if not (isinstance(r, Ref) and ctx.kind(r) == "ndarray" and len(ctx.get(r).shape) == 1):
        return ctx.oblige("an-array-of-times", False)
    a = ctx.get(r)
    u = a.tag[1] if isinstance(a.tag, tuple) and a.tag[0] == "unique" else None
    if u is None:
        return ctx.failobl("sorted-distinct-times", "the times are not passed through numpy.unique")
    ctx.oblige("every-record-counted", iv(u.s.n) == rf.n)
    ctx.oblige("every-distinct-time-listed", iv(a.shape[0]) == u.U)
    q, k = ctx.fresh("q", I), ctx.fresh("k", I)
    ctx.assume(z3.And(q >= 0, q < rf.n, k >= 0, k < u.U))
    records.same(ctx, "each-record's-epoch-counted", u.s.fn(q), VDT(rf.epoch(q)))
    records.same(ctx, "each-listed-time-is-one-of-them", arrays.read(ctx, a, (k,)), u.value(ctx, k))
    p = u.item(ctx, q)
    records.same(ctx, "each-record's-epoch-listed", arrays.read(ctx, a, (p,)), VDT(rf.epoch(q)))


def nav(R, v):
    mod = f"nav{v}"
    nv.skip(R, mod)
    RF, TM, H = (nv.Nav2, TimesN2, nv.HELPERS2) if v == 2 else (nv.Nav3, TimesN3, nv.HELPERS3)

    def setup(ctx, fn, T):
        records.install(ctx, TM())
        return [fn], {}, T
    both_forms(R, f"{mod}:navtime{v}", setup, lambda ctx, T, r: distinct(ctx, r, RF(T)), dict(H))


class Times3(Times):
    make = staticmethod(o3.Obs3Lines)


def obs3(R):
    def setup(ctx, fn, T):
        records.install(ctx, Times3())
        return [fn], {}, T
    both_forms(R, "obs3:obstime3", setup, lambda ctx, T, r: in_order(ctx, r, o3.Obs3Lines(T)), dict(o3.HELPERS))


def unique_times(R):
    """the check for repeated times changes nothing"""
    t = z3.Function("time", I, I)
    n = z3.Int("n_times")

    def setup(ctx):
        ctx.assume(n >= 0)
        a = ctx.alloc(HArr((n,), "datetime64[us]", lambda ix: VDT(t(iv(ix[0])))))
        return [a], {}, (a, ctx.get(a))

    def ens(ctx, g, r):
        ctx.oblige("times-unchanged", ctx.get(g[0]) is g[1])
    R.verify("common:check_unique_times", setup, ens, None)


TASKS = [("obs3", obs3), ("unique", unique_times), ("obs2", obs2), ("nav2", lambda R: nav(R, 2)), ("nav3", lambda R: nav(R, 3))]

ASSUMPTIONS = [
    "well-formed files: the header ends at the ghost line header_end; records follow each other, with lines between them that do "
    "not decode as an epoch (decode: the _timeobs/_timenav/_time contracts, C01)",
    "an OBS2 record is its epoch line, (n-1)//12 continuation lines when it lists more than 12 satellites, and n*ceil(Nobs/5) lines; "
    "its satellite lists are long enough for the satellites announced",
    "a NAV2/NAV3 record is its epoch line and 7 (GLONASS, SBAS: 3) orbit lines; the last one may be cut short by the end of the file",
    "RINEX 3 header and satellite lines never decode as an epoch line (they would have to start with '> ')",
]
