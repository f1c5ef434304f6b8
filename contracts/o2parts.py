"""The parts a reading of RINEX 2 observations rests on: the lemmas behind the
record loop's bookkeeping, the helpers of rinexsystem2, the merge in rinexobs2."""
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, loops, records, arrays, xr
from pyded.interp import METHODS, MODELS
from .common import *
from .recfile import *
from . import o2, o2sys

LO, HI = o2sys.LO, o2sys.HI


# ------------------------------------------------------------------ lemmas of the bookkeeping
def lemmas(R):
    """the ghost counters are defined by recursion over the records (Sys2.defs);
    what the proofs use beyond the definitions is shown here by induction"""
    for tl in (False, True):
        for iv_ in (False, True):
            cf = o2sys.Conf(tlim=tl, ivl=iv_)
            rf = o2sys.Sys2(TEXT, cf)
            m, b, k = z3.Ints("m b k")
            J, K, WR = o2sys.J, o2sys.K, o2sys.WR
            nm = f"[{cf}]"
            D = rf.defs(m)
            rng = z3.And(m >= 0, m < rf.n, rf.n >= 0)
            R.lemma("rows-at-most-records-in-window:base" + nm, z3.And(J(0) <= WR(0), J(0) >= 0), D)
            R.lemma("rows-at-most-records-in-window:step" + nm, z3.And(J(m + 1) <= WR(m + 1), J(m + 1) >= 0), D + [rng, J(m) <= WR(m), J(m) >= 0])
            R.lemma("records-in-window-only-grow:step" + nm, WR(m) <= WR(m + 1), D + [rng])
            inv = lambda mm: z3.Implies(z3.And(b >= 0, b < J(mm)), z3.And(K(b) >= 0, K(b) < mm, J(K(b)) == b))
            R.lemma("row-behind-its-record:base" + nm, inv(z3.IntVal(0)), D)
            R.lemma("row-behind-its-record:step" + nm, inv(m + 1), D + [rng, inv(m)])
            if tl:
                x, y = z3.Ints("x y")
                order = lambda x, y: z3.Implies(z3.And(x >= 0, x <= y, y < rf.n), rf.epoch(x) <= rf.epoch(y))
                inw = z3.And(LO <= rf.epoch(m), rf.epoch(m) <= HI)
                R.lemma("time-ordered-file:the-records-read-are-those-in-the-window" + nm,
                        z3.Implies(rng, rf.inwin(m) == inw), D + rf.defs(o2sys.STOP) + [order(o2sys.STOP, m)])
            if iv_:
                # the k-th kept epoch, said without counters
                first = K(z3.IntVal(0))
                R.lemma("kept-exactly-at-or-past-the-next-step" + nm,
                        z3.Implies(z3.And(rng, J(m) > 0), rf.kept(m) == z3.And(rf.inwin(m), rf.epoch(m) >= rf.epoch(first) + J(m) * o2sys.IVL)), D)
    # number of records in the window == size of the boolean selection over the times
    rk, p = z3.Function("rank", I, I), z3.Function("selected", I, B)
    m = z3.Int("m")
    w = z3.Function("window_count", I, I)
    R.lemma("selection-size:step", rk(m + 1) == w(m + 1),
            [rk(m) == w(m), rk(m + 1) == rk(m) + z3.If(p(m), 1, 0), w(m + 1) == w(m) + z3.If(p(m), 1, 0)])


# ------------------------------------------------------------------ _num_times
def c_obstime2(ctx, b):
    T = o2.header_file(ctx, b["fn"])
    rf = o2.Obs2(T)
    rf.well(ctx, rf.n)
    return ctx.alloc(HArr((rf.n,), "datetime64[us]", lambda ix: VDT(rf.epoch(ix[0]))))


def num_times(R):
    for tl in (False, True):
        def setup(ctx, fn, T):
            x = z3.Int("Nextra")
            ctx.assume(x >= 0)
            if is_str(fn):
                raise Unsupported("path")
            return [fn, x, (VDT(LO), VDT(HI)) if tl else None, False], {}, (T, x)

        def ens(ctx, g, r):
            T, x = g
            rf = o2.Obs2(T)
            if not (isinstance(r, Ref) and ctx.kind(r) == "ndarray" and len(ctx.get(r).shape) == 1):
                return ctx.oblige("an-array-of-times", False)
            h = ctx.get(r)
            ctx.oblige("size-not-negative", iv(h.shape[0]) >= 0)
            if not ctx.valid(x == 0):
                ctx.oblige("strict-preallocation-when-not-speculating", x > 0)
                return
            q = ctx.fresh("q", I)
            if not tl:
                ctx.oblige("one-row-per-epoch", iv(h.shape[0]) == rf.n)
                ctx.assume(z3.And(q >= 0, q < rf.n))
                records.same(ctx, "preallocated-times", arrays.read(ctx, h, (q,)), VDT(rf.epoch(q)))
                return
            fl = h.tag[1] if isinstance(h.tag, tuple) and h.tag[0] == "filt" else None
            if fl is None:
                return ctx.failobl("one-row-per-epoch-in-the-window", "the times are not selected by a mask")
            ctx.oblige("selection-over-all-epochs", z3.And(iv(fl.n) == rf.n, iv(h.shape[0]) == fl.count))
            ctx.assume(z3.And(q >= 0, q < rf.n))
            ctx.oblige("one-row-per-epoch-in-the-window", zb(fl.pred(q)) == z3.And(LO <= rf.epoch(q), rf.epoch(q) <= HI))
        cs = dict(o2.HELPERS)
        cs["obs2:obstime2"] = c_obstime2
        both_forms(R, "obs2:_num_times", setup, ens, cs, name=f"obs2:_num_times[{'limits' if tl else 'all'}]")


# ------------------------------------------------------------------ _fast_alloc
class FirstEpoch(Records):
    """looking for the first epoch line"""
    name = "first-epoch-loop"

    def make(self, T):
        return o2.Obs2(T)

    def ghost(self, ctx, **kw):
        ctx.assume(iv(kw["m"]) == 0)
        return G(**kw)

    def var(self, ctx, x, init, g):
        if ctx.valid(self.rf.hend == nlines(self.T)):
            return init          # no line is ever read
        return Poison(x)

    def next(self, ctx, g, m2):
        ctx.oblige("stops-at-the-first-epoch", iv(m2) == 0)
        return G(m=m2, P=None, case="after")


def fast_alloc(R):
    """a number (of full lines) that is not negative, for a file with epochs and for one without any"""
    for some in (True, False):
        def setup(ctx, fn, T):
            k = z3.Int("lines_per_satellite")
            ctx.assume(k == o2.nl_sv(T))
            rf = o2.Obs2(T)
            rf.well(ctx, 0)
            if some:
                ctx.assume(rf.n >= 1)
            else:
                ctx.assume(z3.And(rf.n == 0, rf.hend == nlines(T)))
            records.install(ctx, FirstEpoch())
            return [fn, k], {}, T

        def ens(ctx, g, r):
            ctx.oblige("number-of-lines-not-negative", iv(r) >= 0 if is_int(r) else False)
        cs = dict(o2.HELPERS)
        if not some:
            del cs["obs2:_getsvind"]
        both_forms(R, "obs2:_fast_alloc", setup, ens, cs, name=f"obs2:_fast_alloc[{'epochs' if some else 'no epochs'}]")


# ------------------------------------------------------------------ check_time_interval
def interval(R):
    x = z3.Int("seconds")
    us = z3.Int("interval_us")

    def same_td(ctx, r, want):
        ctx.oblige("a-time-interval", isinstance(r, VTD))
        if isinstance(r, VTD):
            ctx.oblige("interval-of-that-many-seconds", iv(r.us) == want)

    def exc(ctx, g, e):
        ctx.oblige("only-negative-numbers-refused", z3.And(z3.BoolVal(e.type == "ValueError"), g < 0) if g is not None else False)

    def num(ctx):
        return [x], {}, x

    def ens_num(ctx, g, r):
        ctx.oblige("negative-number-of-seconds-refused", x >= 0)
        same_td(ctx, r, x * 1000000)
    R.verify("common:check_time_interval", num, ens_num, exc, name="common:check_time_interval[int]")

    def td(ctx):
        return [VTD(us)], {}, None
    R.verify("common:check_time_interval", td, lambda ctx, g, r: same_td(ctx, r, us), None, name="common:check_time_interval[timedelta]")

    def none(ctx):
        return [None], {}, None
    R.verify("common:check_time_interval", none, lambda ctx, g, r: ctx.oblige("none-stays-none", r is None), None,
             name="common:check_time_interval[none]")


# ------------------------------------------------------------------ rinexobs2: one reading per system, merged
def merge(R):
    """every system asked for is read once with the caller's options; the result is the
    merge of exactly the readings that have variables"""
    def reading(ctx, b):
        n = ctx.fresh("n_variables", I)
        ctx.fact(n >= 0)
        o = ctx.alloc(HObj("ODS", {"nvars": n, "attrs": ctx.alloc(HDict({"of": (True, b["system"])}))}))
        ctx.globals["#calls"] = ctx.globals.get("#calls", ()) + ((o, b, n),)
        return o

    def case(use, want, label):
        def setup(ctx):
            u = use(ctx)
            g = {k: opq(k) for k in ("tlim", "useindicators", "meas", "verbose", "fast", "interval")}
            fn = path_arg(ctx)
            return [fn, u, g["tlim"], g["useindicators"], g["meas"], g["verbose"]], {"fast": g["fast"], "interval": g["interval"]}, (fn, g)

        def ens(ctx, gh, r):
            fn, g = gh
            cs = calls(ctx)
            ctx.oblige("options-passed-on", all(identical(b[k], v) for _, b, _ in cs for k, v in g.items()))
            ctx.oblige("same-file-for-every-system", all(identical(b["fn"], fn) for _, b, _ in cs))
            ctx.oblige("each-system-read-once", len(cs) == len(want))
            for w in want:
                ctx.oblige("each-system-read", Or(*[strs.eq(ctx, b["system"], w) for _, b, _ in cs]))
            parts = xr.parts_of(ctx, r)
            for o, b, n in cs:
                here = sum(p.id == o.id for p in parts)
                ctx.oblige("reading-with-variables-merged-once", z3.Implies(n > 0, z3.BoolVal(here == 1)))
                ctx.oblige("nothing-merged-twice", here <= 1)
            ctx.oblige("nothing-else-merged", all(any(p.id == o.id for o, _, _ in cs) for p in parts))
            at_ = ctx.get(r).attrs["attrs"]
            if parts:
                ok = any(ctx.get(o).attrs["attrs"].id == at_.id for o, _, _ in cs if any(p.id == o.id for p in parts))
                ctx.oblige("attributes-of-a-merged-reading", ok)
        R.verify("obs2:rinexobs2", setup, ens, None, contracts={"obs2:rinexsystem2": reading}, name=f"obs2:rinexobs2[{label}]")
    A = [View(z3.Const(f"sys{i}", Ln)) for i in range(7)]

    def some(n):
        def use(ctx):
            for i in range(n):
                strs.text_facts(ctx, A[i].base)
                ctx.assume(lenf(A[i].base) == 1)
                for j in range(i):
                    ctx.assume(zb(Not(strs.eq(ctx, A[i], A[j]))))
            return VSet(list(A[:n]))
        return use
    ALL = ["C", "E", "G", "J", "R", "S"]
    case(lambda ctx: None, ALL, "no selection")
    case(lambda ctx: VSet([]), ALL, "empty selection")

    def one(ctx):
        strs.text_facts(ctx, A[0].base)
        ctx.assume(lenf(A[0].base) == 1)
        return A[0]
    case(one, A[:1], "a string")
    for n in range(1, 7):
        case(some(n), A[:n], f"{n} systems")
