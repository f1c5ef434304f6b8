"""obs3._epoch: one epoch's satellites and fields go into the dataset, each
system's under that system's own observables."""
import ast
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, loops, records, arrays, xr, npio, dicts
from pyded.records import LoopInv
from pyded.interp import METHODS, MODELS, method
from .common import *
from .recfile import G

N = z3.Int("n_sats")
LN = z3.Function("sat_line", I, Ln)
T_US = z3.Int("epoch_us")
F = z3.Int("Fmax")
NSYS = z3.Int("n_systems")
SYSK = z3.Function("system_letter", I, Ln)
NFK = z3.Function("n_fields_of", I, I)             # selected observables of system k
NALL = z3.Function("n_obs_types_of", I, I)         # all observables of system k
SELK = z3.Function("selected_obs_of", I, I, I)     # which observable the i-th selected one is
NAME = z3.Function("obs_name_of", I, I, Ln)        # system, observable index
NV = z3.Function("n_vars_before", I, I)
ROW, SK, FI = z3.Ints("row syskey field")


def sysfacts(ctx, k):
    k = iv(k)
    t = SYSK(k)
    strs.text_facts(ctx, t)
    ctx.fact(z3.And(lenf(t) == 1, clen(t) == 1))
    ctx.fact(z3.Implies(z3.And(k >= 0, k < NSYS), z3.And(NFK(k) >= 0, NFK(k) <= NALL(k), NALL(k) <= F)))


def selfacts(ctx, k, i, meas):
    k, i = iv(k), iv(i)
    u = SELK(k, i) if meas else i
    sysfacts(ctx, k)
    ctx.fact(z3.Implies(z3.And(k >= 0, k < NSYS, i >= 0, i < NFK(k)), z3.And(u >= 0, u < NALL(k))))
    if not meas:
        ctx.fact(z3.Implies(z3.And(k >= 0, k < NSYS), NFK(k) == NALL(k)))
    strs.text_facts(ctx, NAME(k, u))
    return u


def sysindex(ctx, key):
    t = strs.term(ctx, key)
    if t.decl().name() == "system_letter":
        return t.arg(0)
    raise Unsupported("lookup by another key")


def lnfacts(ctx, q):
    t = LN(iv(q))
    strs.text_facts(ctx, t)
    ctx.fact(z3.Implies(z3.And(iv(q) >= 0, iv(q) < N), z3.And(clen(t) >= 3, clen(t) <= lenf(t))))
    return t


# ------------------------------------------------------------------ header mapping
def fld_seq(ctx, o):
    def fn(k):
        sysfacts(ctx, k)
        return View(SYSK(iv(k)))
    return Seq(NSYS, fn)


def fld_get(ctx, o, key):
    k = sysindex(ctx, key)
    meas = ctx.get(o).attrs["meas"]

    def fn(i):
        return View(NAME(k, selfacts(ctx, k, i, meas)))
    selfacts(ctx, k, 0, meas)
    return ctx.alloc(HList([("seq", Seq(NFK(k), fn))]))


METHODS[("FLD", "seq")] = fld_seq
METHODS[("FLD", "getitem")] = fld_get
METHODS[("len", "FLD")] = lambda ctx, o: NSYS


@method("FLD", "keys")
def fld_keys(ctx, o):
    return fld_seq(ctx, o)


@method("FLD", "items")
def fld_items(ctx, o):
    s = fld_seq(ctx, o)
    return Seq(NSYS, lambda k: (s.fn(k), fld_get(ctx, o, s.fn(k))))


def fidx_get(ctx, o, key):
    k = sysindex(ctx, key)
    if not ctx.get(o).attrs["meas"]:
        return VSlice(None, None)

    def fn(q):
        u = selfacts(ctx, k, divsimp(iv(q) / 3), True)
        return sx(3 * u + divsimp(iv(q) % 3))
    s = Seq(sx(3 * NFK(k)), fn)
    r = ctx.alloc(HArr((sx(3 * F),), "bool", lambda ix: (_ for _ in ()).throw(Unsupported("element of the selection mask"))))
    ctx.put(r, HArr((sx(3 * F),), "bool", ctx.get(r).base, (), ("mask", s)))
    return r


METHODS[("FIDX", "getitem")] = fidx_get


# ------------------------------------------------------------------ the dataset so far
def pfold(ctx, k):
    return HObj("PFOLD", {"k": k, "attrs": ctx.alloc(HDict())})


def pf_len(ctx, o):
    n = NV(iv(ctx.get(o).attrs["k"]))
    ctx.fact(n >= 0)
    return n


METHODS[("len", "PFOLD")] = pf_len
METHODS[("attr", "PFOLD", "data_vars")] = lambda ctx, o: Seq(pf_len(ctx, o), lambda k: (_ for _ in ()).throw(Unsupported("variable of the dataset")))


def field(ctx, r, k, i, c, meas):
    """what the line of satellite r says in the field of system k's i-th selected observable"""
    t = lnfacts(ctx, r)
    u = selfacts(ctx, k, i, meas)
    lo = sx(3 + 16 * u + (0, 14, 15)[c])
    v = View(nonl(t), lo, sx(iv(lo) + (14, 1, 1)[c]))
    tk = strs.num(ctx, v)
    strs.is_blank_facts(ctx, tk)
    return z3.If(fltok(tk), fltval(tk), NaN)


class Systems(LoopInv):
    """after k systems: the dataset holds the parts of the systems before k"""
    name = "system-loop"

    def __init__(self, ind, meas):
        self.ind, self.meas = ind, meas

    def applies(self, ctx, node, it):
        if not isinstance(node, ast.For) or self.busy:
            return False
        try:
            s = ctx.seq_of(it)
            x = s.fn(z3.Int("q!probe"))
        except Exception:
            return False
        k = x[0] if isinstance(x, tuple) else x
        if not (is_str(k) and isinstance(k, View) and k.base.decl().name() == "system_letter"):
            return False
        self.seq = s
        return True

    def initial(self, ctx):
        return G(k=0)

    def begin(self, ctx, node):
        k = ctx.fresh("k", I)
        ctx.assume(z3.And(k >= 0, k < NSYS))
        ctx.assume(k == SK)
        sysfacts(ctx, SK)
        ctx.globals["#sk"] = SK
        return G(k=SK)

    def item(self, ctx, g):
        return self.seq.fn(g.k)

    def after(self, ctx, g):
        return G(k=sx(iv(g.k) + 1), prev=g.k)

    def exit(self, ctx):
        return G(k=NSYS)

    def heap(self, ctx, id, rec0, g):
        if isinstance(rec0, HObj) and rec0.cls == "PFOLD":
            return pfold(ctx, g.k)
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def check_initial(self, ctx, i, rec, g):
        ctx.oblige("starts-from-the-dataset-given", isinstance(rec, HObj) and rec.cls == "PFOLD" and sx(iv(rec.attrs["k"])) == 0)

    def check_heap(self, ctx, id, rec, rec0, g, g2):
        k = g.k
        t = lnfacts(ctx, ROW)
        mine = z3.And(ROW >= 0, ROW < N, at(t, z3.IntVal(0)) == at(SYSK(k), z3.IntVal(0)))
        for fl in ctx.globals.get("#filters", ()):
            loops.filter_facts(ctx, fl, b=ROW)
        if rec.cls == "PFOLD":
            ctx.oblige("dataset-kept", iv(rec.attrs["k"]) == iv(k))
            return ctx.oblige("a-system-is-left-out-only-without-satellites", z3.Not(mine))
        if rec.cls == "COMB":
            ps = [ctx.get(p) for p in rec.attrs["parts"]]
            ok = len(ps) == 2 and ps[0].cls == "PFOLD" and ps[1].cls == "XDS"
            ctx.oblige("part-added-to-the-dataset-so-far", ok and ctx.valid(iv(ps[0].attrs["k"]) == iv(k)))
            if not ok:
                return
            if rec.attrs["op"] == "concat":
                ctx.oblige("rows-appended-along-time-only-for-a-single-system", rec.attrs["kw"] == {"dim": "time"} and ctx.valid(NSYS == 1))
            part = ps[1]
        elif rec.cls == "XDS":
            ctx.oblige("dataset-replaced-only-while-it-holds-nothing", NV(iv(k)) == 0)
            part = rec
        else:
            return ctx.failobl("part-added-to-the-dataset-so-far", rec.cls)
        self.part(ctx, part, k, mine)

    def part(self, ctx, part, k, mine):
        co = ctx.get(part.attrs["coords"]).entries
        ctx.oblige("coordinates-are-time-and-sv", set(co) == {"time", "sv"})
        tm = ctx.seq_of(co["time"][1])
        ctx.oblige("one-row", sx(iv(tm.n)) == 1)
        records.same(ctx, "at-the-epoch's-time", tm.fn(0), VDT(T_US))
        sv = ctx.seq_of(co["sv"][1])
        fls = [fl for fl in ctx.globals.get("#filters", ())]
        if not fls:
            return ctx.failobl("satellites-of-the-system", "no selection of satellites found")
        fl = fls[-1]
        loops.filter_facts(ctx, fl, b=ROW)
        # every satellite of the system has a column ...
        s0 = ctx.save()
        ctx.assume(mine)
        if ctx.feasible(mine):
            r = fl.rank(ROW)
            ctx.oblige("each-satellite-of-the-system-has-a-column", z3.And(r >= 0, r < iv(sv.n)))
            records.same(ctx, "column-named-after-its-satellite", sv.fn(r), View(LN(ROW), 0, 3))
            self.cells(ctx, part, k, r, ROW)
        ctx.pc, ctx.factset = list(s0[0]), set(s0[7])
        # ... and every column is one
        s0 = ctx.save()
        q = ctx.fresh("q", I)
        ctx.assume(z3.And(q >= 0, q < iv(sv.n)))
        if ctx.feasible(q >= 0):
            loops.filter_facts(ctx, fl, q=q)
            b = fl.unrank(q)
            tb = lnfacts(ctx, b)
            records.same(ctx, "column-named-after-its-satellite", sv.fn(q), View(tb, 0, 3))
            ctx.oblige("columns-only-of-the-system", z3.And(b >= 0, b < N, at(tb, z3.IntVal(0)) == at(SYSK(k), z3.IntVal(0))))
        ctx.pc, ctx.factset = list(s0[0]), set(s0[7])

    def cells(self, ctx, part, k, r, row):
        v = ctx.get(part.attrs["vars"])
        if len(v.parts) != 1 or v.parts[0][0] != "dict" or not isinstance(v.parts[0][1].base, Fields):
            return ctx.failobl("variables-of-the-system", "the variables are not collected per observable")
        d = v.parts[0][1]
        ctx.oblige("a-variable-for-every-observable", z3.And(iv(d.base.i) == NFK(k), d.base.k == iv(k)) if not d.layers and not d.entries else False)


class Fields(dicts.SymDict):
    """the variables of the first i observables of system k"""

    def __init__(self, k, i, check):
        dicts.SymDict.__init__(self, None, None, "fields")
        self.k, self.i, self.check = k, i, check


class FieldLoop(LoopInv):
    name = "observable-loop"

    def __init__(self, ind, meas):
        self.ind, self.meas = ind, meas

    def applies(self, ctx, node, it):
        if not isinstance(node, ast.For) or self.busy:
            return False
        try:
            s = ctx.seq_of(it)
            x = s.fn(z3.Int("q!probe"))
        except Exception:
            return False
        names = [y for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, View) and y.base.decl().name() == "obs_name_of"]
        if not names or not ctx.valid(iv(s.n) == NFK(names[0].base.arg(0))):
            return False
        self.seq, self.k = s, names[0].base.arg(0)
        return True

    def initial(self, ctx):
        return G(i=0)

    def begin(self, ctx, node):
        i = ctx.fresh("i", I)
        ctx.assume(z3.And(i >= 0, i < NFK(self.k), i == FI))
        selfacts(ctx, self.k, FI, self.meas)
        return G(i=FI)

    def item(self, ctx, g):
        return self.seq.fn(g.i)

    def after(self, ctx, g):
        return G(i=sx(iv(g.i) + 1))

    def exit(self, ctx):
        return G(i=NFK(self.k))

    def heap(self, ctx, id, rec0, g):
        if isinstance(rec0, HDict):
            return HDict({}, Fields(self.k, g.i, self), ())
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def check_initial(self, ctx, i, rec, g):
        ctx.oblige("starts-without-variables", isinstance(rec, HDict) and not rec.entries and not rec.layers and rec.base is None)

    def check_heap(self, ctx, id, rec, rec0, g, g2):
        if not (isinstance(rec, HDict) and isinstance(rec.base, Fields) and ctx.valid(iv(rec.base.i) == iv(g.i))):
            return ctx.failobl("variables-are-collected", str(rec))
        k, i = self.k, g.i
        u = selfacts(ctx, k, i, self.meas)
        nm = View(NAME(k, u))
        strs.text_facts(ctx, nm.base)
        isL = zb(Or(strs.starts_lit(ctx, nm, "L1"), strs.starts_lit(ctx, nm, "L2")))
        want = [("value", nm, 0, True)]
        if self.ind:
            want += [("loss-of-lock", Cat((nm, "lli")), 1, isL), ("signal-strength", Cat((nm, "ssi")), 2, True)]
        left = list(dicts.flat(rec))
        for label, name, c, cond in want:
            got = [l for l in left if ctx.valid(zb(strs.eq(ctx, l.key, name)))]
            if not got:
                ctx.oblige(f"{label}-of-every-observable", Not(cond))
                continue
            ctx.oblige(f"{label}-written-once", len(got) == 1)
            ctx.oblige(f"{label}-only-where-defined", cond)
            left = [l for l in left if l is not got[0]]
            self.cell(ctx, f"{label}-from-its-own-columns", got[0].value, k, i, c)
        ctx.oblige("no-other-variable", not left, str(left)[:200])

    def cell(self, ctx, label, v, k, i, c):
        if not (isinstance(v, tuple) and len(v) == 2 and v[0] == ("time", "sv")):
            return ctx.failobl(label, "dimensions are not (time, sv)")
        h = ctx.get(v[1]) if isinstance(v[1], Ref) else None
        if not (isinstance(h, HArr) and len(h.shape) == 2):
            return ctx.failobl(label, "not a table")
        fls = ctx.globals.get("#filters", ())
        if not fls:
            return ctx.failobl(label, "no selection of satellites found")
        fl = fls[-1]
        ctx.oblige(label + ":shape", z3.And(iv(h.shape[0]) == 1, iv(h.shape[1]) == fl.count))
        q = ctx.fresh("q", I)
        s0 = ctx.save()
        ctx.assume(z3.And(q >= 0, q < fl.count))
        if ctx.feasible(q >= 0):
            loops.filter_facts(ctx, fl, q=q)
            b = fl.unrank(q)
            got = arrays.read(ctx, h, (0, q))
            ctx.oblige(label, divsimp(ctx.tofl(got) == field(ctx, b, k, i, c, self.meas)))
        ctx.pc, ctx.factset = list(s0[0]), set(s0[7])


def epoch(R):
    for ind in (False, True):
        for meas in (False, True):
            def setup(ctx, ind=ind, meas=meas):
                ctx.loopspecs = []
                records.install(ctx, Systems(ind, meas), FieldLoop(ind, meas))
                ctx.assume(z3.And(N >= 0, N <= 999, F >= 1, NSYS >= 0))
                data = ctx.alloc(pfold(ctx, 0))
                raw = CatSeq("", N, lambda q: Cat((View(nonl(lnfacts(ctx, q)), 3), "\n")))
                sv = ctx.alloc(HList([("seq", Seq(N, lambda q: View(lnfacts(ctx, q), 0, 3)))]))
                fields = ctx.alloc(HObj("FLD", {"meas": meas}))
                ind_ = ctx.alloc(HObj("FIDX", {"meas": meas}))
                hdr = ctx.alloc(HDict({"Fmax": (True, F), "fields": (True, fields), "fields_ind": (True, ind_)}))
                return [data, raw, hdr, VDT(T_US), sv, ind, False], {}, None

            def ens(ctx, g, r):
                h = ctx.get(r)
                # a record without satellites adds nothing, whatever the number of systems
                ctx.oblige("every-system-is-processed", z3.Or(iv(h.attrs["k"]) == NSYS, z3.And(iv(h.attrs["k"]) == 0, N == 0)) if h.cls == "PFOLD" else False)
            R.verify("obs3:_epoch", setup, ens, None, name=f"obs3:_epoch[{'ind' if ind else 'plain'}{',meas' if meas else ''}]")


TASKS = [("epoch", epoch)]
