"""Ghost record structure of a text file and the record-loop invariant.

A file is: header lines [0, hend), then records; record m starts at line
start(m) and takes lines(m) lines; lines between records (blank lines, stray
lines) do not read as the first line of a record.
"""
import ast
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, loops, records
from pyded.records import LoopInv
from .common import *


class G:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class RecFile:
    """ghost functions of one kind of file"""

    def __init__(self, kind, T):
        self.kind, self.T = kind, T
        self.hend = z3.Function(kind + "_header_end", FileS, I)(T)
        self.n = z3.Function(kind + "_n_records", FileS, I)(T)
        st = z3.Function(kind + "_record_start", FileS, I, I)
        self.start = lambda m: st(T, iv(m))

    def isep(self, t):
        return z3.Function(self.kind + "_is_epoch_line", Ln, B)(t)

    def ept(self, t):
        return z3.Function(self.kind + "_epoch_of_line", Ln, I)(t)

    def first(self, m):
        return line(self.T, self.start(m))

    def epoch(self, m):
        return self.ept(self.first(m))

    def lines(self, m):
        raise NotImplementedError

    cut = False                # the last record may end early

    def end(self, m):
        e = self.start(m) + self.lines(m)
        if self.cut:
            e = z3.If(e < nlines(self.T), e, nlines(self.T))
        return e

    def facts(self, ctx, m):
        """what well-formedness says about record m beyond its place"""
        return []

    def linefacts(self, ctx, m, i):
        """what it says about line i of record m"""
        return []

    def well(self, ctx, m):
        m = iv(m)
        inr = z3.And(m >= 0, m < self.n)
        strs.text_facts(ctx, self.first(m))
        ctx.fact(z3.And(self.n >= 0, self.hend >= 0, self.hend <= nlines(self.T), self.start(self.n) == nlines(self.T)))
        ctx.fact(z3.Implies(inr, z3.And(self.isep(self.first(m)), self.start(m) >= self.hend, self.start(m) < nlines(self.T),
                                        self.lines(m) >= 1, self.end(m) <= self.start(m + 1), self.start(m + 1) <= nlines(self.T),
                                        *self.facts(ctx, m))))

    def lo(self, m):
        return z3.If(m == 0, self.hend, self.end(m - 1))

    def track(self, ctx, m):
        """line facts of record m are added whenever one of its lines is read"""
        ctx.globals["#recs"] = ctx.globals.get("#recs", ()) + ((self, m),)
        if not ctx.globals.get("#recschema"):
            ctx.globals["#recschema"] = True

            def schema(c, text, i):
                for rf, mm in c.globals.get("#recs", ()):
                    if text.eq(rf.T):
                        fs = rf.linefacts(c, mm, iv(i))
                        if fs:
                            strs.text_facts(c, line(text, iv(i)))
                            c.fact(z3.Implies(z3.And(mm >= 0, mm < rf.n), z3.And(*fs)))
            ctx.globals["#lineschemas"] = tuple(ctx.globals.get("#lineschemas", ())) + (schema,)


def clamp(h):
    """a file position past the end is the end"""
    c, n = iv(h.cur), nlines(h.text)
    return z3.If(c < n, c, n)


def called(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            f = n.func
            out.add(f.id if isinstance(f, ast.Name) else getattr(f, "attr", ""))
    return out


class Records(LoopInv):
    """for each line: the file stands between records m-1 and m"""
    name = "record-loop"
    rf = None

    def applies(self, ctx, node, it):
        if isinstance(node, ast.For):
            if not (isinstance(it, Ref) and ctx.kind(it) == "file"):
                return False
            f = it
        else:
            if "readline" not in called(node):
                return False
            fs = {v.id: v for v in ctx.frame.vars.values() if isinstance(v, Ref) and v.id in ctx.heap and ctx.kind(v) == "file"}
            if len(fs) != 1:
                return False
            f = list(fs.values())[0]
        if self.busy:
            return False
        T = ctx.get(f).text
        rf = self.make(T)
        # the loop that starts behind the header, or that decodes epochs
        if not ({"_timeobs", "_timenav", "_time"} & called(node)):
            rf.well(ctx, 0)
            if not ctx.valid(iv(ctx.get(f).cur) == rf.hend):
                return False
        self.f, self.T, self.rf = f, T, rf
        return True

    def make(self, T):
        raise NotImplementedError

    def entry(self, ctx):
        rf = self.rf
        for m in (z3.IntVal(0), rf.n - 1):
            rf.well(ctx, m)
        ctx.oblige("record-loop-starts-after-the-header", iv(ctx.get(self.f).cur) == rf.hend)

    def initial(self, ctx):
        return G(m=0, P=self.rf.hend, case="start")

    def begin(self, ctx, node):
        rf, T = self.rf, self.T
        m, P = ctx.fresh("m", I), ctx.fresh("P", I)
        k = ctx.choose(3 if isinstance(node, ast.While) else 2)
        if k == 2:
            rf.well(ctx, rf.n)
            rf.well(ctx, rf.n - 1)
            return self.ghost(ctx, m=rf.n, P=nlines(T), case="end")
        ctx.assume(z3.And(m >= 0, m <= rf.n, P >= rf.lo(m), P <= rf.start(m), P < nlines(T)))
        rf.well(ctx, m)
        rf.well(ctx, m - 1)
        if k == 0:
            ctx.assume(z3.And(P == rf.start(m), m < rf.n))
            P = rf.start(m)
            rf.track(ctx, m)
            case = "record"
        else:
            ctx.assume(P < rf.start(m))
            ctx.assume(Not(rf.isep(line(T, P))))
            case = "gap"
        return self.ghost(ctx, m=m, P=P, case=case)

    def ghost(self, ctx, **kw):
        return G(**kw)

    def item(self, ctx, g):
        ln = line(self.T, iv(g.P))
        strs.text_facts(ctx, ln)
        lib.schema_at(ctx, self.T, g.P)
        h = ctx.get(self.f)
        ctx.put(self.f, HFile(self.T, sx(iv(g.P) + 1), h.kind, h.info))
        return View(ln)

    def after(self, ctx, g):
        if g.case == "end":
            ctx.oblige("stops-at-the-end-of-the-file", False)
            raise Infeasible()
        m2 = sx(iv(g.m) + 1) if g.case == "record" else g.m
        return self.next(ctx, g, m2)

    def next(self, ctx, g, m2):
        return G(m=m2, P=None, case="after")

    def exit(self, ctx):
        rf = self.rf
        rf.well(ctx, rf.n - 1)
        return self.ghost(ctx, m=rf.n, P=nlines(self.T), case="exit")

    def heap(self, ctx, id, rec0, g):
        if isinstance(rec0, HFile) and id == self.f.id:
            return HFile(rec0.text, g.P, rec0.kind, rec0.info)
        return self.state(ctx, id, rec0, g)

    def state(self, ctx, id, rec0, g):
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def check_heap(self, ctx, id, rec, rec0, g, g2):
        if isinstance(rec0, HFile) and id == self.f.id:
            rf = self.rf
            rf.well(ctx, g2.m)
            c = clamp(rec)
            return ctx.oblige("whole-record-consumed" if g.case == "record" else "gap-line-consumed",
                              z3.And(c >= rf.lo(iv(g2.m)), c <= rf.start(g2.m)))
        self.check_state(ctx, id, rec, rec0, g, g2)

    def check_state(self, ctx, id, rec, rec0, g, g2):
        records.same_rec(ctx, f"{self.name}-invariant", rec, self.state(ctx, id, rec0, g2))


class Times(Records):
    """the records' epochs, in file order, in a list"""

    def state(self, ctx, id, rec0, g):
        if isinstance(rec0, HList):
            return HList(rec0.parts + (("seq", Seq(g.m, lambda k: VDT(self.rf.epoch(k)))),))
        raise Unsupported(f"loop changes a {type(rec0).__name__}")


def both_forms(R, qual, setup, ens, contracts, name=None, text=None, **kw):
    """verify for a path argument and for a stream argument"""
    for form in ("path", "stream"):
        def setup_(ctx, form=form):
            ctx.loopspecs = []
            if form == "path":
                ctx.assume(opens(PATH))
                fn = path_arg(ctx)
                ctx.assume(zb(lib.dyn_is_file(ctx, fn)))
                return setup(ctx, fn, text_of(PATH, z3.BoolVal(False)))
            return setup(ctx, stream_arg(ctx), TEXT)
        R.verify(qual, setup_, ens, None, contracts=contracts, name=f"{name or qual}[{form}]", **kw)
