"""RINEX 2 and 3 navigation files: ghost record structure, call contracts,
helper functions under contract."""
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, loops, records, arrays
from .common import *
from .recfile import *
from .o2 import header_file

NL3 = {"C": 7, "E": 7, "G": 7, "J": 7, "R": 3, "S": 3, "I": 7}


def c20(T):
    return at(line(T, firstk(T)), z3.IntVal(20))


class Nav2(RecFile):
    """N: GPS, G: GLONASS, E: Galileo; a record is an epoch line and 7 (GLONASS 3) orbit lines"""
    cut = True

    def __init__(self, T):
        RecFile.__init__(self, "nav2", T)

    def orbit(self):
        return z3.If(c20(self.T) == ord("G"), z3.IntVal(3), z3.IntVal(7))

    def lines(self, m):
        return 1 + self.orbit()

    def facts(self, ctx, m):
        return [z3.Or(*[c20(self.T) == ord(c) for c in "NGE"])]


class Nav3(RecFile):
    cut = True

    def __init__(self, T):
        RecFile.__init__(self, "nav3", T)

    def sys(self, m):
        return at(self.first(m), z3.IntVal(0))

    def lines(self, m):
        c = self.sys(m)
        return 1 + z3.If(z3.Or(c == ord("R"), c == ord("S")), z3.IntVal(3), z3.IntVal(7))

    def facts(self, ctx, m):
        return [z3.Or(*[self.sys(m) == ord(c) for c in NL3]), lenf(self.first(m)) >= 1]


def c_epoch(RF):
    def c(ctx, b):
        t = strs.term(ctx, b["ln"])
        if ctx.branch(RF(TEXT).isep(t)):
            return VDT(RF(TEXT).ept(t))
        ctx.raise_("ValueError", "not an epoch line")
    return c


def c_skip(ctx, b):
    """the next Nl lines, or what is left of the file"""
    h = ctx.get(b["f"])
    k = iv(b["Nl"])
    ctx.oblige("skips-forward", k >= 0)
    n = iv(h.cur) + k
    ctx.put(b["f"], HFile(h.text, sx(imin(n, nlines(h.text))), h.kind, h.info))
    return None


def skip(R, mod):
    T = z3.Const("text", FileS)
    c, K = z3.Ints("pos lines")

    def setup(ctx):
        ctx.assume(z3.And(c >= 0, c <= nlines(T), K >= 0))
        return [ctx.alloc(HFile(T, c)), K], {}, None

    def ens(ctx, g, r):
        fs = [h for h in ctx.heap.values() if isinstance(h, HFile)]
        ctx.oblige("skips-exactly-the-lines", clamp(fs[0]) == z3.If(c + K < nlines(T), c + K, nlines(T)))
    R.verify(mod + ":_skip", setup, ens, None)


def c_header(RF, fields):
    def c(ctx, b):
        f = b["f"]
        T = header_file(ctx, f)
        if ctx.kind(f) == "file":
            h = ctx.get(f)
            ctx.put(f, HFile(h.text, RF(T).hend, h.kind, h.info))
        return ctx.alloc(HDict(fields(ctx, T)))
    return c


def header2(ctx, T):
    L = line(T, firstk(T))
    strs.text_facts(ctx, L)
    c = c20(T)
    ctx.fact(z3.And(lenf(L) > 40, z3.Or(*[c == ord(x) for x in "NGE"])))
    return {"version": (True, fltval(strs.num_term(sub(L, z3.IntVal(0), z3.IntVal(9))))),
            "filetype": (True, View(L, 20, 21)), "rinextype": (True, "nav"),
            "systems": (True, Ite(c == ord("N"), "G", Ite(c == ord("G"), "R", "E")))}


def header3(ctx, T):
    L = line(T, firstk(T))
    strs.text_facts(ctx, L)
    ctx.fact(lenf(L) > 40)
    return {"version": (True, fltval(strs.num_term(sub(L, z3.IntVal(0), z3.IntVal(9))))),
            "filetype": (True, View(L, 20, 21)), "rinextype": (True, "nav"), "systems": (True, View(L, 40, 41))}


HELPERS2 = {"nav2:_timenav": c_epoch(Nav2), "nav2:_skip": c_skip, "nav2:navheader2": c_header(Nav2, header2), "rio:opener": c_opener}
HELPERS3 = {"nav3:_time": c_epoch(Nav3), "nav3:_skip": c_skip, "nav3:navheader3": c_header(Nav3, header3), "rio:opener": c_opener}
