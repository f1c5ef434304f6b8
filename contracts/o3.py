"""RINEX 3 observation files: ghost record structure, call contracts, helper
functions under contract, record-loop invariants."""
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, loops, records, arrays
from .common import *
from .recfile import *
from .o2 import header_file


def isep3(t):
    return z3.Function("obs3_is_epoch_line", Ln, B)(t)


class Obs3Lines(RecFile):
    """a record is an epoch line; header and satellite lines lie between"""

    def __init__(self, T):
        RecFile.__init__(self, "obs3", T)
        self.hend = z3.IntVal(0)
        st = z3.Function("obs3_epoch_line", FileS, I, I)
        self.start = lambda m: st(T, iv(m))

    def lines(self, m):
        return z3.IntVal(1)

    def facts(self, ctx, m):
        return [zb(strs.starts_lit(ctx, View(self.first(m)), "> "))]


def c_timeobs(ctx, b):
    t = strs.term(ctx, b["ln"])
    rf = Obs3Lines(TEXT)
    p = strs.starts_lit(ctx, View(t), "> ")
    ctx.fact(z3.Implies(rf.isep(t), zb(p)))
    if ctx.branch(rf.isep(t)):
        return VDT(rf.ept(t))
    ctx.raise_("ValueError", "not an epoch line")


def c_check_unique(ctx, b):
    return ctx.fresh("unique", B)


HELPERS = {"obs3:_timeobs": c_timeobs, "rio:opener": c_opener, "common:check_unique_times": c_check_unique}
