"""SP3: header satellite lists."""
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, records
from .common import *

L = z3.Const("ln", Ln)


def get_sv(R):
    """up to 17 identifiers of a '+' line, three columns each from column 9"""
    N = z3.Int("Nsv")

    def setup(ctx):
        strs.text_facts(ctx, L)
        ctx.assume(z3.And(lenf(L) >= 60, N >= 0))
        return [View(L), N], {}, None

    def ens(ctx, g, r):
        s = ctx.list_seq(ctx.get(r))
        plus = at(L, z3.IntVal(0)) == ord("+")
        ctx.oblige("as-many-as-the-line-holds", iv(s.n) == z3.If(plus, z3.If(N < 17, N, 17), 0))
        q = ctx.fresh("q", I)
        ctx.assume(z3.And(plus, q >= 0, q < 17, q < N))
        if ctx.feasible(q >= 0):
            want = strs.replace(ctx, View(L, sx(9 + 3 * q), sx(12 + 3 * q)), " ", "")
            records.same(ctx, "satellite-in-its-own-columns", s.fn(q), want)
    R.verify("sp3:get_sv", setup, ens, None)
