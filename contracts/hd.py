"""Header decoding helpers."""
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, records
from .common import *

L = z3.Const("ln", Ln)


def string_to_float(R):
    """the number written, with Fortran D exponents understood"""
    def setup(ctx):
        strs.text_facts(ctx, L)
        return [View(L, 3, 22)], {}, None

    def want(ctx):
        return strs.num(ctx, strs.replace(ctx, View(L, 3, 22), "D", "E"))

    def ens(ctx, g, r):
        t = want(ctx)
        ctx.oblige("number-with-D-exponent", z3.And(fltok(t), ctx.tofl(r) == fltval(t)) if is_flt(r) else False)

    def exc(ctx, g, e):
        ctx.oblige("refused-with-ValueError", e.type == "ValueError")
        ctx.oblige("refused-only-if-not-a-number", z3.Not(fltok(want(ctx))))
    R.verify("common:rinex_string_to_float", setup, ens, exc)
