"""RINEX 3 navigation: broadcast orbit layouts, spare fields, number of fields."""
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib
from replay import lib as table
from .common import *

L = z3.Const("ln", Ln)
SYSTEMS = "GCRSJEI"


def names(ctx, r):
    h = ctx.get(r) if isinstance(r, Ref) else None
    if not isinstance(h, HList):
        return None
    s = ctx.list_seq(h)
    return [s.fn(k) for k in range(s.n)] if isinstance(s.n, int) else None


def fields(R):
    """each system's own layout, any other letter refused"""
    c = z3.Const("sv_sys", Ln)

    def setup(ctx):
        strs.text_facts(ctx, L)
        strs.text_facts(ctx, c)
        ctx.assume(lenf(c) == 1)
        return [View(L), View(c)], {}, None

    def ens(ctx, g, r):
        got = names(ctx, r)
        ch = at(c, z3.IntVal(0))
        ctx.oblige("known-systems-only", z3.Or(*[ch == ord(s) for s in SYSTEMS]))
        for s in SYSTEMS:
            ctx.oblige(f"layout-of-{s}", z3.Implies(ch == ord(s), z3.BoolVal(got == table.NAV3F[s])))

    def exc(ctx, g, e):
        ctx.oblige("refuses-only-unknown-systems", z3.And(*[at(c, z3.IntVal(0)) != ord(s) for s in SYSTEMS]))
        ctx.oblige("refuses-with-ValueError", e.type == "ValueError")
    R.verify("nav3:_fields", setup, ens, exc)


def sparefields(R):
    """which parameters a record of N fields holds: spare and fit-interval fields that
    are left out do not shift the others"""
    for s in SYSTEMS:
        N = z3.Int("N")
        full = table.NAV3F[s]
        shapes = dict(table.NAV3SHAPES.get(s, {len(full): full}))

        def setup(ctx, s=s, full=full):
            cf = ctx.alloc(HList([("item", x) for x in full]))
            return [cf, s, N], {}, cf

        def ens(ctx, cf, r, s=s, full=full, shapes=shapes):
            got = names(ctx, r)
            ctx.oblige("layout-left-unchanged", names(ctx, cf) == list(full))
            for n, want in shapes.items():
                # an absent QZSS fit interval reads as zero
                want = want if not (s == "J" and n == 28) else full[:29]
                ctx.oblige(f"fields-of-{s}-records", z3.Implies(N == n, z3.BoolVal(got == want)))
            ctx.oblige("known-lengths-only", z3.Or(*[N == n for n in shapes]))

        def exc(ctx, cf, e, shapes=shapes):
            ctx.oblige("refuses-with-ValueError", e.type == "ValueError")
            ctx.oblige("refuses-only-unknown-lengths", z3.And(*[N != n for n in shapes]))
        R.verify("nav3:_sparefields", setup, ens, exc, name=f"nav3:_sparefields[{s}]")


def numfields(R):
    """the number of 19-column fields up to the last character that is not blank"""
    def setup(ctx):
        strs.text_facts(ctx, L)
        return [View(L)], {}, None

    def ens(ctx, g, r):
        n = strs.length(ctx, Strip(View(L), "rstrip"))
        ctx.oblige("fields-up-to-the-last-character", z3.And(19 * iv(r) >= iv(n), 19 * (iv(r) - 1) < iv(n)) if is_int(r) else False)
    R.verify("nav3:_num_fields", setup, ens, None)
