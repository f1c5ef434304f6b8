"""C18: time system and sampling interval attached to observations."""
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib
from .common import *
from . import o2sys, o3sys

SYS = {"G": "GPS", " ": "GPS", "R": "GLO", "E": "GAL", "J": "QZS", "C": "BDT", "I": "IRN"}
RVT = z3.Const("version_line", Ln)       # CRINEX: the plain file's version line kept under its label
SYSL = z3.Const("systems", Ln)
TOFO = z3.Const("time_of_first_obs", Ln)


def time_system(R):
    def setup(ctx):
        has = z3.Bool("has_version_line")
        for t in (RVT, SYSL, TOFO):
            strs.text_facts(ctx, t)
        ctx.assume(z3.Implies(has, lenf(RVT) > 40))
        ctx.assume(lenf(SYSL) == 1)
        ctx.assume(lenf(TOFO) >= 51)
        c = z3.If(has, at(RVT, z3.IntVal(40)), at(SYSL, z3.IntVal(0)))
        mixed = c == ord("M")
        hdr = ctx.alloc(HDict({"RINEX VERSION / TYPE": (has, View(RVT)), "systems": (True, View(SYSL)),
                               "TIME OF FIRST OBS": (z3.Or(mixed, z3.Bool("has_tofo")), View(TOFO))}))
        return [hdr], {}, c

    def ens(ctx, c, r):
        ctx.oblige("unknown-system-refused", z3.Or(*[c == ord(s) for s in SYS], c == ord("M")))
        if not is_str(r):
            return ctx.oblige("three-letter-code", False)
        for s, w in SYS.items():
            ctx.oblige(f"system-{s}-is-{w}", z3.Implies(c == ord(s), zb(strs.eq(ctx, r, w))))
        want = Strip(View(TOFO, 48, 51))
        ctx.oblige("mixed-file-uses-the-first-obs-record", z3.Implies(c == ord("M"), zb(strs.eq(ctx, r, want))))

    def exc(ctx, c, e):
        ctx.oblige("refused-only-unknown-systems", z3.And(*[c != ord(s) for s in SYS], c != ord("M")))
        ctx.oblige("refused-with-ValueError", e.type == "ValueError")
    R.verify("common:determine_time_system", setup, ens, exc)


TASKS = [("time_system", time_system), ("obs3", o3sys.main(forms=("path", "stream"))), ("obs2", o2sys.main())]
