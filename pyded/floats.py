"""Rounding model of binary64: rv maps a float value to the real it denotes.

IEEE facts used: correctly rounded parse/mul/div/add/sub (relative error at
most 2**-53, exact on representable integers), exact % 1 for non-negative
operands, exact int()/floor, round() within one half.
"""
import z3
from .values import *

rv = F("real_of", Fl, z3.RealSort())
EPS = z3.Q(1, 2 ** 53)


def absr(x):
    return z3.If(x >= 0, x, -x)


def near(r, x):
    return z3.And(r <= x + absr(x) * EPS, r >= x - absr(x) * EPS)


def litfact(ctx, a):
    v = flit_value(a)
    if v is not None:
        n, d = v.as_integer_ratio()
        ctx.fact(rv(a) == z3.Q(n, d))
        return v
    if a.decl().name() == "float_of_int":
        ctx.fact(z3.Implies(z3.And(a.arg(0) >= -2 ** 53, a.arg(0) <= 2 ** 53), rv(a) == z3.ToReal(a.arg(0))))
    return None


def fophook(ctx, name, a, b, r):
    x, y = litfact(ctx, a), litfact(ctx, b)
    if name == "mod" and y == 1:
        ctx.fact(z3.Implies(rv(a) >= 0, rv(r) == rv(a) - z3.ToReal(z3.ToInt(rv(a)))))
    elif name == "mul" and (x is not None or y is not None):
        c = z3.Q(*(x if x is not None else y).as_integer_ratio())
        ctx.fact(near(rv(r), c * rv(b if x is not None else a)))
    elif name == "div" and y:
        ctx.fact(near(rv(r), rv(a) / z3.Q(*y.as_integer_ratio())))
    elif name == "add":
        ctx.fact(near(rv(r), rv(a) + rv(b)))
    elif name == "sub":
        ctx.fact(near(rv(r), rv(a) - rv(b)))
        # Sterbenz: subtracting the integer part of a non-negative value is exact
        ctx.fact(z3.Implies(z3.And(rv(a) >= 1, rv(b) == z3.ToReal(z3.ToInt(rv(a)))), rv(r) == rv(a) - rv(b)))
        ctx.fact(z3.Implies(rv(b) == 0, rv(r) == rv(a)))


def trunchook(ctx, v, r):
    litfact(ctx, v)
    ctx.fact(z3.Implies(rv(v) >= 0, r == z3.ToInt(rv(v))))
    ctx.fact(z3.Implies(rv(v) < 0, r == -z3.ToInt(-rv(v))))


def roundhook(ctx, v, r):
    litfact(ctx, v)
    ctx.fact(z3.And(z3.ToReal(r) - rv(v) <= z3.Q(1, 2), rv(v) - z3.ToReal(r) <= z3.Q(1, 2)))


def fcmphook(ctx, x, y, r):
    litfact(ctx, x)
    litfact(ctx, y)
    for a, b in ((x, y), (y, x)):
        ctx.fact(fcmp["lt"](a, b) == (rv(a) < rv(b)))
        ctx.fact(fcmp["le"](a, b) == (rv(a) <= rv(b)))


def install(ctx):
    ctx.globals.update({"#fophook": fophook, "#trunchook": trunchook, "#roundhook": roundhook, "#fcmphook": fcmphook})
