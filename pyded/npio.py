"""numpy.genfromtxt over fixed-width columns, and the datasets _epoch combines."""
import z3
from .values import *
from .engine import *
from .interp import model, method, MODELS, METHODS
from . import arrays, strs, xr


@model("io.BytesIO")
def bytesio(ctx, a, kw):
    v = a[0]
    if not (isinstance(v, tuple) and len(v) == 2 and v[0] == "bytes"):
        raise Unsupported("BytesIO of something else")
    return ctx.alloc(HObj("bytesio", {"text": v[1]}))


def text_rows(ctx, raw):
    """(number of lines, line q without its newline)"""
    if isinstance(raw, str):
        ls = raw.split("\n")
        if ls and ls[-1] == "":
            ls = ls[:-1]
        return len(ls), lambda q: ctx.pick(ls, q)
    if isinstance(raw, CatSeq) and raw.head == "":
        def row(q):
            x = raw.fn(q)
            if isinstance(x, Cat) and x.parts[-1] == "\n" and len(x.parts) == 2 and isinstance(x.parts[0], View) \
                    and x.parts[0].base.decl().name() == "nonl":
                return x.parts[0]
            raise Unsupported("text whose pieces are not lines")
        return raw.n, row
    raise Unsupported("text of unknown lines")


@model("numpy.genfromtxt")
def genfromtxt(ctx, a, kw):
    """fixed-width table of numbers: a blank or malformed field reads as NaN; the
    table has one row per line (a line holding only its newline still is a row)"""
    src = a[0]
    d = kw.get("delimiter")
    if set(kw) - {"delimiter"} or len(a) != 1:
        raise Unsupported("genfromtxt options")
    raw = ctx.get(src).attrs["text"] if ctx.kind(src) == "bytesio" else None
    if raw is None:
        raise Unsupported("genfromtxt of " + ctx.kind(src))
    n, row = text_rows(ctx, raw)
    if isinstance(d, tuple):
        unit, rep = d, 1
    elif isinstance(d, Seq) and hasattr(d, "rep"):
        unit, rep = d.rep
    else:
        raise Unsupported("genfromtxt delimiter")
    if not all(isinstance(w, int) for w in unit):
        raise Unsupported("genfromtxt widths")
    ctx.trusted.add("numpy.genfromtxt with fixed widths: one row per line, field c is the columns given by the widths, "
                    "NaN where blank or not a number; the text is ASCII and has no '#'")
    W, U = sum(unit), len(unit)
    offs = [sum(unit[:j]) for j in range(U)]

    def cell(ix):
        r, c = ix
        u, j = divsimp(iv(c) / U), sx(divsimp(iv(c) % U))
        x = row(r)

        def at(jj):
            lo = sx(W * iv(u) + offs[jj])
            v = strs.slice_(ctx, x, lo, sx(iv(lo) + unit[jj]))
            t = strs.num(ctx, v)
            strs.is_blank_facts(ctx, t)
            zb(strs.is_blank(ctx, v))
            return z3.If(fltok(t), fltval(t), NaN)
        if isinstance(j, int):
            return at(j)
        e = at(U - 1)
        for jj in range(U - 2, -1, -1):
            e = z3.If(j == jj, at(jj), e)
        return e
    return ctx.alloc(HObj("gft", {"n": n, "cols": sx(iv(rep) * U), "cell": cell}))


@model("numpy.atleast_2d")
def atleast_2d(ctx, a, kw):
    v = a[0]
    k = ctx.kind(v)
    if k == "gft":
        g = ctx.get(v).attrs
        if ctx.branch(iv(g["n"]) == 0):
            return ctx.alloc(HArr((1, 0), "float", lambda ix: (_ for _ in ()).throw(Unsupported("cell of an empty table"))))
        if not ctx.valid(iv(g["cols"]) >= 2):
            raise Unsupported("table of one column")
        return ctx.alloc(HArr((g["n"], g["cols"]), "float", g["cell"]))
    if k == "ndarray":
        h = ctx.get(v)
        if len(h.shape) >= 2:
            return v
        if len(h.shape) == 1:
            return ctx.alloc(HArr((1,) + tuple(h.shape), h.dtype, lambda ix: arrays.read(ctx, h, (ix[1],))))
    raise Unsupported("atleast_2d of " + k)


# ------------------------------------------------------------------ combining datasets
def combine(op):
    def f(ctx, a, kw):
        parts = tuple(ctx.concrete_items(a[0]))
        return ctx.alloc(HObj("COMB", {"op": op, "parts": parts, "kw": dict(kw), "attrs": ctx.alloc(HDict())}))
    return f


@model("xarray.concat")
def concat(ctx, a, kw):
    kw = dict(kw)
    if len(a) > 1:
        kw["dim"] = a[1]
    ctx.trusted.add("xarray.concat along time: union of the labels, rows one after another, each cell from the dataset that has it")
    return combine("concat")(ctx, a[:1], kw)


_merge = MODELS["xarray.merge"]


@model("xarray.merge")
def merge(ctx, a, kw):
    parts = ctx.concrete_items(a[0])
    if any(ctx.kind(p) in ("PFOLD", "COMB") for p in parts):
        if kw:
            raise Unsupported("merge options")
        ctx.trusted.add("xarray.merge: union of the labels, each cell from the dataset that has it")
        return combine("merge")(ctx, a, kw)
    return _merge(ctx, a, kw)
