"""xarray datasets: coordinates, and variables in the order they were written.

XDS attrs: vars (Ref to a list of (name, dims, array)), coords (Ref to a dict),
attrs (Ref to a dict), ops (what dropna, merge, ... were applied; trusted).
"""
import z3
from .values import *
from .engine import *
from .interp import model, method, MODELS, METHODS
from . import arrays, strs


def mk(ctx, vars=(), coords=None, attrs=None, ops=()):
    return ctx.alloc(HObj("XDS", {"vars": ctx.alloc(HList([("item", v) for v in vars])),
                                  "coords": coords if coords is not None else ctx.alloc(HDict()),
                                  "attrs": attrs if attrs is not None else ctx.alloc(HDict()), "ops": tuple(ops)}))


def freeze(ctx, v):
    if isinstance(v, Ref):
        h = ctx.get(v)
        if isinstance(h, HArr):
            return Frozen(h, v.id)
        if isinstance(h, HList):
            if arrays.stack(ctx, v) is not None:
                return Frozen(arrays.stack(ctx, v), v.id)
            s = ctx.list_seq(h)
            return Frozen(HArr((s.n,), "object", lambda ix: s.fn(ix[0])), v.id)
    if isinstance(v, (Frozen, VOpq)):
        return v
    raise Unsupported(f"dataset variable of {ctx.kind(v)}")


@model("xarray.Dataset")
def ds_new(ctx, a, kw):
    d = a[0] if a else kw.get("data_vars")
    vs = []
    if d is not None:
        r = ctx.get(d)
        if isinstance(r, HDict) and (r.base is not None or r.layers):
            ds = mk(ctx, (), kw.get("coords", a[1] if len(a) > 1 else None), kw.get("attrs"))
            ctx.put(ctx.get(ds).attrs["vars"], HList([("dict", r)]))
            return ds
        if not isinstance(r, HDict):
            raise Unsupported("Dataset of a symbolic mapping")
        for k, (p, v) in r.entries.items():
            if p is not True:
                raise Unsupported("conditional variable")
            vs.append((k, dims_of(v[0]), freeze(ctx, v[1])))
    c = kw.get("coords", a[1] if len(a) > 1 else None)
    at = kw.get("attrs")
    return mk(ctx, vs, c, at)


def dims_of(d):
    return (d,) if isinstance(d, str) else tuple(d) if isinstance(d, tuple) else d


def ds_setitem(ctx, o, k, v):
    h = ctx.get(o)
    if isinstance(v, Ref) and ctx.kind(v) == "XDA":
        d = ctx.get(v).attrs
        v = (d["dims"], d["data"])
    if not isinstance(v, tuple) or len(v) < 2:
        if isinstance(v, (VDT, VOpq)):
            v = ((), v)
        else:
            raise Unsupported("dataset variable that is not (dims, data)")
    x = v[1] if isinstance(v[1], (VDT,)) else freeze(ctx, v[1])
    r = ctx.get(h.attrs["vars"])
    ctx.put(h.attrs["vars"], HList(r.parts + (("item", (k, dims_of(v[0]), x)),)))


METHODS[("XDS", "setitem")] = ds_setitem


def find(ctx, o, k):
    r = ctx.get(ctx.get(o).attrs["vars"])
    if not r.concrete or not isinstance(k, str):
        raise Unsupported("dataset lookup")
    for v in reversed(r.items()):
        if v[0] == k:
            return v
    return None


def ds_getitem(ctx, o, k):
    v = find(ctx, o, k)
    if v is None:
        ctx.raise_("KeyError", str(k))
    return ctx.alloc(HObj("XDA", {"name": v[0], "dims": v[1], "data": v[2]}))


METHODS[("XDS", "getitem")] = ds_getitem


def da_binop(ctx, t, a, b):
    """an array of a dataset and a number"""
    def arr_(x):
        if isinstance(x, Ref) and ctx.kind(x) == "XDA":
            d = ctx.get(x).attrs["data"]
            if not (isinstance(d, Frozen) and isinstance(d.h, HArr)):
                raise Unsupported("arithmetic of a coordinate")
            return ctx.alloc(d.h)
        if is_flt(x) or is_int(x):
            return x
        raise Unsupported("arithmetic of a dataset variable and " + ctx.kind(x))
    x = next(v for v in (a, b) if isinstance(v, Ref) and ctx.kind(v) == "XDA")
    r = arrays.binop(ctx, t, arr_(a), arr_(b))
    return ctx.alloc(ctx.get(x).with_(data=Frozen(ctx.get(r), r.id)))


METHODS[("binop", "XDA")] = da_binop


@method("XDS", "dropna")
def ds_dropna(ctx, o, dim, how="any", **kw):
    h = ctx.get(o)
    ctx.trusted.add("xarray.Dataset.dropna(how='all') drops only labels all of whose cells are NaN")
    return ctx.alloc(h.with_(ops=h.attrs["ops"] + (("dropna", dim, how),)))


METHODS[("attr", "XDS", "attrs")] = lambda ctx, o: ctx.get(o).attrs["attrs"]
METHODS[("attr", "XDS", "coords")] = lambda ctx, o: ctx.get(o).attrs["coords"]


def _setattr(ctx, o, name, v):
    ctx.put(o, ctx.get(o).with_(**{name: v}))


METHODS[("XDS", "setattr")] = _setattr


def ds_getattr(ctx, o, name):
    c = ctx.get(ctx.get(o).attrs["coords"])
    if isinstance(c, HDict) and name in c.entries:
        return ctx.alloc(HObj("XDA", {"name": name, "dims": (name,), "data": c.entries[name][1], "ops": ctx.get(o).attrs["ops"]}))
    return VBound(o, name)


METHODS[("XDS", "getattr")] = ds_getattr


# ---------------------------------------------------------------- spacing of a coordinate
@model("numpy.diff")
def np_diff(ctx, a, kw):
    h = ctx.get(a[0]) if isinstance(a[0], Ref) else None
    if isinstance(h, HObj) and h.cls == "XDA":
        return ctx.alloc(HObj("SDIFF", {"of": h, "unit": None}))
    if isinstance(h, HArr) and len(h.shape) == 1:
        return ctx.alloc(HObj("SDIFF", {"of": HObj("XDA", {"name": None, "dims": (None,), "data": Frozen(h, a[0].id)}), "unit": None}))
    raise Unsupported("diff of " + ctx.kind(a[0]))


def sdiff_div(ctx, t, a, b):
    if t == "Div" and ctx.kind(a) == "SDIFF" and isinstance(b, VTD) and isinstance(sx(b.us), int):
        return ctx.alloc(ctx.get(a).with_(unit=sx(b.us)))
    raise Unsupported("division of time steps")


METHODS[("binop", "SDIFF")] = sdiff_div


@model("numpy.median")
def np_median(ctx, a, kw):
    h = ctx.get(a[0]) if isinstance(a[0], Ref) else None
    if isinstance(h, HObj) and h.cls == "SDIFF":
        ctx.trusted.add("numpy.median of the differences of a time coordinate")
        return VOpq(ctx.fresh("median_step", Obj), "median", h)
    raise Unsupported("median of " + ctx.kind(a[0]))


UNITS = {"D": 86400 * 10 ** 6, "h": 3600 * 10 ** 6, "m": 60 * 10 ** 6, "s": 10 ** 6, "ms": 1000, "us": 1}


@model("numpy.timedelta64")
def np_td64(ctx, a, kw):
    if len(a) == 2 and is_int(a[0]) and a[1] in UNITS:
        return VTD(sx(iv(a[0]) * UNITS[a[1]]))
    raise Unsupported("timedelta64 arguments")


def entry(ctx, ds, b):
    """(present, (name, dims, data)) of the variable that base index b of the writing loop gives"""
    r = ctx.get(ctx.get(ds).attrs["vars"])
    if r.concrete:
        items = r.items()
        return (sx(b) < len(items) if isinstance(sx(b), int) else None), items[sx(b)], len(items)
    if len(r.parts) != 1 or r.parts[0][0] != "seq":
        raise Unsupported("variables written by several loops")
    s = r.parts[0][1]
    if s.filt is None:
        return True, s.fn(b), s.n
    return zb(s.filt.pred(iv(b))), s.fnb(b), s.filt.n


# ---------------------------------------------------------------- merging finished readings
def parts_of(ctx, d):
    """the readings a dataset is merged from; None when it holds something else"""
    h = ctx.get(d)
    if h.cls == "XMERGE":
        return h.attrs["parts"]
    if h.cls == "ODS":
        return (d,)
    if h.cls == "XDS":
        v = ctx.get(h.attrs["vars"])
        if v.concrete and not v.items():
            cs = ctx.get(h.attrs["coords"]).entries
            for k, (p, x) in cs.items():
                n = ctx.list_len(ctx.get(x)) if not isinstance(ctx.get(x), HArr) else ctx.get(x).shape[0]
                if not (isinstance(sx(n), int) and sx(n) == 0):
                    raise Unsupported("merge with labels of its own")
            return ()
    raise Unsupported("merge of " + h.cls)


@model("xarray.merge")
def xr_merge(ctx, a, kw):
    if kw or len(a) != 1:
        raise Unsupported("merge options")
    ctx.trusted.add("xarray.merge: union of the labels, each cell from the dataset that has it")
    out = ()
    for d in ctx.concrete_items(a[0]):
        out += parts_of(ctx, d)
    return ctx.alloc(HObj("XMERGE", {"parts": out, "attrs": ctx.alloc(HDict())}))


for _k in ("XMERGE", "ODS"):
    METHODS[("attr", _k, "attrs")] = lambda ctx, o: ctx.get(o).attrs["attrs"]
    METHODS[(_k, "setattr")] = _setattr
METHODS[("attr", "ODS", "variables")] = lambda ctx, o: Seq(ctx.get(o).attrs["nvars"], lambda k: (_ for _ in ()).throw(Unsupported("variable of a reading")))
