"""C14: writing NetCDF never destroys stored data unless asked."""
import z3
from pyded.values import *
from pyded.interp import METHODS, MODELS, model, method
from pyded import strs, lib
from pyded.engine import *
from .common import *

has_group = z3.Function("has_group", Obj, Ln, B)   # the .nc file at a path holds this group
OUT = z3.Const("outfn", Obj)
GROUP = z3.Const("group", Ln)
OVER = z3.Const("overwrite", B)


def unexp(p):
    return p.arg(0) if p.decl().name() == "expanduser" else p


def groupterm(ctx, g):
    return strs.term(ctx, g)


# ---- model of the storage library: a write is an event, never silent
@model("xarray.open_dataset")
def open_dataset(ctx, a, kw):
    fn = a[0] if a else kw["filename_or_obj"]
    g = kw.get("group", a[1] if len(a) > 1 else None)
    fn = lib._Path(ctx, (fn,), {})
    if not ctx.branch(zb(lib.pis_file(fn.term))):
        ctx.raise_("FileNotFoundError", "no such file")
    if not ctx.branch(has_group(unexp(fn.term), groupterm(ctx, g))):
        ctx.raise_("OSError", "group not found")
    ctx.globals["#opened"] = ctx.globals.get("#opened", ()) + ((fn, g),)
    return VOpq(ctx.fresh("stored", Obj), "Dataset", ("stored", fn.term, g))


def reading(name, **extra):
    """contract of a reader: some dataset, or ValueError for an invalid file"""
    def c(ctx, b):
        if ctx.branch(ctx.fresh(f"{name}_rejects", B)):
            ctx.raise_("ValueError", "invalid RINEX")
        r = ctx.alloc(HObj("Dataset", {"id": ctx.fresh(f"read_{name}", Obj), "changes": ()}))
        ctx.globals["#calls"] = ctx.globals.get("#calls", ()) + ((name, b, r),)
        return r
    return c


nvars = z3.Function("n_vars", Obj, I)
varname = z3.Function("var_name", Obj, I, Ln)
isns = z3.Function("time_is_ns", Obj, B)
METHODS[("Dataset", "truth")] = lambda ctx, d: True


def ds_id(ctx, d):
    return ctx.get(d).attrs["id"]


@method("attr", "x")
def _x(ctx, d):
    return None


METHODS[("attr", "Dataset", "data_vars")] = lambda ctx, d: Seq(nvars(ds_id(ctx, d)), lambda k: View(varname(ds_id(ctx, d), iv(k))))
METHODS[("attr", "Dataset", "time")] = lambda ctx, d: VOpq(z3.Function("time_of", Obj, Obj)(ds_id(ctx, d)), "DA")
METHODS[("Dataset", "getitem")] = lambda ctx, d, k: VOpq(z3.Function("time_of", Obj, Obj)(ds_id(ctx, d)), "DA") if k == "time" else _unsup("variable")
METHODS[("attr", "opq:DA", "dtype")] = lambda ctx, v: VOpq(v.term, "dtype")
METHODS[("compare", "opq:dtype")] = lambda ctx, op, a, b: _cmp_dtype(op, a, b)
METHODS[("opq:DA", "astype")] = lambda ctx, v, t: VOpq(v.term, "DA", "ns") if t == "datetime64[ns]" else _unsup("astype")


def _unsup(m):
    raise Unsupported(m)


def _cmp_dtype(op, a, b):
    if isinstance(a, str):
        a, b = b, a
    if b == "datetime64[ns]" and op in ("Eq", "NotEq"):
        e = isns(a.term)
        return e if op == "Eq" else z3.Not(e)
    raise Unsupported("dtype comparison")


def ds_setitem(ctx, d, k, v):
    r = ctx.get(d)
    if k == "time" and isinstance(v, VOpq) and v.kind == "DA":
        # the same instants in nanoseconds
        return
    ctx.put(d, r.with_(changes=r.attrs["changes"] + (k,)))


METHODS[("Dataset", "setitem")] = ds_setitem


@method("Dataset", "to_netcdf")
def to_netcdf(ctx, d, path=None, mode="w", format=None, group=None, engine=None, encoding=None, **kw):
    ctx.globals["#writes"] = ctx.globals.get("#writes", ()) + (dict(ds=d, path=path, mode=mode, group=group, encoding=encoding,
                                                                    changes=ctx.get(d).attrs["changes"]),)


def writes(ctx):
    return ctx.globals.get("#writes", ())


# ---- base._groupexists
def groupexists(R):
    def setup(ctx):
        return [lib.mk_path(ctx, OUT), View(GROUP), OVER], {}, None
    there = z3.And(lib.pis_file(OUT), has_group(OUT, GROUP))

    def ens(ctx, g, r):
        if not is_str(r):
            return ctx.oblige("result", False)
        w = zb(strs.eq(ctx, r, "w"))
        a = zb(strs.eq(ctx, r, "a"))
        ctx.oblige("replaces-only-when-asked-or-new", z3.Implies(w, z3.Or(OVER, z3.Not(lib.pis_file(OUT)))))
        ctx.oblige("adds-or-replaces", z3.Or(w, a))
        ctx.oblige("stored-group-is-refused", z3.Or(OVER, z3.Not(there)))
        ctx.oblige("nothing-written", len(writes(ctx)) == 0)

    def exc(ctx, g, e):
        ctx.oblige("refuses-with-ValueError", e.type == "ValueError")
        ctx.oblige("refuses-only-a-stored-group", z3.And(z3.Not(OVER), there))
    R.verify("base:_groupexists", setup, ens, exc)


def c_groupexists(ctx, b):
    fn, g, over = b["fn"], b["group"], b["overwrite"]
    fn = lib._Path(ctx, (fn,), {})
    ctx.globals["#asked"] = ctx.globals.get("#asked", ()) + ((fn, g, over),)
    if ctx.branch(Or(zb(ctx.truth(over)), Not(zb(lib.pis_file(fn.term))))):
        return "w"
    if ctx.branch(has_group(unexp(fn.term), groupterm(ctx, g))):
        ctx.raise_("ValueError", "group already there")
    return "a"


def same_out(p):
    return isinstance(p, VOpq) and p.kind == "Path" and unexp(p.term).eq(OUT)


# ---- the readers that save: rinexnav, rinexobs
def saver(R, qual, readers, default):
    for kind in ("path", "stream"):
        st = {}

        def setup(ctx):
            st["fn"] = path_arg(ctx) if kind == "path" else stream_arg(ctx)
            ctx.assume(lib.pis_file(lib.pexpand(OUT)) == lib.pis_file(OUT))
            out = lib.mk_path(ctx, OUT) if ctx.branch(z3.Const("want_output", B)) else None
            st["out"] = out
            kw = dict(overwrite=OVER)
            st["group"] = default
            if ctx.branch(z3.Const("own_group", B)):
                kw["group"] = View(GROUP)
                st["group"] = View(GROUP)
            return [st["fn"], out], kw, None

        def ens(ctx, g, r):
            ws = writes(ctx)
            if st["out"] is None:
                return ctx.oblige("no-output-asked-none-written", len(ws) == 0)
            if len(ws) != 1:
                return ctx.oblige("written-once", False)
            w = ws[0]
            ctx.oblige("written-once", True)
            ctx.oblige("at-the-requested-path", same_out(w["path"]))
            ctx.oblige("what-is-written-is-returned", w["ds"] == r and not w["changes"] and isinstance(r, Ref))
            ctx.oblige("under-its-group", strs.eq(ctx, w["group"], st["group"]) if is_str(w["group"]) else False)
            gt = groupterm(ctx, st["group"])
            m = w["mode"]
            if not is_str(m):
                return ctx.oblige("mode", False)
            replace = zb(strs.eq(ctx, m, "w"))
            ctx.oblige("mode-is-write-or-add", Or(replace, zb(strs.eq(ctx, m, "a"))))
            ctx.oblige("replaces-only-when-asked-or-new", z3.Implies(replace, z3.Or(OVER, z3.Not(lib.pis_file(OUT)))))
            ctx.oblige("stored-group-never-written-over", z3.Or(OVER, z3.Not(lib.pis_file(OUT)), z3.Not(has_group(OUT, gt))))
            enc = w["encoding"]
            if enc is not None:
                d = ctx.get(enc) if isinstance(enc, Ref) else None
                if isinstance(d, HDict) and d.base is not None and d.base.seq is not None:
                    q = ctx.fresh("q", I)
                    k = d.base.seq.fn(q)[0]
                    ctx.oblige("encoding-is-of-the-variables-written",
                               And(d.base.seq.n == nvars(ds_id(ctx, r)), strs.eq(ctx, k, View(varname(ds_id(ctx, r), q))),
                                   not d.layers and not d.entries))
                else:
                    ctx.oblige("encoding-is-of-the-variables-written", False)

        def exc(ctx, g, e):
            ctx.oblige("file-unchanged-when-refused", len(writes(ctx)) == 0)
            ctx.oblige("refuses-with-an-error", any(exc_isa(e.type, t) for t in ("ValueError", "LookupError", "OSError")))
            # a stored group is the only reason to refuse a good reading
            read = [c for c in calls(ctx)]
            if read:
                gt = groupterm(ctx, st["group"])
                ctx.oblige("refuses-only-a-stored-group", And(st["out"] is not None, z3.And(z3.Not(OVER), lib.pis_file(OUT), has_group(OUT, gt))))
        cons = {"rio:rinexinfo": c_info, "base:_groupexists": c_groupexists}
        cons.update({q: reading(q.split(":")[1]) for q in readers})
        R.verify(qual, setup, ens, exc, contracts=cons, name=f"{qual}[{kind}]")


def rinexnav(R):
    saver(R, "base:rinexnav", ["nav2:rinexnav2", "nav3:rinexnav3"], "NAV")


def rinexobs(R):
    saver(R, "base:rinexobs", ["obs2:rinexobs2", "obs3:rinexobs3"], "OBS")


# ---- load: where the output goes
def load(R):
    st = {}
    P = z3.Const("out_arg", Obj)
    IN = lib.pexpand(PATH)

    def setup(ctx):
        out = lib.mk_path(ctx, P)
        return [path_arg(ctx), out], {"overwrite": OVER}, None
    name_nc = cat2(lib.pname(PATH), lit(".nc"))

    def ens(ctx, g, r):
        cs = calls(ctx)
        if len(cs) != 1:
            return ctx.oblige("one-reader", False)
        nm, b, ret = cs[0]
        o = b.get("outfn")
        if o is None or not isinstance(o, VOpq):
            return ctx.oblige("output-is-handed-on", False)
        isdir = lib.pis_dir(lib.pexpand(P))
        nc = zb(strs.eq_lit(ctx, View(lib.psuffix(lib.pexpand(P))), ".nc"))
        d = o.term.decl().name()
        if d == "joinpath":
            ctx.oblige("directory-gets-name.nc", And(isdir, unexp(o.term.arg(0)).eq(P), o.term.arg(1).eq(name_nc)))
        else:
            ctx.oblige("nc-path-is-used", And(z3.And(z3.Not(isdir), nc), unexp(o.term).eq(P)))
        if nm != "load_sp3":
            ctx.oblige("overwrite-handed-on", identical(b["overwrite"], OVER))
        ctx.oblige("returns-the-reader's-result", identical(r, ret))

    def exc(ctx, g, e):
        ok = z3.Or(lib.pis_dir(lib.pexpand(P)), zb(strs.eq_lit(ctx, View(lib.psuffix(lib.pexpand(P))), ".nc")))
        ctx.oblige("no-reader-ran", len(calls(ctx)) == 0)
        ctx.oblige("other-outputs-are-refused-with-ValueError", z3.Or(ok, e.type == "ValueError"))
    cons = {"rio:rinexinfo": c_info}
    cons.update({q: recorder(q.split(":")[1]) for q in ("base:rinexnav", "base:rinexobs", "sp3:load_sp3")})
    R.verify("base:load", setup, ens, exc, contracts=cons)


TASKS = [(f.__name__, f) for f in (groupexists, rinexnav, rinexobs, load)]

ASSUMPTIONS = [
    "netCDF4/xarray: to_netcdf(mode='a', group=g) leaves the other groups of the file intact and mode='w' replaces the file; "
    "open_dataset(group=g) raises OSError exactly when the file lacks the group",
    "Path.expanduser() does not change what a path without ~ names",
]
