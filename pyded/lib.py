"""Trusted contracts of builtins, the standard library, numpy and xarray."""
import z3
from .values import *
from .engine import *
from .interp import model, method, MODELS, METHODS, BUILTIN_EXC
from . import strs
import ast

US = 1000000
DAY = 86400 * US


# ------------------------------------------------------------------ builtins
@model("builtins.len")
def _len(ctx, a, kw):
    v = a[0]
    k = ctx.kind(v)
    if k == "str":
        return strs.length(ctx, v)
    if k == "tuple":
        return len(v)
    if k == "list":
        return ctx.list_len(ctx.get(v))
    if k == "seq":
        return v.n
    if k == "dict":
        return ctx.dict_len(ctx.get(v))
    if k == "set":
        return len(v.items)
    if k == "ndarray":
        return ctx.get(v).shape[0]
    if k == "bytes":
        return len(v)
    if ("len", k) in METHODS:
        return METHODS[("len", k)](ctx, v)
    if k in ("None", "int", "float"):
        ctx.raise_("TypeError", "object has no len()")
    raise Unsupported(f"len of {k}")


@model("builtins.int")
def _int(ctx, a, kw):
    if not a:
        return 0
    v = a[0]
    k = ctx.kind(v)
    if k == "str":
        return strs.intparse(ctx, v)
    if k == "int":
        return v
    if k == "bool":
        return int(v) if isinstance(v, bool) else z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if k == "float":
        if isinstance(v, float):
            return int(v)
        return trunc_float(ctx, v)
    if k == "rat":
        raise Unsupported("int of a quotient")
    if ("int", k) in METHODS:
        return METHODS[("int", k)](ctx, v)
    ctx.raise_("TypeError", f"int() argument {k}") if k in ("None", "list", "dict", "tuple") else None
    raise Unsupported(f"int of {k}")


finitef = z3.Function("isfinite", Fl, B)
truncf = z3.Function("trunc", Fl, I)
roundf = z3.Function("round", Fl, I)
floorf = z3.Function("floor", Fl, I)


def trunc_float(ctx, v):
    h = ctx.globals.get("#trunchook")
    if is_real(v):
        n = z3.ToInt(v)
        return z3.If(v >= 0, n, -z3.ToInt(-v))
    if ctx.globals.get("#floats") is None:
        # int() of a float that may be NaN or infinite
        if not ctx.branch(finitef(v)):
            ctx.raise_("ValueError" if ctx.branch(v == NaN) else "OverflowError", "int() of a non-finite float")
    r = truncf(v)
    if h:
        h(ctx, v, r)
    return r


@model("builtins.float")
def _float(ctx, a, kw):
    v = a[0] if a else 0.0
    k = ctx.kind(v)
    if k == "str":
        return strs.floatparse(ctx, v)
    if isinstance(v, (int, float)):
        return float(v)
    if k in ("float", "int", "rat"):
        return ctx.tofl(v)
    if ("float", k) in METHODS:
        return METHODS[("float", k)](ctx, v)
    if k in ("None", "list", "dict", "tuple"):
        ctx.raise_("TypeError", "float() argument")
    raise Unsupported(f"float of {k}")


@model("builtins.round")
def _round(ctx, a, kw):
    v = a[0]
    if len(a) > 1 or kw:
        raise Unsupported("round to digits")
    if isinstance(v, (int, float)):
        return round(v)
    if is_int(v):
        return v
    if is_flt(v) and not is_real(v):
        r = roundf(v)
        h = ctx.globals.get("#roundhook")
        if h:
            h(ctx, v, r)
        return r
    raise Unsupported("round")


@model("builtins.str")
def _str(ctx, a, kw):
    v = a[0] if a else ""
    if isinstance(v, (str, int, float)) and not isinstance(v, VStr):
        return str(v)
    if is_str(v):
        return v
    k = ctx.kind(v)
    if ("str", k) in METHODS:
        return METHODS[("str", k)](ctx, v)
    return View(ctx.fresh("str", Ln))


@model("builtins.bool")
def _bool(ctx, a, kw):
    return ctx.truth(a[0]) if a else False


@model("builtins.abs")
def _abs(ctx, a, kw):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if is_int(v):
        return sx(z3.If(v >= 0, v, -v))
    raise Unsupported("abs")


def _minmax(name):
    def f(ctx, a, kw):
        if kw:
            raise Unsupported("min/max keywords")
        if len(a) == 1:
            items = ctx.concrete_items(a[0]) if not _symseq(ctx, a[0]) else None
            if items is None:
                return _minmax_seq(ctx, name, ctx.seq_of(a[0]))
            if not items:
                ctx.raise_("ValueError", "empty")
        else:
            items = list(a)
        if all(isinstance(x, (int, float, str)) for x in items):
            return min(items) if name == "min" else max(items)
        out = items[0]
        for x in items[1:]:
            if is_int(out) and is_int(x):
                out = imin(out, x) if name == "min" else imax(out, x)
            else:
                c = ctx.compare(ast.Lt() if name == "min" else ast.Gt(), x, out)
                out = ctx.ite(c, x, out) if is_z3(c) else (x if c else out)
        return out
    return f


def _symseq(ctx, v):
    if isinstance(v, Seq):
        return not isinstance(sx(v.n), int)
    if isinstance(v, Ref) and isinstance(ctx.get(v), HList):
        return not ctx.get(v).concrete
    return False


def _minmax_seq(ctx, name, s):
    if not ctx.branch(sx(iv(s.n) > 0)):
        ctx.raise_("ValueError", "empty")
    m = ctx.fresh(name, I)
    w = ctx.fresh("arg" + name, I)
    x = s.fn(w)
    if not is_int(x):
        raise Unsupported("min/max of a non-int sequence")
    ctx.fact(z3.And(w >= 0, w < iv(s.n), m == iv(x)))
    k = z3.Int("k!mm")
    y = s.fn(k)
    ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < iv(s.n)), (m <= iv(y)) if name == "min" else (m >= iv(y)))))
    return m


MODELS["builtins.min"] = _minmax("min")
MODELS["builtins.max"] = _minmax("max")


@model("builtins.range")
def _range(ctx, a, kw):
    a = [int(x) if isinstance(x, bool) else x for x in a]
    if not all(is_int(x) for x in a):
        ctx.raise_("TypeError", "range")
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) == 3 else 1)
    if all(isinstance(x, int) for x in (lo, hi, st)):
        return Seq(len(range(lo, hi, st)), lambda k: sx(iv(lo) + iv(k) * st))
    if not isinstance(st, int) or st == 0:
        raise Unsupported("range step")
    n = z3.If(iv(hi) > iv(lo), (iv(hi) - iv(lo) + (st - 1)) / st, 0) if st > 0 else \
        z3.If(iv(lo) > iv(hi), (iv(lo) - iv(hi) + (-st - 1)) / (-st), 0)
    n = sx(n)
    if st == 1 and not isinstance(n, int) and ctx.valid(iv(hi) >= iv(lo)):
        n = sx(iv(hi) - iv(lo))
    return Seq(n, lambda k: sx(iv(lo) + iv(k) * st))


class ZipIter:
    """zip over sequences and one or more text files"""

    def __init__(self, parts):
        self.parts = parts


@model("builtins.zip")
def _zip(ctx, a, kw):
    if any(isinstance(x, Ref) and isinstance(ctx.get(x), HFile) for x in a):
        return ZipIter([x if isinstance(x, Ref) and isinstance(ctx.get(x), HFile) else ctx.seq_of(x) for x in a])
    ss = [ctx.seq_of(x) for x in a]
    n = ss[0].n
    for s in ss[1:]:
        n = imin(n, s.n)
    return Seq(n, lambda k: tuple(s.fn(k) for s in ss))


@model("builtins.enumerate")
def _enumerate(ctx, a, kw):
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    if isinstance(a[0], Ref) and isinstance(ctx.get(a[0]), HFile):
        return ZipIter(["count", a[0], start])
    s = ctx.seq_of(a[0])
    return Seq(s.n, lambda k: (sx(iv(k) + iv(start)), s.fn(k)), None)


@model("builtins.reversed")
def _reversed(ctx, a, kw):
    s = ctx.seq_of(a[0])
    return Seq(s.n, lambda k: s.fn(sx(iv(s.n) - 1 - iv(k))))


@model("builtins.map")
def _map(ctx, a, kw):
    from . import loops
    f = a[0]
    ss = [ctx.seq_of(x) for x in a[1:]]
    n = ss[0].n
    for s in ss[1:]:
        n = imin(n, s.n)
    return loops.map_seq(ctx, Seq(n, lambda k: tuple(s.fn(k) for s in ss)), lambda c, x: c.call(f, list(x), {}))


@model("builtins.list", "builtins.tuple")
def _list(ctx, a, kw):
    if not a:
        return ctx.alloc(HList())
    v = a[0]
    if isinstance(v, Ref) and isinstance(ctx.get(v), HFile):
        raise Unsupported("list of a file")
    k = ctx.kind(v)
    if (k, "items!") in METHODS:
        return ctx.alloc(HList([("item", x) for x in METHODS[(k, "items!")](ctx, v)]))
    try:
        items = ctx.concrete_items(v)
        return ctx.alloc(HList([("item", x) for x in items]))
    except Unsupported:
        return ctx.alloc(HList([("seq", ctx.seq_of(v))]))


@model("builtins.tuple")
def _tuple(ctx, a, kw):
    if not a:
        return ()
    try:
        return tuple(ctx.concrete_items(a[0]))
    except Unsupported:
        return ctx.seq_of(a[0])


@model("builtins.set", "builtins.frozenset")
def _set(ctx, a, kw):
    if not a:
        return VSet([])
    v = a[0]
    if isinstance(v, VSet):
        return v
    try:
        items = ctx.concrete_items(v)
    except Unsupported:
        from . import arrays
        return arrays.symset(ctx, ctx.seq_of(v))
    out = []
    for x in items:
        if isinstance(x, (str, int)):
            if x not in out:
                out.append(x)
        else:
            out.append(x)
    return VSet(out)


@model("builtins.dict")
def _dict(ctx, a, kw):
    if a:
        if isinstance(a[0], Ref) and isinstance(ctx.get(a[0]), HDict):
            r = ctx.get(a[0])
            if kw:
                e = dict(r.entries)
                e.update({k: (True, v) for k, v in kw.items()})
                return ctx.alloc(HDict(e, r.base, r.layers))
            return ctx.alloc(r)
        ent = {}
        for p in ctx.concrete_items(a[0]):
            k, v = ctx.unpack(p, 2)
            ent[k] = (True, v)
        return ctx.alloc(HDict(ent))
    return ctx.alloc(HDict({k: (True, v) for k, v in kw.items()}))


@model("builtins.sum")
def _sum(ctx, a, kw):
    try:
        items = ctx.concrete_items(a[0])
    except Unsupported:
        s = ctx.seq_of(a[0])
        f = ctx.fresh("sum", I)
        ok, x = ctx.pure(lambda: s.fn(ctx.fresh("q", I)))
        if not ok or not (is_bool(x) or is_int(x)):
            raise Unsupported("sum of a sequence")
        if is_bool(x) and len(a) == 1:
            ctx.fact(z3.And(f >= 0, f <= iv(s.n)))
        return f
    t = a[1] if len(a) > 1 else 0
    for x in items:
        t = ctx.binop(ast.Add(), t, x)
    return t


@model("builtins.any")
def _any(ctx, a, kw):
    s = ctx.seq_of(a[0])
    n = sx(s.n)
    if isinstance(n, int):
        return Or(*[ctx.truth(s.fn(k)) for k in range(n)])
    return quant(ctx, s, True)


@model("builtins.all")
def _all(ctx, a, kw):
    s = ctx.seq_of(a[0])
    n = sx(s.n)
    if isinstance(n, int):
        return And(*[ctx.truth(s.fn(k)) for k in range(n)])
    return quant(ctx, s, False)


def quant(ctx, s, ex):
    k = z3.Int("k!q")
    b = zb(ctx.truth(s.fn(k)))
    rng = z3.And(k >= 0, k < iv(s.n))
    return z3.Exists([k], z3.And(rng, b)) if ex else z3.ForAll([k], z3.Implies(rng, b))


@model("builtins.print")
def _print(ctx, a, kw):
    return None


@model("builtins.iter")
def _iter(ctx, a, kw):
    return a[0]


@model("builtins.next")
def _next(ctx, a, kw):
    v = a[0]
    if isinstance(v, Ref) and isinstance(ctx.get(v), HFile):
        h = ctx.get(v)
        if not ctx.branch(sx(iv(h.cur) < nlines(h.text))):
            if len(a) > 1:
                return a[1]
            ctx.raise_("StopIteration")
        return file_readline(ctx, v)
    s = ctx.seq_of(v)
    if not ctx.branch(sx(iv(s.n) > 0)):
        if len(a) > 1:
            return a[1]
        ctx.raise_("StopIteration")
    return s.fn(0)


@model("builtins.slice")
def _slice(ctx, a, kw):
    if len(a) == 1:
        return VSlice(None, a[0])
    return VSlice(*a)


TYPES = {
    "builtins.str": lambda k: k == "str", "builtins.int": lambda k: k in ("int", "bool"),
    "builtins.float": lambda k: k == "float", "builtins.list": lambda k: k == "list",
    "builtins.tuple": lambda k: k == "tuple", "builtins.dict": lambda k: k == "dict",
    "builtins.set": lambda k: k == "set", "builtins.bool": lambda k: k == "bool",
    "builtins.bytes": lambda k: k == "bytes",
    "pathlib.Path": lambda k: k == "Path", "datetime.datetime": lambda k: k == "datetime",
    "datetime.timedelta": lambda k: k == "timedelta", "numpy.ndarray": lambda k: k == "ndarray",
    "io.StringIO": lambda k: k == "file:StringIO", "io.TextIOWrapper": lambda k: k == "file:TextIOWrapper",
    "io.TextIOBase": lambda k: k.startswith("file:"), "io.IOBase": lambda k: k.startswith("file:"),
    "xarray.DataArray": lambda k: k == "DataArray", "xarray.Dataset": lambda k: k == "Dataset",
    "numpy.datetime64": lambda k: k == "datetime64",
}


@model("builtins.isinstance")
def _isinstance(ctx, a, kw):
    v, t = a
    if isinstance(t, tuple):
        return Or(*[_isinstance(ctx, (v, x), {}) for x in t])
    k = ctx.kind(v)
    if k == "file":
        k = "file:" + ctx.get(v).kind
    if k.startswith("opq:"):
        h = METHODS.get(("isinstance", k))
        if h:
            return h(ctx, v, t.name)
    if isinstance(t, VMod) and t.name in TYPES:
        return TYPES[t.name](k)
    raise Unsupported(f"isinstance {t}")


@model("builtins.hasattr")
def _hasattr(ctx, a, kw):
    raise Unsupported("hasattr")


@model("builtins.type")
def _type(ctx, a, kw):
    return VMod("type:" + ctx.kind(a[0]))


# ------------------------------------------------------------------ strings
@method("str", "strip")
def s_strip(ctx, s, *a):
    if isinstance(s, str) and all(isinstance(x, str) for x in a):
        return s.strip(*a)
    if a:
        if a[0] in ("\n", "\r\n"):
            return strs.replace(ctx, s, "\n", "")
        raise Unsupported("strip characters")
    return s if isinstance(s, Strip) and s.mode == "strip" else Strip(s)


@method("str", "rstrip")
def s_rstrip(ctx, s, *a):
    if isinstance(s, str):
        return s.rstrip(*a)
    if a:
        if a[0] in ("\n", "\r\n"):
            return strs.replace(ctx, s, "\n", "")
        raise Unsupported("rstrip characters")
    return Strip(s, "rstrip")


@method("str", "startswith")
def s_startswith(ctx, s, p, *a):
    if isinstance(p, tuple):
        return Or(*[s_startswith(ctx, s, x) for x in p])
    if isinstance(p, str):
        return strs.starts_lit(ctx, s, p)
    return startsw(strs.term(ctx, s), strs.term(ctx, p))


@method("str", "endswith")
def s_endswith(ctx, s, p):
    if isinstance(s, str) and isinstance(p, (str, tuple)):
        return s.endswith(p)
    raise Unsupported("endswith")


@method("str", "replace")
def s_replace(ctx, s, a, b):
    return strs.replace(ctx, s, a, b)


@method("str", "lower", "upper")
def s_case(ctx, s):
    if isinstance(s, str):
        return s.lower()
    f = z3.Function("lower", Ln, Ln)
    return View(f(strs.term(ctx, s)))


@method("str", "upper")
def s_upper(ctx, s):
    if isinstance(s, str):
        return s.upper()
    return View(z3.Function("upper", Ln, Ln)(strs.term(ctx, s)))


@method("str", "split")
def s_split(ctx, s, *a):
    if isinstance(s, str):
        return ctx.alloc(HList([("item", x) for x in s.split(*a)]))
    if a:
        raise Unsupported("split separator")
    t = split_term(ctx, s)
    ctx.fact(ntok(t) >= 0)
    return ctx.alloc(HList([("seq", Seq(ntok(t), lambda k: View(tok_fact(ctx, t, k))))]))


def tok_fact(ctx, t, k):
    w = tok(t, iv(k))
    return w


def split_term(ctx, s):
    t = strs.term(ctx, s)
    return strs.num_term(t)


@method("str", "join")
def s_join(ctx, sep, it):
    from . import loops
    seq = ctx.seq_of(it)
    n = sx(seq.n)
    if isinstance(n, int):
        parts = []
        for k in range(n):
            if k and sep:
                parts.append(sep)
            parts.append(seq.fn(k))
        return cat(*parts)
    if sep == "":
        k = z3.Int("k!join")
        v = seq.fn(k)
        w = strs.length(ctx, v)
        if not isinstance(w, int):
            for c in (80, 16, 14):
                if ctx.valid(w == c):
                    w = c
                    break
        if isinstance(w, int):
            return Rep(n, w, seq.fn)
        return CatSeq("", n, seq.fn)
    f = z3.Function("join:" + repr(sep), Obj, Ln)
    return View(ctx.fresh("join", Ln))


@method("str", "encode")
def s_encode(ctx, s, *a, **kw):
    return ("bytes", s)


@method("str", "isdigit", "isalpha", "isspace")
def s_isdigit(ctx, s):
    if isinstance(s, str):
        raise Unsupported("isdigit")
    return z3.Function("isdigit", Ln, B)(strs.term(ctx, s))


@method("str", "ljust")
def s_ljust(ctx, s, n, *a):
    if a and a[0] != " ":
        raise Unsupported("ljust fill")
    if isinstance(n, int):
        return strs.pad_(ctx, s, n)
    raise Unsupported("ljust")


@method("str", "find")
def s_find(ctx, s, t):
    raise Unsupported("find")


@method("bytes", "startswith")
def b_startswith(ctx, s, p):
    return s.startswith(p)


# ------------------------------------------------------------------ lists, dicts, sets
@method("list", "append")
def l_append(ctx, l, v):
    r = ctx.get(l)
    ctx.put(l, HList(r.parts + (("item", v),)))


@method("list", "extend")
def l_extend(ctx, l, v):
    r = ctx.get(l)
    try:
        items = ctx.concrete_items(v)
        ctx.put(l, HList(r.parts + tuple(("item", x) for x in items)))
    except Unsupported:
        ctx.put(l, HList(r.parts + (("seq", ctx.seq_of(v)),)))


@method("list", "copy")
def l_copy(ctx, l):
    return ctx.alloc(ctx.get(l))


@method("list", "pop")
def l_pop(ctx, l, i=-1):
    r = ctx.get(l)
    if r.concrete and isinstance(i, int):
        items = r.items()
        if not items:
            ctx.raise_("IndexError")
        v = items.pop(i)
        ctx.put(l, HList([("item", x) for x in items]))
        return v
    raise Unsupported("pop")


@method("list", "index")
def l_index(ctx, l, v):
    r = ctx.get(l)
    if not r.concrete:
        # the first position holding the value; positions the contract names are compared with it
        s = ctx.list_seq(r)
        found, ix = ctx.fresh("in_list", B), ctx.fresh("index_of", I)
        n = iv(s.n)
        ctx.fact(z3.Implies(found, z3.And(ix >= 0, ix < n, zb(ctx.equal(s.fn(ix), v)))))
        for w in ctx.globals.get("#indexwit", ()):
            w = w(ctx, v)
            if w is not None:
                ctx.fact(z3.Implies(z3.And(iv(w) >= 0, iv(w) < n, zb(ctx.equal(s.fn(w), v))), z3.And(found, ix <= iv(w))))
        if not ctx.branch(found):
            ctx.raise_("ValueError", "not in list")
        return ix
    items = ctx.concrete_items(l)
    for i, x in enumerate(items):
        if ctx.branch(ctx.equal(x, v)):
            return i
    ctx.raise_("ValueError", "not in list")


@method("dict", "keys")
def d_keys(ctx, d):
    return d


@method("dict", "items")
def d_items(ctx, d):
    r = ctx.get(d)
    if r.base or r.layers or any(p is not True for p, _ in r.entries.values()):
        raise Unsupported("items of a symbolic dict")
    return tuple((k, v) for k, (_, v) in r.entries.items())


@method("dict", "values")
def d_values(ctx, d):
    return tuple(v for _, v in d_items(ctx, d))


@method("dict", "get")
def d_get(ctx, d, k, default=None):
    return ctx.dict_get(d, k, default, True)


@method("dict", "update")
def d_update(ctx, d, o=None, **kw):
    if o is not None:
        r = ctx.get(o) if isinstance(o, Ref) else None
        if ctx.kind(o).startswith("opq") or (isinstance(r, HDict) and (r.base or r.layers)):
            raise Unsupported("update with a symbolic dict")
        for k, (p, v) in r.entries.items():
            if p is not True:
                raise Unsupported("update with a conditional dict")
            ctx.setitem(d, k, v)
    for k, v in kw.items():
        ctx.setitem(d, k, v)


@method("dict", "setdefault")
def d_setdefault(ctx, d, k, v=None):
    if not ctx.branch(ctx.isin(k, d)):
        ctx.setitem(d, k, v)
    return ctx.getitem(d, k)


@method("dict", "pop")
def d_pop(ctx, d, k, *a):
    r = ctx.get(d)
    if r.base or r.layers or isinstance(k, VStr):
        raise Unsupported("pop")
    if k in r.entries:
        e = dict(r.entries)
        p, v = e.pop(k)
        if p is True:
            ctx.put(d, HDict(e))
            return v
        raise Unsupported("pop of a conditional entry")
    if a:
        return a[0]
    ctx.raise_("KeyError", k)


@method("dict", "copy")
def d_copy(ctx, d):
    return ctx.alloc(ctx.get(d))


@method("set", "add")
def set_add(ctx, s, v):
    raise Unsupported("set.add")


@method("set", "intersection")
def set_inter(ctx, s, o):
    items = []
    for x in s.items:
        c = ctx.isin(x, o)
        if isinstance(c, bool):
            if c:
                items.append(x)
        else:
            items.append((c, x))
    if any(isinstance(x, tuple) for x in items):
        return ctx.alloc(HObj("boolset", {"c": Or(*[x[0] if isinstance(x, tuple) else True for x in items])}))
    return VSet(items)


METHODS[("boolset", "truth")] = lambda ctx, v: ctx.get(v).attrs["c"]


# ------------------------------------------------------------------ datetime
def mk_datetime(ctx, y, m, d, h=0, mi=0, s=0, us=0):
    args = [y, m, d, h, mi, s, us]
    if not all(is_int(x) for x in args):
        ctx.raise_("TypeError", "an integer is required")
    y, m, d, h, mi, s, us = [iv(x) for x in args]
    ok = z3.And(dvalid(y, m, d), h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60, us >= 0, us < US)
    ctx.fact(z3.Implies(dvalid(y, m, d), z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= 31)))
    if all(z3.is_int_value(x) for x in (y, m, d)):
        import datetime as D
        try:
            n = D.date(y.as_long(), m.as_long(), d.as_long()).toordinal() - D.date(1970, 1, 1).toordinal()
            ctx.fact(z3.And(dvalid(y, m, d), days(y, m, d) == n))
            tod = sx(z3.And(h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60, us >= 0, us < US))
            if tod is True or z3.is_true(tod):
                v = sx(((n * 24 + h) * 60 + mi) * 60 * US + s * US + us)
                return VDT(v.as_long() if z3.is_int_value(v) else v)
        except ValueError:
            ctx.fact(z3.Not(dvalid(y, m, d)))
    if not ctx.branch(sx(ok)):
        ctx.raise_("ValueError", "date out of range")
    return VDT(sx(((days(y, m, d) * 24 + h) * 60 + mi) * 60 * US + s * US + us))


@model("datetime.datetime")
def _datetime(ctx, a, kw):
    names = ["year", "month", "day", "hour", "minute", "second", "microsecond"]
    vals = dict(zip(names, a))
    vals.update(kw)
    if any(n not in vals for n in names[:3]):
        ctx.raise_("TypeError")
    return mk_datetime(ctx, *[vals.get(n, 0) for n in names])


@model("datetime.timedelta")
def _timedelta(ctx, a, kw):
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    unit = {"days": DAY, "seconds": US, "microseconds": 1, "milliseconds": 1000, "minutes": 60 * US,
            "hours": 3600 * US, "weeks": 7 * DAY}
    vals = dict(zip(names, a))
    vals.update(kw)
    t = 0
    for k, v in vals.items():
        if isinstance(v, float) and v == int(v):
            v = int(v)
        if is_int(v):
            t = t + iv(v) * unit[k]
        elif is_flt(v) and len(vals) == 1:
            f = z3.Function(f"td_{k}", v.sort() if is_z3(v) else Fl, I)
            r = f(ctx.tofl(v))
            h = ctx.globals.get("#tdhook")
            if h:
                h(ctx, k, v, r)
            return VTD(r)
        else:
            raise Unsupported("timedelta argument")
    return VTD(sx(t) if is_z3(t) else t)


@method("timedelta", "total_seconds")
def td_total(ctx, t):
    if ctx.globals.get("#floats") == "real":
        return z3.ToReal(iv(t.us)) / z3.RealVal(US)
    return z3.Function("td_seconds", I, Fl)(iv(t.us))


@method("datetime", "replace")
def dt_replace(ctx, t, **kw):
    raise Unsupported("datetime.replace")


METHODS[("truth", "x")] = None


@model("numpy.datetime64")
def _dt64(ctx, a, kw):
    if isinstance(a[0], VDT) and (len(a) == 1 or a[1] in ("ns", "us")):
        return a[0]
    raise Unsupported("datetime64 of " + ctx.kind(a[0]))


# ------------------------------------------------------------------ math, logging, misc
@model("math.ceil")
def _ceil(ctx, a, kw):
    v = a[0]
    if isinstance(v, (int, float)):
        import math
        return math.ceil(v)
    if is_int(v):
        return v
    if isinstance(v, VRat):
        # quotient of machine ints below 2**53: the float quotient has the same ceiling
        if not ctx.valid(iv(v.d) > 0):
            raise Unsupported("ceil of a quotient with unknown sign")
        if isinstance(v.d, int):
            return sx(-((-iv(v.n)) / v.d))
        q = ctx.fresh("ceil", I)
        ctx.fact(z3.And(q * iv(v.d) >= iv(v.n), (q - 1) * iv(v.d) < iv(v.n)))
        return q
    raise Unsupported("ceil")


@model("math.floor")
def _floor(ctx, a, kw):
    v = a[0]
    if is_int(v):
        return v
    if isinstance(v, VRat) and isinstance(v.d, int) and v.d > 0:
        return sx(iv(v.n) / v.d)
    raise Unsupported("floor")


def _none(ctx, a, kw):
    return None


for _n in ("debug", "info", "warning", "error", "critical", "exception", "basicConfig"):
    MODELS["logging." + _n] = _none


@model("typing.cast")
def _cast(ctx, a, kw):
    return a[1]


# ------------------------------------------------------------------ files
def file_readline(ctx, f, limit=None):
    h = ctx.get(f)
    ln = line(h.text, iv(h.cur))
    ctx.put(f, HFile(h.text, sx(iv(h.cur) + 1), h.kind, h.info))
    strs.text_facts(ctx, ln)
    schema_at(ctx, h.text, h.cur)
    if limit is not None:
        # readline(n) of lines no longer than n characters; a longer line leaves its rest behind
        if not isinstance(limit, int):
            raise Unsupported("readline limit")
        ctx.trusted.add(f"readline({limit}) of a line of at most {limit} characters")
        ctx.assume(lenf(ln) <= limit)
    return View(ln)


def schema_at(ctx, text, i):
    """instantiate what is known about line i of this text"""
    for s in ctx.globals.get("#lineschemas", ()):
        s(ctx, text, i)


@method("file", "readline")
def f_readline(ctx, f, limit=None):
    return file_readline(ctx, f, limit)


@method("file", "seek")
def f_seek(ctx, f, off, whence=0):
    h = ctx.get(f)
    if whence == 0 and off == 0:
        ctx.put(f, HFile(h.text, 0, h.kind, h.info))
        return 0
    if whence == 2 and off == 0:
        ctx.put(f, HFile(h.text, nlines(h.text), h.kind, h.info))
        return 0
    raise Unsupported("seek")


filesize = z3.Function("filesize", FileS, I)


@method("file", "tell")
def f_tell(ctx, f):
    h = ctx.get(f)
    if h.cur is not None and is_z3(iv(h.cur)) and sx(iv(h.cur) - nlines(h.text)) == 0:
        ctx.fact(filesize(h.text) >= 0)
        return filesize(h.text)
    t = ctx.fresh("tell", I)
    ctx.fact(t >= 0)
    return t


@method("file", "read")
def f_read(ctx, f, *a):
    h = ctx.get(f)
    if a:
        raise Unsupported("read(n)")
    if not (isinstance(h.cur, int) and h.cur == 0):
        raise Unsupported("read from the middle of a text")
    ctx.put(f, HFile(h.text, nlines(h.text), h.kind, h.info))
    return VOpq(h.text, "filetext")


@method("file", "close")
def f_close(ctx, f):
    return None


def file_name(ctx, f):
    """a StringIO has no name"""
    h = ctx.get(f)
    if h.kind == "StringIO":
        ctx.raise_("AttributeError", "name")
    return View(z3.Function("filename", FileS, Ln)(h.text))


METHODS[("file", ".name")] = file_name


@model("builtins.getattr")
def _getattr(ctx, a, kw):
    if len(a) == 3 and isinstance(a[1], str):
        try:
            return ctx.getattr_(a[0], a[1])
        except PyRaise as e:
            if e.exc.type != "AttributeError":
                raise
            return a[2]
    if len(a) == 2 and isinstance(a[1], str):
        return ctx.getattr_(a[0], a[1])
    raise Unsupported("getattr")


MODELS["const:io.SEEK_END"] = lambda ctx: 2
MODELS["const:io.SEEK_SET"] = lambda ctx: 0
MODELS["const:numpy.nan"] = lambda ctx: float("nan")


# ------------------------------------------------------------------ paths
pis_file = z3.Function("is_file", Obj, B)
pis_dir = z3.Function("is_dir", Obj, B)
psuffix = z3.Function("suffix", Obj, Ln)
pname = z3.Function("name", Obj, Ln)
pjoin = z3.Function("joinpath", Obj, Ln, Obj)
pexpand = z3.Function("expanduser", Obj, Obj)
ppath = z3.Function("Path", Ln, Obj)


def mk_path(ctx, t):
    return VOpq(t, "Path")


METHODS[("attr", "opq:Path", "suffix")] = lambda ctx, p: View(psuffix(p.term))
METHODS[("attr", "opq:Path", "name")] = lambda ctx, p: View(pname(p.term.arg(0) if p.term.decl().name() == "expanduser" else p.term))
METHODS[("attr", "opq:Path", "stem")] = lambda ctx, p: View(z3.Function("stem", Obj, Ln)(p.term))


@method("isinstance", "opq:Path")
def _pi(ctx, p, t):
    raise Unsupported("?")


METHODS[("isinstance", "opq:Path")] = lambda ctx, p, t: t == "pathlib.Path"
METHODS[("opq:Path", "truth")] = lambda ctx, p: True


@model("pathlib.Path")
def _Path(ctx, a, kw):
    v = a[0]
    if isinstance(v, VOpq) and v.kind == "Path":
        return v
    if is_str(v):
        return mk_path(ctx, ppath(strs.term(ctx, v)))
    if ctx.kind(v) in ("None", "int", "file"):
        ctx.raise_("TypeError", "Path of a non-path")
    raise Unsupported("Path of " + ctx.kind(v))


@method("opq:Path", "expanduser")
def p_expand(ctx, p):
    t = p.term
    if t.decl().name() == "expanduser":
        return p
    if t.decl().name() in ("joinpath",):
        return p
    return mk_path(ctx, pexpand(t))


def dyn_is_file(ctx, p):
    h = ctx.globals.get("#isfile")
    if h:
        return h(ctx, p)
    return pis_file(p.term)


METHODS[("opq:Path", "is_file")] = dyn_is_file
METHODS[("opq:Path", "exists")] = lambda ctx, p: z3.Or(pis_file(p.term), pis_dir(p.term))


@method("opq:Path", "is_dir")
def p_isdir(ctx, p):
    ctx.fact(z3.Not(z3.And(pis_dir(p.term), pis_file(p.term))))
    return pis_dir(p.term)


@method("opq:Path", "truediv")
def p_div(ctx, a, b):
    if isinstance(a, VOpq) and is_str(b):
        return mk_path(ctx, pjoin(a.term, strs.term(ctx, b)))
    if isinstance(a, VOpq) and isinstance(b, VOpq):
        return mk_path(ctx, z3.Function("joinpath2", Obj, Obj, Obj)(a.term, b.term))
    raise Unsupported("path operator")


@method("opq:Path", "joinpath")
def p_join(ctx, a, *bs):
    for b in bs:
        a = p_div(ctx, a, b)
    return a
