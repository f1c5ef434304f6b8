"""numpy arrays: a base reader plus overlays of writes, newest last.

HArr.base(idx) gives the value before any overlay; an overlay (hit, val) says
where it writes and what.  Gathers and scatters through index sequences use
ghost functions naming the position of an index in the sequence.
"""
import ast
import z3
from .values import *
from .engine import *
from .interp import model, method, MODELS, METHODS
from . import strs


def read(ctx, h, idx):
    idx = tuple(idx)
    v = None
    start = 0
    # a certain hit hides everything below it
    conds = []
    for n in range(len(h.ovl) - 1, -1, -1):
        c = h.ovl[n][0](idx)
        c = sx(c) if is_z3(c) else c
        if c is False or (is_z3(c) and False):
            continue
        conds.append((n, c))
        if c is True:
            break
    else:
        v = ("base",)
    out = None
    first = True
    if v is not None:
        try:
            out = h.base(idx)
        except Unsupported:
            # no value below the overlays: they must cover the index
            live = Or(*[c for _, c in conds])
            if not ctx.valid(live):
                raise
            first = True
            out = None
        else:
            first = False
    for n, c in reversed(conds):
        x = h.ovl[n][1](idx)
        if first or c is True:
            out, first = x, False
        else:
            out = ite(ctx, c, x, out)
    if first:
        raise Unsupported("read of an array element that was never written")
    return out


def ite(ctx, c, a, b):
    try:
        return ctx.ite(c, a, b)
    except NeedFork:
        if ctx.valid(c):
            return a
        if ctx.valid(Not(c)):
            return b
        raise Unsupported(f"merge of unlike array elements {ctx.kind(a)} {ctx.kind(b)}")


def arr(ctx, shape, dtype, base, tag=None):
    return ctx.alloc(HArr(shape, dtype, base, (), tag))


def from_seq(ctx, s, dtype="object"):
    a = ctx.alloc(HArr((s.n,), dtype, lambda ix: s.fn(ix[0]), ()))
    return a


def seq1(ctx, h):
    """1-d array as a Seq"""
    s = Seq(h.shape[0], lambda k: read(ctx, h, (k,)))
    if h.tag and isinstance(h.tag, tuple) and h.tag[0] == "filt" and not h.ovl:
        s.filt = h.tag[1]
    return s


def aslist(ctx, v):
    """index sequence of an advanced index"""
    k = ctx.kind(v)
    if k == "ndarray":
        h = ctx.get(v)
        if len(h.shape) != 1:
            raise Unsupported("n-d index array")
        return seq1(ctx, h), h.dtype
    if k in ("list", "seq"):
        return ctx.seq_of(v), "int"
    return None, None


# ---------------------------------------------------------------- positions in a sequence
def free_ints(t):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == I and not x.eq(QK):
            out.append(x)
        todo.extend(x.children())
    return sorted(out, key=lambda x: x.decl().name())


QK = z3.Int("q!seqkey")
_pos = {}


def position(ctx, s, x):
    """(found, q): q is the last position with s.fn(q) == x"""
    k = sx(s.n)
    if isinstance(k, int) and k <= ctx.MAXUNROLL and s.filt is None:
        got = [sx(s.fn(i)) for i in range(k)]
        if all(isinstance(y, int) for y in got):
            x = sx(x)
            if isinstance(x, int):
                at = [i for i, y in enumerate(got) if y == x]
                return bool(at), (at[-1] if at else 0)
            q = z3.IntVal(0)
            for i, y in enumerate(got):
                q = z3.If(iv(x) == y, z3.IntVal(i), q)
            return Or(*[iv(x) == y for y in got]), q
    e = s.fn(QK)
    if not is_int(e):
        raise Unsupported("index sequence of non-integers")
    e = iv(e)
    n = iv(s.n)
    args = free_ints(e) + [a for a in free_ints(n)] + bound_consts(e, n)
    args = [a for a in args if not a.eq(QK)]
    seen, fr = set(), []
    for a in args:
        if a.get_id() not in seen:
            seen.add(a.get_id())
            fr.append(a)
    key = (e.sexpr(), n.sexpr())
    if key not in _pos:
        nm = len(_pos)
        _pos[key] = (z3.Function(f"found{nm}", I, *[a.sort() for a in fr], B), z3.Function(f"pos{nm}", I, *[a.sort() for a in fr], I))
    ff, pf = _pos[key]
    found, q = ff(iv(x), *fr), pf(iv(x), *fr)
    ctx.fact(z3.Implies(found, z3.And(q >= 0, q < n, iv(s.fn(q)) == iv(x))))
    k = ("#posq")
    for r in ctx.globals.get(k, ()):
        y = iv(s.fn(r))
        ctx.fact(z3.Implies(z3.And(iv(r) >= 0, iv(r) < n, y == iv(x)), z3.And(found, q >= iv(r))))
    return found, q


def witness(ctx, q):
    """position q of every index sequence is to be looked at"""
    ctx.globals["#posq"] = ctx.globals.get("#posq", ()) + (q,)


# ---------------------------------------------------------------- indexing
def norm_index(ctx, h, ix):
    ix = ix if isinstance(ix, tuple) else (ix,)
    out = []
    nd = len(h.shape)
    n_el = sum(1 for x in ix if x is not Ellipsis and x is not None)
    for x in ix:
        if x is Ellipsis:
            out += [VSlice(None, None)] * (nd - n_el)
        else:
            out.append(x)
    out += [VSlice(None, None)] * (nd - len(out))
    if len(out) > nd:
        ctx.raise_("IndexError", "too many indices")
    return out


def bound(ctx, n, x, what="index"):
    if isinstance(x, int) and x < 0:
        x = sx(iv(n) + x)
    ok = sx(z3.And(iv(x) >= 0, iv(x) < iv(n)))
    if ok is not True and not ctx.branch(ok):
        ctx.raise_("IndexError", what)
    return x


def slbounds(ctx, n, s):
    if s.step not in (None, 1):
        raise Unsupported("array slice step")

    def nm(x, d):
        if x is None:
            return d
        if isinstance(x, int) and x < 0:
            return imax(0, sx(iv(n) + x))
        if is_z3(x) and not ctx.valid(x >= 0):
            raise Unsupported("slice bound may be negative")
        if x is n or (is_z3(x) and is_z3(n) and x.eq(n)):
            return n
        if ctx.valid(iv(x) <= iv(n)):
            return x
        if ctx.valid(iv(x) >= iv(n)):
            return n
        return imin(x, n)
    lo, hi = nm(s.lo, 0), nm(s.hi, n)
    return lo, imax(0, sx(iv(hi) - iv(lo)))


def selectors(ctx, h, ix):
    """one selector per axis: ('int', i) ('slice', lo, m) ('seq', Seq)"""
    out = []
    for x, n in zip(norm_index(ctx, h, ix), h.shape):
        if is_int(x):
            out.append(("int", bound(ctx, n, x)))
        elif isinstance(x, VSlice):
            lo, m = slbounds(ctx, n, x)
            out.append(("slice", lo, m))
        elif marked(ctx, x) is not None:
            out.append(("seq", marked(ctx, x)))
        else:
            s, dt = aslist(ctx, x)
            if s is None:
                raise Unsupported(f"array index {ctx.kind(x)}")
            if dt == "bool":
                out.append(("seq", mask_seq(ctx, s)))
            else:
                out.append(("seq", s))
    if sum(1 for s in out if s[0] == "seq") > 1:
        raise Unsupported("several index arrays")
    return out


def marked(ctx, x):
    """positions selected by a mask that is given by them"""
    h = ctx.get(x) if isinstance(x, Ref) else None
    if isinstance(h, HArr) and h.dtype == "bool" and not h.ovl and isinstance(h.tag, tuple) and h.tag[0] == "mask":
        return h.tag[1]
    return None


def mask_seq(ctx, s):
    """positions of the true elements"""
    from . import loops
    fl = loops.get_filter(ctx, s.n, lambda k: zb(ctx.truth(s.fn(k))))

    def fn(q):
        loops.filter_facts(ctx, fl, q=q)
        return fl.unrank(iv(q))
    for w in ctx.globals.get("#maskwit", ()):
        loops.filter_facts(ctx, fl, b=w)
    r = Seq(fl.count, fn, fl)
    r.inverse = lambda b: (fl.rank(iv(b)), lambda: loops.filter_facts(ctx, fl, b=b))
    return r


def getitem(ctx, ref, ix):
    h = ctx.get(ref)
    if isinstance(ix, tuple) and any(x is None for x in ix) and not any(x is Ellipsis for x in ix):
        r = getitem(ctx, ref, tuple(x for x in ix if x is not None))
        rest = list(ix) + [VSlice(None, None)] * (len(h.shape) - sum(1 for x in ix if x is not None))
        axes = [x is None for x in rest if not is_int(x)]
        g = ctx.get(r)
        it = iter(g.shape)
        return arr(ctx, [1 if new else next(it) for new in axes], g.dtype,
                   lambda j: read(ctx, g, tuple(x for x, new in zip(j, axes) if not new)), "view")
    k = ctx.kind(ix)
    if k == "ndarray" and len(ctx.get(ix).shape) == len(h.shape) == 2 and ctx.get(ix).dtype == "bool":
        raise Unsupported("2-d mask")
    sel = selectors(ctx, h, ix)
    check_seq(ctx, h, sel)
    shape = [s[2] if s[0] == "slice" else s[1].n for s in sel if s[0] != "int"]

    def back(j):
        j = list(j)
        out = []
        for s in sel:
            if s[0] == "int":
                out.append(s[1])
            elif s[0] == "slice":
                out.append(sx(iv(s[1]) + iv(j.pop(0))))
            else:
                out.append(s[1].fn(j.pop(0)))
        return tuple(out)
    if not shape:
        return read(ctx, h, back(()))
    view = not any(s[0] == "seq" for s in sel)
    tag = "view" if view else None
    for s in sel:
        if s[0] == "seq" and s[1].filt is not None and len(sel) == 1:
            tag = ("filt", s[1].filt)
    return arr(ctx, shape, h.dtype, lambda j: read(ctx, h, back(j)), tag)


def check_seq(ctx, h, sel):
    for s, n in zip(sel, h.shape):
        if s[0] == "seq":
            if s[1].filt is not None and hasattr(s[1], "inverse"):
                if not ctx.valid(iv(s[1].filt.n) == iv(n)):
                    ctx.raise_("IndexError", "boolean index of another length")
                continue
            m = sx(s[1].n)
            if isinstance(m, int) and m <= 16:
                for q in range(m):
                    bound(ctx, n, s[1].fn(q))
                continue
            e = ctx.fresh("badindex", I)
            x = s[1].fn(e)
            bad = z3.And(e >= 0, e < iv(s[1].n), z3.Or(iv(x) < 0, iv(x) >= iv(n)))
            if not ctx.valid(Not(bad)) and ctx.branch(bad):
                if ctx.valid(z3.And(iv(x) < 0, iv(x) >= -iv(n))):
                    raise Unsupported("negative entries in an index array")
                ctx.raise_("IndexError", "index array out of range")
            k = z3.Int("k!inb")
            from . import loops
            loops.add_schema(ctx, "in-bounds", lambda kk: z3.Implies(z3.And(iv(kk) >= 0, iv(kk) < iv(s[1].n)),
                                                                     z3.And(iv(s[1].fn(kk)) >= 0, iv(s[1].fn(kk)) < iv(n))))


def setitem(ctx, ref, ix, v):
    h = ctx.get(ref)
    if h.tag == "view":
        raise Unsupported("write through an array view")
    if ctx.kind(ix) == "ndarray" and len(ctx.get(ix).shape) > 1:
        raise Unsupported("n-d index write")
    sel = selectors(ctx, h, ix)
    check_seq(ctx, h, sel)
    axes = [a for a, s in enumerate(sel) if s[0] != "int"]
    shape = [sel[a][2] if sel[a][0] == "slice" else sel[a][1].n for a in axes]
    vh = None
    if isinstance(v, Ref) and isinstance(ctx.get(v), HArr):
        vh = ctx.get(v)
    elif isinstance(v, Ref) and isinstance(ctx.get(v), HList) or isinstance(v, (Seq, tuple)):
        s = ctx.seq_of(v)
        vh = HArr((s.n,), h.dtype, lambda j, s=s: s.fn(j[0]))
    elif ctx.kind(v) == "DataArray":
        raise Unsupported("DataArray into array")
    if vh is not None:
        off = len(shape) - len(vh.shape)
        if off < 0:
            ctx.raise_("ValueError", "could not broadcast")
        for n, m in zip(shape[off:], vh.shape):
            if isinstance(m, int) and m == 1 and not ctx.valid(iv(n) == 1):
                raise Unsupported("broadcast of a length-one axis")
            ok = sx(iv(n) == iv(m))
            if ok is not True and not ctx.branch(ok):
                ctx.raise_("ValueError", "could not broadcast input array")

    def where(idx):
        """(condition, coordinates along the non-integer axes)"""
        cs, co = [], []
        for a, s in enumerate(sel):
            x = idx[a]
            if s[0] == "int":
                cs.append(sx(iv(x) == iv(s[1])))
            elif s[0] == "slice":
                if sx(iv(s[1])) == 0 and sx(iv(s[2]) - iv(h.shape[a])) == 0:
                    co.append(x)
                else:
                    cs.append(sx(z3.And(iv(x) >= iv(s[1]), iv(x) < iv(s[1]) + iv(s[2]))))
                    co.append(sx(iv(x) - iv(s[1])))
            else:
                if hasattr(s[1], "inverse"):
                    r, facts = s[1].inverse(x)
                    facts()
                    cs.append(zb(s[1].filt.pred(x)))
                    co.append(r)
                else:
                    m = sx(s[1].n)
                    if isinstance(m, int) and m == 1:
                        cs.append(sx(iv(x) == iv(s[1].fn(0))))
                        co.append(0)
                    else:
                        f, q = position(ctx, s[1], x)
                        cs.append(f)
                        co.append(q)
        return And(*cs), co

    def hit(idx):
        return where(idx)[0]

    def val(idx):
        if vh is None:
            return v
        co = where(idx)[1]
        off = len(co) - len(vh.shape)
        return read(ctx, vh, co[off:])
    ctx.put(ref, HArr(h.shape, h.dtype, h.base, h.ovl + ((hit, val),), h.tag))


def seq_store(ctx, s, ix, v):
    def fn(k):
        c = sx(iv(k) == iv(ix))
        if c is True:
            return v
        if c is False:
            return s.fn(k)
        return ite(ctx, c, v, s.fn(k))
    return Seq(s.n, fn)


# ---------------------------------------------------------------- elementwise
def lift(ctx, f, *vs):
    """apply f to the elements of the array arguments (same shape or scalars)"""
    hs = [ctx.get(v) if isinstance(v, Ref) and isinstance(ctx.get(v), HArr) else None for v in vs]
    for i, v in enumerate(vs):
        if hs[i] is None and ctx.kind(v) in ("list",):
            s = ctx.seq_of(v)
            hs[i] = HArr((s.n,), "object", lambda j, s=s: s.fn(j[0]))
    nd = max(len(h.shape) for h in hs if h is not None)
    shape = None
    for h in hs:
        if h is None:
            continue
        if len(h.shape) == nd:
            if shape is None:
                shape = h.shape
            else:
                for a, b in zip(shape, h.shape):
                    ok = sx(iv(a) == iv(b))
                    if ok is not True and not ctx.valid(ok):
                        if (isinstance(a, int) and a == 1) or (isinstance(b, int) and b == 1):
                            raise Unsupported("broadcast of a length-one axis")
                        ctx.oblige("array-shapes-agree", ok)
        elif len(h.shape) not in (0, nd):
            raise Unsupported("broadcast of different ranks")

    def rd(idx):
        return f(*[(read(ctx, h, idx) if len(h.shape) == nd else read(ctx, h, ())) if h is not None else v for h, v in zip(hs, vs)])
    return shape, rd


def elementwise(ctx, f, *vs, dtype="float"):
    if not any(isinstance(v, Ref) and isinstance(ctx.get(v), (HArr,)) for v in vs):
        return f(*vs)
    shape, rd = lift(ctx, f, *vs)
    return arr(ctx, shape, dtype, rd)


def dtype_of(ctx, v):
    if isinstance(v, Ref) and isinstance(ctx.get(v), HArr):
        return ctx.get(v).dtype
    return None


def binop(ctx, t, a, b):
    op = getattr(ast, t)()
    dts = {dtype_of(ctx, a), dtype_of(ctx, b)} - {None}
    if t in ("BitAnd", "BitOr") and dts <= {"bool"}:
        f = (lambda x, y: And(x, y)) if t == "BitAnd" else (lambda x, y: Or(x, y))
        return elementwise(ctx, f, a, b, dtype="bool")
    return elementwise(ctx, lambda x, y: ctx.binop(op, x, y), a, b, dtype="float" if t == "Div" else dts.pop())


def compare(ctx, t, a, b):
    op = getattr(ast, t)()
    return elementwise(ctx, lambda x, y: zb(ctx.compare(op, x, y)), a, b, dtype="bool")


def unop(ctx, f, v):
    if ctx.kind(v) != "ndarray":
        raise Unsupported("unary operator on " + ctx.kind(v))
    return elementwise(ctx, f, v, dtype=dtype_of(ctx, v))


def symset(ctx, s):
    return ctx.alloc(HObj("symset", {"seq": s}))


def symset_seq(ctx, v):
    """each value once, in some order"""
    s = ctx.get(v).attrs["seq"]
    u = uniq_of(ctx, s, False, ("set", v.id))
    ctx.globals["#keep"] = ctx.globals.get("#keep", ()) + (v,)
    return Seq(u.U, lambda k: u.value(ctx, k))


METHODS[("symset", "seq")] = symset_seq


@model("builtins.sorted")
def _sorted(ctx, a, kw):
    if kw or len(a) != 1:
        raise Unsupported("sorted options")
    v = a[0]
    if isinstance(v, Ref) and isinstance(ctx.get(v), HObj) and ctx.get(v).cls == "symset":
        s = ctx.get(v).attrs["seq"]
        x = s.fn(z3.Int("q!sorted"))
        if not (is_str(x) or is_int(x) or isinstance(x, VDT)):
            raise Unsupported("sorted set of " + ctx.kind(x))
        # texts: each once, their order is left open
        u = uniq_of(ctx, s, not is_str(x), ("sorted", v.id))
        ctx.globals["#keep"] = ctx.globals.get("#keep", ()) + (v,)
        return ctx.alloc(HList([("seq", Seq(u.U, lambda k: u.value(ctx, k)))]))
    items = ctx.concrete_items(v)
    if all(isinstance(x, str) for x in items) or all(isinstance(x, int) for x in items):
        return ctx.alloc(HList([("item", x) for x in sorted(items)]))
    raise Unsupported("sorted of symbolic values")


@model("numpy.hstack", "numpy.concatenate")
def np_hstack(ctx, a, kw):
    """1-d arrays and lists of numbers after each other"""
    if kw or len(a) != 1:
        raise Unsupported("hstack options")
    items = []
    for x in ctx.concrete_items(a[0]):
        items += ctx.concrete_items(x)
    if not all(is_flt(x) or is_int(x) for x in items):
        raise Unsupported("hstack of something else")
    return np_array(ctx, [ctx.alloc(HList([("item", ctx.tofl(x)) for x in items]))], {})


# ---------------------------------------------------------------- numpy
def shape_of(ctx, s):
    if is_int(s):
        return (s,)
    if isinstance(s, tuple):
        return s
    return tuple(ctx.concrete_items(s))


def dtname(dt):
    if dt is None:
        return "float"
    if isinstance(dt, str):
        return dt
    if isinstance(dt, VMod):
        return {"builtins.float": "float", "builtins.int": "int", "builtins.bool": "bool", "datetime.datetime": "object",
                "numpy.float64": "float", "builtins.str": "str", "builtins.object": "object"}.get(dt.name, dt.name)
    return str(dt)


@model("numpy.empty")
def np_empty(ctx, a, kw):
    dt = dtname(a[1] if len(a) > 1 else kw.get("dtype"))
    sh = shape_of(ctx, a[0] if a else kw["shape"])

    junk = ctx.fresh("uninitialised", I)

    def base(idx):
        if dt == "float":
            f = ctx.globals.setdefault("#junk", z3.Function("leftover_memory", I, I, I, I, Fl))
            ii = list(idx)[:3] + [z3.IntVal(0)] * (3 - len(idx))
            v = f(junk, *[iv(x) for x in ii])
            return z3.Function("leftover_real", Fl, z3.RealSort())(v) if ctx.globals.get("#floats") == "real" else v
        raise Unsupported("read of uninitialised array memory")
    return arr(ctx, sh, dt, base)


def filled(v):
    def f(ctx, a, kw):
        dt = dtname(a[1] if len(a) > 1 else kw.get("dtype"))
        x = {"float": float(v), "int": int(v), "bool": bool(v)}.get(dt)
        if x is None:
            raise Unsupported("dtype " + dt)
        return arr(ctx, shape_of(ctx, a[0]), dt, lambda ix: x)
    return f


MODELS["numpy.zeros"] = filled(0)
MODELS["numpy.ones"] = filled(1)


@model("numpy.full")
def np_full(ctx, a, kw):
    v = a[1] if len(a) > 1 else kw["fill_value"]
    return arr(ctx, shape_of(ctx, a[0]), dtname(a[2] if len(a) > 2 else kw.get("dtype")), lambda ix: v)


@method("ndarray", "fill")
def nd_fill(ctx, r, v):
    h = ctx.get(r)
    ctx.put(r, HArr(h.shape, h.dtype, lambda ix: v, (), h.tag))


@model("numpy.asarray", "numpy.atleast_1d")
def np_asarray(ctx, a, kw):
    if ctx.kind(a[0]) == "ndarray" and not kw and len(a) == 1 and ctx.get(a[0]).shape:
        return a[0]
    return np_array(ctx, a, kw)


@model("numpy.array")
def np_array(ctx, a, kw):
    v = a[0]
    dt = kw.get("dtype", a[1] if len(a) > 1 else None)
    k = ctx.kind(v)
    if k == "ndarray":
        h = ctx.get(v)
        if not h.shape:
            raise Unsupported("0-d array")
        return ctx.alloc(HArr(h.shape, dtname(dt) if dt is not None else h.dtype, h.base, h.ovl,
                              h.tag if isinstance(h.tag, tuple) and h.tag[0] == "filt" else None))
    if k == "list" and stack(ctx, v) is not None:
        h = stack(ctx, v)
        return ctx.alloc(HArr(h.shape, dtname(dt) if dt is not None else h.dtype, h.base))
    if k in ("list", "seq", "tuple"):
        s = ctx.seq_of(v)
        d = dtname(dt) if dt is not None else elem_dtype(ctx, s)
        r = ctx.alloc(HArr((s.n,), d, lambda ix: s.fn(ix[0]), (), ("filt", s.filt) if s.filt is not None else None))
        return r
    if ("array", k) in METHODS:
        return METHODS[("array", k)](ctx, v)
    raise Unsupported(f"array of {k}")


def table(ctx, v):
    """the array a value is, now"""
    if isinstance(v, Frozen) and isinstance(v.h, HArr):
        return v.h
    if isinstance(v, Ref) and isinstance(ctx.get(v), HArr):
        return ctx.get(v)
    return None


def stack(ctx, l):
    """a list of arrays of one shape as one array, the list along the first axis; None if it holds something else"""
    r = ctx.get(l)
    if not isinstance(r, HList) or not r.parts:
        return None
    pieces, lo = [], 0
    for k, x in r.parts:
        if k == "item":
            h = table(ctx, x)
            if h is None:
                return None
            n, f = 1, lambda e, h=h: h
        else:
            if x.filt is not None:
                return None
            h = table(ctx, x.fn(z3.Int("q!stack")))
            if h is None:
                return None
            n, f = x.n, lambda e, x=x: table(ctx, x.fn(e))
        pieces.append((lo, n, f, h))
        lo = sx(iv(lo) + iv(n))
    shape = pieces[0][3].shape
    for p in pieces[1:]:
        if len(p[3].shape) != len(shape) or not all(ctx.valid(iv(a) == iv(b)) for a, b in zip(p[3].shape, shape)):
            raise Unsupported("list of arrays of different shapes")

    def base(ix):
        out = None
        for lo, n, f, _ in reversed(pieces):
            v = read(ctx, f(sx(iv(ix[0]) - iv(lo))), ix[1:])
            out = v if out is None else ite(ctx, sx(iv(ix[0]) < iv(lo) + iv(n)), v, out)
        return out
    return HArr((lo,) + tuple(shape), pieces[0][3].dtype, base)


@model("numpy.stack")
def np_stack(ctx, a, kw):
    if set(kw) - {"axis"} or kw.get("axis", 0) != 0 or len(a) != 1:
        raise Unsupported("stack options")
    h = stack(ctx, a[0]) if isinstance(a[0], Ref) else None
    if h is None:
        raise Unsupported("stack of something else")
    return ctx.alloc(h)


def elem_dtype(ctx, s):
    n = sx(s.n)
    if isinstance(n, int) and n == 0:
        return "float"
    try:
        k = ctx.kind(s.fn(0 if isinstance(n, int) else z3.Int("q!dtype")))
    except Exception:
        return "object"
    return {"int": "int", "float": "float", "str": "str", "bool": "bool"}.get(k, "object")


@model("numpy.arange")
def np_arange(ctx, a, kw):
    from .lib import _range
    return from_seq(ctx, _range(ctx, a, {}), "int")


@model("numpy.nonzero")
def np_nonzero(ctx, a, kw):
    h = ctx.get(a[0])
    s = mask_seq(ctx, seq1(ctx, h))
    return (ctx.alloc(HArr((s.n,), "int", lambda ix: s.fn(ix[0]), (), ("filt", s.filt))),)


METHODS[("attr", "ndarray", "size")] = lambda ctx, r: sx(z3.simplify(_prod(ctx.get(r).shape))) if any(
    not isinstance(x, int) for x in ctx.get(r).shape) else _iprod(ctx.get(r).shape)
METHODS[("attr", "ndarray", "shape")] = lambda ctx, r: tuple(ctx.get(r).shape)
METHODS[("attr", "ndarray", "ndim")] = lambda ctx, r: len(ctx.get(r).shape)
METHODS[("attr", "ndarray", "dtype")] = lambda ctx, r: VMod("dtype:" + str(ctx.get(r).dtype))


def _prod(sh):
    t = z3.IntVal(1)
    for x in sh:
        t = t * iv(x)
    return t


def _iprod(sh):
    t = 1
    for x in sh:
        t *= x
    return t


@method("ndarray", "tolist")
def nd_tolist(ctx, r):
    h = ctx.get(r)
    if len(h.shape) != 1:
        raise Unsupported("tolist of an n-d array")
    return ctx.alloc(HList([("seq", seq1(ctx, h))]))


@method("ndarray", "copy")
def nd_dup(ctx, r):
    h = ctx.get(r)
    return ctx.alloc(HArr(h.shape, h.dtype, h.base, h.ovl))


@method("ndarray", "squeeze", "ravel", "flatten")
def nd_copy(ctx, r):
    h = ctx.get(r)
    if len(h.shape) != 1:
        raise Unsupported("copy of an n-d array")
    return ctx.alloc(HArr(h.shape, h.dtype, h.base, h.ovl))


@method("ndarray", "astype")
def nd_astype(ctx, r, dt, **kw):
    h = ctx.get(r)
    d = dtname(dt)
    if d == "float":
        return elementwise(ctx, lambda x: ctx.tofl(x), r)
    if d in ("object", "datetime64[us]", "datetime64[ns]", "str", h.dtype):
        return ctx.alloc(HArr(h.shape, d, h.base, h.ovl))
    raise Unsupported("astype " + d)


def _fn1(name):
    def f(ctx, a, kw):
        return elementwise(ctx, lambda x: ctx.fop1(name, x), a[0])
    return f


for _n in ("sqrt", "sin", "cos", "tan", "arctan", "exp", "log", "deg2rad", "radians"):
    MODELS["numpy." + _n] = _fn1(_n)


@model("numpy.arctan2")
def np_arctan2(ctx, a, kw):
    fop.setdefault("arctan2", z3.Function("farctan2", Fl, Fl, Fl))
    return elementwise(ctx, lambda x, y: ctx.fbin("arctan2", x, y), a[0], a[1])


def _opmodel(t):
    def f(ctx, a, kw):
        return ctx.binop(getattr(ast, t)(), a[0], a[1])
    return f


for _n, _t in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("power", "Pow")):
    MODELS["numpy." + _n] = _opmodel(_t)


@model("numpy.square")
def np_square(ctx, a, kw):
    return ctx.binop(ast.Mult(), a[0], a[0])


METHODS[("len", "ndarray")] = lambda ctx, v: ctx.get(v).shape[0]


# ---------------------------------------------------------------- distinct values
class Uniq:
    """the distinct values of a sequence: value k is s[wit(k)]; item i has value pos(i)"""

    def __init__(self, ctx, s, ordered):
        self.s, self.ordered = s, ordered
        j = ctx.fresh("uniq", I)
        self.nm = nm = str(j)
        self.wit = z3.Function("wit_" + nm, I, I)
        self.pos = z3.Function("pos_" + nm, I, I)
        self.U = ctx.fresh("n_distinct", I)
        self.gk = "#uniqseen:" + nm
        self.made(ctx)

    def made(self, ctx):
        n = iv(self.s.n)
        ctx.fact(z3.And(self.U >= 0, z3.Implies(n >= 0, self.U <= n), (self.U == 0) == (n <= 0)))
        if is_int(self.key(ctx, z3.Int("q!uniq"))):
            # fewer values than items: two items are equal
            a, b = z3.Int(f"dup_a_{self.U}"), z3.Int(f"dup_b_{self.U}")
            for w in (a, b):
                if self.s.filt is not None:
                    from . import loops
                    loops.filter_facts(ctx, self.s.filt, q=w)
            ctx.fact(z3.Or(self.U == n, n <= 0, z3.And(a >= 0, a < b, b < n, self.key(ctx, a) == self.key(ctx, b))))
            self.dup = (a, b)

    def at(self, ctx, i):
        """item i; what reading it says is remembered"""
        i = iv(i)
        memo = ctx.memos.setdefault("uniq-items", {})
        posq = ctx.globals.get("#posq", ())
        key = (self.nm, tuple(ctx.rounds), tuple(iv(x).get_id() for x in posq))

        def make():
            memo[(key, i.get_id())] = (self.s.fn(i), i, posq)
        ctx.remember(("uniq-item", key), (i,), make)
        return memo[(key, i.get_id())][0]

    def key(self, ctx, i):
        v = self.at(ctx, i)
        if isinstance(v, (VDT, VTD)):
            return iv(v.us)
        if is_int(v):
            return iv(v)
        return v

    def value(self, ctx, k):
        """facts about value k; returns it"""
        k = sx(k)
        kk = iv(k)
        inr = z3.And(kk >= 0, kk < self.U)
        w = self.wit(kk)
        ctx.fact(z3.Implies(inr, z3.And(w >= 0, w < iv(self.s.n), self.pos(w) == kk)))
        seen = ctx.globals.get(self.gk, ())
        if not any(iv(k).eq(iv(o)) for o in seen):
            ctx.globals[self.gk] = seen + (k,)
        a = self.key(ctx, w)
        for o in seen:
            oo = iv(o)
            if oo.eq(kk):
                continue
            b = self.key(ctx, self.wit(oo))
            both = z3.And(inr, oo >= 0, oo < self.U)
            if is_int(a):
                if self.ordered:
                    ctx.fact(z3.Implies(z3.And(both, kk < oo), a < b))
                    ctx.fact(z3.Implies(z3.And(both, oo < kk), b < a))
                else:
                    ctx.fact(z3.Implies(z3.And(both, kk != oo), a != b))
            else:
                ctx.fact(z3.Implies(z3.And(both, kk != oo), zb(Not(strs.eq(ctx, a, b)))))
        return self.at(ctx, w)

    def item(self, ctx, i):
        """item i of the sequence is value pos(i)"""
        ii = iv(i)
        inr = z3.And(ii >= 0, ii < iv(self.s.n))
        p = self.pos(ii)
        a = self.key(ctx, i)
        self.value(ctx, p)
        b = self.key(ctx, self.wit(p))
        eq = a == b if is_int(a) else zb(strs.eq(ctx, a, b))
        ctx.fact(z3.Implies(inr, z3.And(p >= 0, p < self.U, eq)))
        # as many values as items: every item is a value of its own
        ctx.fact(z3.Implies(z3.And(inr, self.U == iv(self.s.n)), self.wit(p) == ii))
        if getattr(self, "firsts", False):
            ctx.fact(z3.Implies(inr, self.wit(p) <= ii))
        return p


def uniq_of(ctx, s, ordered, key):
    reg = ctx.globals.get("#uniq", {})
    if key not in reg:
        reg = dict(reg)
        reg[key] = (Uniq(ctx, s, ordered), s)
        ctx.globals["#uniq"] = reg
    reg[key][0].made(ctx)
    return reg[key][0]


@model("numpy.unique")
def np_unique(ctx, a, kw):
    h = ctx.get(np_array(ctx, [a[0]], {}))
    if set(kw) - {"return_index"}:
        raise Unsupported("numpy.unique options")
    if len(h.shape) != 1:
        raise Unsupported("unique of an n-d array")
    s = seq1(ctx, h)
    u = uniq_of(ctx, s, True, (id(h.base), tuple(id(x) for x in h.ovl), str(h.shape[0])))
    ctx.globals["#keep"] = ctx.globals.get("#keep", ()) + (h,)
    v = ctx.alloc(HArr((u.U,), h.dtype, lambda ix: u.value(ctx, ix[0]), (), ("unique", u)))
    if not kw.get("return_index"):
        return v
    u.firsts = True

    def first(ix):
        u.value(ctx, ix[0])
        return u.wit(iv(ix[0]))
    return (v, ctx.alloc(HArr((u.U,), "int", first, (), ("firsts", u))))
