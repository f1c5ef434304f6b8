"""Symbolic values of the verifier: texts, dates, heap records.

Ints and bools are plain Python values or z3 Int/Bool terms; floats are plain
Python floats or z3 terms of the uninterpreted sort Flt (binary64 values, so a
proof never relies on real arithmetic unless the rounding model in floats.py is
invoked).  Texts are trees over *views* base[a:b] of uninterpreted base texts.
"""
import z3

INF = 10 ** 9  # "to the end" in a view; texts are assumed shorter than this
Ln = z3.DeclareSort("Text")
Fl = z3.DeclareSort("Flt")
FileS = z3.DeclareSort("File")
Obj = z3.DeclareSort("Obj")
I = z3.IntSort()
B = z3.BoolSort()
F = z3.Function

line = F("line", FileS, I, Ln)
nlines = F("nlines", FileS, I)
sub = F("sub", Ln, I, I, Ln)
lenf = F("len", Ln, I)
at = F("at", Ln, I, I)
clen = F("clen", Ln, I)  # length without the line end
nonl = F("nonl", Ln, Ln)
replDE = F("replDE", Ln, Ln)
padf = F("pad", Ln, I, Ln)
cat2 = F("cat", Ln, Ln, Ln)
stripf = F("strip", Ln, Ln)
rstripf = F("rstrip", Ln, Ln)
blank = F("blank", Ln, B)
intok = F("int_ok", Ln, B)
intval = F("int_val", Ln, I)
fltok = F("float_ok", Ln, B)
fltval = F("float_val", Ln, Fl)
contains = F("contains", Ln, Ln, B)
startsw = F("startswith", Ln, Ln, B)
ntok = F("ntok", Ln, I)
tok = F("tok", Ln, I, Ln)
strof = F("str_of_int", I, Ln)
i2f = F("float_of_int", I, Fl)
fop = {o: F("f" + o, Fl, Fl, Fl) for o in ("add", "sub", "mul", "div", "mod", "pow")}
fcmp = {o: F("f" + o, Fl, Fl, B) for o in ("lt", "le", "eq")}
fun1 = {}
NaN = z3.Const("nan", Fl)
days = F("days", I, I, I, I)
dvalid = F("date_valid", I, I, I, B)

_lits = {}
_flits = {}


def lit(s):
    if s not in _lits:
        _lits[s] = z3.Const("lit:" + repr(s), Ln)
    return _lits[s]


def flit(x):
    if x != x:
        return NaN
    x = float(x)
    k = repr(x)
    if k not in _flits:
        _flits[k] = z3.Const("f:" + k, Fl)
    return _flits[k]


def lit_text(t):
    n = t.decl().name()
    if n.startswith("lit:"):
        return eval(n[4:])
    return None


def flit_value(t):
    n = t.decl().name()
    if n.startswith("f:"):
        return float(n[2:])
    return None


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (is_z3(x) and x.sort() == I)


def is_bool(x):
    return isinstance(x, bool) or (is_z3(x) and x.sort() == B)


def is_real(x):
    return is_z3(x) and x.sort() == z3.RealSort()


def is_flt(x):
    return isinstance(x, float) or (is_z3(x) and x.sort() in (Fl, z3.RealSort()))


def sx(e):
    """simplify to a canonical form; numerals become Python ints"""
    if not is_z3(e):
        return e
    e = z3.simplify(e, som=True)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def iv(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def imin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    if a is b:
        return a
    return sx(z3.If(iv(a) < iv(b), iv(a), iv(b)))


def imax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    return sx(z3.If(iv(a) > iv(b), iv(a), iv(b)))


class VStr:
    pass


class View(VStr):
    """base[a:b], clipped like Python"""

    def __init__(self, base, a=0, b=INF):
        self.base, self.a, self.b = base, sx(a), sx(b)

    def __repr__(self):
        return f"View({self.base},{self.a},{'' if isinstance(self.b, int) and self.b >= INF else self.b})"


class Cat(VStr):
    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return f"Cat{self.parts}"


class Ite(VStr):
    def __init__(self, c, x, y):
        self.c, self.x, self.y = c, x, y

    def __repr__(self):
        return f"Ite({self.c},{self.x},{self.y})"


class Strip(VStr):
    def __init__(self, inner, mode="strip"):
        self.inner, self.mode = inner, mode

    def __repr__(self):
        return f"{self.mode}({self.inner})"


class Rep(VStr):
    """n pieces of exactly w characters each: fn(q) for 0 <= q < n"""

    def __init__(self, n, w, fn):
        self.n, self.w, self.fn = n, w, fn


class CatSeq(VStr):
    """head + fn(0) + ... + fn(n-1), pieces of any length"""

    def __init__(self, head, n, fn):
        self.head, self.n, self.fn = head, n, fn


def is_str(x):
    return isinstance(x, (str, VStr))


def cat(*parts):
    out = []
    for p in parts:
        for q in p.parts if isinstance(p, Cat) else (p,):
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    return Cat(out)


class VDT:
    """datetime: microseconds on a linear time scale"""

    def __init__(self, us):
        self.us = us

    def __repr__(self):
        return f"DT({self.us})"


class VTD:
    def __init__(self, us):
        self.us = us

    def __repr__(self):
        return f"TD({self.us})"


class VRat:
    """exact quotient of two ints (int / int)"""

    def __init__(self, n, d):
        self.n, self.d = n, d


class VExc:
    def __init__(self, type, msg="", node=None, val=None):
        self.type, self.msg, self.node, self.val = type, msg, node, val

    def __repr__(self):
        return f"Exc({self.type},{self.msg})"


class VMod:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


class VFunc:
    def __init__(self, mod, node, env=None, qual=None):
        self.mod, self.node, self.env = mod, node, env
        self.qual = qual or f"{mod.name}:{getattr(node, 'name', '<lambda>')}"

    def __repr__(self):
        return f"<fn {self.qual}>"


class VBound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"<bound {self.obj}.{self.name}>"


class VPartial:
    """host-level callable: fn(it, st, args, kw) -> iterator of (st, value)"""

    def __init__(self, fn, name="host"):
        self.fn, self.name = fn, name


class VOpq:
    """a value the verifier knows nothing about except its identity"""

    def __init__(self, term, kind="obj", info=None):
        self.term, self.kind, self.info = term, kind, info

    def __repr__(self):
        return f"Opq[{self.kind}]({self.term})"


class VSlice:
    def __init__(self, lo, hi, step=None):
        self.lo, self.hi, self.step = lo, hi, step

    def __repr__(self):
        return f"[{self.lo}:{self.hi}:{self.step}]"


class VSet:
    """set of values; concrete when items are all Python values"""

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"Set{self.items}"


class Poison:
    """value of a loop-carried local the loop rule does not track"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Poison({self.why})"


class Seq:
    """immutable symbolic sequence: n items, item k is fn(k) for 0 <= k < n.

    If filt is given it is a Filter: the sequence lists, in order, fn(b) for
    every base index b in [0, filt.n) with filt.pred(b); n is filt.count.
    """

    def __init__(self, n, fn, filt=None):
        self.n, self.fn, self.filt = n, fn, filt

    def __repr__(self):
        return f"Seq(n={self.n}{', filt' if self.filt else ''})"


def bound_consts(*ts):
    """constants made during execution (their names carry a '!') in some terms, by name"""
    out, seen, todo = {}, set(), [t for t in ts if is_z3(t)]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if "!" in n and not n.startswith(("k!filter", "q!seqkey")):
                out[n] = x
        todo.extend(x.children())
    return [out[n] for n in sorted(out)]


class Filter:
    """names: the constants the predicate depends on are arguments of the functions,
    so that a change of iteration changes the filter"""
    cnt = 0

    def __init__(self, n, pred, name=None, args=()):
        Filter.cnt += 1
        self.id = Filter.cnt
        self.n, self.pred = n, pred
        name = self.id if name is None else name
        self.args = list(args)
        so = [a.sort() for a in self.args]
        rk, un = F(f"rank{name}", *so, I, I), F(f"unrank{name}", *so, I, I)
        self.rank = lambda b: rk(*self.args, iv(b))
        self.unrank = lambda q: un(*self.args, iv(q))
        self.count = z3.Function(f"count{name}", *so, I)(*self.args) if so else z3.Int(f"count{name}")

    def map(self, f):
        r = Filter.__new__(Filter)
        r.id, r.args = self.id, [f(a) for a in self.args]
        r.n = _vi(self.n, f)
        r.pred = lambda b: under(f, lambda: self.pred(b))
        r.rank = lambda b: z3.substitute(f(self.rank(ARGK)), (ARGK, iv(b)))
        r.unrank = lambda q: z3.substitute(f(self.unrank(ARGK)), (ARGK, iv(q)))
        r.count = f(self.count)
        if hasattr(self, "sym"):
            r.sym = under(f, lambda: self.sym)
        return r


ARGK = z3.Int("k!filterarg")


class Ref:
    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"Ref{self.id}"

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("Ref", self.id))


# ---- heap records (immutable; mutation replaces the record in the heap)
class HList:
    """parts: ('item', v) or ('seq', Seq); concrete when only items"""

    def __init__(self, parts=()):
        self.parts = tuple(parts)

    @property
    def concrete(self):
        return all(p[0] == "item" for p in self.parts)

    def items(self):
        return [p[1] for p in self.parts]

    def __repr__(self):
        return f"HList{self.parts}"


class HDict:
    """concrete-key entries over an optional symbolic base.

    entries: {key: (present, value)}; base: None (empty) or SymDict;
    layers: later updates at symbolic keys, newest last.
    """

    def __init__(self, entries=None, base=None, layers=()):
        self.entries = dict(entries or {})
        self.base = base
        self.layers = tuple(layers)

    def __repr__(self):
        return f"HDict({list(self.entries)}{'+sym' if self.base or self.layers else ''})"


class HArr:
    """n-d array: shape (ints), dtype tag, base read(idx tuple) -> value and
    overlays (hit(idx) -> cond, val(idx) -> value), newest last"""

    def __init__(self, shape, dtype, read, ovl=(), tag=None):
        self.shape, self.dtype, self.base = tuple(shape), dtype, read
        self.ovl = tuple(ovl)
        self.tag = tag

    def __repr__(self):
        return f"HArr{self.shape}:{self.dtype}"


class HFile:
    def __init__(self, text, cur=0, kind="TextIOWrapper", info=None):
        self.text, self.cur, self.kind, self.info = text, cur, kind, info or {}

    def __repr__(self):
        return f"HFile({self.text}@{self.cur})"


class HObj:
    """generic object with named attributes (Dataset, Path stand-ins, ...)"""

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, dict(attrs or {})

    def with_(self, **kw):
        a = dict(self.attrs)
        a.update(kw)
        return HObj(self.cls, a)

    def __repr__(self):
        return f"HObj({self.cls},{list(self.attrs)})"


class Mapper:
    """a substitution that carries over the facts found while a lazy value is computed"""

    def __init__(self, ctx, fn):
        self.ctx, self.fn = ctx, fn

    def __call__(self, t):
        return self.fn(t)


def under(f, thunk):
    ctx = getattr(f, "ctx", None)
    if ctx is None:
        return vmap(thunk(), f)
    log = []
    ctx.factlogs.append(log)
    try:
        v = thunk()
    finally:
        ctx.factlogs.pop()
    for c in log:
        ctx.fact(f(c))
    return vmap(v, f)


def vmap(v, f):
    """apply f to every z3 term inside a value"""
    if is_z3(v):
        r = f(v)
        return sx(r) if r.sort() in (I, B) else r
    if v is None or isinstance(v, (int, float, str, bytes, bool, Ref, VMod, VFunc, VBound, VPartial, Poison, type, VExc)):
        return v
    if isinstance(v, tuple):
        return tuple(vmap(x, f) for x in v)
    if isinstance(v, View):
        return View(f(v.base), _vi(v.a, f), _vi(v.b, f))
    if isinstance(v, Cat):
        return Cat([vmap(p, f) for p in v.parts])
    if isinstance(v, Ite):
        return Ite(f(zb(v.c)), vmap(v.x, f), vmap(v.y, f))
    if isinstance(v, Strip):
        return Strip(vmap(v.inner, f), v.mode)
    if isinstance(v, Rep):
        return Rep(_vi(v.n, f), v.w, lambda q, fn=v.fn: under(f, lambda: fn(q)))
    if isinstance(v, CatSeq):
        return CatSeq(vmap(v.head, f), _vi(v.n, f), lambda q, fn=v.fn: under(f, lambda: fn(q)))
    if isinstance(v, VDT):
        return VDT(_vi(v.us, f))
    if isinstance(v, VTD):
        return VTD(_vi(v.us, f))
    if isinstance(v, VRat):
        return VRat(_vi(v.n, f), _vi(v.d, f))
    if isinstance(v, VOpq):
        return VOpq(f(v.term), v.kind, v.info)
    if isinstance(v, VSlice):
        return VSlice(vmap(v.lo, f), vmap(v.hi, f), vmap(v.step, f))
    if isinstance(v, VSet):
        return VSet([vmap(x, f) for x in v.items])
    if isinstance(v, Seq):
        s = Seq(_vi(v.n, f), lambda k, fn=v.fn: under(f, lambda: fn(k)), v.filt.map(f) if v.filt is not None else None)
        if hasattr(v, "fnb"):
            s.fnb = lambda b, fnb=v.fnb: under(f, lambda: fnb(b))
        return s
    if isinstance(v, Frozen):
        return Frozen(hmap(v.h, f), v.id)
    raise TypeError(f"vmap {type(v)}")


def _vi(x, f):
    return sx(f(x)) if is_z3(x) else x


class Frozen:
    """snapshot of a heap record, stored inside another value"""

    def __init__(self, h, id):
        self.h, self.id = h, id

    def __repr__(self):
        return f"Frozen({self.h})"


def hmap(h, f):
    if isinstance(h, HList):
        return HList([(k, vmap(x, f)) for k, x in h.parts])
    if isinstance(h, HArr):
        # the reader's own index terms must not be rewritten: abstract them
        def read(idx, r=h.base):
            return under(f, lambda: r(idx))
        ovl = [(lambda idx, c=c: under(f, lambda: zb(c(idx))), lambda idx, v=v: under(f, lambda: v(idx))) for c, v in h.ovl]
        return HArr([_vi(s, f) for s in h.shape], h.dtype, read, ovl, h.tag)
    if isinstance(h, HFile):
        return HFile(f(h.text), _vi(h.cur, f), h.kind, h.info)
    if isinstance(h, HObj):
        return HObj(h.cls, {k: vmap(x, f) for k, x in h.attrs.items()})
    if isinstance(h, HDict):
        return HDict({k: (vmap(p, f), vmap(v, f)) for k, (p, v) in h.entries.items()}, h.base,
                     [l.map(f) for l in h.layers])
    raise TypeError(f"hmap {type(h)}")


def linear(t):
    """(constant, [(coefficient, atom)]) of a sum, or None"""
    const, out, todo = 0, [], [(1, t)]
    while todo:
        c, x = todo.pop()
        k = x.decl().kind()
        if z3.is_int_value(x):
            const += c * x.as_long()
        elif k == z3.Z3_OP_ADD:
            todo += [(c, y) for y in x.children()]
        elif k == z3.Z3_OP_SUB:
            ch = x.children()
            todo += [(c, ch[0])] + [(-c, y) for y in ch[1:]]
        elif k == z3.Z3_OP_UMINUS:
            todo.append((-c, x.arg(0)))
        elif k == z3.Z3_OP_MUL and z3.is_int_value(x.arg(0)) and x.num_args() == 2:
            todo.append((c * x.arg(0).as_long(), x.arg(1)))
        else:
            out.append((c, x))
    return const, out


def divsimp(t):
    """rewrite (c*x + r) / c to x + r/c, and the same for mod, everywhere in t"""
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][0]
        r = x
        if z3.is_app(x) and x.num_args():
            ch = [go(y) for y in x.children()]
            if any(not a.eq(b) for a, b in zip(ch, x.children())):
                r = x.decl()(*ch)
            k = x.decl().kind()
            if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
                d = ch[1].as_long()
                n = z3.simplify(ch[0], som=True)
                const, ms = linear(n)
                whole = [(c, a) for c, a in ms if c % d == 0]
                rest = [(c, a) for c, a in ms if c % d]
                if k == z3.Z3_OP_IDIV and whole and not rest:
                    r = z3.Sum([(c // d) * a for c, a in whole] + [z3.IntVal(const // d)])
                elif k == z3.Z3_OP_MOD and not rest:
                    r = z3.IntVal(const % d)
                elif whole:
                    left = z3.Sum([c * a for c, a in rest] + [z3.IntVal(const)])
                    r = (z3.Sum([(c // d) * a for c, a in whole]) + left / d) if k == z3.Z3_OP_IDIV else left % d
        memo[i] = (r, x)
        return r
    return z3.simplify(go(t))
