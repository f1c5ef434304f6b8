"""Text operations on symbolic strings."""
import z3
from .values import *
from .engine import Unsupported, PyRaise, VExc

WS = (32, 9, 10, 11, 12, 13)


def text_facts(ctx, base):
    """structural axioms of one text base term"""
    t = lit_text(base)
    if t is not None:
        ctx.fact(lenf(base) == len(t))
        ctx.fact(clen(base) == len(t.rstrip("\n")))
        return
    ctx.fact(z3.And(lenf(base) >= clen(base), clen(base) >= 0, lenf(base) <= clen(base) + 1, lenf(base) < INF))
    d = base.decl().name()
    if d == "line":
        f, i = base.arg(0), base.arg(1)
        ctx.fact(z3.And(i >= 0, i < nlines(f)) == (lenf(base) > 0))
    elif d == "nonl":
        b = base.arg(0)
        text_facts(ctx, b)
        ctx.fact(z3.And(lenf(base) == clen(b), clen(base) == clen(b)))
    elif d == "replDE":
        b = base.arg(0)
        text_facts(ctx, b)
        ctx.fact(z3.And(lenf(base) == lenf(b), clen(base) == clen(b)))
    elif d == "sub":
        b, lo, hi = base.arg(0), base.arg(1), base.arg(2)
        text_facts(ctx, b)
        n = z3.If(lenf(b) < hi, lenf(b), hi) - lo
        ctx.fact(lenf(base) == z3.If(n > 0, n, z3.IntVal(0)))
    elif d == "pad":
        b, n = base.arg(0), base.arg(1)
        text_facts(ctx, b)
        ctx.fact(lenf(base) == z3.If(lenf(b) > n, lenf(b), n))
        ctx.fact(clen(base) == lenf(base))


def term(ctx, s):
    """a Text term denoting the string"""
    if isinstance(s, str):
        return lit(s)
    if isinstance(s, View):
        if isinstance(s.a, int) and s.a == 0 and isinstance(s.b, int) and s.b >= INF:
            return s.base
        d = s.base.decl().name()
        if d == "sub":  # sub(sub(x,a,b),c,d)
            x, a, b = s.base.arg(0), sx(s.base.arg(1)), sx(s.base.arg(2))
            lo, hi = sx(iv(a) + iv(s.a)), imin(b, sx(iv(a) + iv(s.b)))
            return sub(x, iv(lo), iv(hi))
        return sub(s.base, iv(s.a), iv(s.b))
    if isinstance(s, Strip):
        f = {"strip": stripf, "rstrip": rstripf}[s.mode]
        t = term(ctx, s.inner)
        if t.decl().name() == "strip":
            return t
        return f(t)
    if isinstance(s, Ite):
        return z3.If(zb(s.c), term(ctx, s.x), term(ctx, s.y))
    if isinstance(s, Cat):
        t = term(ctx, s.parts[-1])
        for p in reversed(s.parts[:-1]):
            t = cat2(term(ctx, p), t)
        return t
    raise Unsupported(f"term of {type(s).__name__}")


def from_term(t):
    return View(t)


def num_term(t):
    """canonical Text term for number parsing and blank tests: drop the layers
    that only add or remove surrounding white space or the line end"""
    d = t.decl().name()
    if d in ("nonl", "strip", "rstrip"):
        return num_term(t.arg(0))
    if d == "pad":
        return num_term(t.arg(0))
    if d == "sub":
        x, a, b = t.arg(0), sx(t.arg(1)), sx(t.arg(2))
        dx = x.decl().name()
        if dx == "nonl":
            return num_term(sub(x.arg(0), iv(a), iv(b)))
        if dx == "pad":
            return num_term(sub(x.arg(0), iv(a), iv(b)))
        if dx == "sub":
            c, e = sx(x.arg(1)), sx(x.arg(2))
            return num_term(sub(x.arg(0), iv(sx(iv(c) + iv(a))), iv(imin(e, sx(iv(c) + iv(b))))))
        if dx == "replDE" and x.arg(0).decl().name() in ("nonl", "pad"):
            return num_term(sub(replDE(x.arg(0).arg(0)), iv(a), iv(b)))
        return sub(x, iv(a), iv(b))
    if d == "replDE":
        i = num_term(t.arg(0))
        if i.decl().name() == "sub":
            return sub(replDE(i.arg(0)), i.arg(1), i.arg(2))
        return replDE(i)
    return t


def num(ctx, s):
    if isinstance(s, str):
        return lit(s.strip())
    if isinstance(s, Strip):
        return num(ctx, s.inner)
    if isinstance(s, Cat):
        ps = [p for p in s.parts if not (isinstance(p, str) and not p.strip())]
        # blanks at the ends only
        ps = list(s.parts)
        while ps and isinstance(ps[0], str) and not ps[0].strip():
            ps.pop(0)
        while ps and isinstance(ps[-1], str) and not ps[-1].strip():
            ps.pop()
        if len(ps) == 1:
            return num(ctx, ps[0])
    return num_term(term(ctx, resolve(ctx, s)))


def resolve(ctx, s):
    return s


def simp_view(ctx, v):
    return v


def cut(base):
    """text of known width: padded to it, cut to it"""
    return base.decl().name() == "pad"


def length(ctx, s):
    if isinstance(s, str):
        return len(s)
    if isinstance(s, View):
        text_facts(ctx, s.base)
        L = lenf(s.base)
        if isinstance(s.b, int) and s.b >= INF:
            if isinstance(s.a, int) and s.a == 0:
                return L
            return imax(0, sx(L - iv(s.a)))
        w = sx(iv(s.b) - iv(s.a))
        if isinstance(w, int) and w > 0 and not (isinstance(s.a, int) and not cut(s.base)) and ctx.valid(L >= iv(s.b)):
            return w
        e = z3.If(L < iv(s.b), L, iv(s.b)) - iv(s.a)
        return sx(z3.If(e > 0, e, z3.IntVal(0)))
    if isinstance(s, Cat):
        t = 0
        for p in s.parts:
            t = t + length(ctx, p)
        return sx(t)
    if isinstance(s, Ite):
        return sx(z3.If(zb(s.c), iv(length(ctx, s.x)), iv(length(ctx, s.y))))
    if isinstance(s, Rep):
        return sx(iv(s.n) * s.w)
    if isinstance(s, Strip):
        t = term(ctx, s)
        n = lenf(t)
        inner = s.inner
        b = blank(num(ctx, inner))
        ctx.fact(z3.And(n >= 0, n <= iv(length(ctx, inner)), (n == 0) == b))
        return n
    raise Unsupported(f"len of {type(s).__name__}")


def truth(ctx, s):
    if isinstance(s, str):
        return bool(s)
    if isinstance(s, Strip):
        return Not(is_blank(ctx, s.inner))
    if isinstance(s, Ite):
        return Or(And(s.c, truth(ctx, s.x)), And(Not(s.c), truth(ctx, s.y)))
    n = length(ctx, s)
    return n > 0 if isinstance(n, int) else sx(n > 0)


def is_blank(ctx, s):
    if isinstance(s, str):
        return not s.strip()
    if isinstance(s, Ite):
        return Or(And(s.c, is_blank(ctx, s.x)), And(Not(s.c), is_blank(ctx, s.y)))
    if isinstance(s, Cat):
        return And(*[is_blank(ctx, p) for p in s.parts])
    if isinstance(s, (Strip,)):
        return is_blank(ctx, s.inner)
    s = resolve(ctx, s)
    t = num(ctx, s)
    b = blank(t)
    if t.decl().name() != "sub":
        text_facts(ctx, t)
        ctx.fact(z3.Implies(clen(t) == 0, b))
    # one-column views: blank iff absent or a white character
    if t.decl().name() == "sub":
        base, a, e = t.arg(0), sx(t.arg(1)), sx(t.arg(2))
        text_facts(ctx, base)
        w = sx(iv(e) - iv(a))
        ctx.fact(z3.Implies(iv(a) >= clen(base), b))
        if w == 1:
            c = at_(base, a)
            ctx.fact(b == z3.Or(iv(a) >= clen(base), *[c == k for k in WS]))
        ctx.fact(z3.Implies(b, z3.And(z3.Not(intok(t)), z3.Not(fltok(t)))))
    return b


def at_(base, i):
    """character code; descends through layers that keep positions"""
    d = base.decl().name()
    if d in ("nonl",):
        return at_(base.arg(0), i)
    if d == "sub":
        return at_(base.arg(0), sx(base.arg(1) + iv(i)))
    t = lit_text(base)
    if t is not None and isinstance(i, int) and 0 <= i < len(t):
        return z3.IntVal(ord(t[i]))
    return at(base, iv(i))


def char_at(ctx, s, i):
    """code of character i of s (i in range)"""
    if isinstance(s, str):
        return z3.IntVal(ord(s[i]))
    if isinstance(s, View):
        d = s.base.decl().name()
        if d == "pad":
            inner = View(s.base.arg(0))
            k = sx(iv(s.a) + iv(i))
            text_facts(ctx, s.base)
            return z3.If(iv(k) < iv(length(ctx, inner)), at_(s.base.arg(0), k), z3.IntVal(32))
        if d == "replDE":
            c = at_(s.base.arg(0), sx(iv(s.a) + iv(i)))
            return z3.If(c == 68, z3.IntVal(69), c)
        return at_(s.base, sx(iv(s.a) + iv(i)))
    if isinstance(s, Ite):
        return z3.If(zb(s.c), char_at(ctx, s.x, i), char_at(ctx, s.y, i))
    if isinstance(s, Cat) and isinstance(i, int):
        off = 0
        for p in s.parts:
            n = length(ctx, p)
            if not isinstance(n, int):
                # decide by validity
                n = const_len(ctx, p)
            if i < off + n:
                return char_at(ctx, p, i - off)
            off += n
    raise Unsupported(f"character of {type(s).__name__}")


def const_len(ctx, p):
    """the constant length of p, if provable"""
    n = length(ctx, p)
    if isinstance(n, int):
        return n
    cand = []
    if isinstance(p, View) and isinstance(p.b, int) and isinstance(p.a, int) and p.b < INF:
        cand = [p.b - p.a]
    for c in cand:
        if ctx.valid(n == c):
            return c
    for c in ctx.globals.get("#lengths", ()):
        if ctx.valid(n == c):
            return c
    raise Unsupported(f"length of {p} not constant")


def starts_lit(ctx, s, t, off=0):
    """condition: s[off:off+len(t)] == t"""
    if isinstance(s, str):
        return s[off:off + len(t)] == t
    if not t:
        return True
    if isinstance(s, Ite):
        return Or(And(s.c, starts_lit(ctx, s.x, t, off)), And(Not(s.c), starts_lit(ctx, s.y, t, off)))
    if isinstance(s, View):
        n = length(ctx, s)
        return sx(z3.And(iv(n) >= off + len(t), *[char_at(ctx, s, off + i) == ord(c) for i, c in enumerate(t)]))
    if isinstance(s, Cat):
        if isinstance(s.parts[0], str):
            p = s.parts[0][off:off + len(t)]
            if p != t[:len(p)]:
                return False
            if len(p) == len(t):
                return True
            return starts_lit(ctx, cat(*s.parts[1:]), t[len(p):])
        n = length(ctx, s)
        return sx(z3.And(iv(n) >= off + len(t), *[char_at(ctx, s, off + i) == ord(c) for i, c in enumerate(t)]))
    if isinstance(s, Strip):
        return startsw(term(ctx, s), lit(t))
    raise Unsupported(f"startswith on {type(s).__name__}")


def eq_lit(ctx, s, t):
    if isinstance(s, str):
        return s == t
    if isinstance(s, Ite):
        return Or(And(s.c, eq_lit(ctx, s.x, t)), And(Not(s.c), eq_lit(ctx, s.y, t)))
    if isinstance(s, View):
        if t == "":
            return Not(truth(ctx, s))
        n = length(ctx, s)
        return sx(z3.And(iv(n) == len(t), *[char_at(ctx, s, i) == ord(c) for i, c in enumerate(t)]))
    if isinstance(s, Strip):
        if t == "":
            return is_blank(ctx, s.inner)
        if t != t.strip():
            return False
        tm = term(ctx, s)
        ctx.strlits = getattr(ctx, "strlits", set())
        register_lit(ctx, t)
        return tm == lit(t)
    if isinstance(s, Cat):
        n = length(ctx, s)
        lens = []
        try:
            for p in s.parts:
                lens.append(const_len(ctx, p))
        except Unsupported:
            # open-ended: length plus prefix comparison of constant-length parts
            return sx(z3.And(iv(n) == len(t), _open_eq(ctx, s, t)))
        if sum(lens) != len(t):
            return False
        off, cs = 0, []
        for p, k in zip(s.parts, lens):
            cs.append(eq_lit(ctx, p, t[off:off + k]))
            off += k
        return And(*cs)
    raise Unsupported(f"== on {type(s).__name__}")


def _open_eq(ctx, s, t):
    return z3.BoolVal(True) if len(t) == 0 else (term(ctx, s) == lit(t))


def register_lit(ctx, t):
    """pairwise distinctness of the literals used in equalities"""
    known = ctx.globals.setdefault("#lits", [])
    if t not in known:
        known.append(t)
    for o in known:
        if o != t:
            a, b = sorted((o, t))
            ctx.fact(lit(a) != lit(b))
    ctx.fact(lenf(lit(t)) == len(t))


def eq(ctx, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(b, str):
        return eq_lit(ctx, a, b)
    if isinstance(a, str):
        return eq_lit(ctx, b, a)
    if isinstance(a, Ite):
        return Or(And(a.c, eq(ctx, a.x, b)), And(Not(a.c), eq(ctx, a.y, b)))
    if isinstance(b, Ite):
        return eq(ctx, b, a)
    if isinstance(a, View) and isinstance(b, View):
        ta, tb = term(ctx, a), term(ctx, b)
        if ta.eq(tb):
            return True
        try:
            na, nb = length(ctx, a), length(ctx, b)
            for v in (a, b):
                if isinstance(v.a, int) and isinstance(v.b, int) and 0 < v.b - v.a <= 4 or True:
                    pass
            k = None
            for n in (na, nb):
                for c in (1, 2, 3):
                    if n == c if isinstance(n, int) else ctx.valid(n == c):
                        k = c
                        break
                if k:
                    break
            if k:
                return sx(z3.And(iv(na) == iv(nb), *[char_at(ctx, a, i) == char_at(ctx, b, i) for i in range(k)]))
        except Unsupported:
            pass
        return ta == tb
    return term(ctx, a) == term(ctx, b)


def slice_(ctx, s, lo, hi):
    """s[lo:hi] with Python clipping"""
    if isinstance(s, str) and all(x is None or isinstance(x, int) for x in (lo, hi)):
        return s[lo:hi]
    lo = 0 if lo is None else lo

    def norm(x):
        if isinstance(x, int):
            if x < 0:
                return sx(imax(0, length(ctx, s) + x))
            return x
        if not ctx.valid(x >= 0):
            raise Unsupported("slice bound may be negative")
        return x
    lo = norm(lo)
    hi = INF if hi is None else norm(hi)
    if isinstance(s, str):
        s = View(lit(s))
    if isinstance(s, View):
        a = sx(iv(s.a) + iv(lo))
        top = isinstance(s.b, int) and s.b >= INF
        b = s.b if isinstance(hi, int) and hi >= INF else sx(iv(s.a) + iv(hi)) if top else imin(s.b, sx(iv(s.a) + iv(hi)))
        if not isinstance(b, int) and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
            t1 = sx(iv(s.a) + iv(hi))
            if ctx.valid(iv(t1) <= iv(s.b)):
                b = t1
            elif ctx.valid(iv(t1) >= iv(s.b)):
                b = s.b
        # drop clips against the known length, so that equal slices look alike
        if not isinstance(b, int):
            b = unclip(ctx, s.base, b)
        return View(s.base, a, b)
    if isinstance(s, Ite):
        return Ite(s.c, slice_(ctx, s.x, lo, hi), slice_(ctx, s.y, lo, hi))
    if isinstance(s, Rep):
        w = s.w
        if not (isinstance(hi, int) and hi >= INF):
            q = sx(iv(lo) / w)
            if isinstance(q, int) or True:
                if ctx.valid(z3.And(iv(lo) >= 0, iv(hi) <= (iv(q) + 1) * w, iv(q) < iv(s.n))):
                    return slice_(ctx, s.fn(q), sx(iv(lo) - iv(q) * w), sx(iv(hi) - iv(q) * w))
        raise Unsupported("slice across pieces")
    if isinstance(s, Cat):
        return slice_cat(ctx, s, lo, hi)
    if isinstance(s, Strip) and s.mode == "rstrip" and False:
        pass
    t = term(ctx, s)
    return View(t, lo, hi)


def unclip(ctx, base, b):
    """b as an int constant when base[a:b] provably equals base[a:const]"""
    return b


def slice_cat(ctx, s, lo, hi):
    if not isinstance(lo, int) or not isinstance(hi, int):
        # a piece of the joined text; what it holds is said where the text is described
        return View(term(ctx, s), lo, hi)
    off = 0
    out = []
    parts = list(s.parts)
    for n, p in enumerate(parts):
        if off >= hi:
            break
        last = n == len(parts) - 1
        if last:
            a = max(0, lo - off)
            out.append(slice_(ctx, p, a, hi if hi >= INF else hi - off))
            break
        try:
            k = len(p) if isinstance(p, str) else const_len(ctx, p)
        except Unsupported:
            a = lo - off
            # the slice may end inside a part of unknown length
            if a >= 0 and hi < INF and ctx.valid(iv(length(ctx, p)) >= hi - off):
                out.append(slice_(ctx, p, a, hi - off))
                break
            raise
        a, b = max(0, lo - off), (hi - off if hi < INF else INF)
        if a < k:
            out.append(slice_(ctx, p, a, min(b, k) if b < INF else None) if not (a == 0 and b >= k) else p)
        off += k
    return cat(*out) if out else ""


def index(ctx, s, i):
    """s[i]; forks on IndexError"""
    if isinstance(s, str) and isinstance(i, int):
        if -len(s) <= i < len(s):
            return s[i]
        ctx.raise_("IndexError", "string index out of range")
    n = length(ctx, s)
    if isinstance(i, int) and i < 0:
        k = sx(iv(n) + i)
        ok = sx(iv(k) >= 0)
    else:
        k = i
        ok = sx(z3.And(iv(k) >= 0, iv(k) < iv(n))) if not (isinstance(k, int) and isinstance(n, int)) else 0 <= k < n
    if not ctx.branch(ok):
        ctx.raise_("IndexError", "string index out of range")
    if isinstance(k, int) is False:
        # a constant position, when provable, keeps terms canonical
        if isinstance(s, View) and isinstance(s.a, int) and isinstance(s.b, int) and s.b < INF:
            c = s.b - s.a + i if isinstance(i, int) and i < 0 else None
            if c is not None and c >= 0 and ctx.valid(k == c):
                k = c
        elif isinstance(i, int) and i < 0 and isinstance(s, View):
            w = sx(iv(s.b) - iv(s.a))
            if isinstance(w, int) and ctx.valid(k == w + i):
                k = w + i
    r = slice_(ctx, s, k, sx(iv(k) + 1))
    if isinstance(r, View) and isinstance(sx(r.a), int):
        # a character the contract has fixed on this path
        for base, a, c in ctx.globals.get("#chars", ()):
            if a == r.a and base.eq(r.base):
                return c
    return r


def contains_(ctx, s, t):
    """t in s"""
    if isinstance(s, str) and isinstance(t, str):
        return t in s
    if isinstance(t, str) and t == "":
        return True
    if not isinstance(t, str) and not isinstance(s, str) and isinstance(s, View) and isinstance(t, View):
        # one character in a one-character text
        if ctx.valid(z3.And(iv(length(ctx, s)) == 1, iv(length(ctx, t)) == 1)):
            return sx(char_at(ctx, s, 0) == char_at(ctx, t, 0))
    tm = term(ctx, s)
    c = contains(strip_if(tm, t), lit(t) if isinstance(t, str) else term(ctx, t))
    if isinstance(t, str):
        text_facts(ctx, tm)
        ctx.fact(z3.Implies(c, lenf(tm) >= len(t)))
    return c


def strip_if(tm, t):
    """containment of a literal without white ends is not affected by strip"""
    if isinstance(t, str) and t == t.strip():
        while tm.decl().name() in ("strip", "rstrip"):
            tm = tm.arg(0)
    return tm


def replace(ctx, s, a, b):
    if isinstance(s, str):
        return s.replace(a, b)
    if isinstance(s, Ite):
        return Ite(s.c, replace(ctx, s.x, a, b), replace(ctx, s.y, a, b))
    if isinstance(s, Cat):
        return cat(*[replace(ctx, p, a, b) for p in s.parts])
    if (a, b) == ("D", "E"):
        if isinstance(s, View):
            return View(replDE(s.base), s.a, s.b)
        return View(replDE(term(ctx, s)))
    if (a, b) == ("\n", ""):
        if isinstance(s, View):
            d = s.base.decl().name()
            if d == "nonl":
                return s
            if d == "replDE":
                x = s.base.arg(0)
                return View(replDE(x if x.decl().name() == "nonl" else nonl(x)), s.a, s.b)
            return View(nonl(s.base), s.a, s.b)
    if isinstance(s, (View, Strip)) and isinstance(a, str) and isinstance(b, str):
        f = z3.Function(f"replace:{a!r}:{b!r}", Ln, Ln)
        v = View(f(term(ctx, s)))
        if len(a) == len(b):
            text_facts(ctx, term(ctx, s))
            ctx.fact(lenf(v.base) == iv(length(ctx, s)))
            if len(a) == 1 and isinstance(s, View):
                c = char_at(ctx, s, 0)
                if is_z3(c):
                    ctx.fact(z3.Implies(lenf(v.base) >= 1, at(v.base, z3.IntVal(0)) == z3.If(c == ord(a), z3.IntVal(ord(b)), c)))
        return v
    raise Unsupported(f"replace {a!r} by {b!r}")


def pad_(ctx, s, n):
    if isinstance(s, str):
        return f"{s:{n}s}"
    t = term(ctx, s)
    v = View(padf(t, z3.IntVal(n)))
    text_facts(ctx, v.base)
    return v


def intparse(ctx, s):
    """int(s): forks on ValueError"""
    if isinstance(s, str):
        try:
            return int(s)
        except ValueError:
            ctx.raise_("ValueError", f"int({s!r})")
    if isinstance(s, Ite):
        return intparse(ctx, s.x) if ctx.branch(s.c) else intparse(ctx, s.y)
    t = num(ctx, s)
    is_blank_facts(ctx, t)
    for h in ctx.globals.get("#numhooks", ()):
        h(ctx, t, "int")
    if not ctx.branch(intok(t)):
        ctx.raise_("ValueError", "invalid literal for int()")
    int_facts(ctx, t)
    return intval(t)


def int_facts(ctx, t):
    """width bounds of a parsed integer"""
    if t.decl().name() == "sub":
        a, b = sx(t.arg(1)), sx(t.arg(2))
        w = sx(iv(b) - iv(a))
        if isinstance(w, int) and 0 < w <= 12:
            ctx.fact(z3.Implies(intok(t), z3.And(intval(t) < 10 ** w, intval(t) > -(10 ** (w - 1)))))
        if w == 1:
            text_facts(ctx, t.arg(0))
            c = at_(t.arg(0), a)
            ctx.fact(intok(t) == z3.And(iv(a) < clen(t.arg(0)), c >= 48, c <= 57))
            ctx.fact(z3.Implies(intok(t), intval(t) == c - 48))


def is_blank_facts(ctx, t):
    if t.decl().name() == "sub":
        text_facts(ctx, t.arg(0))
        ctx.fact(z3.Implies(iv(t.arg(1)) >= clen(t.arg(0)), z3.Not(intok(t))))
        ctx.fact(z3.Implies(iv(t.arg(1)) >= clen(t.arg(0)), z3.Not(fltok(t))))


def floatparse(ctx, s):
    if isinstance(s, str):
        try:
            return flit(float(s))
        except ValueError:
            ctx.raise_("ValueError", f"float({s!r})")
    if isinstance(s, Ite):
        return floatparse(ctx, s.x) if ctx.branch(s.c) else floatparse(ctx, s.y)
    t = num(ctx, s)
    is_blank_facts(ctx, t)
    for h in ctx.globals.get("#numhooks", ()):
        h(ctx, t, "float")
    if not ctx.branch(fltok(t)):
        ctx.raise_("ValueError", "could not convert string to float")
    if ctx.globals.get("#floats") == "real":
        return realval(t)
    return fltval(t)


realval = z3.Function("real_val", Ln, z3.RealSort())
