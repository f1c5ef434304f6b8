"""Call contracts shared by the property modules."""
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib
from pyded.interp import METHODS

text_of = z3.Function("text_of", Obj, B, FileS)      # decoded text of a path (header: CRINEX left packed)
opens = z3.Function("opens", Obj, B)                 # the container can be read and starts with a version line
firstk = z3.Function("first_nonblank", FileS, I)     # index of the first non-blank line
hasfirst = z3.Function("has_first_line", FileS, B)
okinfo = z3.Function("valid_first_line", FileS, B)
PATH = z3.Const("fn_path", Obj)
TEXT = z3.Const("fn_text", FileS)


def path_arg(ctx, nc=False):
    p = lib.mk_path(ctx, PATH)
    if not nc:
        e = strs.eq_lit(ctx, View(lib.psuffix(PATH)), ".nc")
        ctx.assume(Not(e))
        e = strs.eq_lit(ctx, View(lib.psuffix(lib.pexpand(PATH))), ".nc")
        ctx.assume(Not(e))
    return p


def stream_arg(ctx, kind="StringIO", cur=None):
    c = ctx.fresh("pos", I) if cur is None else cur
    if cur is None:
        ctx.assume(c >= 0)
    return ctx.alloc(HFile(TEXT, c, kind))


def same_path(p, q):
    """p is q, possibly expanded"""
    return isinstance(p, VOpq) and p.kind == "Path" and (p.term.eq(q) or p.term.eq(lib.pexpand(q)))


# ---- opener
def enter_opener(ctx, ref):
    f = ctx.get(ref).attrs["file"]
    return f, lambda: None


METHODS[("enter", "opener")] = enter_opener


def c_opener(ctx, b):
    fn, header = b["fn"], b["header"]
    k = ctx.kind(fn)
    if is_str(fn):
        fn = lib._Path(ctx, (fn,), {})
        k = "Path"
    if k == "file" and ctx.get(fn).kind == "StringIO":
        h = ctx.get(fn)
        ctx.put(fn, HFile(h.text, 0, h.kind, h.info))
        return ctx.alloc(HObj("opener", {"file": fn}))
    if not (isinstance(fn, VOpq) and fn.kind == "Path"):
        ctx.raise_("OSError", "opener of neither path nor StringIO")
    base = fn.term.arg(0) if fn.term.decl().name() == "expanduser" else fn.term
    if not ctx.branch(zb(lib.dyn_is_file(ctx, fn))):
        ctx.raise_("FileNotFoundError", "no such file")
    if not ctx.branch(opens(base)):
        ctx.raise_("ValueError", "not a RINEX text")
    kind = "TextIOWrapper"
    if ctx.globals.get("#anykind") and ctx.branch(ctx.fresh("buffered", B)):
        kind = "StringIO"
    f = ctx.alloc(HFile(text_of(base, zb(header)), 0, kind, {"path": base}))
    return ctx.alloc(HObj("opener", {"file": f}))


# ---- rio.first_nonblank_line
def c_first(ctx, b):
    f = b["f"]
    h = ctx.get(f)
    if ctx.kind(f) != "file":
        ctx.raise_("AttributeError", "readline")
    if b["max_lines"] != 10:
        raise Unsupported("max_lines")
    if not (isinstance(h.cur, int) and h.cur == 0):
        raise Unsupported("first line of a text not at its start")
    if not ctx.branch(hasfirst(h.text)):
        ctx.put(f, HFile(h.text, 10, h.kind, h.info))
        ctx.raise_("ValueError", "no first line")
    k = firstk(h.text)
    ln = line(h.text, k)
    strs.text_facts(ctx, ln)
    ctx.fact(z3.And(k >= 0, k <= 8, lenf(ln) > 0, lenf(ln) <= 81))
    ctx.fact(Not(strs.is_blank(ctx, View(ln))))
    ctx.put(f, HFile(h.text, sx(k + 1), h.kind, h.info))
    return View(ln)


# ---- rio.rinexinfo: the four facts the first line encodes
def c_info(ctx, b):
    """outcome is a function of the text: its validity, version, type, system"""
    f = b["f"]
    if ctx.kind(f) == "file":
        h = ctx.get(f)
        text = h.text
    else:
        p = lib._Path(ctx, (f,), {})
        base = p.term.arg(0) if p.term.decl().name() == "expanduser" else p.term
        if not ctx.branch(zb(lib.dyn_is_file(ctx, p))):
            ctx.raise_("FileNotFoundError", "no such file")
        if not ctx.branch(opens(base)):
            ctx.raise_("ValueError", "not a RINEX text")
        text = text_of(base, z3.BoolVal(True))
        h = None
    if h is not None:
        ctx.put(f, HFile(text, 0, h.kind, h.info))
    if not ctx.branch(okinfo(text)):
        ctx.raise_("ValueError", "not a known/valid RINEX file")
    k = firstk(text)
    ctx.fact(z3.And(k >= 0, k <= 8))
    L = line(text, k)
    strs.text_facts(ctx, L)
    ctx.fact(lenf(L) > 40)
    v = View(L)
    if h is not None:
        ctx.put(f, HFile(text, sx(k + 1), h.kind, h.info))
    ctx.globals["#infos"] = ctx.globals.get("#infos", ()) + (text,)
    c0, c1 = strs.char_at(ctx, v, 0), strs.char_at(ctx, v, 1)
    if ctx.branch(c0 == ord("#")):
        ctx.fact(z3.Or(*[c1 == ord(c) for c in "acd"]))
        return ctx.alloc(HDict({"version": (True, View(L, 1, 2)), "rinextype": (True, "sp3")}))
    ver = fltval(strs.num_term(sub(L, z3.IntVal(0), z3.IntVal(9))))
    ctx.fact(lib.finitef(ver))
    c20 = strs.char_at(ctx, v, 20)
    nav = strs.contains_(ctx, View(L, 20, 40), "NAV")
    if ctx.branch(z3.Or(c20 == ord("O"), c20 == ord("C"))):
        rt = "obs"
    elif ctx.branch(z3.Or(c20 == ord("N"), zb(nav))):
        rt = "nav"
    else:
        rt = View(L, 20, 21)
    V = lib.truncf(ver)
    s40 = View(L, 40, 41)
    c40 = strs.char_at(ctx, v, 40)
    sysv = Ite(V == 2, Ite(c20 == ord("N"), "G", Ite(c20 == ord("G"), "R", Ite(c20 == ord("E"), "E", Ite(c40 == ord(" "), "G", s40)))), s40)
    return ctx.alloc(HDict({"version": (True, ver), "filetype": (True, View(L, 20, 21)),
                            "rinextype": (True, rt), "systems": (True, sysv)}))


def kinds(text):
    """(sp3, obs, nav, V) of a text, as terms"""
    L = line(text, firstk(text))
    c0, c20 = at(L, 0), at(L, 20)
    sp3 = c0 == ord("#")
    obs = z3.And(z3.Not(sp3), z3.Or(c20 == ord("O"), c20 == ord("C")))
    nav = z3.And(z3.Not(sp3), z3.Not(obs), z3.Or(c20 == ord("N"), contains(sub(L, z3.IntVal(20), z3.IntVal(40)), lit("NAV"))))
    V = lib.truncf(fltval(strs.num_term(sub(L, z3.IntVal(0), z3.IntVal(9)))))
    return sp3, obs, nav, V


# ---- recorded calls
def recorder(name, raises=()):
    def c(ctx, b):
        for x in raises:
            if ctx.branch(ctx.fresh(f"{name}_raises_{x}", B)):
                ctx.globals["#calls"] = ctx.globals.get("#calls", ()) + ((name, b, x),)
                ctx.raise_(x, f"from {name}")
        r = VOpq(ctx.fresh(f"ret_{name}", Obj), "result")
        ctx.globals["#calls"] = ctx.globals.get("#calls", ()) + ((name, b, r),)
        return r
    return c


def calls(ctx):
    return ctx.globals.get("#calls", ())


def identical(a, b):
    """structurally the same symbolic value"""
    if a is b:
        return True
    if type(a) is not type(b):
        if is_z3(a) and is_z3(b):
            return a.eq(b)
        return False
    if is_z3(a):
        return a.eq(b)
    if isinstance(a, VOpq):
        return a.term.eq(b.term)
    if isinstance(a, VDT):
        return identical(a.us, b.us)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, View):
        return a.base.eq(b.base) and identical(a.a, b.a) and identical(a.b, b.b)
    if isinstance(a, VSet):
        return identical(a.items, b.items)
    return a == b


def opq(name):
    return VOpq(z3.Const(name, Obj), "opt")


METHODS[("isinstance", "opq:opt")] = lambda ctx, v, t: ctx.branch(z3.Function(f"isinstance:{t}", Obj, B)(v.term))
METHODS[("opq:opt", "truth")] = lambda ctx, v: z3.Function("truth", Obj, B)(v.term)
METHODS[("opq:result", "truth")] = lambda ctx, v: True
