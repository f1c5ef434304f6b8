"""C13: opener yields, once and from its start, the text the input contains."""
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib
from pyded.interp import METHODS, model, method
from .common import *

Bytes = z3.DeclareSort("Bytes")
rawbytes = z3.Function("rawbytes", Obj, Bytes)            # what is stored in the file
CODECS = ("gz", "bz2", "zip", "lzw")
decode = {c: z3.Function("decode_" + c, Bytes, Bytes) for c in CODECS}
SUFFIX = dict(gz=".gz", bz2=".bz2", zip=".zip", lzw=".z")
MAGIC = dict(gz=b"\x1f\x8b", bz2=b"BZh", zip=b"PK", lzw=b"\x1f\x9d")
nmembers = z3.Function("zip_members", Bytes, I)
magicis = {c: z3.Function("magic_" + c, Bytes, B) for c in CODECS}
textof = z3.Function("ascii_text", Bytes, FileS)         # ASCII bytes with line ends as \n
othertext = z3.Function("other_text", Bytes, z3.StringSort(), FileS)
unhat = z3.Function("unhatanaka", FileS, FileS)
lowersuffix = z3.Function("lower", Ln, Ln)


def text_term(b, encoding, errors, newline, universal=True):
    """the text of bytes: only ASCII, dropping other bytes, universal newlines is the plain text"""
    if encoding in ("ascii", "us-ascii") and errors == "ignore" and newline is None:
        return textof(b)
    return othertext(b, z3.StringVal(f"{encoding},{errors},{newline!r}"))


# ---- trusted models of the file libraries, used by this property only
def m_open(ctx, p, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
    if isinstance(mode, str) and "b" in mode:
        if not ("r" in mode and "+" not in mode):
            raise Unsupported("binary mode " + mode)
        return ctx.alloc(HObj("binfile", {"bytes": rawbytes(base_path(p)), "pos": 0}))
    if mode not in ("r", "rt"):
        raise Unsupported("text mode " + str(mode))
    return ctx.alloc(HFile(text_term(rawbytes(base_path(p)), encoding, errors, newline), 0, "TextIOWrapper"))


def base_path(p):
    return p.term.arg(0) if p.term.decl().name() == "expanduser" else p.term


METHODS[("opq:Path", "open")] = m_open
METHODS[("opq:Path", "stat")] = lambda ctx, p: ctx.alloc(HObj("stat", {"st_size": z3.Function("st_size", Obj, I)(p.term)}))


@model("builtins.open")
def b_open(ctx, a, kw):
    return m_open(ctx, lib._Path(ctx, a[:1], {}), *a[1:], **kw)


@method("binfile", "read")
def bf_read(ctx, f, n=None):
    h = ctx.get(f)
    if h.attrs["pos"] != 0:
        raise Unsupported("second read of a binary file")
    ctx.put(f, h.with_(pos=1))
    if n is None or n == -1:
        return VOpq(h.attrs["bytes"], "Bytes")
    if isinstance(n, int) and n >= 4:
        return VOpq(h.attrs["bytes"], "head", n)
    raise Unsupported("read of part of a file")


@method("opq:Path", "read_bytes")
def p_read_bytes(ctx, p):
    return VOpq(rawbytes(base_path(p)), "Bytes")


def magic_starts(ctx, m, lit_):
    if isinstance(lit_, tuple):
        return Or(*[magic_starts(ctx, m, x) for x in lit_])
    for c, v in MAGIC.items():
        if v == lit_:
            return magicis[c](m.term)
    raise Unsupported(f"magic {lit_!r}")


METHODS[("opq:head", "startswith")] = magic_starts
METHODS[("opq:Bytes", "startswith")] = magic_starts


def head_slice(ctx, m, ix):
    if isinstance(ix, VSlice) and ix.lo in (None, 0) and isinstance(ix.hi, int):
        return VOpq(m.term, "headpart", ix.hi)
    raise Unsupported("part of the magic number")


METHODS[("opq:head", "getitem")] = head_slice
METHODS[("opq:Bytes", "getitem")] = head_slice


def head_eq(ctx, m, other):
    if isinstance(other, bytes) and len(other) == m.info:
        return magic_starts(ctx, m, other)
    raise Unsupported("comparison of the magic number")


METHODS[("eq", "opq:headpart")] = head_eq


def _lower(ctx, s):
    if isinstance(s, str):
        return s.lower()
    return View(lowersuffix(strs.term(ctx, s)))


def copen(codec):
    def f(ctx, a, kw):
        names = ["filename", "mode", "compresslevel", "encoding", "errors", "newline"]
        v = dict(zip(names, a))
        v.update(kw)
        mode = v.get("mode", "rb")
        src = v["filename"]
        b = decode[codec](as_bytes(ctx, src))
        if mode in ("rt",):
            return ctx.alloc(HFile(text_term(b, v.get("encoding"), v.get("errors"), v.get("newline")), 0, "TextIOWrapper"))
        if mode in ("rb", "r"):
            return ctx.alloc(HObj("binfile", {"bytes": b, "pos": 0}))
        raise Unsupported("mode " + str(mode))
    return f


def as_bytes(ctx, src):
    if isinstance(src, VOpq) and src.kind == "Path":
        return rawbytes(base_path(src))
    if isinstance(src, VOpq) and src.kind == "Bytes":
        return src.term
    if is_str(src):
        return rawbytes(base_path(lib._Path(ctx, (src,), {})))
    if isinstance(src, Ref) and ctx.kind(src) in ("binfile",) and ctx.get(src).attrs["pos"] == 0:
        return ctx.get(src).attrs["bytes"]
    raise Unsupported("source of bytes")


def zipfile_(ctx, a, kw):
    b = as_bytes(ctx, a[0])
    mode = a[1] if len(a) > 1 else kw.get("mode", "r")
    if mode != "r":
        raise Unsupported("zip mode")
    return ctx.alloc(HObj("zip", {"bytes": b}))


def z_namelist(ctx, z):
    # C13 speaks of single-member archives
    return ctx.alloc(HList([("item", VOpq(ctx.get(z).attrs["bytes"], "member"))]))


def z_open(ctx, z, name, mode="r"):
    if not (isinstance(name, VOpq) and name.kind == "member") or mode != "r":
        raise Unsupported("zip member")
    return ctx.alloc(HObj("binfile", {"bytes": decode["zip"](name.term), "pos": 0}))


def z_read(ctx, z, name):
    return VOpq(decode["zip"](name.term), "Bytes")


def wrapper(ctx, a, kw):
    v = dict(zip(["buffer", "encoding", "errors", "newline"], a))
    v.update(kw)
    return ctx.alloc(HFile(text_term(as_bytes(ctx, v["buffer"]), v.get("encoding"), v.get("errors"), v.get("newline")), 0, "TextIOWrapper"))


def b_decode(ctx, b, encoding="utf-8", errors="strict"):
    return VOpq(b.term, "rawstr", (encoding, errors))


def stringio(ctx, a, kw):
    v = dict(zip(["initial_value", "newline"], a))
    v.update(kw)
    s = v.get("initial_value", "")
    nl = v.get("newline", "\n")
    if isinstance(s, VOpq) and s.kind == "filetext":
        # already translated: newline="\n" and None both leave it as it is
        if nl not in ("\n", None, ""):
            raise Unsupported("newline")
        return ctx.alloc(HFile(s.term, 0, "StringIO"))
    if isinstance(s, VOpq) and s.kind == "rawstr":
        return ctx.alloc(HFile(text_term(s.term, s.info[0], s.info[1], nl), 0, "StringIO"))
    raise Unsupported("StringIO of " + ctx.kind(s))


def crx(ctx, a, kw):
    s = a[0]
    if isinstance(s, Ref) and isinstance(ctx.get(s), HFile):
        h = ctx.get(s)
        ctx.oblige("hatanaka-text-read-from-its-start", iv(h.cur) == 0)
        return VOpq(unhat(h.text), "filetext")
    if isinstance(s, VOpq) and s.kind == "filetext":
        return VOpq(unhat(s.term), "filetext")
    raise Unsupported("crx2rnx argument")


def install(ctx):
    m = ctx.globals.setdefault
    from pyded.interp import MODELS
    MODELS["gzip.open"] = copen("gz")
    MODELS["bz2.open"] = copen("bz2")
    MODELS["gzip.decompress"] = lambda c, a, k: VOpq(decode["gz"](as_bytes(c, a[0])), "Bytes")
    MODELS["bz2.decompress"] = lambda c, a, k: VOpq(decode["bz2"](as_bytes(c, a[0])), "Bytes")
    MODELS["zipfile.ZipFile"] = zipfile_
    MODELS["io.TextIOWrapper"] = wrapper
    MODELS["io.StringIO"] = stringio
    MODELS["io.BytesIO"] = lambda c, a, k: c.alloc(HObj("binfile", {"bytes": as_bytes(c, a[0]), "pos": 0}))
    MODELS["hatanaka.crx2rnx"] = crx
    MODELS["ncompress.decompress"] = lambda c, a, k: VOpq(decode["lzw"](as_bytes(c, a[0])), "Bytes")
    METHODS[("zip", "namelist")] = z_namelist
    METHODS[("zip", "open")] = z_open
    METHODS[("zip", "read")] = z_read
    METHODS[("opq:Bytes", "decode")] = b_decode
    METHODS[("str", "lower")] = _lower


PV = z3.Const("crx_version", Fl)


def c_version(ctx, b):
    """rio.rinex_version, as C12 establishes it: the CRINEX flag is columns 20-40"""
    s = b["s"]
    if not (isinstance(s, View) and s.base.decl().name() == "line"):
        raise Unsupported("rinex_version of something else than a line")
    text = s.base.arg(0)
    if not ctx.branch(okinfo(text)):
        ctx.raise_("ValueError", "not a label line")
    return (PV, crinex(text))


def crinex(text):
    return z3.Function("is_crinex", FileS, B)(text)


def psfx(p):
    return lib.psuffix(p)


def opener(R):
    def setup_common(ctx):
        install(ctx)
        for s in SUFFIX.values():
            strs.register_lit(ctx, s)
        sfx = lambda c: zb(strs.eq_lit(ctx, View(lowersuffix(psfx(PATH))), SUFFIX[c]))
        ind = [z3.Or(sfx(c), magicis[c](rawbytes(PATH))) for c in CODECS]
        ctx.fact(psfx(PATH) == psfx(lib.pexpand(PATH)))
        # a name and a content that contradict each other are no input of this property
        for i in range(4):
            for j in range(i):
                ctx.assume(z3.Not(z3.And(ind[i], ind[j])))
        return dict(zip(CODECS, ind))

    def wanted(ind, header):
        b = rawbytes(PATH)
        body = textof(b)
        for c in CODECS:
            body = z3.If(ind[c], textof(decode[c](b)), body)
        out = z3.If(z3.And(crinex(body), z3.Not(zb(header))), unhat(body), body)
        return body, out

    HEADER = z3.Const("header", B)

    for form in ("path", "str"):
        def setup(ctx, form=form):
            ind = setup_common(ctx)
            p = lib.mk_path(ctx, PATH)
            if form == "str":
                nm = z3.Const("fn_str", Ln)
                strs.text_facts(ctx, nm)
                ctx.fact(lib.ppath(nm) == PATH)
                ctx.fact(rawbytes(lib.ppath(nm)) == rawbytes(PATH))
                ctx.fact(psfx(lib.pexpand(lib.ppath(nm))) == psfx(PATH))
                arg = View(nm)
            else:
                arg = p
            ctx.globals["#isfile"] = lambda c, q: lib.pis_file(PATH)
            g = dict(ind=ind, n=ctx.alloc(HList()))

            def onyield(c, v):
                body, out = wanted(ind, HEADER)
                l = c.get(g["n"])
                c.put(g["n"], HList(l.parts + (("item", v),)))
                if not (isinstance(v, Ref) and isinstance(c.get(v), HFile)):
                    return c.oblige("yields-a-text-stream", False)
                h = c.get(v)
                c.oblige("yields-the-text-the-file-contains", h.text == out)
                c.oblige("text-is-at-its-start", iv(h.cur) == 0)
                c.oblige("text-is-open-while-it-is-used", not h.info.get("closed"))
            ctx.globals["#onyield"] = onyield
            return [arg, HEADER], {}, g

        def ens(ctx, g, r):
            ctx.oblige("exactly-one-text", len(ctx.get(g["n"]).parts) == 1)
            ctx.oblige("a-missing-file-is-not-read", lib.pis_file(PATH))

        def exc(ctx, g, e):
            body, out = wanted(g["ind"], HEADER)
            ctx.oblige("missing-file-raises-FileNotFoundError",
                       z3.And(z3.Not(lib.pis_file(PATH))) if e.type == "FileNotFoundError" else
                       z3.Implies(z3.BoolVal(True), lib.pis_file(PATH)))
            if e.type != "FileNotFoundError":
                ctx.oblige("refuses-only-non-RINEX-texts", And(e.type == "ValueError", z3.Not(z3.And(hasfirst(body), okinfo(body)))))
            ctx.oblige("nothing-is-yielded-before-a-refusal", len(ctx.get(g["n"]).parts) == 0)
        R.verify("rio:opener", setup, ens, exc, contracts={"rio:first_nonblank_line": c_first, "rio:rinex_version": c_version},
                 name=f"rio:opener[{form}]")

    # in-memory text: the same stream, from its start
    def setup_s(ctx):
        install(ctx)
        s = stream_arg(ctx)
        g = dict(s=s, n=ctx.alloc(HList()))

        def onyield(c, v):
            l = c.get(g["n"])
            c.put(g["n"], HList(l.parts + (("item", v),)))
            if not (isinstance(v, Ref) and isinstance(c.get(v), HFile)):
                return c.oblige("yields-a-text-stream", False)
            h = c.get(v)
            c.oblige("yields-the-text-passed-in", h.text == TEXT)
            c.oblige("text-is-at-its-start", iv(h.cur) == 0)
            c.oblige("text-is-open-while-it-is-used", not h.info.get("closed"))
        ctx.globals["#onyield"] = onyield
        return [s, HEADER], {}, g

    def ens_s(ctx, g, r):
        ctx.oblige("exactly-one-text", len(ctx.get(g["n"]).parts) == 1)
    R.verify("rio:opener", setup_s, ens_s, None, contracts={"rio:first_nonblank_line": c_first, "rio:rinex_version": c_version},
             name="rio:opener[stream]")


TASKS = [("opener", opener)]

ASSUMPTIONS = [
    "gzip, bz2, zipfile, ncompress and hatanaka decode what their formats define; a zip archive has one member",
    "decoding bytes as ASCII with errors='ignore' and universal newlines is the same operation in every library class used",
    "a file whose suffix names one compression and whose content another is outside the property",
    "rinex_version and first_nonblank_line meet the contracts discharged under C12",
]
NOTE = "opener is proved for every file form; that each reader's result depends only on the text opener yields is covered by the bounded search."
BOUNDED = "plain/gz/bz2/Z/zip/in-memory and Hatanaka forms of generated RINEX 2/3 texts, with CRLF line ends and non-ASCII bytes, all compared cell by cell"
