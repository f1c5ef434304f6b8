"""C15: batch conversion attempts every matching file; lookup by patterns."""
import z3
from pyded.values import *
from pyded.interp import METHODS, method
from pyded import strs, lib, loops
from pyded.engine import *
from .common import *

nglob = z3.Function("n_glob", Obj, Ln, I)
globbed = z3.Function("globbed", Obj, Ln, I, Obj)
rejects = z3.Function("load_rejects", Obj, B)
DIR = z3.Const("dir", Obj)
GLOB = z3.Const("pattern", Ln)
OUT = z3.Const("outdir", Obj)


@method("opq:Path", "glob", )
def p_glob(ctx, p, g, **kw):
    gt = strs.term(ctx, g)
    n = nglob(unexp(p.term), gt)
    ctx.fact(n >= 0)
    return Seq(n, lambda k: lib.mk_path(ctx, globbed(unexp(p.term), gt, iv(k))))


def unexp(t):
    return t.arg(0) if t.decl().name() == "expanduser" else t


OPTS = ["use", "tlim", "useindicators", "meas", "verbose", "fast"]


def batch(R):
    st = {}

    def c_load(ctx, b):
        f = b["rinexfn"]
        ok = isinstance(f, VOpq) and f.kind == "Path"
        ctx.oblige("hands-the-path-to-load", ok)
        o = b.get("out")
        ctx.oblige("caller's-output", isinstance(o, VOpq) and unexp(o.term).eq(OUT))
        for k in OPTS:
            ctx.oblige(f"caller's-{k}", identical(b[k], st["kw"][k]))
        r = ctx.get(st["log"])
        ctx.put(st["log"], HList(r.parts + (("item", f),)))
        if ctx.branch(rejects(unexp(f.term))):
            ctx.raise_("ValueError", "not a RINEX file")
        return VOpq(z3.Function("loaded", Obj, Obj)(f.term), "result")

    def setup(ctx):
        st["log"] = ctx.alloc(HList())
        st["kw"] = {k: opq("o_" + k) for k in OPTS}
        return [lib.mk_path(ctx, DIR), View(GLOB), lib.mk_path(ctx, OUT)], dict(st["kw"]), None

    def ens(ctx, g, r):
        files_once(ctx, ctx.get(st["log"]), [(DIR, GLOB)], "attempts")

    def exc(ctx, g, e):
        ctx.oblige("one-bad-file-stops-nothing", False, str(e))
    R.verify("base:batch_convert", setup, ens, exc, contracts={"base:load": c_load})


def files_once(ctx, lst, pats, label):
    """the list is, pattern by pattern, each regular file matching, once"""
    parts = [p for p in lst.parts]
    ctx.oblige(label + "-no-other-file", len(parts) == len(pats) and all(p[0] == "seq" for p in parts), str(parts))
    if len(parts) != len(pats):
        return
    for (k, s), (d, g) in zip(parts, pats):
        if k != "seq":
            continue
        n = nglob(d, g)
        # the expected sequence: the matches that are regular files, in order
        want = loops.get_filter(ctx, n, lambda k: lib.pis_file(globbed(d, g, iv(k))))
        q = ctx.fresh("q", I)
        loops.filter_facts(ctx, want, q=q)
        inr = z3.And(q >= 0, q < want.count)
        ctx.oblige(label + "-as-many-as-regular-files-match", iv(s.n) == want.count)
        it = s.fn(q)
        ctx.oblige(label + "-exactly-the-regular-files",
                   z3.Implies(inr, it.term == globbed(d, g, want.unrank(q))) if isinstance(it, VOpq) else False)


def globber(R):
    G2 = z3.Const("pattern2", Ln)
    for name, pats in (("string", [GLOB]), ("one", [GLOB]), ("two", [GLOB, G2])):
        def setup(ctx):
            ctx.assume(lib.pis_file(lib.pexpand(DIR)) == lib.pis_file(DIR))
            g = View(GLOB) if name == "string" else ctx.alloc(HList([("item", View(p)) for p in pats]))
            return [lib.mk_path(ctx, DIR), g], {}, None

        def ens(ctx, g, r):
            if not (isinstance(r, Ref) and isinstance(ctx.get(r), HList)):
                return ctx.oblige("result-is-a-list", False)
            l = ctx.get(r)
            if ctx.branch(lib.pis_file(DIR)):
                ctx.oblige("a-file-is-itself", l.concrete and len(l.items()) == 1 and same_path(l.items()[0], DIR))
            else:
                files_once(ctx, l, [(DIR, p) for p in pats], "finds")
        R.verify("utils:globber", setup, ens, None, name=f"utils:globber[{name}]")


TASKS = [("batch", batch), ("globber", globber)]
ASSUMPTIONS = [
    "Path.glob(pattern) lists each matching path once; is_file() does not change during the batch",
    "load() raises ValueError for what is not valid RINEX (C12, C14) and may raise anything else, which is not caught",
]
