"""load_sp3: header satellite list, record loop and dataset assembly.

Ghost structure of a well-formed text: after the first line and the next one
comes the '+' line that gives the number of satellites N, the list continues
over as many '+' lines as it takes; S is the first epoch line after it.  From
there on E(c) counts the epoch lines before line c, EL(e) is the e-th of them,
P(c, i) and V(c, i) are the position and velocity record of satellite i that
the epoch open at line c has given so far (-1: none).
"""
import ast
import z3
from pyded.values import *
from pyded.engine import *
from pyded import strs, lib, loops, records, arrays, xr
from pyded.records import LoopInv
from .common import *
from .recfile import G, called, both_forms

EPOCH_US = z3.Function("sp3_epoch_of_line", Ln, I)
EF = z3.Function("sp3_epochs_before", FileS, I, I)
ELF = z3.Function("sp3_epoch_line", FileS, I, I)
RECF = {"P": z3.Function("sp3_position_record", FileS, I, I, I), "V": z3.Function("sp3_velocity_record", FileS, I, I, I)}
SFIRST = z3.Function("sp3_first_epoch_line", FileS, I)
SVINDEX = z3.Function("sp3_satellite_index", Ln, I)
OFFS = (4, 18, 32, 46)


def L0(T):
    return firstk(T) + 2


def N(T):
    return intval(sub(line(T, L0(T)), z3.IntVal(3), z3.IntVal(6)))


def extra(T):
    """satellite lines after the first"""
    return z3.If(N(T) <= 17, z3.IntVal(0), (N(T) - 1) / 17)


def at0(t, ch):
    return at(t, z3.IntVal(0)) == ord(ch)


def well(ctx, T):
    t = line(T, L0(T))
    strs.text_facts(ctx, t)
    strs.text_facts(ctx, line(T, SFIRST(T)))
    first = line(T, firstk(T))
    iv_ = strs.intparse(ctx, View(t, 3, 6))
    neph = strs.intparse(ctx, View(first, 32, 39))
    ctx.assume(z3.And(at0(first, "#"), clen(first) >= 60, at0(t, "+"), clen(t) >= 60,
                      N(T) >= 0, N(T) <= 999, L0(T) + extra(T) < SFIRST(T), SFIRST(T) < nlines(T), at0(line(T, SFIRST(T)), "*"),
                      clen(line(T, SFIRST(T))) >= 1, hasfirst(T),
                      EF(T, SFIRST(T) + 1) == 1, ELF(T, 0) == SFIRST(T)))
    ctx.assume(intok(sub(t, z3.IntVal(3), z3.IntVal(6))))
    ctx.assume(intok(sub(first, z3.IntVal(32), z3.IntVal(39))))
    ctx.globals["#indexwit"] = (lambda c, v: SVINDEX(strs.term(c, v)) if is_str(v) else None,)

    def schema(c, text, i):
        if text.eq(T):
            linefacts(c, T, iv(i))
    ctx.globals["#lineschemas"] = (schema,)


def sname(ctx, T, q):
    """declared satellite q: its three columns on its '+' line"""
    q = iv(q)
    r, k = divsimp(q / 17), divsimp(q % 17)
    t = line(T, sx(L0(T) + r))
    strs.text_facts(ctx, t)
    v = strs.replace(ctx, View(t, sx(9 + 3 * k), sx(12 + 3 * k)), " ", "")
    tm = strs.term(ctx, v)
    ctx.fact(z3.Implies(z3.And(q >= 0, q < N(T)), SVINDEX(tm) == q))     # declared once
    return v


def linefacts(ctx, T, c):
    t = line(T, c)
    strs.text_facts(ctx, t)
    hdr = z3.And(c > L0(T), c <= L0(T) + extra(T))
    ctx.fact(z3.Implies(hdr, z3.And(at0(t, "+"), clen(t) >= 60)))
    S = SFIRST(T)
    ctx.fact(z3.Implies(z3.And(c > L0(T) + extra(T), c < S), z3.Not(at0(t, "*"))))
    if not ctx.globals.get("#sp3data"):
        return
    data = z3.And(c > S, c < nlines(T))
    rec = z3.Or(at0(t, "P"), at0(t, "V"))
    v = strs.replace(ctx, View(t, 1, 4), " ", "")
    x = strs.term(ctx, v)
    i = SVINDEX(x)
    ctx.fact(z3.Implies(z3.And(data, rec), z3.And(i >= 0, i < N(T), clen(t) >= 60, strs.term(ctx, sname(ctx, T, i)) == x,
                                                  *[fltok(strs.num(ctx, View(t, o, o + 14))) for o in OFFS])))
    # an epoch gives a record of a satellite at most once
    for k in "PV":
        ctx.fact(z3.Implies(z3.And(data, at0(t, k)), RECF[k](T, c, i) == -1))
    e = EF(T, c)
    ctx.fact(z3.Implies(data, z3.And(e >= 1, EF(T, c + 1) == e + z3.If(at0(t, "*"), 1, 0))))
    ctx.fact(z3.Implies(z3.And(data, at0(t, "*")), ELF(T, e) == c))
    # EOF is the last line
    eof = strs.starts_lit(ctx, View(t), "EOF")
    ctx.fact(z3.Implies(z3.And(data, zb(eof)), c == nlines(T) - 1))


def step(ctx, T, c, i):
    """the records of satellite i after line c"""
    t = line(T, c)
    x = strs.term(ctx, strs.replace(ctx, View(t, 1, 4), " ", ""))
    S = SFIRST(T)
    for k, f in RECF.items():
        ctx.fact(f(T, S + 1, i) == -1)
        ctx.fact(z3.Implies(z3.And(c > S, c < nlines(T)),
                            f(T, c + 1, i) == z3.If(at0(t, "*"), -1, z3.If(z3.And(at0(t, k), SVINDEX(x) == i), c, f(T, c, i)))))


def value(ctx, T, c, i, role):
    """what the epoch open at line c says in the role's columns about satellite i"""
    if role is None:
        return NaN
    k, off = role
    L = RECF[k](T, iv(c), iv(i))
    t = strs.num(ctx, View(line(T, L), off, off + 14))
    return z3.If(L >= 0, fltval(t), NaN)


# ------------------------------------------------------------------ call contracts
def c_sp3dt(ctx, b):
    return VDT(EPOCH_US(strs.term(ctx, b["ln"])))


def c_get_sv(ctx, b):
    v, n = b["ln"], b["Nsv"]
    t = strs.term(ctx, v)
    strs.text_facts(ctx, t)
    plus = at0(t, "+")
    ctx.oblige("get_sv-of-a-whole-line", z3.And(clen(t) >= 60, iv(n) >= 0))
    if not ctx.branch(plus):
        return ctx.alloc(HList([]))
    m = z3.If(iv(n) < 17, iv(n), z3.IntVal(17))
    return ctx.alloc(HList([("seq", Seq(sx(m), lambda q: strs.replace(ctx, View(t, sx(9 + 3 * iv(q)), sx(12 + 3 * iv(q))), " ", "")))]))


# ------------------------------------------------------------------ loops
class SatLines(LoopInv):
    """r further '+' lines have been read"""
    name = "satellite-list-loop"

    def applies(self, ctx, node, it):
        if self.busy or "get_sv" not in called(node):
            return False
        fs = {v.id: v for v in ctx.frame.vars.values() if isinstance(v, Ref) and v.id in ctx.heap and ctx.kind(v) == "file"}
        if len(fs) != 1:
            return False
        self.f = list(fs.values())[0]
        self.T = ctx.get(self.f).text
        self.seq = ctx.seq_of(it) if isinstance(node, ast.For) else None
        self.node = node
        return True

    def entry(self, ctx):
        T = self.T
        ctx.oblige("satellite-list-starts-behind-its-first-line", iv(ctx.get(self.f).cur) == L0(T) + 1)
        if self.seq is not None:
            ctx.oblige("as-many-lines-as-the-list-takes", iv(self.seq.n) == extra(T))
        # by how much the counters move
        fr = ctx.frame
        self.delta = {}
        if self.seq is None:
            v0 = dict(fr.vars)

            def once():
                ctx.assume(ctx.truth(ctx.ev(self.node.test)))
                ctx.block(self.node.body)
                return dict(fr.vars)
            n = len(ctx.obls)
            for p in ctx.explore(once):
                for x, v in (p.value or {}).items():
                    if x in v0 and is_int(v0[x]) and is_int(v) and isinstance(sx(iv(v) - iv(v0[x])), int):
                        self.delta[x] = sx(iv(v) - iv(v0[x]))
            del ctx.obls[n:]

    def initial(self, ctx):
        return G(r=0)

    def begin(self, ctx, node):
        r = ctx.fresh("r", I)
        ctx.assume(z3.And(r >= 0, r < extra(self.T)))
        return G(r=r)

    def item(self, ctx, g):
        return self.seq.fn(g.r)

    def var(self, ctx, name, init, g):
        if is_int(init) and name in self.delta:
            return sx(iv(init) + self.delta[name] * iv(g.r))
        return Poison(f"{name} is carried by the loop")

    def heap(self, ctx, id, rec0, g):
        T = self.T
        if isinstance(rec0, HFile) and id == self.f.id:
            return HFile(rec0.text, sx(L0(T) + 1 + iv(g.r)), rec0.kind, rec0.info)
        if isinstance(rec0, HList):
            top = 17 * (iv(g.r) + 1)
            return HList([("seq", Seq(sx(z3.If(N(T) < top, N(T), top)), lambda q: sname(ctx, T, q)))])
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def after(self, ctx, g):
        return G(r=sx(iv(g.r) + 1))

    def exit(self, ctx):
        return G(r=extra(self.T))


class ToFirstEpoch(LoopInv):
    """lines up to the first epoch line are passed over"""
    name = "header-rest-loop"

    def applies(self, ctx, node, it):
        if self.busy or not (isinstance(node, ast.For) and isinstance(it, Ref) and ctx.kind(it) == "file"):
            return False
        T = ctx.get(it).text
        if not ctx.valid(iv(ctx.get(it).cur) == L0(T) + extra(T) + 1):
            return False
        self.f, self.T = it, T
        return True

    def initial(self, ctx):
        return G(c=sx(L0(self.T) + extra(self.T) + 1))

    def begin(self, ctx, node):
        c = ctx.fresh("c", I)
        ctx.assume(z3.And(c >= L0(self.T) + extra(self.T) + 1, c <= SFIRST(self.T)))
        return G(c=c)

    def item(self, ctx, g):
        return take(ctx, self.f, self.T, g.c)

    def heap(self, ctx, id, rec0, g):
        if isinstance(rec0, HFile) and id == self.f.id:
            return HFile(rec0.text, g.c, rec0.kind, rec0.info)
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def after(self, ctx, g):
        ctx.oblige("stops-at-the-first-epoch-line", iv(g.c) < SFIRST(self.T))
        return G(c=sx(iv(g.c) + 1))

    def exit(self, ctx):
        ctx.assume(nlines(self.T) <= SFIRST(self.T))
        return G(c=nlines(self.T))


def take(ctx, f, T, c):
    ln = line(T, iv(c))
    strs.text_facts(ctx, ln)
    ctx.fact(z3.Implies(z3.And(iv(c) >= 0, iv(c) < nlines(T)), lenf(ln) >= 1))
    lib.schema_at(ctx, T, c)
    h = ctx.get(f)
    ctx.put(f, HFile(T, sx(iv(c) + 1), h.kind, h.info))
    return View(ln)


class Data(LoopInv):
    """lines S+1 .. c-1 have been read: finished epochs are in the lists, the open epoch's records in the tables"""
    name = "record-loop"

    def applies(self, ctx, node, it):
        if self.busy or not (isinstance(node, ast.For) and isinstance(it, Ref) and ctx.kind(it) == "file"):
            return False
        T = ctx.get(it).text
        if not ctx.valid(iv(ctx.get(it).cur) == SFIRST(T) + 1):
            return False
        self.f, self.T, self.node = it, T, node
        return True

    def entry(self, ctx):
        """which table column holds which field, and which list which table, is found out by reading
        a velocity record, a position record and an epoch line"""
        ctx.globals["#sp3data"] = True
        T, f, node = self.T, self.f, self.node
        t = {k: z3.Const(f"probe_line_{k}", Ln) for k in "VP*"}
        i0 = z3.Int("probe_satellite")
        H0 = dict(ctx.heap)
        vars0 = dict(ctx.frame.vars)
        self.roles, self.lists, self.times = {}, {}, set()
        self.rebound = {}

        def feed(k):
            tm = t[k]
            strs.text_facts(ctx, tm)
            ctx.assume(z3.And(at0(tm, k), clen(tm) >= 60))
            x = strs.term(ctx, strs.replace(ctx, View(tm, 1, 4), " ", ""))
            if k != "*":
                ctx.assume(z3.And(SVINDEX(x) == i0, i0 >= 0, i0 < N(T), strs.term(ctx, sname(ctx, T, i0)) == x,
                                  *[fltok(strs.num(ctx, View(tm, o, o + 14))) for o in OFFS]))
            ctx.assign(node.target, View(tm))
            self.busy = True
            try:
                ctx.block(node.body)
            except ContinueX:
                pass
            finally:
                self.busy = False

        def columns(h):
            if not (len(h.shape) == 2 and isinstance(sx(h.shape[1]), int)):
                raise Unsupported("table of unknown columns")
            out = {}
            for d in range(sx(h.shape[1])):
                out[d] = None
                got = ctx.tofl(arrays.read(ctx, h, (i0, d)))
                for k in "VP":
                    for o in OFFS:
                        if out[d] is None and ctx.valid(got == fltval(strs.num(ctx, View(t[k], o, o + 14)))):
                            out[d] = (k, o)
            return out

        def probe():
            feed("V")
            feed("P")
            mid = dict(ctx.heap)
            roles = {}
            for i, r in mid.items():
                if isinstance(r, HArr) and i in H0 and r is not H0[i]:
                    roles[i] = columns(r)
            feed("*")
            lists, times = {}, set()
            for i, r in ctx.heap.items():
                if i in H0 and isinstance(r, HList) and r is not H0[i]:
                    k, x = r.parts[-1]
                    h = arrays.table(ctx, x) if k == "item" else None
                    if h is not None:
                        lists[i] = columns(h)
                    elif k == "item" and isinstance(x, VDT):
                        times.add(i)
            return roles, lists, times
        n = len(ctx.obls)
        ps = [p for p in ctx.explore(probe) if p.kind == "normal"]
        del ctx.obls[n:]
        if not ps:
            raise Unsupported("the record loop accepts no records")
        self.roles, self.lists, self.times = ps[0].value
        ctx.oblige("record-loop-starts-after-the-first-epoch-line", iv(ctx.get(f).cur) == SFIRST(T) + 1)

    def initial(self, ctx):
        return G(c=sx(SFIRST(self.T) + 1))

    def begin(self, ctx, node):
        c = ctx.fresh("c", I)
        ctx.assume(z3.And(c > SFIRST(self.T), c < nlines(self.T)))
        return G(c=c)

    def item(self, ctx, g):
        return take(ctx, self.f, self.T, g.c)

    def after(self, ctx, g):
        linefacts(ctx, self.T, iv(g.c))
        return G(c=sx(iv(g.c) + 1))

    def exit(self, ctx):
        return G(c=nlines(self.T))

    def done(self, ctx, g, broke):
        if broke:
            ctx.oblige("every-record-is-read", iv(g.c) + 1 == nlines(self.T))
            # the line behind which nothing follows changes no table
            ctx.globals["#sp3end"] = iv(g.c)
        else:
            ctx.globals["#sp3end"] = nlines(self.T)

    def tab(self, ctx, id, shape, c):
        T = self.T

        def base(ix):
            i, d = ix
            d = sx(d)
            roles = self.roles.get(id, self.lists.get(id, {}))
            if isinstance(d, int):
                return value(ctx, T, c, i, roles.get(d))
            out = value(ctx, T, c, i, None)
            for k, r in roles.items():
                out = z3.If(d == k, value(ctx, T, c, i, r), out)
            return out
        return HArr(shape, "float", base)

    def heap(self, ctx, id, rec0, g):
        T = self.T
        if isinstance(rec0, HFile) and id == self.f.id:
            return HFile(rec0.text, g.c, rec0.kind, rec0.info)
        if isinstance(rec0, HArr):
            return self.tab(ctx, id, rec0.shape, g.c)
        if isinstance(rec0, HList) and id in self.times:
            return HList([("seq", Seq(EF(T, iv(g.c)), lambda e: VDT(EPOCH_US(line(T, ELF(T, iv(e)))))))])
        if isinstance(rec0, HList) and id in self.lists:
            cols = len(self.lists[id])
            return HList([("seq", Seq(sx(EF(T, iv(g.c)) - 1),
                                      lambda e: Frozen(self.tab(ctx, id, (N(T), cols), ELF(T, sx(iv(e) + 1))), None)))])
        raise Unsupported(f"loop changes a {type(rec0).__name__}")

    def cells(self, ctx, label, got, want, c):
        ctx.oblige(label + ":shape", len(got.shape) == len(want.shape) == 2 and ctx.valid(z3.And(*[iv(a) == iv(b) for a, b in zip(got.shape, want.shape)])))
        if len(got.shape) != 2:
            return
        s = ctx.save()
        i = ctx.fresh("sat", I)
        ctx.assume(z3.And(i >= 0, i < N(self.T)))
        step(ctx, self.T, c, i)
        if ctx.feasible(i >= 0):
            for d in range(sx(want.shape[1])):
                ctx.oblige(label, ctx.tofl(arrays.read(ctx, got, (i, d))) == ctx.tofl(arrays.read(ctx, want, (i, d))))
        ctx.pc, ctx.factset = list(s[0]), set(s[7])

    def check_initial(self, ctx, id, rec, g):
        want = self.heap(ctx, id, rec, g)
        if isinstance(rec, HArr):
            return self.cells(ctx, "tables-start-empty", rec, want, iv(g.c))
        if isinstance(rec, HList) and id in self.lists:
            return ctx.oblige("lists-start-empty", not rec.parts)
        records.same_rec(ctx, "starts-right", rec, want)

    def check_heap(self, ctx, id, rec, rec0, g, g2):
        c = iv(g.c)
        if isinstance(rec0, HArr):
            if not isinstance(rec, HArr):
                return ctx.failobl("open-epoch-tables", type(rec).__name__)
            return self.cells(ctx, "open-epoch-tables", rec, self.heap(ctx, id, rec0, g2), c)
        if isinstance(rec0, HList) and id in self.lists:
            epoch = at0(line(self.T, c), "*")
            seq = [x for k, x in rec.parts if k == "seq"]
            items = [x for k, x in rec.parts if k == "item"]
            ctx.oblige("finished-epochs-kept", len(seq) == 1 and rec.parts[0][0] == "seq" and len(items) <= 1)
            if not items:
                return ctx.oblige("finished-epoch-is-added", z3.Not(epoch))
            ctx.oblige("added-only-when-an-epoch-is-finished", epoch)
            h = arrays.table(ctx, items[0])
            if h is None:
                return ctx.failobl("finished-epoch-is-added", "not a table")
            return self.cells(ctx, "finished-epoch-is-added", h, self.tab(ctx, id, (N(self.T), len(self.lists[id])), c), c)
        records.same_rec(ctx, f"{self.name}-invariant", rec, self.heap(ctx, id, rec0, g2))


# ------------------------------------------------------------------ the function
VARS = {"position": (("time", "sv", "ECEF"), [("P", 4), ("P", 18), ("P", 32)]),
        "velocity": (("time", "sv", "ECEF"), [("V", 4), ("V", 18), ("V", 32)]),
        "clock": (("time", "sv"), ("P", 46)), "dclock": (("time", "sv"), ("V", 46))}


def ens(ctx, g, r):
    T = g["T"]
    h = ctx.get(r)
    if not (isinstance(h, HObj) and h.cls == "XDS"):
        return ctx.failobl("returns-a-dataset", str(h))
    end = ctx.globals.get("#sp3end")
    if end is None:
        return ctx.failobl("reads-the-records", "no record loop was found")
    nE = EF(T, nlines(T))
    # what stands behind the last line read is nothing
    linefacts(ctx, T, end)
    co = ctx.get(h.attrs["coords"]).entries
    ctx.oblige("coordinates", set(co) >= {"time", "sv", "ECEF"} and all(p is True for p, _ in co.values()))
    tm = ctx.seq_of(co["time"][1])
    records.same_seq(ctx, "every-epoch-once-with-its-own-time", tm, Seq(nE, lambda e: VDT(EPOCH_US(line(T, ELF(T, iv(e)))))))
    records.same_seq(ctx, "satellites-as-declared", ctx.seq_of(co["sv"][1]), Seq(N(T), lambda q: sname(ctx, T, q)))
    ax = ctx.concrete_items(co["ECEF"][1])
    ctx.oblige("axes", list(ax) == ["x", "y", "z"])
    e, i = ctx.fresh("epoch", I), ctx.fresh("sat", I)
    ctx.assume(z3.And(e >= 0, e < nE, i >= 0, i < N(T)))
    step(ctx, T, end, i)
    if not ctx.feasible(e >= 0):
        return
    stop = z3.If(e < nE - 1, ELF(T, e + 1), nlines(T))
    for name, (dims, role) in VARS.items():
        v = xr.find(ctx, r, name)
        if v is None:
            ctx.failobl(f"{name}-present", "missing")
            continue
        ctx.oblige(f"{name}-dimensions", v[1] == dims)
        a = v[2].h if isinstance(v[2], Frozen) else None
        if not isinstance(a, HArr) or len(a.shape) != len(dims):
            ctx.failobl(f"{name}-present", "not an array of its dimensions")
            continue
        ctx.oblige(f"{name}-shape", z3.And(iv(a.shape[0]) == nE, iv(a.shape[1]) == N(T)))
        if len(dims) == 3:
            ctx.oblige(f"{name}-shape", iv(a.shape[2]) == 3)
            for d in range(3):
                ctx.oblige(f"{name}-from-its-own-record", ctx.tofl(arrays.read(ctx, a, (e, i, d))) == value(ctx, T, stop, i, role[d]))
        else:
            ctx.oblige(f"{name}-from-its-own-record", ctx.tofl(arrays.read(ctx, a, (e, i))) == value(ctx, T, stop, i, role))
    t0 = xr.find(ctx, r, "t0")
    if t0 is not None and isinstance(t0[2], VDT):
        records.same(ctx, "start-time-from-the-first-line", t0[2], VDT(EPOCH_US(line(T, firstk(T)))))


def load(R):
    def setup(ctx, fn, T):
        records.install(ctx, SatLines(), ToFirstEpoch(), Data())
        well(ctx, T)
        return [fn, None], {}, {"T": T}
    both_forms(R, "sp3:load_sp3", setup, ens, {"rio:opener": c_opener, "rio:first_nonblank_line": c_first,
                                               "sp3:sp3dt": c_sp3dt, "sp3:get_sv": c_get_sv})


TASKS = [("load", load)]
