"""Evaluation of Python statements and expressions (direct style)."""
import ast
import z3
from .values import *
from .engine import *
from . import strs

BUILTIN_EXC = set(EXC_PARENTS)
BUILTINS = {"len", "int", "float", "str", "range", "enumerate", "zip", "sum", "min", "max", "sorted", "set", "list",
            "tuple", "dict", "isinstance", "print", "map", "any", "all", "abs", "bool", "round", "type", "reversed",
            "filter", "next", "iter", "bytes", "open", "divmod", "hasattr", "getattr", "repr", "frozenset", "slice", "super"}

MODELS = {}
METHODS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def method(kind, *names):
    def d(f):
        for n in names:
            METHODS[(kind, n)] = f
        return f
    return d


class Interp(Ctx):
    MAXUNROLL = 64

    # ---------------------------------------------------------------- names
    def lookup(self, name):
        try:
            v = self.frame.lookup(name)
        except KeyError:
            return self.lookup_global(self.frame.mod, name)
        if isinstance(v, Poison):
            raise Unsupported(f"{name}: {v.why}")
        return v

    def lookup_global(self, mod, name):
        d = mod.defs.get(name)
        if d is None:
            if name in BUILTINS or name in BUILTIN_EXC:
                return VMod("builtins." + name)
            if name == "__name__":
                return "georinex." + mod.name
            raise Unsupported(f"name {name} in {mod.name}")
        if isinstance(d, ast.FunctionDef):
            return VFunc(mod, d)
        if d[0] == "expr":
            key = ("g", mod.name, name)
            return self.eval_global(mod, d[1])
        n, a = d
        return self.resolve_import(mod, n, a)

    def resolve_import(self, mod, n, a):
        if isinstance(n, ast.ImportFrom):
            if n.level or (n.module or "").startswith("georinex"):
                m = (n.module or "").split(".")[-1] if n.module not in (None, "georinex") else None
                if m is None:
                    return VMod("georinex." + a.name)
                return self.lookup_global(self.repo.mod(m), a.name)
            return VMod(f"{n.module}.{a.name}")
        return VMod(a.name if a.asname else a.name.split(".")[0])

    def eval_global(self, mod, node):
        saved = self.frame
        self.frame = Frame(mod)
        try:
            return self.ev(node)
        finally:
            self.frame = saved

    # ---------------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, n):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(n).__name__} at line {n.lineno}")
        return m(n)

    def s_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Yield):
            return self.do_yield(n.value)
        self.ev(n.value)

    def s_Pass(self, n):
        pass

    def s_Import(self, n):
        for a in n.names:
            self.frame.vars[a.asname or a.name.split(".")[0]] = self.resolve_import(self.frame.mod, n, a)

    def s_ImportFrom(self, n):
        for a in n.names:
            self.frame.vars[a.asname or a.name] = self.resolve_import(self.frame.mod, n, a)

    def s_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v)

    def s_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value))

    def s_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            cur = self.lookup(n.target.id)
            v = self.ev(n.value)
            self.frame.vars[n.target.id] = self.augop(n.op, cur, v)
        elif isinstance(n.target, ast.Subscript):
            obj = self.ev(n.target.value)
            ix = self.ev_index(n.target.slice)
            cur = self.getitem(obj, ix)
            v = self.ev(n.value)
            self.setitem(obj, ix, self.augop(n.op, cur, v))
        elif isinstance(n.target, ast.Attribute):
            obj = self.ev(n.target.value)
            cur = self.getattr_(obj, n.target.attr)
            v = self.ev(n.value)
            self.setattr_(obj, n.target.attr, self.augop(n.op, cur, v))
        else:
            raise Unsupported("augmented assignment")

    def augop(self, op, cur, v):
        if isinstance(cur, Ref) and isinstance(self.get(cur), HList) and isinstance(op, ast.Add):
            self.call(VBound(cur, "extend"), [v], {})
            return cur
        return self.binop(op, cur, v)

    def s_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.frame.vars.pop(t.id, None)
            else:
                raise Unsupported("del")

    def s_Return(self, n):
        raise ReturnX(self.ev(n.value) if n.value is not None else None)

    def s_Break(self, n):
        raise BreakX()

    def s_Continue(self, n):
        raise ContinueX()

    def s_Assert(self, n):
        v = self.ev(n.test)
        if not self.branch(self.truth(v)):
            self.raise_("AssertionError", "assert")

    def s_Raise(self, n):
        if n.exc is None:
            cur = self.frame.vars.get("#exc")
            if cur is None:
                raise Unsupported("bare raise")
            raise PyRaise(cur)
        v = self.ev_exc(n.exc)
        raise PyRaise(v)

    def ev_exc(self, e):
        if isinstance(e, ast.Call):
            f = self.ev(e.func)
            if isinstance(f, VMod) and f.name.split(".")[-1] in BUILTIN_EXC:
                # messages are not part of any property
                args = []
                for a in e.args:
                    try:
                        args.append(self.ev(a) if not isinstance(a, ast.JoinedStr) else self.ev_quiet(a))
                    except Unsupported:
                        args.append(None)
                return VExc(f.name.split(".")[-1], "", val=args)
        v = self.ev(e)
        if isinstance(v, VExc):
            return v
        if isinstance(v, VMod) and v.name.split(".")[-1] in BUILTIN_EXC:
            return VExc(v.name.split(".")[-1])
        raise Unsupported("raise of a non-builtin exception")

    def ev_quiet(self, a):
        """an f-string used only as a message: evaluate parts that can raise"""
        for p in a.values:
            if isinstance(p, ast.FormattedValue):
                self.ev(p.value)
        return View(self.fresh("message", Ln))

    def s_If(self, n):
        c = self.truth(self.ev(n.test))
        c = sx(c) if is_z3(c) else c
        if is_z3(c) and not self.nofork and self.record_if(n, c):
            return
        if self.branch(c):
            self.block(n.body)
        else:
            self.block(n.orelse)

    def record_if(self, n, c):
        """`if c: d["key"] = v` as one state, d holding the key exactly under c.
        False (and nothing done) where that cannot be expressed."""
        def simple(st):
            return isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript) \
                and isinstance(st.targets[0].slice, ast.Constant) and isinstance(st.targets[0].slice.value, str)
        if n.orelse or not all(simple(st) for st in n.body) or self.valid(c, self.FEAS_MS) or self.valid(Not(c), self.FEAS_MS):
            return False
        s = self.save()
        v0 = dict(self.frame.vars)
        self.nofork += 1
        ok = False
        try:
            self.pc.append(c)
            self.block(n.body)
            ok = len(self.yields) == len(s[6])
        except (NeedFork, PyRaise, BreakX, ContinueX, ReturnX, Unsupported, Infeasible):
            pass
        finally:
            self.nofork -= 1
        heap, fv, nid, seq = self.heap, dict(self.frame.vars), self.nid, self.seq
        self.restore(s)
        if not ok or any(fv.get(k) is not v for k, v in v0.items()) or len(fv) != len(v0):
            return False
        new = {}
        for i, r in heap.items():
            o = self.heap.get(i)
            if o is None or o is r:
                new[i] = r
                continue
            if not (isinstance(r, HDict) and isinstance(o, HDict)) or r.layers or o.layers or r.base is not None or o.base is not None:
                return False
            ent = dict(o.entries)
            for k, (p1, x1) in r.entries.items():
                p0, x0 = o.entries.get(k, (False, None))
                if p0 is p1 and x0 is x1:
                    continue
                if p0 is not False:
                    return False
                ent[k] = (sx(zb(And(c, zb(p1)))), x1)
            if list(ent)[:len(o.entries)] != list(o.entries) or len(r.entries) != len(ent):
                return False
            new[i] = HDict(ent, o.base, o.layers)
        self.heap, self.nid, self.seq = new, nid, seq
        return True

    def s_FunctionDef(self, n):
        self.frame.vars[n.name] = VFunc(self.frame.mod, n, env=self.frame)

    def s_Global(self, n):
        raise Unsupported("global")

    def s_Nonlocal(self, n):
        raise Unsupported("nonlocal")

    def s_Try(self, n):
        m = self.globals.get("#trymerge")
        if m is not None and m(self, n):
            return
        self.plain_try(n)

    def plain_try(self, n):
        try:
            try:
                self.block(n.body)
            except PyRaise as e:
                h = self.handler(n, e.exc)
                if h is None:
                    raise
                if h.name:
                    self.frame.vars[h.name] = e.exc
                old = self.frame.vars.get("#exc")
                self.frame.vars["#exc"] = e.exc
                try:
                    self.block(h.body)
                finally:
                    if old is None:
                        self.frame.vars.pop("#exc", None)
                    else:
                        self.frame.vars["#exc"] = old
            else:
                self.block(n.orelse)
        except (PyRaise, BreakX, ContinueX, ReturnX):
            if n.finalbody:
                self.block(n.finalbody)
            raise
        if n.finalbody:
            self.block(n.finalbody)

    def handler(self, n, exc):
        for h in n.handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                v = self.ev(t)
                name = v.name.split(".")[-1] if isinstance(v, VMod) else None
                if name is None:
                    raise Unsupported("except clause")
                if exc_isa(exc.type, name):
                    return h
        return None

    def s_With(self, n):
        self.with_items(n.items, 0, n.body)

    def with_items(self, items, i, body):
        if i == len(items):
            return self.block(body)
        it = items[i]
        cm = self.ev(it.context_expr)
        enter, exit_ = self.ctxmgr(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, enter)
        try:
            self.with_items(items, i + 1, body)
        except (PyRaise, BreakX, ContinueX, ReturnX):
            exit_()
            raise
        exit_()

    def ctxmgr(self, cm):
        if isinstance(cm, Ref):
            r = self.get(cm)
            if isinstance(r, HFile):
                def close():
                    c = self.get(cm)
                    if isinstance(c, HFile):
                        self.put(cm, HFile(c.text, c.cur, c.kind, {**c.info, "closed": True}))
                return cm, close
            if isinstance(r, HObj):
                if ("enter", r.cls) in METHODS:
                    return METHODS[("enter", r.cls)](self, cm)
                return cm, lambda: None
        raise Unsupported(f"context manager {cm}")

    # ---------------------------------------------------------------- loops
    def s_For(self, n):
        from . import loops
        it = self.ev(n.iter)
        loops.for_loop(self, n, it)

    def s_While(self, n):
        from . import loops
        loops.while_loop(self, n)

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frame.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for a, b in zip(t.elts, vs):
                self.assign(a, b)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value)
            self.setitem(obj, self.ev_index(t.slice), v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                self.raise_("ValueError", "unpack")
            return list(v)
        if isinstance(v, Ref) and isinstance(self.get(v), HList) and self.get(v).concrete:
            xs = self.get(v).items()
            if len(xs) != n:
                self.raise_("ValueError", "unpack")
            return xs
        if isinstance(v, Seq):
            ok = v.n == n
            if not self.branch(ok):
                self.raise_("ValueError", "unpack")
            return [v.fn(k) for k in range(n)]
        raise Unsupported("unpack")

    # ---------------------------------------------------------------- expressions
    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n)

    def e_Constant(self, n):
        return n.value

    def e_Name(self, n):
        return self.lookup(n.id)

    def e_Attribute(self, n):
        return self.getattr_(self.ev(n.value), n.attr)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.frame.vars[n.target.id] = v
        return v

    def e_Tuple(self, n):
        return tuple(self.ev_elts(n.elts))

    def ev_elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.concrete_items(self.ev(e.value)))
            else:
                out.append(self.ev(e))
        return out

    def e_List(self, n):
        return self.alloc(HList([("item", v) for v in self.ev_elts(n.elts)]))

    def e_Set(self, n):
        return VSet(self.ev_elts(n.elts))

    def e_Dict(self, n):
        if any(k is None for k in n.keys):
            raise Unsupported("dict unpacking")
        ent = {}
        for k, v in zip(n.keys, n.values):
            kk = self.ev(k)
            if not isinstance(kk, (str, int, tuple)) or isinstance(kk, VStr):
                raise Unsupported("symbolic key in a dict display")
            ent[kk] = (True, self.ev(v))
        return self.alloc(HDict(ent))

    def e_Starred(self, n):
        raise Unsupported("starred")

    def e_Lambda(self, n):
        return VFunc(self.frame.mod, n, env=self.frame)

    def e_IfExp(self, n):
        c = self.truth(self.ev(n.test))
        if not isinstance(c, bool):
            c = sx(c)
        if isinstance(c, bool):
            return self.ev(n.body if c else n.orelse)

        def both():
            s = len(self.pc)
            self.pc.append(c)
            a = self.ev(n.body)
            del self.pc[s]
            self.pc.insert(s, Not(c))
            b = self.ev(n.orelse)
            del self.pc[s]
            return self.ite(c, a, b)
        ok, v = (False, None)
        if not self.nofork:
            try:
                ok, v = self.pure(both)
            except Unsupported:
                ok = False
        if ok:
            return v
        return self.ev(n.body if self.branch(c) else n.orelse)

    def ite(self, c, a, b):
        """merge two values under a condition"""
        if a is b:
            return a
        if is_int(a) and is_int(b):
            return sx(z3.If(c, iv(a), iv(b)))
        if is_bool(a) and is_bool(b):
            return sx(z3.If(c, zb(a), zb(b)))
        if is_str(a) and is_str(b):
            if isinstance(a, str) and a == b:
                return a
            return Ite(c, a, b)
        if is_flt(a) and is_flt(b):
            return z3.If(c, self.tofl(a), self.tofl(b))
        if isinstance(a, VDT) and isinstance(b, VDT):
            return VDT(sx(z3.If(c, iv(a.us), iv(b.us))))
        if isinstance(a, VTD) and isinstance(b, VTD):
            return VTD(sx(z3.If(c, iv(a.us), iv(b.us))))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if a is None and b is None:
            return None
        if isinstance(a, VOpq) and isinstance(b, VOpq):
            return VOpq(z3.If(c, a.term, b.term), a.kind)
        raise NeedFork()

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0])
        for nx in n.values[1:]:
            c = self.truth(v)
            c = sx(c) if is_z3(c) else c
            if isinstance(c, bool):
                if c != isand:
                    return v
                v = self.ev(nx)
                continue
            done = False
            if is_bool(v) and not self.nofork:
                def second():
                    s = len(self.pc)
                    self.pc.append(zb(c if isand else Not(c)))
                    w = self.ev(nx)
                    del self.pc[s]
                    if not is_bool(w):
                        raise NeedFork()
                    return w
                try:
                    ok, w = self.pure(second)
                except Unsupported:
                    ok = False
                if ok:
                    v = sx(zb(And(c, w) if isand else Or(c, w)))
                    done = True
            if not done:
                if self.branch(c) != isand:
                    return v if not is_bool(v) else (not isand)
                v = self.ev(nx)
        return v

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return Not(self.truth(v))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if is_z3(v) and v.sort() == I:
                return sx(-v)
            if is_real(v):
                return -v
            if isinstance(v, VTD):
                return VTD(sx(-iv(v.us)))
            if is_flt(v):
                return self.fop1("neg", v)
            return self.arr_unop(lambda x: self.neg(x), v)
        if isinstance(n.op, ast.Invert):
            return self.arr_unop(lambda x: Not(x), v)
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def neg(self, v):
        if isinstance(v, (int, float)):
            return -v
        if is_real(v) or is_int(v):
            return sx(-v)
        return self.fop1("neg", v)

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(n.op, a, b)

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = None
        for op, r in zip(n.ops, n.comparators):
            if res is not None:
                # short circuit
                c = self.truth(res)
                if isinstance(c, bool):
                    if not c:
                        return res
                right = self.ev(r)
            else:
                right = self.ev(r)
            v = self.compare(op, left, right)
            res = v if res is None else self.andv(res, v)
            left = right
        return res

    def andv(self, a, b):
        if is_bool(a) and is_bool(b):
            return And(a, b)
        raise Unsupported("chained comparison")

    def e_JoinedStr(self, n):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
                continue
            v = self.ev(p.value)
            spec = ""
            if p.format_spec is not None:
                s = self.ev(p.format_spec)
                if not isinstance(s, str):
                    raise Unsupported("symbolic format specification")
                spec = s
            parts.append(self.format(v, spec, p.conversion))
        return cat(*parts)

    def format(self, v, spec, conv=-1):
        if isinstance(v, (int, float, str, bool)) and conv == -1:
            return format(v, spec)
        if isinstance(v, (str, VStr)) and conv in (-1, 115):
            if not spec:
                return v
            s = spec.rstrip("s")
            if s.lstrip("<").isdigit():
                return strs.pad_(self, v, int(s.lstrip("<")))
        if is_z3(v) and v.sort() == I and spec in ("", "d", "02d", "2d", "03d"):
            f = z3.Function("fmt:" + spec, I, Ln)
            return View(f(v))
        return View(self.fresh("fmt", Ln))

    def e_Subscript(self, n):
        obj = self.ev(n.value)
        return self.getitem(obj, self.ev_index(n.slice))

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return VSlice(*[None if x is None else self.ev(x) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(e) for e in s.elts)
        return self.ev(s)

    def e_ListComp(self, n):
        from . import loops
        return loops.comprehension(self, n, "list")

    def e_GeneratorExp(self, n):
        from . import loops
        return loops.comprehension(self, n, "gen")

    def e_SetComp(self, n):
        from . import loops
        return loops.comprehension(self, n, "set")

    def e_DictComp(self, n):
        from . import loops
        return loops.comprehension(self, n, "dict")

    def e_Yield(self, n):
        return self.do_yield(n)

    def do_yield(self, n):
        v = self.ev(n.value) if n.value is not None else None
        h = self.globals.get("#onyield")
        self.yields = self.yields + [(v, self.get(v) if isinstance(v, Ref) else None)]
        if h:
            h(self, v)
        return None

    # ---------------------------------------------------------------- calls
    def e_Call(self, n):
        f = self.ev(n.func)
        if isinstance(f, VMod) and f.name == "builtins.float" and len(n.args) == 1 and not n.keywords:
            v = self.float_or(n.args[0])
            if v is not None:
                return v
        args = self.ev_elts(n.args)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                r = self.get(d) if isinstance(d, Ref) else None
                if not isinstance(r, HDict) or r.base or r.layers:
                    raise Unsupported("** of a symbolic mapping")
                for kk, (p, v) in r.entries.items():
                    if p is not True:
                        raise Unsupported("** of a conditional entry")
                    kw[kk] = v
            else:
                kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw, n)

    def float_or(self, a):
        """float(text or number): one value, no case split on an empty text"""
        if not (isinstance(a, ast.BoolOp) and isinstance(a.op, ast.Or) and len(a.values) == 2 and isinstance(a.values[1], ast.Constant)
                and type(a.values[1].value) in (int, float)):
            return None
        const = a.values[1].value
        v = self.ev(a.values[0])
        if not is_str(v) or isinstance(v, str):
            return self.call(VMod("builtins.float"), [v or const if isinstance(v, str) else self.ev_or(v, const)], {})
        t = self.truth(v)
        t = sx(t) if is_z3(t) else t
        if isinstance(t, bool):
            return self.call(VMod("builtins.float"), [v if t else const], {})
        x = strs.num(self, v)
        if not self.branch(Or(Not(t), fltok(x))):
            self.raise_("ValueError", "could not convert string to float")
        return z3.If(zb(t), fltval(x), flit(float(const)))

    def ev_or(self, v, const):
        return v if self.branch(self.truth(v)) else const

    def call(self, f, args, kw, node=None):
        if isinstance(f, VPartial):
            return f.fn(self, args, kw)
        if isinstance(f, VFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, VBound):
            return self.call_method(f.obj, f.name, args, kw)
        if isinstance(f, VMod):
            name = f.name
            if name.startswith("builtins."):
                short = name[9:]
                if short in BUILTIN_EXC:
                    return VExc(short, "", val=args)
            m = MODELS.get(name)
            if m is None:
                m = MODELS.get(name.replace("builtins.", ""))
            if m is not None:
                self.trusted.add(name)
                return m(self, args, kw)
            raise Unsupported(f"call of {name}")
        raise Unsupported(f"call of {f}")

    def bind(self, node, args, kw, env, mod):
        """bind actuals to formals; defaults evaluated in the defining scope"""
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(pos) and not a.vararg:
            self.raise_("TypeError", "too many arguments")
        for k, v in zip(pos, args):
            out[k] = v
        if a.vararg:
            out[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        for k, v in kw.items():
            if k in out:
                self.raise_("TypeError", f"multiple values for {k}")
            if k not in pos and k not in [x.arg for x in a.kwonlyargs]:
                if a.kwarg:
                    extra[k] = v
                    continue
                self.raise_("TypeError", f"unexpected keyword {k}")
            out[k] = v
        if a.kwarg:
            out[a.kwarg.arg] = self.alloc(HDict({k: (True, v) for k, v in extra.items()}))
        saved = self.frame
        try:
            self.frame = env or Frame(mod)
            for x, d in zip(reversed(pos), reversed(a.defaults)):
                if x not in out:
                    out[x] = self.ev(d)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if x.arg not in out and d is not None:
                    out[x.arg] = self.ev(d)
        finally:
            self.frame = saved
        for x in pos + [x.arg for x in a.kwonlyargs]:
            if x not in out:
                self.raise_("TypeError", f"missing argument {x}")
        return out

    def call_func(self, f, args, kw):
        node = f.node
        c = self.contracts.get(f.qual)
        if c is not None and not (self.depth == 0 and self.globals.get("#verifying") == f.qual):
            bound = self.bind(node, args, kw, f.env, f.mod)
            self.used_contracts.add(f.qual)
            return c(self, bound)
        is_cm = any("contextmanager" in ast.dump(d) for d in getattr(node, "decorator_list", []))
        is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))
        if is_gen and not (self.globals.get("#verifying") == f.qual and self.depth == 0):
            raise Unsupported(f"generator {f.qual} without contract")
        if self.depth > 30:
            raise Unsupported("recursion too deep")
        bound = self.bind(node, args, kw, f.env, f.mod)
        if self.depth or self.globals.get("#verifying") != f.qual:
            self.inlined.add(f.qual)
        return self.run_body(f, bound)

    def run_body(self, f, bound):
        saved = self.frame
        fr = Frame(f.mod, parent=f.env, qual=f.qual)
        fr.vars.update(bound)
        self.frame = fr
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            try:
                self.block(f.node.body)
            except ReturnX as r:
                return r.value
            return None
        finally:
            self.frame = saved
            self.depth -= 1

    def kind(self, v):
        if v is None:
            return "None"
        if is_bool(v):
            return "bool"
        if is_int(v):
            return "int"
        if is_flt(v):
            return "float"
        if is_str(v):
            return "str"
        if isinstance(v, bytes):
            return "bytes"
        if isinstance(v, tuple):
            return "tuple"
        if isinstance(v, Seq):
            return "seq"
        if isinstance(v, VSet):
            return "set"
        if isinstance(v, VDT):
            return "datetime"
        if isinstance(v, VTD):
            return "timedelta"
        if isinstance(v, VRat):
            return "rat"
        if isinstance(v, VExc):
            return "exc"
        if isinstance(v, VOpq):
            return "opq:" + v.kind
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, HList):
                return "list"
            if isinstance(r, HDict):
                return "dict"
            if isinstance(r, HArr):
                return "ndarray"
            if isinstance(r, HFile):
                return "file"
            if isinstance(r, HObj):
                return r.cls
        if isinstance(v, (VFunc, VBound, VPartial)):
            return "function"
        if isinstance(v, VMod):
            return "module"
        if isinstance(v, VSlice):
            return "slice"
        return type(v).__name__

    def call_method(self, obj, name, args, kw):
        k = self.kind(obj)
        m = METHODS.get((k, name))
        if m is None and isinstance(obj, Ref) and isinstance(self.get(obj), HObj):
            m = METHODS.get(("obj", name))
        if m is None and isinstance(obj, str) and all(isinstance(a, (str, int, float)) for a in args):
            return getattr(obj, name)(*args)
        if m is None:
            raise Unsupported(f"method {k}.{name}")
        self.trusted.add(f"{k}.{name}")
        return m(self, obj, *args, **kw)

    def getattr_(self, obj, name):
        if isinstance(obj, VMod):
            if obj.name.startswith("georinex."):
                m = obj.name.split(".")
                if len(m) == 2:
                    return self.lookup_global(self.repo.mod(m[1]), name)
            full = f"{obj.name}.{name}"
            if ("const:" + full) in MODELS:
                return MODELS["const:" + full](self)
            return VMod(full)
        k = self.kind(obj)
        a = METHODS.get(("attr", k, name)) or METHODS.get((k, "." + name))
        if a is not None:
            return a(self, obj)
        if isinstance(obj, Ref):
            r = self.get(obj)
            if isinstance(r, HObj) and name in r.attrs:
                return r.attrs[name]
        if (k, "getattr") in METHODS:
            return METHODS[(k, "getattr")](self, obj, name)
        return VBound(obj, name)

    def setattr_(self, obj, name, v):
        if isinstance(obj, Ref):
            r = self.get(obj)
            k = self.kind(obj)
            if (k, "setattr") in METHODS:
                return METHODS[(k, "setattr")](self, obj, name, v)
            if isinstance(r, HObj):
                return self.put(obj, r.with_(**{name: v}))
        raise Unsupported(f"attribute assignment {name}")

    # ---------------------------------------------------------------- truth
    def truth(self, v):
        if v is None:
            return False
        if is_bool(v):
            return v
        if isinstance(v, (int, float, str, tuple, bytes)):
            return bool(v)
        if is_z3(v):
            if v.sort() == I:
                return sx(v != 0)
            if v.sort() == z3.RealSort():
                return sx(v != 0)
            if v.sort() == Fl:
                return Not(fcmp["eq"](v, flit(0.0)))
        if is_str(v):
            return strs.truth(self, v)
        if isinstance(v, Seq):
            return v.n > 0 if isinstance(v.n, int) else sx(v.n > 0)
        if isinstance(v, VSet):
            return len(v.items) > 0
        if isinstance(v, VDT):
            return True
        if isinstance(v, VTD):
            return sx(iv(v.us) != 0)
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, HList):
                n = self.list_len(r)
                return n > 0 if isinstance(n, int) else sx(n > 0)
            if isinstance(r, HDict):
                n = self.dict_len(r)
                return n > 0 if isinstance(n, int) else sx(n > 0)
            k = self.kind(v)
            if (k, "truth") in METHODS:
                return METHODS[(k, "truth")](self, v)
            if isinstance(r, (HFile,)):
                return True
            if isinstance(r, HArr):
                raise Unsupported("truth of an array")
        if isinstance(v, (VFunc, VMod, VBound, VPartial)):
            return True
        k = self.kind(v)
        if (k, "truth") in METHODS:
            return METHODS[(k, "truth")](self, v)
        raise Unsupported(f"truth of {k}")

    # ---------------------------------------------------------------- lists
    def list_len(self, r):
        n = 0
        for k, x in r.parts:
            if k == "item":
                n = n + 1
            elif k == "seq":
                n = n + x.n
            else:
                raise Unsupported("length of a loop-carried list")
        return sx(n) if is_z3(n) else n

    def dict_len(self, r):
        if r.base or r.layers:
            raise Unsupported("len of a symbolic dict")
        n = 0
        for p, v in r.entries.values():
            n = n + (1 if p is True else z3.If(zb(p), 1, 0))
        return sx(n) if is_z3(n) else n

    def seq_of(self, v):
        """view a sequence value as Seq (n, fn)"""
        if isinstance(v, Seq):
            return v
        if isinstance(v, tuple):
            return Seq(len(v), lambda k, v=v: self.pick(list(v), k))
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, HList):
                return self.list_seq(r)
            if isinstance(r, HArr):
                from . import arrays
                if len(r.shape) == 1:
                    return arrays.seq1(self, r)
                return Seq(r.shape[0], lambda k, r=r: self.alloc(
                    HArr(r.shape[1:], r.dtype, lambda ix: arrays.read(self, r, (k,) + tuple(ix)), (), "view")))
        if isinstance(v, str):
            return Seq(len(v), lambda k: self.pick(list(v), k))
        k = self.kind(v)
        if (k, "seq") in METHODS:
            return METHODS[(k, "seq")](self, v)
        raise Unsupported(f"sequence of {k}")

    def merge(self, c, a, b):
        """a if c else b, as one value if there is one, otherwise case by case"""
        try:
            return self.ite(c, a, b)
        except NeedFork:
            if self.nofork:
                raise
        return a if self.branch(c) else b

    def pick(self, items, k):
        """items[k] with symbolic in-range k"""
        if isinstance(k, int):
            return items[k]
        ks = sx(k)
        if isinstance(ks, int):
            return items[ks]
        out = items[-1]
        for i in range(len(items) - 2, -1, -1):
            try:
                out = self.ite(k == i, items[i], out)
            except NeedFork:
                if self.nofork:
                    raise
                break
        else:
            return out
        for i in range(len(items) - 1):
            if self.branch(k == i):
                return items[i]
        return items[-1]

    def list_seq(self, r):
        parts = r.parts
        if len(parts) == 1 and parts[0][0] == "seq":
            return parts[0][1]
        if not parts:
            return Seq(0, lambda k: (_ for _ in ()).throw(Unsupported("item of an empty list")))
        if r.concrete:
            items = r.items()
            return Seq(len(items), lambda k: self.pick(items, k))
        # general: concatenation
        segs = []
        run = []
        for k, x in parts:
            if k == "item":
                run.append(x)
            else:
                if run:
                    segs.append(Seq(len(run), lambda q, run=run: self.pick(run, q)))
                    run = []
                if k != "seq":
                    raise Unsupported("read of a loop-carried list")
                segs.append(x)
        if run:
            segs.append(Seq(len(run), lambda q, run=run: self.pick(run, q)))
        n = self.list_len(r)

        def fn(k, segs=segs):
            off = 0
            out = None
            conds = []
            for s in segs:
                conds.append((off, s))
                off = sx(iv(off) + iv(s.n))
            # decide the segment when provable
            for o, s in conds:
                c = sx(z3.And(iv(k) >= iv(o), iv(k) < iv(o) + iv(s.n)))
                if c is True or (c is not False and self.valid(c)):
                    return s.fn(sx(iv(k) - iv(o)))
            for o, s in reversed(conds):
                v = s.fn(sx(iv(k) - iv(o)))
                out = v if out is None else self.ite(sx(z3.And(iv(k) >= iv(o), iv(k) < iv(o) + iv(s.n))), v, out)
            return out
        return Seq(n, fn)

    def concrete_items(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, VSet):
            return list(v.items)
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, HList) and r.concrete:
                return r.items()
            if isinstance(r, HDict) and not r.base and not r.layers and all(p is True for p, _ in r.entries.values()):
                return list(r.entries)
            if isinstance(r, HList):
                v = self.list_seq(r)
            elif isinstance(r, HArr):
                v = self.seq_of(v)
        if isinstance(v, Seq):
            n = sx(v.n)
            if isinstance(n, int) and n <= self.MAXUNROLL:
                return [v.fn(k) for k in range(n)]
            for c in range(5):
                # a length the path has fixed
                if not isinstance(n, int) and self.valid(n == c):
                    return [v.fn(k) for k in range(c)]
        k = self.kind(v)
        if (k, "items!") in METHODS:
            return METHODS[(k, "items!")](self, v)
        raise Unsupported(f"items of a symbolic {k}")

    # ---------------------------------------------------------------- getitem
    def getitem(self, obj, ix):
        k = self.kind(obj)
        if k == "str":
            if isinstance(ix, VSlice):
                if ix.step is not None:
                    raise Unsupported("string step")
                return strs.slice_(self, obj, ix.lo, ix.hi)
            return strs.index(self, obj, ix)
        if k == "tuple":
            if isinstance(ix, VSlice):
                if all(isinstance(x, (int, type(None))) for x in (ix.lo, ix.hi, ix.step)):
                    return obj[ix.lo:ix.hi:ix.step]
                raise Unsupported("tuple slice")
            if isinstance(ix, int):
                if not -len(obj) <= ix < len(obj):
                    self.raise_("IndexError")
                return obj[ix]
            return self.pick(list(obj), ix)
        if k == "list":
            return self.list_get(self.get(obj), ix)
        if k == "seq":
            if isinstance(ix, VSlice):
                return self.seq_slice(obj, ix)
            return self.seq_get(obj, ix)
        if k == "dict":
            return self.dict_get(obj, ix)
        if k == "ndarray":
            from . import arrays
            return arrays.getitem(self, obj, ix)
        if (k, "getitem") in METHODS:
            self.trusted.add(f"{k}.__getitem__")
            return METHODS[(k, "getitem")](self, obj, ix)
        if k == "None":
            self.raise_("TypeError", "'NoneType' object is not subscriptable")
        if isinstance(obj, VMod) and obj.name == "numpy.s_":
            return ix
        raise Unsupported(f"subscript of {k}")

    def seq_get(self, s, ix):
        if isinstance(ix, int) and ix < 0:
            ix = sx(iv(s.n) + ix)
        if not self.branch(sx(z3.And(iv(ix) >= 0, iv(ix) < iv(s.n)))):
            self.raise_("IndexError", "list index out of range")
        return s.fn(ix)

    def seq_slice(self, s, ix):
        if ix.step not in (None, 1):
            raise Unsupported("slice step")
        n = s.n

        def norm(x, d):
            if x is None:
                return d
            if isinstance(x, int) and x < 0:
                return imax(0, sx(iv(n) + x))
            return imin(x, n)
        lo, hi = norm(ix.lo, 0), norm(ix.hi, n)
        m = imax(0, sx(iv(hi) - iv(lo)))
        return Seq(m, lambda k: s.fn(sx(iv(lo) + iv(k))))

    def list_get(self, r, ix):
        if r.concrete:
            items = r.items()
            if isinstance(ix, VSlice):
                if all(isinstance(x, (int, type(None))) for x in (ix.lo, ix.hi, ix.step)):
                    return self.alloc(HList([("item", x) for x in items[ix.lo:ix.hi:ix.step]]))
            elif isinstance(ix, int):
                if not -len(items) <= ix < len(items):
                    self.raise_("IndexError", "list index out of range")
                return items[ix]
        s = self.list_seq(r)
        if isinstance(ix, VSlice):
            return self.alloc(HList([("seq", self.seq_slice(s, ix))]))
        return self.seq_get(s, ix)

    def dict_get(self, ref, key, default=None, has_default=False):
        r = self.get(ref)
        if isinstance(key, (str, int)) and not isinstance(key, VStr):
            if r.base or r.layers:
                from . import dicts
                return dicts.get(self, r, key, default, has_default)
            if key not in r.entries:
                if has_default:
                    return default
                self.raise_("KeyError", key)
            p, v = r.entries[key]
            if p is not True and not self.branch(p):
                if has_default:
                    return default
                self.raise_("KeyError", key)
            return v
        if r.base or r.layers:
            from . import dicts
            return dicts.get(self, r, key, default, has_default)
        # symbolic key in a concrete dict
        items = list(r.entries.items())
        if any(p is not True for _, (p, _) in items):
            raise Unsupported("symbolic key in a conditional dict")
        conds = [self.equal(key, k) for k, _ in items]
        conds = [sx(c) if is_z3(c) else c for c in conds]
        live = [(c, v) for c, (_, (_, v)) in zip(conds, items) if c is not False]
        if not live or not self.branch(Or(*[c for c, _ in live])):
            if has_default:
                return default
            self.raise_("KeyError", "key")
        try:
            out = live[-1][1]
            for c, v in reversed(live[:-1]):
                if c is True:
                    out = v
                else:
                    out = self.ite(c, v, out)
            return out
        except NeedFork:
            for c, v in live[:-1]:
                if self.branch(c):
                    return v
            return live[-1][1]

    def setitem(self, obj, ix, v):
        k = self.kind(obj)
        if k == "dict":
            r = self.get(obj)
            if isinstance(ix, (str, int)) and not isinstance(ix, VStr) and not r.base and not r.layers:
                e = dict(r.entries)
                e[ix] = (True, v)
                return self.put(obj, HDict(e))
            from . import dicts
            if is_str(ix) and not r.base and not r.layers:
                for key in r.entries:
                    if isinstance(key, str) and self.valid(zb(self.equal(ix, key))):
                        return self.setitem(obj, key, v)
            return dicts.put(self, obj, ix, v)
        if k == "list":
            r = self.get(obj)
            if r.concrete and isinstance(ix, int):
                items = r.items()
                if not -len(items) <= ix < len(items):
                    self.raise_("IndexError")
                items[ix] = v
                return self.put(obj, HList([("item", x) for x in items]))
            if isinstance(ix, VSlice):
                raise Unsupported("slice assignment")
            if r.parts and r.parts[0][0] == "carried" and getattr(r, "n0", None) is not None:
                if not self.branch(sx(z3.And(iv(ix) >= 0, iv(ix) < iv(r.n0)))):
                    self.raise_("IndexError", "list assignment index out of range")
                w = HList(r.parts + (("write", (ix, v)),))
                w.n0 = r.n0
                return self.put(obj, w)
            s = self.list_seq(r)
            if isinstance(ix, int) and ix < 0:
                ix = sx(iv(s.n) + ix)
            if not self.branch(sx(z3.And(iv(ix) >= 0, iv(ix) < iv(s.n)))):
                self.raise_("IndexError", "list assignment index out of range")
            from . import arrays
            return self.put(obj, HList([("seq", arrays.seq_store(self, s, ix, v))]))
        if k == "ndarray":
            from . import arrays
            return arrays.setitem(self, obj, ix, v)
        if (k, "setitem") in METHODS:
            self.trusted.add(f"{k}.__setitem__")
            return METHODS[(k, "setitem")](self, obj, ix, v)
        raise Unsupported(f"item assignment to {k}")

    # ---------------------------------------------------------------- operators
    def tofl(self, v):
        if isinstance(v, bool):
            v = int(v)
        if self.globals.get("#floats") == "real":
            if isinstance(v, (int, float)):
                if v != v or v in (float("inf"), float("-inf")):
                    raise Unsupported("nan as a real")
                return z3.RealVal(repr(v)) if isinstance(v, float) else z3.RealVal(v)
            if v.sort() == I:
                return z3.ToReal(v)
            return v
        if isinstance(v, (int, float)):
            return flit(float(v))
        if isinstance(v, VRat):
            return fop["div"](self.tofl(v.n), self.tofl(v.d))
        if v.sort() == I:
            return i2f(v)
        return v

    def fop1(self, name, v):
        if is_real(v) or self.globals.get("#floats") == "real":
            f = fun1.setdefault(("r", name), z3.Function("r" + name, z3.RealSort(), z3.RealSort()))
        else:
            f = fun1.setdefault(name, z3.Function("f" + name, Fl, Fl))
        return f(self.tofl(v))

    def fbin(self, name, a, b):
        a, b = self.tofl(a), self.tofl(b)
        if is_real(a):
            if name == "add":
                return a + b
            if name == "sub":
                return a - b
            if name == "mul":
                return a * b
            if name == "div":
                return a / b
            if name == "pow":
                e = sx(z3.simplify(b))
                s = z3.simplify(b)
                if z3.is_rational_value(s) and s.denominator_as_long() == 1 and 0 <= s.numerator_as_long() <= 8:
                    out = z3.RealVal(1)
                    for _ in range(s.numerator_as_long()):
                        out = out * a
                    return out
            f = z3.Function("r" + name, z3.RealSort(), z3.RealSort(), z3.RealSort())
            return f(a, b)
        x, y = flit_value(a), flit_value(b)
        if x is not None and y is not None:
            try:
                r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "div": lambda: x / y,
                     "mod": lambda: x % y, "pow": lambda: x ** y}[name]()
                return flit(r)
            except (ZeroDivisionError, OverflowError):
                pass
        if name in ("add", "mul") and (x is not None or y is None and a.get_id() > b.get_id()):
            a, b = b, a
        r = fop[name](a, b)
        hook = self.globals.get("#fophook")
        if hook:
            hook(self, name, a, b, r)
        return r

    def binop(self, op, a, b):
        t = type(op).__name__
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if is_z3(a) and a.sort() == B:
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if is_z3(b) and b.sort() == B:
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not (
                self.globals.get("#floats") == "real" and (isinstance(a, float) or isinstance(b, float))):
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b,
                        "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "Pow": lambda: a ** b,
                        "BitOr": lambda: a | b, "BitAnd": lambda: a & b, "LShift": lambda: a << b,
                        "RShift": lambda: a >> b}[t]()
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError")
        if is_int(a) and is_int(b):
            if t == "Add":
                return sx(iv(a) + iv(b))
            if t == "Sub":
                return sx(iv(a) - iv(b))
            if t == "Mult":
                return sx(iv(a) * iv(b))
            if t in ("FloorDiv", "Mod"):
                return self.intdiv(t, a, b)
            if t == "Div":
                if not self.branch(sx(iv(b) != 0)):
                    self.raise_("ZeroDivisionError")
                if self.globals.get("#floats") == "real":
                    return self.tofl(a) / self.tofl(b)
                return VRat(a, b)
            if t == "Pow" and isinstance(b, int) and b >= 0:
                out = z3.IntVal(1)
                for _ in range(b):
                    out = out * iv(a)
                return sx(out)
        if isinstance(a, VRat) and is_int(b) and t == "Div":
            return VRat(a.n, sx(iv(a.d) * iv(b)))
        if isinstance(a, VRat) and is_int(b) and t == "Mult":
            return VRat(sx(iv(a.n) * iv(b)), a.d)
        if is_int(a) and isinstance(b, VRat) and t == "Mult":
            return VRat(sx(iv(a) * iv(b.n)), b.d)
        if is_str(a) and is_str(b) and t == "Add":
            return cat(a, b)
        if is_str(a) and t == "Mod":
            return View(self.fresh("fmt", Ln))
        if isinstance(a, str) and isinstance(b, int) and t == "Mult":
            return a * b
        if (is_flt(a) or isinstance(a, (int, VRat)) or is_int(a)) and (is_flt(b) or isinstance(b, (int, VRat)) or is_int(b)):
            nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "Mod": "mod", "Pow": "pow"}.get(t)
            if nm:
                return self.fbin(nm, a, b)
            if t == "FloorDiv":
                fop.setdefault("fdiv", z3.Function("ffdiv", Fl, Fl, Fl))
                return self.fbin("fdiv", a, b)
        if isinstance(a, VDT) and isinstance(b, VTD) and t in ("Add", "Sub"):
            return VDT(sx(iv(a.us) + iv(b.us) if t == "Add" else iv(a.us) - iv(b.us)))
        if isinstance(a, VTD) and isinstance(b, VDT) and t == "Add":
            return VDT(sx(iv(a.us) + iv(b.us)))
        if isinstance(a, VDT) and isinstance(b, VDT) and t == "Sub":
            return VTD(sx(iv(a.us) - iv(b.us)))
        if isinstance(a, VTD) and isinstance(b, VTD):
            if t == "Add":
                return VTD(sx(iv(a.us) + iv(b.us)))
            if t == "Sub":
                return VTD(sx(iv(a.us) - iv(b.us)))
            if t == "FloorDiv":
                return self.intdiv("FloorDiv", a.us, b.us)
            if t == "Mod":
                return VTD(self.intdiv("Mod", a.us, b.us))
        if isinstance(a, VTD) and is_int(b) and t == "Mult":
            return VTD(sx(iv(a.us) * iv(b)))
        if is_int(a) and isinstance(b, VTD) and t == "Mult":
            return VTD(sx(iv(a) * iv(b.us)))
        ka, kb = self.kind(a), self.kind(b)
        if t == "Add" and ka in ("list", "seq") and kb in ("list", "seq"):
            return self.alloc(HList(self.list_parts(a) + self.list_parts(b)))
        if t == "Add" and ka == "tuple" and kb == "tuple":
            return a + b
        if t == "Mult" and ka in ("list", "tuple") and is_int(b):
            return self.seq_repeat(a, b)
        if t == "Mult" and kb in ("list", "tuple") and is_int(a):
            return self.seq_repeat(b, a)
        if t == "Div" and ka.endswith("Path") and kb == "str":
            return METHODS[(ka, "truediv")](self, a, b)
        if "ndarray" in (ka, kb):
            from . import arrays
            return arrays.binop(self, t, a, b)
        if ("binop", ka) in METHODS:
            return METHODS[("binop", ka)](self, t, a, b)
        if ("binop", kb) in METHODS:
            return METHODS[("binop", kb)](self, t, a, b)
        if ka == "set" and kb == "set" and t in ("BitOr", "BitAnd", "Sub"):
            if all(isinstance(x, (str, int)) for x in a.items + b.items):
                sa, sb = set(a.items), set(b.items)
                return VSet(sorted({"BitOr": sa | sb, "BitAnd": sa & sb, "Sub": sa - sb}[t]))
        if "None" in (ka, kb) or (ka, kb) in (("datetime", "int"), ("datetime", "float"), ("str", "int"), ("int", "str")):
            self.raise_("TypeError", f"unsupported operand {t}: {ka} {kb}")
        raise Unsupported(f"{t} on {ka} and {kb}")

    def list_parts(self, v):
        if isinstance(v, Seq):
            return (("seq", v),)
        return self.get(v).parts

    def seq_repeat(self, v, n):
        if isinstance(v, tuple) and isinstance(n, int):
            return v * n
        if isinstance(v, Ref) and isinstance(n, int) and self.get(v).concrete:
            return self.alloc(HList(self.get(v).parts * n))
        items = list(v) if isinstance(v, tuple) else self.get(v).items()
        w = len(items)
        cnt = imax(0, n)
        s = Seq(sx(iv(cnt) * w), lambda k: items[0] if w == 1 else self.pick(items, sx(iv(k) % w)))
        if isinstance(v, tuple):
            s.rep = (v, n)
            return s
        return self.alloc(HList([("seq", s)]))

    def intdiv(self, t, a, b):
        """Python floor division / modulo on ints"""
        if isinstance(b, int):
            if b == 0:
                self.raise_("ZeroDivisionError")
            if b > 0:  # z3 div is floor for positive divisors
                return sx(iv(a) / b) if t == "FloorDiv" else sx(iv(a) % b)
            raise Unsupported("negative divisor")
        if not self.branch(sx(b != 0)):
            self.raise_("ZeroDivisionError")
        if not self.valid(b > 0):
            raise Unsupported("divisor of unknown sign")
        return sx(iv(a) / b) if t == "FloorDiv" else sx(iv(a) % b)

    def equal(self, a, b):
        """a == b as bool / z3 Bool"""
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, (int, float, str, bytes)) and isinstance(b, (int, float, str, bytes)):
            return a == b
        if is_str(a) and is_str(b):
            return strs.eq(self, a, b)
        if is_int(a) and is_int(b):
            return sx(iv(a) == iv(b))
        if is_bool(a) and is_bool(b):
            return sx(zb(a) == zb(b))
        if is_flt(a) and is_flt(b) or is_flt(a) and is_int(b) or is_int(a) and is_flt(b):
            x, y = self.tofl(a), self.tofl(b)
            if is_real(x):
                return sx(x == y)
            return fcmp["eq"](x, y)
        if isinstance(a, VDT) and isinstance(b, VDT) or isinstance(a, VTD) and isinstance(b, VTD):
            return sx(iv(a.us) == iv(b.us))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.equal(x, y) for x, y in zip(a, b)])
        if isinstance(a, VMod) and isinstance(b, VMod):
            return a.name == b.name
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return True
        if isinstance(a, VOpq) and isinstance(b, VOpq):
            return sx(a.term == b.term)
        ka, kb = self.kind(a), self.kind(b)
        if ("eq", ka) in METHODS:
            return METHODS[("eq", ka)](self, a, b)
        if ("eq", kb) in METHODS:
            return METHODS[("eq", kb)](self, b, a)
        if ka == "list" and kb == "list":
            x, y = self.get(a), self.get(b)
            if x.concrete and y.concrete:
                return self.equal(tuple(x.items()), tuple(y.items()))
        if ka != kb and {ka, kb} <= {"str", "int", "list", "tuple", "datetime", "timedelta", "dict", "bool", "float", "set", "bytes"}:
            return False
        raise Unsupported(f"== on {ka} and {kb}")

    def compare(self, op, a, b):
        t = type(op).__name__
        if t in ("Is", "IsNot"):
            if b is None or a is None:
                r = a is None and b is None
                k = self.kind(b if a is None else a)
                if ("isnone", k) in METHODS:
                    r = METHODS[("isnone", k)](self, b if a is None else a)
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif is_bool(a) and is_bool(b):
                r = sx(zb(a) == zb(b))
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = a == b
            elif isinstance(a, VMod) and isinstance(b, VMod):
                r = a.name == b.name
            else:
                raise Unsupported("is")
            return r if t == "Is" else Not(r)
        if t in ("In", "NotIn"):
            r = self.isin(a, b)
            return r if t == "In" else Not(r)
        ka, kb = self.kind(a), self.kind(b)
        if "ndarray" in (ka, kb):
            from . import arrays
            return arrays.compare(self, t, a, b)
        if ("compare", ka) in METHODS:
            return METHODS[("compare", ka)](self, t, a, b)
        if ("compare", kb) in METHODS:
            return METHODS[("compare", kb)](self, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(t, t), b, a)
        if t == "Eq":
            return self.equal(a, b)
        if t == "NotEq":
            return Not(self.equal(a, b))
        if isinstance(a, (VDT, VTD)) and type(a) is type(b):
            a, b = a.us, b.us
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[t]
        if is_int(a) and is_int(b):
            x, y = iv(a), iv(b)
            return sx({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[t])
        if isinstance(a, VRat) or isinstance(b, VRat):
            if isinstance(a, VRat) and is_int(b):
                if self.valid(iv(a.d) > 0):
                    x, y = iv(a.n), iv(b) * iv(a.d)
                    return sx({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[t])
            raise Unsupported("rational comparison")
        if (is_flt(a) or is_int(a)) and (is_flt(b) or is_int(b)):
            x, y = self.tofl(a), self.tofl(b)
            if is_real(x):
                return sx({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[t])
            hook = self.globals.get("#fcmphook")
            r = {"Lt": lambda: fcmp["lt"](x, y), "LtE": lambda: fcmp["le"](x, y),
                 "Gt": lambda: fcmp["lt"](y, x), "GtE": lambda: fcmp["le"](y, x)}[t]()
            if hook:
                hook(self, x, y, r)
            return r
        if "None" in (ka, kb):
            self.raise_("TypeError", f"'<' not supported between {ka} and {kb}")
        raise Unsupported(f"{t} on {ka} and {kb}")

    def isin(self, a, b):
        k = self.kind(b)
        if k == "str":
            if not is_str(a):
                self.raise_("TypeError", "in <string>")
            return strs.contains_(self, b, a)
        if k == "dict":
            r = self.get(b)
            if r.base or r.layers:
                from . import dicts
                return dicts.has(self, r, a)
            if isinstance(a, (str, int)) and not isinstance(a, VStr):
                return r.entries[a][0] if a in r.entries else False
            return Or(*[And(p, self.equal(a, key)) for key, (p, _) in r.entries.items()])
        if (k, "contains") in METHODS:
            return METHODS[(k, "contains")](self, b, a)
        if k in ("set", "tuple", "list", "seq"):
            if k == "seq" or k == "list" and not self.get(b).concrete:
                return self.seq_contains(self.seq_of(b), a)
            items = b.items if k == "set" else self.concrete_items(b)
            ka = self.kind(a)
            if k == "set" and ka in ("list", "dict", "DataArray", "ndarray"):
                self.raise_("TypeError", "unhashable type")
            return Or(*[self.equal(a, x) for x in items])
        if k == "None":
            self.raise_("TypeError", "argument of type 'NoneType' is not iterable")
        raise Unsupported(f"in {k}")

    def seq_contains(self, s, a):
        raise Unsupported("membership in a symbolic sequence")

    def arr_unop(self, f, v):
        from . import arrays
        return arrays.unop(self, f, v)
