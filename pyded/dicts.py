"""Dictionaries with a symbolic part.

HDict.base is a SymDict: has(key) -> condition, val(key) -> value, for a key
given as a text value.  HDict.layers are later writes ("put", key, value) or
("del", key), newest last; HDict.entries holds concrete-key writes made after
all layers... a write at a symbolic key moves entries below it.
"""
import z3
from .values import *
from .engine import *
from . import strs


class SymDict:
    def __init__(self, has, val, name="", seq=None):
        self.has, self.val, self.name, self.seq = has, val, name, seq


class Layer:
    def __init__(self, key, value, present=True):
        self.key, self.value, self.present = key, value, present

    def map(self, f):
        return Layer(vmap(self.key, f), vmap(self.value, f), self.present)


def from_seq(ctx, seq):
    return ctx.alloc(HDict({}, SymDict(None, None, "fromseq", seq)))


def flat(r):
    """all writes over the base, oldest first"""
    out = []
    for l in r.layers:
        out.append(l)
    for k, (p, v) in r.entries.items():
        out.append(Layer(k, v, p))
    return out


def lookup(ctx, r, key):
    """(cases, has): cases = [(cond, present, value)] in decreasing priority"""
    cases = []
    for l in reversed(flat(r)):
        c = ctx.equal(key, l.key)
        c = sx(c) if is_z3(c) else c
        if c is False:
            continue
        cases.append((c, l.present, l.value))
        if c is True and l.present is True:
            return cases
    if r.base is not None:
        if r.base.has is None:
            raise Unsupported("lookup in a dict built from a sequence")
        cases.append((True, r.base.has(ctx, key), lambda: r.base.val(ctx, key)))
    return cases


def has(ctx, r, key):
    out = False
    for c, p, v in reversed(lookup(ctx, r, key)):
        out = Or(And(c, p), And(Not(c), out))
    return out


def get(ctx, r, key, default=None, has_default=False):
    for c, p, v in lookup(ctx, r, key):
        if ctx.branch(c):
            if ctx.branch(p):
                return v() if callable(v) and not isinstance(v, (VFunc, VPartial)) else v
            break
    if has_default:
        return default
    ctx.raise_("KeyError", str(key))


def put(ctx, obj, key, value):
    r = ctx.get(obj)
    conc = isinstance(key, (str, int)) and not isinstance(key, VStr)
    if conc:
        e = dict(r.entries)
        e.pop(key, None)
        e[key] = (True, value)
        return ctx.put(obj, HDict(e, r.base, r.layers))
    ls = list(r.layers) + [Layer(k, v, p) for k, (p, v) in r.entries.items()] + [Layer(key, value)]
    ctx.put(obj, HDict({}, r.base, ls))
