"""Replay searches: one case maker per property.  A case draws a content, has
the real georinex read it and compares what came back with the content.

case_<ID>(rng, gr, tmp) -> (description dict, mismatch or None)
"""
import re
import bz2
import gzip
import io
import os
import random
import zipfile
from pathlib import Path
import datetime as dt
import lib
from lib import us_of, dt_of, US


class Skip(Exception):
    pass


def mk(rng, kind, **kw):
    c = lib.GEN[kind](rng, **kw)
    c["rseed"] = rng.randrange(10 ** 9)
    return c


def compare(gr, c, opt, text=None, src=None, want=None):
    got = lib.load_cells(gr, c, opt, text, src)
    return lib.diff(got, lib.CELLS[c["kind"]](c, opt) if want is None else want)


def desc(c, opt=None, text=None):
    return dict(kind=c["kind"], options={k: (sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in (opt or {}).items()},
                text=text if text is not None else lib.render(c))


# ------------------------------------------------------------------ C01
def timetext(rng):
    """(t tuple or None, is valid)"""
    k = rng.random()
    t = lib.epochs(rng, 1, y2=True)[0]
    if k < 0.35:
        t = t[:5] + (rng.randrange(0, 60 * 10 ** 7),)
    elif k < 0.6:  # decimals whose binary value is below the decimal one
        t = t[:5] + (rng.randrange(60) * 10 ** 7 + rng.randrange(10 ** 6) * 10,)
    elif k < 0.7:
        t = t[:5] + (rng.choice([0, 59]) * 10 ** 7 + rng.choice([0, 1, 9, 10, 9999999, 9999990, 5000000, 30, 20, 10]),)
    if rng.random() < 0.12:
        bad = list(t)
        i, v = rng.choice([(1, 13), (1, 0), (2, 0), (2, 32), (3, 24), (3, 99), (4, 60), (4, 75), (5, 60 * 10 ** 7), (5, 75 * 10 ** 7)])
        bad[i] = v
        if rng.random() < 0.3:
            bad[1], bad[2] = 2, rng.choice([30, 29 if bad[0] % 4 else 30])
        return tuple(bad), False
    return t, True


def case_C01(rng, gr, tmp):
    import importlib
    r = rng.random()
    if r < 0.75:
        mods = {k: importlib.import_module("georinex." + k) for k in ("obs2", "obs3", "nav2", "nav3", "sp3")}
        for _ in range(60):
            t, ok = timetext(rng)
            y, mo, d, h, mi, s7 = t
            which = rng.choice(["obs2", "obs3", "nav2", "nav3", "sp3", "hdr"])
            if which == "obs2":
                flag = rng.choice([0, 0, 0, 1, 5, 6, 2, 3, 4, 7, 9, "x"])
                ln = f" {y % 100:02d} {mo:2d} {d:2d} {h:2d} {mi:2d}{s7 // 10 ** 7:3d}.{s7 % 10 ** 7:07d}  {flag}  5G01G02\n"
                f, good = getattr(mods["obs2"], "_timeobs", None), ok and flag in (0, 1, 5, 6)
            elif which == "obs3":
                ln = f"> {y:4d} {mo:02d} {d:02d} {h:02d} {mi:02d}{s7 // 10 ** 7:3d}.{s7 % 10 ** 7:07d}  0  5\n"
                f, good = getattr(mods["obs3"], "_timeobs", None), ok
            elif which == "nav2":
                s7 = s7 // 10 ** 6 * 10 ** 6
                t = t[:5] + (s7,)
                ln = f"12 {y % 100:02d} {mo:2d} {d:2d} {h:2d} {mi:2d}{s7 / 1e7:5.1f}" + lib.navval(rng) + "\n"
                f, good = getattr(mods["nav2"], "_timenav", None), ok
            elif which == "nav3":
                s7 = s7 // 10 ** 7 * 10 ** 7
                t = t[:5] + (s7,)
                ln = f"G12 {y:4d} {mo:02d} {d:02d} {h:02d} {mi:02d} {s7 // 10 ** 7:02d}" + lib.navval(rng) + "\n"
                f, good = getattr(mods["nav3"], "_time", None), ok
            elif which == "hdr":
                if not ok and s7 >= 60 * 10 ** 7:
                    continue  # non-conforming seconds are patched
                ln = lib.tfo(t, "GPS")[:60]
                f, good = getattr(mods["obs2"], "_timehdr", None), ok
            else:
                carry = rng.random() < 0.3 and ok
                hh, mm, ss = h, mi, s7
                add = 0
                if carry:
                    if rng.random() < 0.7:
                        ss, add = 60 * 10 ** 7 + s7 % 10 ** 7, add + 60 * US
                        t = t[:5] + (s7 % 10 ** 7,)
                    if rng.random() < 0.5:
                        mm, add = 60, add + 3600 * US
                        t = t[:4] + (0,) + t[5:]
                    if rng.random() < 0.4:
                        hh, add = 24, add + 86400 * US
                        t = t[:3] + (0,) + t[4:]
                if not ok and (mi == 60 or s7 // 10 ** 7 == 60 or h == 24):
                    continue
                ln = f"*  {y:4d} {mo:2d} {d:2d} {hh:2d} {mm:2d}{ss // 10 ** 7:3d}.{ss % 10 ** 7:07d}0\n"
                f, good = getattr(mods["sp3"], "sp3dt", None), ok
            if f is None:
                continue
            want = us_of(t) if good else None
            if good and which == "sp3":
                want += add
            try:
                got = f(ln)
                if isinstance(got, dt.datetime):
                    e = got - dt.datetime(1970, 1, 1)
                    got = (e.days * 86400 + e.seconds) * US + e.microseconds
            except ValueError:
                got = None
            if got != want:
                return dict(function=f"{f.__module__}.{f.__name__}", line=ln), \
                    f"{f.__name__}({ln!r}) gave {got if not isinstance(got, int) else dt_of(got)}, the line says {dt_of(want) if want is not None else 'no valid time'}"
        return {}, None
    kind = rng.choice(["obs2", "obs3", "nav2", "nav3"])
    c = mk(rng, kind)
    text = lib.render(c)
    try:
        got = lib.time_us(gr.gettime(lib.stream(text))).tolist()
    except OverflowError:
        raise Skip
    recs = c.get("epochs") or c.get("recs")
    want = [us_of(e["t"]) for e in recs]
    if kind.startswith("nav"):
        want = sorted(set(want))
    if got != want:
        return desc(c, text=text), f"gettime gave {[str(dt_of(x)) for x in got][:12]}, file has {[str(dt_of(x)) for x in want][:12]}"
    if kind.startswith("obs"):
        h = gr.rinexheader(lib.stream(text))
        if h.get("t0") != dt_of(want[0]):
            return desc(c, text=text), f"TIME OF FIRST OBS decoded as {h.get('t0')}, header says {dt_of(want[0])}"
    return desc(c), None


# ------------------------------------------------------------------ reads
def case_C02(rng, gr, tmp):
    c = mk(rng, "obs2")
    opt = dict(useindicators=rng.random() < 0.5, fast=rng.random() < 0.6)
    text = lib.render(c)
    return desc(c, opt, text), compare(gr, c, opt, text)


def case_C03(rng, gr, tmp):
    c = mk(rng, "obs3")
    opt = dict(useindicators=rng.random() < 0.5)
    text = lib.render(c)
    return desc(c, opt, text), compare(gr, c, opt, text)


def case_C04(rng, gr, tmp):
    c = mk(rng, "nav2")
    text = lib.render(c)
    m = compare(gr, c, {}, text)
    if not m and c["ion"]:
        got = gr.load(lib.stream(text)).attrs.get("ionospheric_corr_GPS")
        want = [lib.fl(x) for x in c["ion"][0] + c["ion"][1]]
        if got is None or list(got) != want:
            m = f"ionospheric_corr_GPS is {got}, header says {want}"
    return desc(c, {}, text), m


def nav3_multi(gr, c, opt, text):
    """records of one satellite and epoch, as a multiset, under copy names"""
    got = lib.load_cells(gr, c, opt, text)
    return lib.diff(got, lib.cells_nav3(c, opt))


def case_C05(rng, gr, tmp):
    c = mk(rng, "nav3")
    text = lib.render(c)
    return desc(c, {}, text), nav3_multi(gr, c, {}, text)


def case_C06(rng, gr, tmp):
    c = mk(rng, "sp3")
    text = lib.render(c)
    fn = Path(tmp) / "x.sp3"
    fn.write_text(text)
    ds = gr.load(fn) if rng.random() < 0.5 else gr.load_sp3(fn, None)
    m = lib.diff(lib.cells_of(ds), lib.cells_sp3(c))
    svs = [(f"{n}" if c["gblank"] else f"{s}{n:02d}") for s, n in c["svs"]]
    if not m and [str(s) for s in ds.sv.values] != svs:
        m = f"satellite list {[str(s) for s in ds.sv.values]} should be {svs}"
    ts = [us_of(e["t"]) for e in c["epochs"]]
    if not m and lib.time_us(ds.time.values).tolist() != ts:
        m = f"epochs {ds.time.values} should be {[str(dt_of(t)) for t in ts]}"
    return desc(c, {}, text), m


def times_of(c):
    return [us_of(e["t"]) for e in (c.get("epochs") or c.get("recs"))]


def case_C07(rng, gr, tmp):
    kind = rng.choice(["obs2", "obs3", "obs3", "nav2", "nav3"])
    c = mk(rng, kind, **({"ordered": rng.random() < 0.5} if kind == "nav2" else {}))
    opt = dict(tlim=lib.pick_tlim(rng, times_of(c)))
    if kind == "obs2":
        opt["fast"] = rng.random() < 0.5
    text = lib.render(c)
    return desc(c, opt, text), compare(gr, c, opt, text)


def pick_meas(rng, names):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice(names)
        out.append(n[:rng.choice([1, 1, 2, 3])])
    if rng.random() < 0.2:
        out.append("Q")
    return out[0] if len(out) == 1 and rng.random() < 0.5 else out


def pick_use(rng, systems):
    k = rng.randrange(1, len(systems) + 1)
    u = set(rng.sample(sorted(systems), k))
    if rng.random() < 0.3:
        u.add(rng.choice("GRECJSI"))
    return next(iter(u)) if len(u) == 1 and rng.random() < 0.5 else u


def sel_opts(rng, c):
    opt = {}
    if c["kind"] == "obs2":
        if rng.random() < 0.7:
            opt["meas"] = pick_meas(rng, c["fields"])
        if rng.random() < 0.5:
            opt["use"] = pick_use(rng, set("GRES") if c["system"] == "M" else {c["system"].replace(" ", "G")})
    elif c["kind"] == "obs3":
        if rng.random() < 0.7:
            opt["meas"] = pick_meas(rng, sum(c["lists"].values(), []))
        if rng.random() < 0.6:
            opt["use"] = pick_use(rng, set(c["lists"]))
    elif c["kind"] == "nav3":
        opt["use"] = pick_use(rng, {r["sv"][0] for r in c["recs"]})
    return opt


def case_C08(rng, gr, tmp):
    kind = rng.choice(["obs2", "obs3", "obs3", "nav3"])
    c = mk(rng, kind, **({"system": "M"} if rng.random() < 0.6 and kind != "nav3" else {}))
    opt = sel_opts(rng, c)
    if kind != "nav3":
        opt["useindicators"] = rng.random() < 0.4
    if kind == "obs2":
        opt["fast"] = rng.random() < 0.5
    text = lib.render(c)
    if kind == "obs3" and "use" in opt and not set(opt["use"]) & set(c["lists"]):
        raise Skip
    m = compare(gr, c, opt, text)
    if not m and kind == "obs2" and "meas" in opt:
        got = set(map(str, gr.load(lib.stream(text), **dict(lib.kwargs_of(opt), fast=False)).data_vars))
        want = {f for f in c["fields"] if lib.wanted(f, opt["meas"])}
        allowed = want | {f + "lli" for f in want} | {f + "ssi" for f in want} if opt.get("useindicators") else want
        if got - allowed or (want - got and lib.cells_obs2(c, opt)):
            m = f"observables read {sorted(got)}, selected {sorted(want)}"
    return desc(c, opt, text), m


def case_C09(rng, gr, tmp):
    kind = rng.choice(["obs2", "obs2", "obs3"])
    c = mk(rng, kind, ne=rng.choice([2, 4, 6, 9, 12]), **({"nf": rng.choice([1, 2, 5, 6])} if kind == "obs2" else {}))
    ts = times_of(c)
    d = [b - a for a, b in zip(ts, ts[1:])] or [US]
    if rng.random() < 0.05:
        try:
            gr.load(lib.stream(lib.render(c)), interval=-rng.choice([0.5, 1, 30]))
            return desc(c, {}), "a negative interval was not refused"
        except ValueError:
            return desc(c, {}), None
    iv = rng.choice([0, min(d), min(d) * 2, max(d), min(d) * 3 // 2, max(d) + 1, 30 * US, US])
    opt = dict(interval=iv / US)
    iv2 = int(round(opt["interval"] * US))
    if abs(iv2 - iv) > 0:
        raise Skip
    if rng.random() < 0.3:
        opt["tlim"] = lib.pick_tlim(rng, ts)
    if kind == "obs2":
        opt["fast"] = rng.random() < 0.5
    text = lib.render(c)
    if rng.random() < 0.3:
        kw = dict(opt, interval=dt.timedelta(microseconds=iv))
    else:
        kw = dict(opt)
    try:
        got = lib.load_cells(gr, c, kw, text)
    except IndexError:
        raise
    return desc(c, opt, text), lib.diff(got, lib.CELLS[kind](c, opt))


def case_C10(rng, gr, tmp):
    c = mk(rng, "obs2", full=rng.random() < 0.8)
    opt = sel_opts(rng, c) if rng.random() < 0.4 else {}
    opt["useindicators"] = rng.random() < 0.4
    ts = times_of(c)
    if rng.random() < 0.4:
        opt["tlim"] = lib.pick_tlim(rng, ts)
    if rng.random() < 0.3:
        opt["interval"] = rng.choice([30, 1, 0, 60, 7])
    text = lib.render(c)
    kw = lib.kwargs_of(opt)
    try:
        fast = lib.cells_of(gr.load(lib.stream(text), fast=True, **kw))
    except IndexError:
        fast = None
    strict = lib.cells_of(gr.load(lib.stream(text), fast=False, **kw))
    want = lib.cells_obs2(c, opt)
    m = lib.diff(strict, want)
    if m:
        m = "fast=False: " + m
    elif fast is not None:
        m = lib.diff(fast, want)
        if m:
            m = "fast=True: " + m
    return desc(c, opt, text), m


def case_C11(rng, gr, tmp):
    kind = rng.choice(["obs2", "obs3", "nav2", "nav3"])
    c = mk(rng, kind)
    if kind in ("obs2", "nav2") and rng.random() < 0.4:
        c["decoys"] = [rng.choice([1, 2, 3, 4, 4, 5, 6, 7, 8, 12, 20])]
    text = lib.render(c)
    try:
        got = lib.time_us(gr.gettime(lib.stream(text))).tolist()
    except OverflowError:
        raise Skip
    want = times_of(c)
    if kind.startswith("nav"):
        want = sorted(set(want))
    m = None
    if got != want:
        m = f"gettime gave {[str(dt_of(x)) for x in got]}, the file has {[str(dt_of(x)) for x in want]}"
    return desc(c, {}, text), m


# ------------------------------------------------------------------ C12
def case_C12(rng, gr, tmp):
    import importlib
    from unittest import mock
    rio = importlib.import_module("georinex.rio")
    base = importlib.import_module("georinex.base")
    utils = importlib.import_module("georinex.utils")
    ver = rng.choice(["2.11", "2", "2.10", "3.02", "3.04", "3", "1.00", "4.00", "5", "0.9", "abc", ""])
    ft = rng.choice("ONGEHMLJC B")
    sysl = rng.choice("GRECJSIM  ")
    rest = rng.choice(["BSERVATION DATA", ": GNSS NAV DATA", "AV DATA", "LONASS NAV DATA", "", "BS"])
    label = rng.choice(["RINEX VERSION / TYPE"] * 6 + ["CRINEX VERS   / TYPE", "RINEX VERSION/TYPE  ", "PGM / RUN BY / DATE"])
    k = rng.random()
    short = False
    if k < 0.12:
        v = rng.choice("abcdexyz ")
        line = f"#{v}P2001  8  8  0  0  0.00000000     192 ORBIT IGS97 HLM  IGS"
    elif k < 0.17:
        line = rng.choice(["x", "2.11", "12.5 3.1", "3.04           O", "\x7fELF", "hello world", "#", "<html>"])
    else:
        vt = f"{ver:>9s}" if "." in ver else f"{ver:>6s}   "
        line = f"{vt}{'':11s}{ft}{rest:<19s}{sysl:<20s}{label:<20s}"
        if label.startswith("CRINEX"):
            line = f"{'1.0':<20s}{'COMPACT RINEX FORMAT':<40s}{label}"
            ver, ft, sysl, rest = "1.0", "C", " ", "OMPACT RINEX FORMAT"
        if rng.random() < 0.1:
            line = line[:rng.choice([41, 60])]
            short = True
    nb = rng.choice([0, 0, 1, 5, 8])
    text = "\n" * nb + line + "\n" + "x\n" * 5
    # expected
    exp = None
    if line.startswith("#") and len(line) >= 2:
        if line[1] in "acd":
            exp = dict(version=line[1], rinextype="sp3")
    elif len(line) > 40:
        try:
            v = float(line[:9])
            if len(line) < 80 or line[60:80] in ("RINEX VERSION / TYPE", "CRINEX VERS   / TYPE"):
                s = line[40]
                if int(v) == 2:
                    s = {"N": "G", "G": "R", "E": "E"}.get(line[20], s if s != " " else "G")
                rt = "obs" if line[20] in "OC" else "nav" if line[20] == "N" or "NAV" in line[20:40] else line[20]
                exp = dict(version=v, filetype=line[20], rinextype=rt, systems=s)
        except ValueError:
            pass
    d = dict(text=text)
    try:
        got = dict(gr.rinexinfo(lib.stream(text)))
    except ValueError:
        got = None
    except Exception as e:
        got = f"{type(e).__name__}: {e}"
    if short and got is None:
        return d, None
    if got != exp:
        return d, f"rinexinfo gave {got}, the first line says {exp}"
    if exp is None:
        return d, None
    # dispatch with the reader functions replaced by recorders
    names = {base: ["rinexobs2", "rinexobs3", "rinexnav2", "rinexnav3", "load_sp3"],
             utils: ["obstime2", "obstime3", "navtime2", "navtime3", "obsheader2", "obsheader3", "navheader2", "navheader3"]}
    calls = []
    patches = []
    for mod, ns in names.items():
        for n in ns:
            if not hasattr(mod, n):
                raise Skip

            def rec(*a, _n=n, **k):
                calls.append((_n, a, k))
                return _n
            patches.append(mock.patch.object(mod, n, rec))
    import inspect
    sig = {n: inspect.signature(getattr(base, n)) for n in names[base]}
    opt = dict(use={"G"}, tlim=(dt.datetime(2000, 1, 1), dt.datetime(2001, 1, 1)), useindicators=True, meas=["C1"],
               verbose=False, fast=rng.random() < 0.5, interval=rng.choice([None, 30]))
    fn = Path(tmp) / "in.txt"
    fn.write_text(text)
    rt, v = exp["rinextype"], exp["version"]
    iv = int(v) if isinstance(v, float) else None
    reader = {("obs", 1): "rinexobs2", ("obs", 2): "rinexobs2", ("obs", 3): "rinexobs3", ("nav", 2): "rinexnav2",
              ("nav", 3): "rinexnav3"}.get((rt, iv))
    if rt == "sp3":
        reader = "load_sp3"
    timer = {("obs", 1): "obstime2", ("obs", 2): "obstime2", ("obs", 3): "obstime3", ("nav", 1): "navtime2",
             ("nav", 2): "navtime2", ("nav", 3): "navtime3"}.get((rt, iv))
    header = timer and {"obstime2": "obsheader2", "obstime3": "obsheader3", "navtime2": "navheader2", "navtime3": "navheader3"}[timer]
    crx = line[20:40] == "COMPACT RINEX FORMAT"
    for what, want, call in (("load", reader, lambda: gr.load(fn, **opt)), ("gettime", timer, lambda: gr.gettime(fn)),
                             ("rinexheader", header, lambda: gr.rinexheader(fn))):
        calls.clear()
        for p in patches:
            p.start()
        try:
            try:
                r = call()
            except (ValueError, LookupError, AssertionError) as e:
                r = e
        finally:
            for p in patches:
                p.stop()
        got = [n for n, _, _ in calls]
        if want is None:
            if got or not isinstance(r, Exception):
                return d, f"{what} of a {rt} version {v} text used {got} and returned {r!r} instead of refusing it"
            continue
        if got != [want]:
            return d, f"{what} of a {rt} version {v} text used {got} (result {r!r}), not {want}"
        if what == "load" and want != "load_sp3":
            n, a, k = calls[0]
            try:
                b = sig[n].bind(*a, **k).arguments
            except TypeError:
                raise Skip
            for o in set(opt) & set(sig[n].parameters):
                dflt = sig[n].parameters[o].default
                if b.get(o, dflt) != opt[o]:
                    return d, f"load passed {o}={b.get(o, dflt)!r} to {n} instead of {opt[o]!r}"
    return d, None


# ------------------------------------------------------------------ C13
def same_header(a, b):
    import numpy as np
    ign = {"version", "filetype", "systems", "RINEX VERSION / TYPE", "CRINEX PROG / DATE"}

    def eq(x, y):
        if isinstance(x, dict) and isinstance(y, dict):
            return x.keys() == y.keys() and all(eq(x[k], y[k]) for k in x)
        if isinstance(x, slice) or isinstance(y, slice):
            return x == y
        try:
            return bool(np.array_equal(np.asarray(x), np.asarray(y)))
        except Exception:
            return x == y
    for k in (a.keys() | b.keys()) - ign:
        if k not in a or k not in b or not eq(a[k], b[k]):
            return f"header entry {k!r}: {a.get(k)!r} / {b.get(k)!r}"
    return None


def case_C13(rng, gr, tmp):
    kind = rng.choice(["obs2", "obs3", "nav2", "nav3"])
    c = mk(rng, kind, final_newline=True, leading_blank=0)
    crx = kind.startswith("obs") and rng.random() < 0.5
    form = rng.choice(["plain", "gz", "bz2", "Z", "zip", "stream"])
    if form == "Z" or crx or rng.random() < 0.7:
        pass
    if crx:
        for e in c["epochs"]:
            e.update(event=None, flag=0, clk=False)
        c["blank_after_header"] = False
        if form == "stream":
            form = "plain"
    text = lib.render(c)
    n = len(c.get("fields", ()))
    if kind == "obs2" and not crx and n % 5 and rng.random() < 0.2:
        # one observable more declared than listed: reported, not refused
        i = text.rindex("\n", 0, text.index("# / TYPES OF OBSERV")) + 1
        text = text[:i] + f"{n + 1:6d}" + text[i + 6:]
    body = text.encode("ascii")
    if crx:
        import hatanaka
        try:
            x = hatanaka.rnx2crx(text)
        except Exception:
            raise Skip
        body = x.encode("ascii") if isinstance(x, str) else x
        # the plain text that the Hatanaka form contains
        text = hatanaka.crx2rnx(x.decode() if isinstance(x, bytes) else x)
        if isinstance(text, bytes):
            text = text.decode()
    junk = rng.random() < 0.25 and form != "stream"
    if junk and not crx and b"COMMENT" in body:
        # bytes outside ASCII are dropped from every kind of file
        body = body.replace(b"COMMENT", b"\xe9\xffCOMMENT", 1)
    crlf = rng.random() < 0.3 and form != "stream" and not crx
    if crlf:
        body = body.replace(b"\n", b"\r\n")
    named = rng.random() < 0.6
    # suffix by form, or a name that says nothing
    suffix = {"gz": rng.choice([".gz", ".GZ"]), "bz2": ".bz2", "zip": ".zip", "Z": rng.choice([".Z", ".z"]), "plain": ""}.get(form, "")
    fn = Path(tmp) / ("f" + ("" if rng.random() < 0.5 else ".rnx") + (suffix if named else ""))
    if form == "gz":
        fn.write_bytes(gzip.compress(body))
    elif form == "bz2":
        fn.write_bytes(bz2.compress(body))
    elif form == "Z":
        import ncompress
        out = ncompress.compress(body)
        fn.write_bytes(out)
    elif form == "zip":
        with zipfile.ZipFile(fn, "w", rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
            z.writestr("inner.rnx", body)
    else:
        fn.write_bytes(body)
    ref = lib.stream(text)
    opt = {}
    if kind.startswith("obs"):
        opt = dict(useindicators=rng.random() < 0.3)

    def src():
        if form == "stream":
            s = lib.stream(text)
            s.seek(rng.choice([0, 0, len(text), rng.randrange(len(text) + 1)]))
            return s
        return fn if rng.random() < 0.6 else str(fn)
    d = dict(form=form, named=named, hatanaka=crx, crlf=crlf, junk=junk, text=text)
    try:
        # decoded content against the file contents
        m = lib.diff(lib.load_cells(gr, c, opt, text, src()), lib.CELLS[kind](c, opt))
        if not m:
            s = src()
            a, b = lib.time_us(gr.gettime(s if not isinstance(s, str) else Path(s))).tolist(), lib.time_us(gr.gettime(ref)).tolist()
            if a != b:
                m = f"gettime differs: {a} / {b}"
        if not m:
            m = same_header(gr.rinexheader(src()), gr.rinexheader(lib.stream(text)))
        if not m:
            i, j = gr.rinexinfo(src()), gr.rinexinfo(lib.stream(body.decode("ascii", errors="ignore").replace("\r\n", "\n")))
            if dict(i) != dict(j):
                m = f"rinexinfo differs: {i} / {j}"
    finally:
        os.unlink(fn)
    if not m:
        for f in (gr.load, gr.rinexinfo, gr.gettime, gr.rinexheader):
            try:
                f(Path(tmp) / "nosuchfile.rnx")
                m = f"{f.__name__} of a missing file did not raise FileNotFoundError"
            except FileNotFoundError:
                pass
            except Exception as e:
                m = f"{f.__name__} of a missing file raised {type(e).__name__}"
    return d, m


# ------------------------------------------------------------------ C14
def dump(fn):
    import xarray
    out = {}
    for g in ("OBS", "NAV", "GRP"):
        try:
            with xarray.open_dataset(fn, group=g) as ds:
                ds = ds.load()
                out[g] = ({v: ds[v].values.tobytes() for v in sorted(map(str, ds.variables))},
                          {k: str(v) for k, v in ds.attrs.items()})
        except OSError:
            pass
    return out


def case_C14(rng, gr, tmp):
    import contextlib
    import xarray
    tmp = Path(tmp) / f"w{rng.randrange(10 ** 9)}"
    tmp.mkdir()
    out = tmp / "o.nc"
    hist = []
    try:
        for _ in range(rng.choice([2, 3, 4])):
            kind = rng.choice(["obs2", "obs3", "nav2", "nav3"])
            c = mk(rng, kind, leading_blank=0)
            if kind == "nav3":
                c = mk(rng, kind, dups=False)
            c["position"] = None if "position" in c else None
            text = lib.render(c)
            if not (lib.CELLS[kind](c, {})):
                raise Skip
            fn = tmp / f"in{rng.randrange(3)}.{kind}"
            fn.write_text(text)
            ow = rng.random() < 0.3
            usedir = rng.random() < 0.3
            viadir = tmp / (fn.name + ".nc")
            target = viadir if usedir else out
            group = "OBS" if kind.startswith("obs") else "NAV"
            custom = rng.random() < 0.2
            before = dump(target) if target.is_file() else {}
            raw = target.read_bytes() if target.is_file() else None
            hist.append(dict(kind=kind, overwrite=ow, target=target.name, group=group, had=sorted(before)))
            kw = {} if kind.startswith("nav") else dict(fast=False)
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    if custom:
                        group = "GRP"
                        hist[-1]["group"] = group
                        f = gr.rinexobs if kind.startswith("obs") else gr.rinexnav
                        ds = f(fn, target, group=group, overwrite=ow, **kw)
                    else:
                        ds = gr.load(fn, tmp if usedir else out, overwrite=ow, **kw)
                    err = None
                except ValueError as e:
                    err = e
            after = dump(target) if target.is_file() else {}
            d = dict(history=hist, text=text)
            if group in before and not ow:
                if err is None:
                    return d, f"saving group {group} again did not raise ValueError"
                if target.read_bytes() != raw and after != before:
                    return d, "the refused save changed the file"
                continue
            if err is not None:
                return d, f"saving {group} next to {sorted(before)} raised {err!r}"
            if not ow:
                for g in before:
                    if after.get(g) != before[g]:
                        return d, f"group {g} was changed by saving {group}"
            elif set(after) != {group}:
                return d, f"after overwriting the file holds {sorted(after)}"
            if group not in after:
                return d, f"group {group} was not written to {target.name}"
            with xarray.open_dataset(target, group=group) as st:
                m = lib.diff(lib.cells_of(st.load()), lib.cells_of(ds))
            if m:
                return d, "stored data differ from the returned ones: " + m
        bad = tmp / rng.choice(["x.txt", "x.h5", "noext", "sub/x"])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                gr.load(fn, bad)
            return dict(history=hist, out=bad.name), f"output path {bad.name} was not refused"
        except ValueError:
            pass
        if bad.exists():
            return dict(history=hist, out=bad.name), f"refused output path {bad.name} was written"
        return dict(history=hist), None
    finally:
        import shutil
        shutil.rmtree(tmp)


# ------------------------------------------------------------------ C15
def case_C15(rng, gr, tmp):
    import importlib
    import contextlib
    from unittest import mock
    import shutil
    base = importlib.import_module("georinex.base")
    tmp = Path(tmp) / f"b{rng.randrange(10 ** 9)}"
    (tmp / "in").mkdir(parents=True)
    (tmp / "out").mkdir()
    try:
        names = []
        for i in range(rng.randrange(0, 7)):
            n = rng.choice(["a", "b", "c", "dd"]) + str(i) + rng.choice([".rnx", ".10o", ".txt", ".rnx"])
            p = tmp / "in" / n
            if rng.random() < 0.15:
                p.mkdir()
            else:
                p.write_text("x")
                names.append(n)
        pat = rng.choice(["*", "*.rnx", "a*", "*.10o", "?[0-3].*", "nomatch*"])
        import fnmatch
        match = sorted(n for n in names if fnmatch.fnmatchcase(n, pat))
        bad = {n for n in match if rng.random() < 0.4}
        opt = dict(use={"G"}, tlim=("2000-01-01", "2001-01-01"), useindicators=True, meas=["C1"], fast=rng.random() < 0.5)
        calls = []
        import inspect
        sig = inspect.signature(base.load)

        def load(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            calls.append(b.arguments)
            if Path(b.arguments["rinexfn"]).name in bad:
                raise ValueError("not a RINEX file")
        with mock.patch.object(base, "load", load):
            try:
                base.batch_convert(rng.choice([str, Path])(tmp / "in"), pat, tmp / "out", **opt)
            except ValueError as e:
                return dict(files=match, bad=sorted(bad)), f"batch_convert stopped at {e}"
        got = sorted(Path(a["rinexfn"]).name for a in calls)
        d = dict(files=sorted(names), pattern=pat, bad=sorted(bad))
        if got != match:
            return d, f"attempted {got}, matching regular files {match}"
        for a in calls:
            for k, v in opt.items():
                if a[k] != v:
                    return d, f"option {k}={a[k]!r} instead of {v!r}"
            if a["out"] is None or Path(a["out"]) != tmp / "out":
                return d, f"output location {a['out']!r}"
            if a["overwrite"]:
                return d, "batch conversion overwrites"
        # file lookup
        pats = rng.sample(["*.rnx", "*.10o", "*.txt", "zz*"], rng.choice([1, 2, 3]))
        got = gr.globber(tmp / "in", pats if rng.random() < 0.7 or len(pats) > 1 else pats[0])
        want = sorted(n for p in pats for n in names if fnmatch.fnmatchcase(n, p))
        if sorted(p.name for p in got) != want:
            return dict(files=names, pats=pats), f"globber gave {[p.name for p in got]} for {want}"
        if names:
            p = tmp / "in" / names[0]
            if gr.globber(p, ["*"]) != [p]:
                return dict(files=names), "globber of a file did not return the file itself"
        # real files: a bad one among good ones
        if rng.random() < 0.1:
            real = tmp / "real"
            real.mkdir()
            for i in range(3):
                (real / f"g{i}.rnx").write_text(lib.render(mk(rng, "nav2", leading_blank=0)) if i != 1 else "garbage\n" * 5)
            with contextlib.redirect_stdout(io.StringIO()):
                gr.batch_convert(real, "*.rnx", tmp / "out")
            got = sorted(p.name for p in (tmp / "out").iterdir())
            if got != ["g0.rnx.nc", "g2.rnx.nc"]:
                return dict(files=["g0", "bad g1", "g2"]), f"batch conversion wrote {got}"
        return d, None
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------------------------ C16
def case_C16(rng, gr, tmp):
    kind = rng.choice(["obs2", "obs3", "nav2", "nav3"])
    c = mk(rng, kind)
    text = lib.render(c)
    lines = text.split("\n")
    # some extra records, one label repeated, one optional record malformed
    end = next(i for i, l in enumerate(lines) if "END OF HEADER" in l)
    extra = []
    if kind.startswith("obs"):
        for _ in range(rng.randrange(0, 3)):
            extra.append(lib.hline(f"note {rng.randrange(1000)}", rng.choice(["COMMENT", "MARKER NUMBER", "OBSERVER / AGENCY"])))
        if rng.random() < 0.2:
            extra.append(lib.hline(rng.choice(["abc", "", "  1990"]), "TIME OF LAST OBS"))
        elif rng.random() < 0.5:
            last = lib.epochs(rng, 1)[0]
            extra.append(lib.tfo(last, "GPS", "TIME OF LAST OBS"))
        else:
            last = None
        if rng.random() < 0.2 and not c["interval"]:
            extra.append(lib.hline(rng.choice(["", "abc"]), "INTERVAL"))
        if kind == "obs2" and rng.random() < 0.3:
            extra.append(lib.hline(rng.choice(["    24", "", "x"]), "# OF SATELLITES"))
    else:
        if rng.random() < 0.5:
            extra.append(lib.hline("    18", "LEAP SECONDS"))
        if rng.random() < 0.3:
            extra.append(lib.hline("a", "COMMENT"))
    lines[end:end] = extra
    lines = lines[:end + len(extra) + 1] + rng.choice([["after                                                       COMMENT"], []]) + lines[end + len(extra) + 1:]
    text = "\n".join(lines)
    hl = [l for l in lines[:next(i for i, l in enumerate(lines) if "END OF HEADER" in l)]]
    first = next(i for i, l in enumerate(hl) if l.strip())
    d = dict(kind=kind, text=text)
    h = gr.rinexheader(lib.stream(text))
    special = {"# / TYPES OF OBSERV", "SYS / # / OBS TYPES", "IONOSPHERIC CORR", "TIME SYSTEM CORR", "# OF SATELLITES"}
    want = {}
    for l in hl[first + 1:]:
        lab, cont = l[60:80].strip(), l[:60]
        if lab in special:
            continue
        if kind.startswith("obs") and lab in want:
            want[lab] += " " + cont
        else:
            want[lab] = cont
    for k, v in want.items():
        if h.get(k) != v:
            return d, f"header record {k!r} is {h.get(k)!r}, the file says {v!r}"
    for k in h:
        if isinstance(h[k], str) and k.isupper() and k not in want and k not in special:
            return d, f"header record {k!r} is not in the header"
    try:
        vf = float(c["version"])
        if h["version"] != vf:
            return d, f"version {h['version']}"
    except KeyError:
        return d, "no version"
    if kind == "obs2":
        if h["fields"] != c["fields"] or h["Nobs"] != len(c["fields"]) or h.get("# / TYPES OF OBSERV") != c["fields"]:
            return d, f"observables {h['fields']} ({h['Nobs']}), the header lists {c['fields']}"
    if kind == "obs3" and h["fields"] != c["lists"]:
        return d, f"observables {h['fields']}, the header lists {c['lists']}"
    if kind.startswith("obs"):
        p = lib.exp_position(c)
        if p is None:
            if "position" in h and h["position"]:
                return d, f"position {h['position']} from no record"
        elif h.get("position") != p:
            return d, f"position {h.get('position')} instead of {p}"
        else:
            import pymap3d
            g = pymap3d.ecef2geodetic(*p)
            if not all(abs(a - b) < 1e-6 for a, b in zip(h["position_geodetic"], g)):
                return d, f"geodetic position {h['position_geodetic']} instead of {g}"
        iv = float(c["interval"]) if c["interval"] else None
        if h.get("interval") != iv:
            return d, f"interval {h.get('interval')} instead of {iv}"
        if h.get("t0") != dt_of(us_of(c["epochs"][0]["t"])):
            return d, f"t0 {h.get('t0')} instead of {dt_of(us_of(c['epochs'][0]['t']))}"
        ll = [l for l in extra if l[60:].startswith("TIME OF LAST")]
        if kind == "obs2":
            if ll and "GPS" in ll[0]:
                if h.get("t1") != dt_of(us_of(last)):
                    return d, f"t1 {h.get('t1')} instead of {dt_of(us_of(last))}"
            elif "t1" in h:
                return d, f"t1 {h['t1']} from no valid record"
    if kind.startswith("obs") and rng.random() < 0.25:
        # a time record that is no time never makes the header unreadable
        i = next((i for i, l in enumerate(lines) if l[60:].startswith("TIME OF FIRST")), None)
        if i is not None:
            bad = list(lines)
            bad[i] = bad[i][:30] + rng.choice(["   inf       ", "   nan       ", "     abc     ", "   1e999     "]) + bad[i][43:]
            d = dict(kind=kind, text="\n".join(bad))
            try:
                h2 = gr.rinexheader(lib.stream(d["text"]))
            except Exception as e:
                return d, f"header with seconds {bad[i][30:43]!r} in TIME OF FIRST OBS raised {type(e).__name__}: {e}"
            if h2.get("fields") != h.get("fields") or h2.get("position") != h.get("position"):
                return d, "a malformed TIME OF FIRST OBS changed other entries"
            d = dict(kind=kind, text=text)
    if kind == "nav3":
        want = {k: [lib.fl(x) for x in v] for k, v in c["ion"].items()}
        if (h.get("IONOSPHERIC CORR") or {}) != want:
            return d, f"IONOSPHERIC CORR {h.get('IONOSPHERIC CORR')} instead of {want}"
        want = {k: [lib.fl(a), lib.fl(b), n, w] for k, (a, b, n, w) in c["timecorr"].items()}
        if (h.get("TIME SYSTEM CORR") or {}) != want:
            return d, f"TIME SYSTEM CORR {h.get('TIME SYSTEM CORR')} instead of {want}"
    return d, None


# ------------------------------------------------------------------ C17
def case_C17(rng, gr, tmp):
    import math
    import numpy as np
    import xarray
    n = rng.choice([1, 1, 2, 3, 6])
    sysl = rng.choice(["G", "G", "E", "R", "S", "C", "J"])
    how = rng.choice(["svtype", "scalar", "vector"])
    U = rng.uniform
    week = rng.choice([rng.randrange(0, 1024), rng.randrange(1024, 2400), rng.randrange(2400, 4000)])
    toe = [rng.randrange(0, 604800, 16) + 0.0 for _ in range(n)]
    weeks = [week + rng.choice([0, 0, 1]) for _ in range(n)]
    t0 = dt.datetime(1980, 1, 6)
    times = []
    tks = []
    for w, s in zip(weeks, toe):
        k = U(-7200, 7200) if rng.random() < 0.8 else U(-302400, 302400)
        k = round(k, 3) if rng.random() < 0.5 else float(round(k))
        t = t0 + dt.timedelta(weeks=w, seconds=s) + dt.timedelta(seconds=k)
        times.append(t)
        tks.append((t - (t0 + dt.timedelta(weeks=w, seconds=s))).total_seconds())
    p = {k: [f() for _ in range(n)] for k, f in dict(
        sqrtA=lambda: U(5100, 5500), DeltaN=lambda: U(-6e-9, 6e-9), M0=lambda: U(-3.14, 3.14), Eccentricity=lambda: U(0, 0.03),
        omega=lambda: U(-3.14, 3.14), Cuc=lambda: U(-1e-5, 1e-5), Cus=lambda: U(-1e-5, 1e-5), Crc=lambda: U(-400, 400),
        Crs=lambda: U(-400, 400), Cic=lambda: U(-1e-6, 1e-6), Cis=lambda: U(-1e-6, 1e-6), Io=lambda: U(0.9, 1.0),
        IDOT=lambda: U(-1e-9, 1e-9), Omega0=lambda: U(-3.14, 3.14), OmegaDot=lambda: U(-9e-9, -7e-9)).items()}
    p["Toe"] = toe
    p["GALWeek" if sysl == "E" else "GPSWeek"] = [float(w) for w in weeks]
    for a in "XYZ":
        p[a] = [U(-2e7, 2e7) for _ in range(n)]
    other = "R" if sysl != "R" else "G"
    ds = xarray.Dataset({k: (("time",), np.array(v)) for k, v in p.items()},
                        coords={"time": np.array(times, dtype="datetime64[ns]")})
    if how == "scalar":
        ds = ds.assign_coords(sv=f"{sysl}07")
        ds.attrs["svtype"] = [other, sysl]
    else:
        ds.attrs["svtype"] = [sysl]
    d = dict(system=sysl, how=how, times=[str(t) for t in times], params=p)
    try:
        X, Y, Z = gr.keplerian2ecef(ds)
    except ValueError:
        if sysl in "CJ":
            return d, None
        raise
    if sysl in "CJ":
        return d, f"system {sysl} was not refused"
    got = [np.atleast_1d(np.asarray(v)).astype(float) for v in (X, Y, Z)]
    for i in range(n):
        if sysl in "RS":
            want = (p["X"][i], p["Y"][i], p["Z"][i])
        else:
            want = keplerref({k: v[i] for k, v in p.items()}, tks[i])
        for a, g, w in zip("XYZ", got, want):
            if not abs(g[i] - w) <= 1e-2 * (1 if sysl not in "RS" else 1e-9):
                return d, f"{a}[{i}] = {g[i]!r}, the broadcast algorithm gives {w!r}"
    return d, None


def keplerref(q, tk):
    from math import sin, cos, sqrt, atan2
    GM, OE = 3.986004418e14, 7.2921151467e-5
    A = q["sqrtA"] ** 2
    n = sqrt(GM / A ** 3) + q["DeltaN"]
    M = q["M0"] + n * tk
    e = q["Eccentricity"]
    E = M + e * sin(M)
    nu = atan2(sqrt(1 - e * e) * sin(E), cos(E) - e)
    phi = nu + q["omega"]
    c2, s2 = cos(2 * phi), sin(2 * phi)
    u = phi + q["Cuc"] * c2 + q["Cus"] * s2
    i = q["Io"] + q["IDOT"] * tk + q["Cic"] * c2 + q["Cis"] * s2
    r = A * (1 - e * cos(E)) + q["Crc"] * c2 + q["Crs"] * s2
    O = q["Omega0"] + (q["OmegaDot"] - OE) * tk - OE * q["Toe"]
    x, y = r * cos(u), r * sin(u)
    return x * cos(O) - y * sin(O) * cos(i), x * sin(O) + y * cos(O) * cos(i), y * sin(i)


# ------------------------------------------------------------------ C18
def case_C18(rng, gr, tmp):
    import numpy as np
    kind = rng.choice(["obs2", "obs3"])
    sysl = rng.choice(["G", "R", "E", "J", "C", "I", "M", "M"] + ([" "] if kind == "obs2" else []) + ["S"])
    if kind == "obs2" and sysl in "JCIS":
        c = mk(rng, kind, system="G")
        text = lib.render(c).replace("OBSERVATION DATA    G (GPS)", f"OBSERVATION DATA    {sysl}      ", 1)
        ind = text.index("END OF HEADER")
        c2 = None
    else:
        c = mk(rng, kind, system=sysl)
        text = lib.render(c)
    if rng.random() < 0.3:
        # the time system is three columns, whatever follows it
        text = re.sub(r"(?m)^(.{51}) {6}(?=...TIME OF FIRST OBS)", lambda m: m[1] + rng.choice(["  x   ", "(UTC) ", " 2 3  "]), text)
    opt = {}
    if rng.random() < 0.3:
        opt["tlim"] = lib.pick_tlim(rng, times_of(c))
    d = dict(kind=kind, system=sysl, options=opt, text=text)
    kw = lib.kwargs_of(opt)
    if kind == "obs2":
        kw["fast"] = False
        if sysl in "JCIS":
            kw["use"] = sysl
    try:
        ds = gr.load(lib.stream(text), **kw)
    except ValueError:
        if sysl == "S":
            return d, None
        raise
    if sysl == "S":
        return d, f"unknown system S was not refused (time system {ds.attrs.get('time_system')})"
    want = {"G": "GPS", " ": "GPS", "R": "GLO", "E": "GAL", "J": "QZS", "C": "BDT", "I": "IRN", "M": c["timesys"]}[sysl]
    if ds.attrs.get("time_system") != want:
        return d, f"time system {ds.attrs.get('time_system')!r} instead of {want!r}"
    p = lib.exp_position(c)
    got = ds.attrs.get("position")
    if (list(got) if got is not None else None) != p and not (p is None and not got):
        return d, f"position {got} instead of {p}"
    if c["interval"]:
        if ds.attrs.get("interval") != float(c["interval"]):
            return d, f"interval {ds.attrs.get('interval')} instead of {c['interval']}"
    elif kind == "obs3":
        ts = [us_of(e["t"]) for e in lib.window(c["epochs"], opt) if any(True for _ in e["sats"])]
        if len(ts) > 1:
            want = float(np.median(np.diff(ts))) / US
            if not abs(ds.attrs["interval"] - want) < 1e-9:
                return d, f"interval {ds.attrs['interval']} instead of {want}"
    else:
        if sysl in "GRE ":
            ts = sorted({k[0] for k in lib.cells_obs2(c, opt)})
            if len(ts) > 1:
                want = float(np.median(np.diff(ts))) / US
                if not abs(ds.attrs["interval"] - want) < 1e-9:
                    return d, f"interval {ds.attrs['interval']} instead of {want}"
    return d, None
