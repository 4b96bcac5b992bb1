"""What each property's check explores: sessions of API calls on the real code."""
import math
import random
from fractions import Fraction

from gen import *
from session import Session, f, hexed, line_of

BUILD = ["new", "points", "samples", "list", "copy", "assign", "push", "pushs", "obs"]


# ------------------------------------------------------------------ C01
def c01(rng, i):
    s = Session(BUILD, "append")
    style = rng.choice(STYLES)
    how = rng.choice(["push", "push", "points", "samples", "list"])
    n = length(rng)
    x = list(zip(times(rng, style, n), values(rng, style, n)))
    if rng.random() < 0.1:                      # infinite values
        x = [(t, rng.choice([v, INF, -INF])) for t, v in x]
    if how == "push":
        h = s.new()
        if rng.random() < 0.1:
            s.push(h, NAN, 1.0, None if rng.random() < 0.5 else 0.0)
        if rng.random() < 0.3:
            s.obs(h)
    else:
        k = rng.choice([0, 1, n // 2, n])
        y = x[:k]
        if rng.random() < 0.35 and k >= 2:      # not a signal: out of order, repeated, NaN
            j = rng.randrange(1, k)
            bad = rng.choice([y[j - 1][0], down(y[j - 1][0]), y[j - 1][0] - 1.0, y[0][0], NAN, -INF])
            y = y[:j] + [(bad, y[j][1])] + y[j + 1:]
        if how == "points":
            vs, ts = [v for _, v in y], [t for t, _ in y]
            if rng.random() < 0.25:             # different lengths
                if rng.random() < 0.5 and vs:
                    vs = vs[:-1]
                else:
                    ts = ts + [(ts[-1] if ts else 0.0) + 1.0]
            h = s.points(vs, ts)
        else:
            h = s.samples([(t, v, rng.choice([0.0, 7.0])) for t, v in y], how)
        s.obs(h)
        x = x[k:]
    hs = [h]
    last = None
    for t, v in x:
        if rng.random() < (0.15 if n < 600 else 0.001):
            c = s.copy(rng.choice(hs))
            hs.append(c)
        if len(hs) > 1 and rng.random() < (0.1 if n < 600 else 0.001):
            s.assign(rng.choice(hs[1:]), rng.choice(hs))
        s.push(h, t, v, None if rng.random() < 0.6 else rng.choice([0.0, 5.0, INF, NAN]))
        last = t
        if rng.random() < 0.3:                  # a sample that comes too late
            bad = rng.choice([t, t, down(t), t - 1.0, -INF, NAN, -t - 100.0 if t > 0 else t - 3.0])
            s.push(h, bad, value(rng, style), None if rng.random() < 0.6 else 0.0)
        if rng.random() < (0.4 if n < 10 else 0.02 if n < 600 else 0.001):
            s.obs(h)
        if len(hs) > 1 and rng.random() < (0.2 if n < 600 else 0.002):
            c = rng.choice(hs[1:])
            s.push(c, t + rng.choice([-1.0, 0.0, 0.5, 2.0]), value(rng, style))
            s.obs(c)
    for h in hs:
        s.obs(h)
    return s


def derived(rng, s, h, x):
    """Sometimes not the signal itself but one that the library made of it."""
    if not x or rng.random() > 0.25:
        return h, x
    k = rng.choice(["copy", "simplify", "shift", "resize", "rob", "rob", "sync"])
    if k in ("copy", "simplify"):
        return getattr(s, k)(h), x
    if k == "shift":
        d = rng.choice([0.5, -1.0, 16.0, 0.1])
        y = [(t + d, v) for t, v in x]
        # (moved times that are rounded do not go with the slopes that were kept)
        exact = all(Fraction(t) + Fraction(d) == Fraction(u) for (t, _), (u, _) in zip(x, y))
        return (s.shift(h, d), y) if exact else (h, x)
    if k == "resize":
        return s.resize(h, x[0][0], x[-1][0] + 1.0, 0.0), x + [(x[-1][0] + 1.0, 0.0)]
    if k == "sync":
        return rng.choice(s.sync(h, h)), x
    e = rng.choice([("G", ("pred", "x", ">", 0.0)), ("F", ("pred", "x", "<", 1.0)), ("pred", "x", "<", 0.5),
                    ("G", ("pred", "x", ">=", 0.0), 0.0, 1.0), ("not", ("pred", "x", ">", 0.0)),
                    ("and", [("pred", "x", ">", 0.0), ("pred", "x", "<", 1.0)])])
    return s.rob(s.build(e), [("x", h)]), x


# ------------------------------------------------------------------ C02
def queries(rng, x, k):
    ts = [t for t, _ in x]
    out = []
    if not ts:
        return [0.0, 1.5, -2.0]
    b, e = ts[0], ts[-1]
    cand = [b, e, up(b), down(b), up(e), down(e), b - 1.0, e + 1.0, INF, -INF,
            b - 1e9, e + 1e9, (b + e) / 2]
    out += rng.sample(cand, min(len(cand), max(3, k // 3)))
    while len(out) < k:
        j = rng.randrange(len(ts))
        r = rng.random()
        if r < 0.3:
            out.append(ts[j])
        elif r < 0.5:
            out.append(rng.choice([up(ts[j]), down(ts[j])]))
        elif j + 1 < len(ts):
            w = rng.choice([0.5, 0.25, 0.75, 0.1, rng.random()])
            out.append(ts[j] + w * (ts[j + 1] - ts[j]))
        else:
            out.append(rng.uniform(b - 1, e + 1))
    return out


def c02(rng, i):
    s = Session(["at", "idx", "range", "interp", "obs"], "lookup")
    x = [] if rng.random() < 0.05 else signal(rng, n=rng.randint(65, 260) if i % 25 == 0 else None)
    h, x = derived(rng, s, s.signal(x), x)
    k = rng.randint(6, 14) if len(x) < 65 else 30
    for t in queries(rng, x, k):
        s.at(h, t)
    if rng.random() < 0.3:
        s.at(h, NAN)
    qs = queries(rng, x, 6)
    for a, b in zip(qs[::2], qs[1::2]):
        s.range(h, a, b)
    for j in {0, len(x) - 1, len(x), len(x) + 1, 2 ** 31 - 1, rng.randint(0, len(x))}:
        if j >= 0:
            s.idx(h, j)
    for t in queries(rng, x, 3):
        if math.isfinite(t) and abs(t) < 1e8:
            s.interp(h, t, rng.randint(0, len(x)))
    s.obs(h)
    if rng.random() < 0.5:                      # lookups follow an append
        e = x[-1][0] if x else 0.0
        s.push(h, e + 0.5, value(rng, "dyadic"))
        y = x + [(e + 0.5, 0.0)]
        for t in queries(rng, y, 4):
            s.at(h, t)
        s.range(h, e, e + 0.25)
        s.range(h, e + 0.25, e + 0.5)
    return s


# ------------------------------------------------------------------ C03
def bounds(rng, x, style):
    """s < e somewhere around the span of x."""
    ts = [t for t, _ in x] or [0.0]
    cand = [ts[0] - 2.0, ts[0] - 1.0, down(ts[0]), up(ts[0]), ts[-1] + 1.0, ts[-1] + 2.5,
            down(ts[-1]), up(ts[-1])] + ts[:3] + ts[-3:] + \
           [rng.choice(ts) for _ in range(4)] + \
           [a + w * (b - a) for a, b in zip(ts, ts[1:]) for w in (rng.choice([0.5, 0.25, 0.3]),)][:40]
    for _ in range(20):
        a, b = rng.sample(cand, 2)
        if a > b:
            a, b = b, a
        if a < b:
            return a, b
    return ts[0] - 1.0, ts[0] + 1.0


def c03(rng, i):
    s = Session(["resize", "shift", "rshift"], "resize and shift")
    style = rng.choice(STYLES)
    x = [] if rng.random() < 0.06 else signal(rng, style)
    h, x = derived(rng, s, s.signal(x), x)
    for _ in range(rng.randint(2, 5)):
        a, b = bounds(rng, x, style)
        fill = rng.choice([0.0, value(rng, style), INF, -INF, 1.0])
        d = rng.choice([0.0, 0.5, -1.0, 3.0, 2.25, -a, 0.1 if style in ("decimal", "wild") else 8.0])
        r = rng.random()
        if r < 0.5:
            g = s.resize(h, a, b, fill)
            if rng.random() < 0.3 and math.isfinite(fill):
                s.shift(g, d)
        elif r < 0.75:
            s.rshift(h, a, b, fill if math.isfinite(fill) else 0.0, d)
        else:
            s.shift(h, d)
    return s


# ------------------------------------------------------------------ C04
def c04(rng, i):
    s = Session(["simplify"], "simplify")
    r = rng.random()
    if r < 0.6:
        x = straightened(rng, rng.choice(STYLES))
    elif r < 0.9:
        x = signal(rng)
    elif r < 0.94:
        x = []
    else:                                       # nearly straight
        t = times(rng, "grid", rng.randint(3, 8))
        x = [(a, rng.choice([a, up(a), down(a)])) for a in t]
    h, x = derived(rng, s, s.signal(x), x)
    g = s.simplify(h)
    s.simplify(g)
    if rng.random() < 0.3 and x:
        s.push(h, x[-1][0] + 1.0, rng.choice([x[-1][1], value(rng, "grid")]))
        s.simplify(h)
    return s


# ------------------------------------------------------------------ C05
def c05(rng, i):
    s = Session(["sync"], "synchronize")
    style = rng.choice(STYLES)
    x = [] if rng.random() < 0.04 else signal(rng, style)
    y = [] if rng.random() < 0.04 else relative(rng, x, style, True)
    a, _ = derived(rng, s, s.signal(x), x)
    b, _ = derived(rng, s, s.signal(y), y)
    p, r = s.sync(a, b)
    s.sync(b, a)
    if rng.random() < 0.2:
        s.sync(a, a)
    if rng.random() < 0.3:
        s.sync(p, r)
    if rng.random() < 0.2:
        s.sync(p, b)
    return s


# ------------------------------------------------------------------ robustness
def put(s, tr):
    """The trace's signals; names of one object share its handle."""
    made = {}
    return [(n, made[id(x)] if id(x) in made else made.setdefault(id(x), s.signal(x)))
            for n, x in tr.items()]


def sparse(rng, tr):
    """Shorter signals, so that nested evaluations stay cheap."""
    cut = {}
    most = 30 if rng.random() < 0.2 else 12
    for x in tr.values():
        if id(x) not in cut:
            cut[id(x)] = x[:rng.randint(most // 3, most)] if len(x) > most else x
    return {n: cut[id(x)] for n, x in tr.items()}


def c06(rng, i):
    s = Session(["rob"], "connectives")
    style = rng.choice(STYLES)
    names = names_for(rng, rng.choice([1, 2, 2, 3]))
    depth = rng.choice([0, 1, 1, 2, 2, 3])
    tr = trace(rng, names, style, big=depth < 2, empty=0.02, overlap=rng.random() < 0.8)
    if depth >= 2 and rng.random() < 0.9:
        tr = sparse(rng, tr)
    e = boolean(rng, names, style, depth)
    if depth and e[0] in ("pred", "const"):
        e = boolean(rng, names, style, depth, 0)
    if rng.random() < 0.2:
        e = confusable(rng, e)
    elif rng.random() < 0.02:
        tr = {n: x[:6] for n, x in tr.items()}
        e = rng.choice([row(rng, names, style), tower(rng, names, style, ["not", "not", "not", "and", "or"])])
    if rng.random() < 0.02:                     # many signals
        names = [f"s{k}" for k in range(rng.choice([9, 17, 33, 70, 140]))]
        rng.shuffle(names)
        style, ts = rng.choice(EXACT), sorted(rng.sample(range(9), rng.randint(2, 4)))
        tr = {n: [(float(t), float(rng.randint(-9, 9))) for t in ts] for n in names}
        e = (rng.choice(["and", "or"]), [pred(rng, [n], "grid") for n in rng.sample(names, len(names))])
        if rng.random() < 0.5:
            j = rng.randint(2, len(names) - 2)
            e = (e[0], [("not", (e[0], e[1][:j])), *e[1][j:]])
    if rng.random() < 0.08:                     # a signal that is not there
        e = (rng.choice(["and", "or"]), [e, ("not", ("pred", absent(rng, names), ">", 0.0))])
    t = put(s, tr)
    x = s.build(e)
    s.rob(x, t)
    if rng.random() < 0.3:
        s.rob(x, list(reversed(t)) + [("spare", t[0][1])])
    return s


def deep(rng, style):
    return style if rng.random() < 0.3 else rng.choice(EXACT)


def c07(rng, i):
    s = Session(["rob"], "unbounded temporal")
    depth = rng.choice([1, 1, 2, 2, 3])
    style = rng.choice(STYLES)
    if depth > 1:
        style = deep(rng, style)
    names = names_for(rng, rng.choice([1, 2, 2, 3]))
    tr = trace(rng, names, style, big=depth == 1, overlap=rng.random() < 0.85)
    if depth > 1:
        tr = sparse(rng, tr)
    e = temporal(rng, names, style, depth)
    if rng.random() < 0.3:                      # plain operator over predicates
        k = rng.choice(["G", "F", "U", "U"])
        p, q = pred(rng, names, style), pred(rng, names, style)
        e = (k, p, q) if k == "U" else (k, p)
    elif rng.random() < 0.02:                   # nested very deep
        tr = {n: x[:6] for n, x in tr.items()}
        e = tower(rng, names, style, ["not", "G", "F", "U"])
    t = put(s, tr)
    x = s.build(e)
    s.rob(x, t)
    if rng.random() < 0.3:                      # a shorter trace
        t2 = [(n, s.signal(x[:max(1, len(x) // 2)])) for n, x in tr.items()]
        s.rob(x, t2)
    return s


def long_runs(rng):
    """Many samples, in monotone runs with dips and repeated values."""
    n = rng.randint(10, 60)
    ts, t = [], float(rng.choice([0, 0, -3, 2]))
    for _ in range(n):
        ts.append(t)
        t += rng.choice([1.0, 1.0, 1.0, 0.5, 2.0])
    vs, v, step = [], 0.0, 1.0
    for _ in range(n):
        vs.append(v)
        if rng.random() < 0.2:
            step = rng.choice([1.0, -1.0, 0.5, -0.5, 0.0])
        v += step
        if rng.random() < 0.12:
            v += rng.choice([-6.0, 6.0, -1.0, 1.0])
    return list(zip(ts, vs))


def c08_long(rng, i):
    s = Session(["rob"], "bounded temporal, long signals")
    x = long_runs(rng)
    h = s.signal(x)
    p = s.pred("x", rng.choice([">", "<="]), rng.choice([0.0, 1.0, 0.5]))
    span = x[-1][0] - x[0][0]
    for _ in range(3):
        a = rng.choice([0.0, 0.0, 0.0, 0.5, 1.0, 3.0, rng.randint(0, 9) / 2])
        b = a + rng.choice([0.5, 1.0, 2.0, 3.0, 4.0, 5.0, 7.5, 10.0, 16.0, 25.0, span / 2, span, INF])
        s.rob(s.bounded(rng.choice(["Gd", "Fd"]), p, a, b if b > a else a + 1.0), [("x", h)])
    return s


def c08(rng, i):
    if i % 8 == 7:
        return c08_long(rng, i)
    s = Session(["rob"], "bounded temporal")
    depth = rng.choice([1, 1, 1, 2, 2, 3])
    style = rng.choice(STYLES)
    if depth > 1:
        style = deep(rng, style)
    names = names_for(rng, rng.choice([1, 1, 2]))
    tr = trace(rng, names, style, big=depth == 1, overlap=rng.random() < 0.9)
    if depth > 1:
        tr = sparse(rng, tr)
    x0 = tr[names[0]]
    r = rng.random()
    if r < 0.5:
        k = rng.choice(["G", "F"])
        e = (k, pred(rng, names, style), *window(rng, style, x0))
    elif r < 0.93:
        e = temporal(rng, names, style, depth, ("G", "F"), 0.8, x0)
        if e[0] in ("pred", "const"):
            e = (rng.choice("GF"), e, *window(rng, style, x0))
    else:                                       # bounded Until somewhere
        a, b = window(rng, style, x0)
        e = ("U", pred(rng, names, style), pred(rng, names, style), float(a), float(b))
        for _ in range(rng.randint(0, 2)):
            e = rng.choice([("not", e), ("G", e), ("F", e, 0, 3), ("and", [pred(rng, names, style), e]),
                            ("or", [e, ("const", True)])])
    t = put(s, tr)
    x = s.build(e)
    s.rob(x, t)
    if rng.random() < 0.4:                      # the same window elsewhere in time
        d = rng.choice([0.5, 4.0, -8.0, 0.25])
        t2 = [(n, s.signal([(a + d, v) for a, v in x])) for n, x in tr.items()
              if all(a + d > b + d for (b, _), (a, _) in zip(x, x[1:]))]
        if len(t2) == len(tr):
            s.rob(x, t2)
    return s


def share(rng, s, style, names, x0, ops):
    """A formula built over shared subformulas; returns a handle."""
    pool = [s.build(pred(rng, names, style)) for _ in range(3)]
    if rng.random() < 0.3:
        pool.append(s.const(rng.random() < 0.5))
    for _ in range(rng.randint(3, 9)):
        k = rng.choice(ops)
        a, b = rng.choice(pool), rng.choice(pool)
        if k in ("G", "F", "not", "inv"):
            pool.append(s.un(k, a))
        elif k in ("Gd", "Fd"):
            lo, hi = window(rng, style, x0)
            pool.append(s.bounded(k, a, float(lo), float(hi)))
        elif k in ("and", "or"):
            pool.append(s.nary(k, [rng.choice(pool) for _ in range(rng.randint(2, 5))]))
        else:
            pool.append(s.bi(k, a, b))
    return pool[-1]


def c09(rng, i):
    if i % 3 == 2:
        return compositional(rng)
    s = Session(["rob"], "total and well formed")
    style = rng.choice(STYLES)
    names = names_for(rng, rng.choice([1, 2, 3]))
    depth = rng.choice([1, 2, 3, 3, 4, 5])
    tr = trace(rng, names, style, big=depth < 3, empty=0.05)
    if depth > 2:
        tr = sparse(rng, tr)
    if rng.random() < 0.15:                     # very short signals
        tr = {n: x[:rng.choice([1, 1, 2])] for n, x in tr.items()}
    x0 = tr[names[0]]
    if rng.random() < 0.03:                     # very large formulas
        tr = {n: x[:5] for n, x in tr.items()}
        t = put(s, tr)
        x = s.build(tower(rng, names, style, ["not", "G", "F", "U", "Gd", "Fd", "and", "or"])
                    if rng.random() < 0.7 else row(rng, names, style))
        s.rob(x, t, by="form", store=False)
        return s
    t = put(s, tr)
    if rng.random() < 0.5:
        x = s.build(temporal(rng, names, style, depth, bounded=0.5, x=x0, const=0.15))
    else:
        x = share(rng, s, style, names, x0,
                  ["G", "F", "Gd", "Fd", "not", "inv", "and", "or", "and2", "or2", "implies", "iff",
                   "xor", "U"])
    s.rob(x, t, by="form", store=False)
    s.rob(x, t, by="form", store=False, flag=1)
    return s


def compositional(rng):
    """A subformula may be replaced by a signal that has its robustness."""
    s = Session(["law"], "compositional")
    style = rng.choice(EXACT + STYLES)
    names = NAMES[:2]
    tr = sparse(rng, trace(rng, names, style, big=False, overlap=True))
    t = put(s, tr)
    sub = temporal(rng, names, style, rng.choice([1, 1, 2]), bounded=0.4, x=tr["x"], const=0)
    a = s.build(sub)
    ra = s.rob(a, t)
    p = s.pred("sub", ">=", 0.0)
    b = s.build(pred(rng, names, style))
    for _ in range(rng.randint(1, 2)):
        k = rng.choice(["not", "and", "or", "G", "F", "Gd", "Fd", "U", "Ur"])
        if k in ("not", "G", "F"):
            u, w = s.un(k, a), s.un(k, p)
        elif k in ("Gd", "Fd"):
            lo, hi = window(rng, style, tr["x"])
            u, w = s.bounded(k, a, float(lo), float(hi)), s.bounded(k, p, float(lo), float(hi))
        elif k in ("and", "or"):
            if rng.random() < 0.5:
                u, w = s.nary(k, [a, b]), s.nary(k, [p, b])
            else:
                u, w = s.nary(k, [b, a, b]), s.nary(k, [b, p, b])
        elif k == "U":
            u, w = s.bi("U", a, b), s.bi("U", p, b)
        else:
            u, w = s.bi("U", b, a), s.bi("U", b, p)
        ru = s.rob(u, t)
        rw = s.rob(w, t + [("sub", ra)])
        s.law("same", ru, rw)
        rf = s.rob(u, t, flag=rng.choice([0, 1]))
        s.law("same", ru, rf)
        a, p = u, w
    return s


# ------------------------------------------------------------------ C15
def monitorable(rng, names, style, depth, x0):
    k = rng.choice(["bool", "chain", "bounded", "until", "not", "and", "or"]) if depth else \
        rng.choice(["bool", "chain", "bounded", "until"])
    b = lambda: boolean(rng, names, style, rng.choice([0, 1, 1, 2]), 0.02)
    if k == "bool":
        return b()
    if k == "chain":
        e = b()
        for _ in range(rng.choice([1, 1, 2])):
            e = (rng.choice("GF"), e)
        return e
    if k == "bounded":
        return (rng.choice("GF"), b(), *window(rng, style, x0))
    if k == "until":
        lit = lambda: pred(rng, names, style) if rng.random() < 0.7 else ("not", pred(rng, names, style))
        return ("U", lit(), lit())
    if k == "not":
        return ("not", monitorable(rng, names, style, depth - 1, x0))
    return (k, [monitorable(rng, names, style, depth - 1, x0) for _ in range(rng.choice([2, 2, 3]))])


def c15(rng, i):
    s = Session(["rob"], "sign")
    style = rng.choice(["dyadic", "dyadic", "grid", "decimal", "wild", "far"])
    names = names_for(rng, rng.choice([1, 2, 2]))
    first = sparse(rng, {"x": signal(rng, style)})["x"]
    tr = {n: list(zip([t for t, _ in first], values(rng, style, len(first)))) for n in names}
    if len(names) > 1 and rng.random() < 0.5 and len(first) > 2:   # not sampled at the same instants
        y = tr[names[1]]
        ts = [t for t, _ in y]
        extra = [(a + b) / 2 for a, b in zip(ts, ts[1:]) if rng.random() < 0.4]
        ts = sorted({ts[0], ts[-1], *[t for t in ts if rng.random() < 0.7], *extra})
        tr[names[1]] = list(zip(ts, values(rng, style, len(ts))))
    e = monitorable(rng, names, style, rng.choice([0, 1, 1, 2]), first)
    t = put(s, tr)
    s.rob(s.build(e), t, by="sign")
    return s


# ------------------------------------------------------------------ C16
def renamed(e, sub):
    return sub(e) or ((e[0], [renamed(a, sub) for a in e[1]]) if e[0] in ("and", "or") else
                      (e[0], *[renamed(a, sub) if isinstance(a, tuple) else a for a in e[1:]]))


def positive(rng, names, style, depth, x0, ops):
    """x occurs as x > c without negation, the others as they like."""
    def atom():
        n = rng.choice(names)
        if n == "x":
            return ("pred", "x", rng.choice([">", ">="]), threshold(rng, style))
        return pred(rng, [n], style)
    if depth <= 0:
        return atom()
    k = rng.choice(ops)
    if k in ("G", "F"):
        return (k, atom()) if rng.random() < 0.5 else (k, atom(), *window(rng, style, x0))
    if k == "U":
        return ("U", atom(), atom())
    return (k, [positive(rng, names, style, depth - 1, x0, ops) for _ in range(rng.choice([2, 2, 3]))])


def c16(rng, i):
    s = Session(["law"], "laws")
    style = rng.choice(EXACT + STYLES)
    names = NAMES[:rng.choice([1, 2, 2])]
    tr = trace(rng, names, style, big=False, overlap=True)
    tr = sparse(rng, tr)
    x0 = tr["x"]
    t = put(s, tr)
    kind = ["dual", "morgan", "comm", "assoc", "idem", "notnot", "shift", "scale", "leq", "lip"][i % 10]
    s.tag = "law: " + kind
    small = lambda d=1: s.build(temporal(rng, names, style, d, bounded=0.5, x=x0, const=0.02))
    rob = lambda x: s.rob(x, t)
    if kind == "dual":
        a = small(rng.choice([0, 1]))
        if rng.random() < 0.3:
            g, e = s.un("G", a), s.un("F", s.un("not", a))
        else:
            lo, hi = map(float, window(rng, style, x0))
            g, e = s.bounded("Gd", a, lo, hi), s.bounded("Fd", s.un("not", a), lo, hi)
        s.law("neg", rob(g), rob(e))
        s.law("same", rob(g), rob(s.un("not", e)))
    elif kind == "morgan":
        n = rng.choice([2, 2, 3, 4])
        xs = [small(rng.choice([0, 1])) for _ in range(n)]
        k = rng.choice(["and", "or"])
        a = s.nary(k, xs)
        b = s.nary("or" if k == "and" else "and", [s.un("not", x) for x in xs])
        s.law("neg", rob(a), rob(b))
    elif kind == "comm":
        k = rng.choice(["and", "or"])
        xs = [small(rng.choice([0, 1])) for _ in range(rng.choice([2, 3, 4]))]
        ys = xs[:]
        rng.shuffle(ys)
        s.law("same", rob(s.nary(k, xs)), rob(s.nary(k, ys)))
    elif kind == "assoc":
        k = rng.choice(["and", "or"])
        # (no constants: the operators & and | fold them, which widens the span)
        a, b, c = (s.build(temporal(rng, names, style, rng.choice([0, 1]), bounded=0.5, x=x0, const=0))
                   for _ in range(3))
        flat = rob(s.nary(k, [a, b, c]))
        s.law("same", flat, rob(s.nary(k, [s.nary(k, [a, b]), c])))
        s.law("same", flat, rob(s.nary(k, [a, s.nary(k, [b, c])])))
        s.law("same", flat, rob(s.bi(k + "2", s.bi(k + "2", a, b), c)))
    elif kind == "idem":
        a = small()
        s.law("same", rob(a), rob(s.nary(rng.choice(["and", "or"]), [a] * rng.choice([2, 3]))))
    elif kind == "notnot":
        a = small()
        s.law("same", rob(a), rob(s.un("not", s.un("inv", a))))
    elif kind == "shift":
        a = small(rng.choice([1, 2]))
        d = rng.choice([0.5, 1.0, -2.0, 16.0, -0.25, 1024.0])
        moved = {n: [(p + d, v) for p, v in x] for n, x in tr.items()}
        # the moved instants must be exact
        if all(p + d - d == p for x in tr.values() for p, _ in x) and \
                all(b > a0 for x in moved.values() for (a0, _), (b, _) in zip(x, x[1:])):
            u = put(s, moved)
            s.law("shift", rob(a), s.rob(a, u), d)
        else:
            s.law("same", rob(a), rob(a))
    elif kind == "scale":
        e = temporal(rng, names, style, rng.choice([1, 2]), bounded=0.5, x=x0, const=0.02)
        d = rng.choice([2.0, 0.5, 8.0, 0.125])
        big = renamed(e, lambda q: ("pred", q[1], q[2], q[3] * d) if q[0] == "pred" else
                      q if q[0] == "const" else None)
        u = put(s, {n: [(p, v * d) for p, v in x] for n, x in tr.items()})
        s.law("scale", rob(s.build(e)), s.rob(s.build(big), u), d)
    elif kind == "leq":
        e = positive(rng, names, style, rng.choice([0, 1, 2]), x0, ["G", "F", "U", "and", "or"])
        higher = dict(tr)
        higher["x"] = [(p, v + rng.choice([0.0, 0.25, 1.0, 3.0])) for p, v in x0]
        a = s.build(e)
        s.law("leq", rob(a), s.rob(a, put(s, higher)))
    else:
        ops = ["G", "F", "U", "and", "or"]
        e = positive(rng, names, style, rng.choice([0, 1, 2]), x0, ops)
        d = rng.choice([0.25, 1.0, 2.0])
        near = {n: [(p, v + rng.choice([-d, 0.0, d, d / 2])) for p, v in x] for n, x in tr.items()}
        a = s.build(e)
        s.law("lip", rob(a), s.rob(a, put(s, near)), d)
    return s


# ------------------------------------------------------------------ C10
class Shared:
    """A session over shared objects in which calls are repeated later."""

    def __init__(self, rng, tag):
        self.rng = rng
        self.s = s = Session(["obs", "dump", "dumpsp", "again"], tag)
        style = rng.choice(STYLES)
        names = NAMES[:2]
        tr = sparse(rng, trace(rng, names, style, big=False, overlap=True))
        self.end = {}
        self.sigs = []
        self.style, self.names = style, names
        for n, x in tr.items():
            self.keep_signal(s.signal(x))
            self.end[self.sigs[-1]] = x[-1][0]
        self.tr = list(zip(names, self.sigs))
        self.x0 = tr["x"]
        self.exprs = [s.build(pred(rng, names, style)) for _ in range(3)]
        if rng.random() < 0.4:
            self.exprs.append(s.const(rng.random() < 0.5))
        self.specs = []
        self.calls = []          # remembered: (line without handle, k, operands)

    def keep_signal(self, h):
        self.sigs.append(h)

    def remember(self, line, *ops):
        """Make the call now and remember its result."""
        self.s.add(line, dict(op="none"))
        self.calls.append((line, self.s.keep(), set(ops)))

    def step(self):
        rng, s = self.rng, self.s
        k = rng.choice(["expr"] * 4 + ["rob"] * 3 + ["push"] * 2 + ["sigop"] * 4 + ["read"] * 3 + ["again"] * 3 +
                       ["spec"] + ["print"] + ["copy"])
        x = rng.choice(self.sigs)
        if k == "expr":
            a, b = rng.choice(self.exprs[-5:]), rng.choice(self.exprs)
            op = rng.choice(["and2", "and2", "or2", "or2", "inv", "not", "implies", "iff", "xor", "G", "F", "U",
                             "and", "or", "alias", "Gd"])
            if op in ("and", "or"):
                self.exprs.append(s.nary(op, [a, b, rng.choice(self.exprs)]))
                self.remember(f"{op} -1 2 {b} {a}")
            elif op in ("inv", "not", "G", "F", "alias"):
                self.exprs.append(s.un(op, a))
                self.remember(f"{op} -1 {a}")
            elif op == "Gd":
                lo, hi = map(float, window(rng, self.style, self.x0))
                self.exprs.append(s.bounded(op, a, lo, hi))
            else:
                self.exprs.append(s.bi(op, a, b))
                self.remember(f"{op} -1 {a} {b}")
            if op in ("iff", "xor") and len(self.exprs) > 5:
                self.exprs = self.exprs[:4] + self.exprs[-1:]
        elif k == "rob":
            e = rng.choice(self.exprs[-4:])
            tr = self.tr if rng.random() < 0.8 else [(n, rng.choice(self.sigs)) for n in self.names]
            h = s.rob(e, tr)
            if rng.random() < 0.5:
                self.keep_signal(h)
            self.remember(s._rob(-1, e, tr, rng.choice([0, 1, 2])), *[g for _, g in tr])
        elif k == "push":
            t = self.end.get(x, 1000.0) + rng.choice([1.0, 0.5, 2.0, -3.0, 0.0])
            self.end[x] = max(t, self.end.get(x, t))
            s.push(x, t, value(rng, "grid"), None if rng.random() < 0.5 else 1.0)
            self.calls = [c for c in self.calls if x not in c[2]]
        elif k == "sigop":
            op = rng.choice(["simplify", "resize", "shift", "rshift", "sync", "sync"])
            a, b = self.x0[0][0], self.x0[-1][0]
            a, b = rng.choice([(a, b), (a - 1.0, b + 1.0), (a, b + 2.0)])
            if not a < b:
                b = a + 1.0
            if op == "simplify":
                self.keep_signal(s.simplify(x))
                self.remember(f"simplify -1 {x}", x)
            elif op == "resize":
                self.keep_signal(s.resize(x, a, b, 0.0))
                self.remember(f"resize -1 {x} {f(a)} {f(b)} {f(0.0)}", x)
            elif op == "shift":
                self.keep_signal(s.shift(x, rng.choice([0.0, 1.0])))
                self.remember(f"shift -1 {x} {f(0.0)}", x)
            elif op == "rshift":
                self.keep_signal(s.rshift(x, a, b, 0.0, rng.choice([0.0, 0.5])))
            else:
                y = rng.choice(self.sigs)
                p, q = s.sync(x, y)
                self.keep_signal(p)
                self.keep_signal(q)
                self.remember(f"sync -1 -1 {x} {y}", x, y)
        elif k == "copy" and rng.random() < 0.5:
            y = rng.choice(self.sigs)
            s.assign(y, x)
            self.end[y] = self.end.get(x, 1000.0)
            self.calls = [c for c in self.calls if y not in c[2]]
        elif k == "copy":
            self.keep_signal(s.copy(x))
            self.end[self.sigs[-1]] = self.end.get(x, 1000.0)
        elif k == "read":
            q = self.x0[0][0] + rng.choice([0.0, 0.25, 1.0, -1.0])
            self.remember(rng.choice([f"at {x} {f(q)}", f"range {x} {f(q)} {f(q + 1)}", f"idx {x} 0",
                                      f"prints {x}", f"obs {x}", f"interp {x} {f(q)} 0", f"area {x} {f(q)} 0",
                                      f"isect {x} 0 {x} 1"]), x)
            if rng.random() < 0.5:
                s.obs(x)
        elif k == "print":
            self.remember(f"{rng.choice(['print', 'printos', 'dump'])} {rng.choice(self.exprs)}")
        elif k == "spec":
            n = rng.random()
            if n < 0.5 or not self.specs:
                t = "(define-formula f (and (> x 1) (<= y 0.5)))(define-formula g (or f (not f)))(assert a (always g))"
                if rng.random() < 0.3:
                    t = "(define-formula f (not"
                self.remember(f"{rng.choice(['parse', 'parsef'])} -1 {hexed(t)}")
                if len(self.tr) == 2 and rng.random() < 0.5:
                    self.remember(line_of(s._mon(-1, "f", t, "f", self.tr, rng.choice([0, 1]))),
                                  *[g for _, g in self.tr])
                if t.endswith(")"):
                    self.specs.append(s.parse(t, store=True))
            else:
                p = rng.choice(self.specs)
                self.exprs.append(s.get(*rng.choice([("getf", p, "f"), ("getf", p, "g"), ("geta", p, "a")])))
                s.dumpsp(p)
        elif self.calls:
            line, k, _ = rng.choice(self.calls)
            s.again(line, k)

    def finish(self):
        s = self.s
        for line, k, _ in self.calls[-40:]:
            if self.rng.random() < 0.5:
                s.again(line, k)
        for h in self.sigs:
            s.obs(h)
        for h in self.exprs:
            s.dump(h)
        for p in self.specs:
            s.dumpsp(p)
        return s


def c10_reuse(rng):
    """Objects come and go, and new ones take the places of old ones."""
    s = Session(["law", "again"], "objects come and go")
    style = rng.choice(EXACT)
    names = NAMES[:rng.choice([1, 2])]
    n = rng.randint(2, 6)
    e = temporal(rng, names, style, rng.choice([1, 1, 2]), bounded=0.4, const=0)

    def fresh(like=None):
        ts = times(rng, style, n, 0.0)
        return {m: list(zip(ts, values(rng, style, n))) for m in names}

    def evaluate(f, u):
        """Evaluates f over u in new objects, that then go."""
        hs = [(m, s.signal(x)) for m, x in u.items()]
        before = s.n
        h = s.build(f)
        r = s.rob(h, hs, flag=rng.choice([0, 1, 2]))
        rest = [g for _, g in hs] + list(range(before + 1, h + 1))
        if rng.random() < 0.5:
            rest.reverse()
        if rng.random() < 0.3:
            rng.shuffle(rest)
        for g in rest:
            s.drop(g)
        return r

    first, other = fresh(), fresh()
    g = renamed(e, lambda q: ("pred", q[1], rng.choice(["<", ">"]), threshold(rng, style)) if q[0] == "pred" else None)
    a = evaluate(e, first)
    b = evaluate(g, other) if rng.random() < 0.5 else None
    for _ in range(rng.randint(1, 4)):
        r = evaluate(rng.choice([e, g]), fresh() if rng.random() < 0.7 else rng.choice([first, other]))
        if rng.random() < 0.7:
            s.drop(r)
    s.law("same", a, evaluate(e, first))
    if b is not None:
        s.law("same", b, evaluate(g, other))
    return s


def c10_long(rng):
    """The same few calls, among them refused ones, thousands of times."""
    w = Shared(rng, "thousands of calls")
    s = w.s
    x, y = w.sigs[:2]
    e = s.build(temporal(rng, w.names, "grid", 2, bounded=0.4, const=0))
    bad = s.build(rng.choice([("not", ("G", ("pred", "nowhere", ">", 0.0))),
                              ("and", [("pred", "x", ">", 0.0), ("F", ("pred", "nowhere", ">", 0.0))]),
                              ("U", ("pred", "x", ">", 0.0), ("pred", "y", ">", 0.0), 0.0, 1.0)]))
    t = rng.choice(["(define-formula f (not (> x 1)))(assert a (always f))", "(assert a (iff (> x 1.5) (<= 2 y)))"])
    cut = t[:rng.randint(1, len(t) - 1)]
    refused = [s._rob(-1, bad, w.tr, 2), f"parse -1 {hexed(cut)}", f"parse -1 {hexed(t + ')')}",
               f"parsef -1 {hexed(cut)}", f"and -1 1 {e}", f"Gd -1 {e} {f(2.0)} {f(1.0)}", f"at {x} {f(1e9)}", f"idx {x} 9999"]
    good = [s._rob(-1, e, w.tr, 2), f"parse -1 {hexed(t)}", f"print {e}", f"sync -1 -1 {x} {y}", f"simplify -1 {x}",
            f"at {x} {f(w.x0[0][0])}", f"not -1 {e}"]
    for line in rng.sample(refused, 3) + [good[0], good[1], rng.choice(good)]:
        w.remember(line)
    s.par(1, rng.choice([700, 2500, 3500]), [(l, k) for l, k, _ in w.calls])
    return w.finish()


def c10(rng, i):
    if i % 60 == 7:
        return c10_long(rng)
    if i % 3 == 2:
        return c10_reuse(rng)
    w = Shared(rng, "shared objects")
    for _ in range(rng.randint(8, 25)):
        w.step()
    return w.finish()


def c10_hot(rng, w):
    """Many calls on one object at once."""
    s = w.s
    x, y = rng.choice(w.sigs[:2]), rng.choice(w.sigs)
    on = w.x0 if x == w.sigs[0] else list(zip(times(rng, "grid", 6), [0.0] * 6))
    e = rng.choice(w.exprs)
    d = rng.choice(w.exprs)
    t = rng.choice(["(define-formula f (until (> x 1) (<= y 0.5)))(assert f f)", "(assert a (always (> x 1.25)))"])
    texts = [t, t.replace("1", "2"), t + "(assert b (not true))", t + ")"]
    b, z = on[0][0], on[-1][0]
    qs = [f(b + (z - b) * k / 8) for k in range(9)] + [f(p) for p, _ in on[:4]]
    at = lambda: f"at {x} {rng.choice(qs)}"
    tr = [("x", x), ("y", y)]
    kinds = {
        "lookup": [at, at, at, lambda: f"range {x} {rng.choice(qs)} {rng.choice(qs)}", lambda: f"idx {x} 1",
                   lambda: f"interp {x} {rng.choice(qs)} 0", lambda: f"area {x} {rng.choice(qs)} 0"],
        "signal": [at, lambda: f"simplify -1 {x}", lambda: f"resize -1 {x} {f(b)} {f(z + 1)} {f(0.0)}",
                   lambda: f"shift -1 {x} {f(1.0)}", lambda: f"sync -1 -1 {x} {y}", lambda: f"copy -1 {x}",
                   lambda: f"prints {x}", lambda: f"obs {x}", lambda: s._rob(-1, e, tr, 2)],
        "formula": [lambda: f"print {e}", lambda: f"printos {e}", lambda: f"dump {e}", lambda: f"eq {e} {d}",
                    lambda: f"not -1 {e}", lambda: f"and2 -1 {e} {d}", lambda: f"or2 -1 {d} {e}", lambda: f"G -1 {e}",
                    lambda: s._rob(-1, e, tr, 2), lambda: s._rob(-1, d, tr, 1)],
        "text": [lambda: f"parse -1 {hexed(rng.choice(texts))}", lambda: f"parsef -1 {hexed(rng.choice(texts))}",
                 lambda: f"parse -1 {hexed(t)}"],
    }
    kind = rng.choice(["lookup", "lookup", "signal", "formula", "text"])
    w.calls = []
    for _ in range(rng.randint(6, 12)):
        w.remember(rng.choice(kinds[kind])())
    s.par(rng.choice([2, 4, 8]), rng.choice([10, 30]), [(l, k) for l, k, _ in w.calls])
    return w.finish()


def c10_threads(rng, i):
    if i % 2:
        w = Shared(rng, "calls on one object at once")
        for _ in range(rng.choice([0, 0, 2, 5])):
            w.step()
        return c10_hot(rng, w)
    w = Shared(rng, "concurrent calls")
    for _ in range(rng.randint(10, 22)):
        w.step()
    if len(w.calls) > 2:
        calls = [(l, k) for l, k, _ in w.calls]
        rng.shuffle(calls)
        w.s.par(rng.choice([2, 4, 8]), rng.choice([3, 10]), calls[:12])
    return w.finish()


# ------------------------------------------------------------------ C11
FORMS = ["const", "pred", "predn", "predd", "ivaln", "not", "inv", "and2", "or2", "implies", "xor", "iff", "and", "or",
         "G", "F", "Gd", "Fd", "Gu", "Fu", "U", "Ud", "Uu", "ivald", "ivalu", "dump", "alias", "eq"]


def interval(rng, kind):
    """Bounds, good and bad."""
    if kind == "u":
        a = rng.choice([0, 0, 1, 2, 5, 2 ** 53 - 8, 2 ** 31, 2 ** 24 + 1, 2 ** 32 + 1, 2 ** 15 - 1, 255, 10 ** 9 + 7])
        return a, a + rng.choice([-2, -1, 0, 1, 1, 2, 7, 1000]) if a > 2 else a + rng.choice([0, 1, 1, 4])
    a = rng.choice([0.0, 0.0, 0.5, 1.0, 0.1, 2.75, -0.0, rng.uniform(0, 9)])
    b = rng.choice([a, a + 0.5, a + 1.0, up(a), INF, INF, a + 3.5, a * 2 + 1, a + 1e-9, a + 1e-6, 1e300,
                    1.7976931348623157e308])
    r = rng.random()
    if r < 0.12:
        a = rng.choice([-1.0, -0.1, -INF, -2.0 ** -60])
    elif r < 0.18:
        a = rng.choice([NAN, INF])
    elif r < 0.26:
        b = rng.choice([NAN, a - 0.5, 0.0, -INF, a, down(a)])
    return a, b


def c11(rng, i):
    s = Session(FORMS, "formula construction")
    names = rng.choice([["x", "y", "velocity_2", "a1"], ["x", "x1"], ["a", "A", ""],
                        ["the_velocity_of_the_vehicle_in_front", "the_velocity_of_the_vehicle_behind"]])
    near = rng.choice([1.0, 0.1, 1.5, -2.0, 1e300])
    pool = []
    for _ in range(rng.randint(1, 3)):
        pool.append(s.pred(rng.choice(names), rng.choice(["<", "<=", ">", ">="]),
                           rng.choice([0.0, 1.5, -2.0, 0.1, 1e300, INF, -INF, near, near, near, up(near),
                                       down(near), -0.0, 5e-324, 1e22, near + 1e-9]),
                           rng.choice(["pred", "predn"])))
    if rng.random() < 0.1:
        pool.append(s.predd(rng.choice(names)))
    if rng.random() < 0.7:
        pool.append(s.const(rng.random() < 0.5))
    if rng.random() < 0.4:
        pool.append(s.const(rng.random() < 0.5))
    recent = lambda: rng.choice(pool[-4:]) if rng.random() < 0.6 else rng.choice(pool)
    for _ in range(rng.randint(3, 12)):
        if rng.random() < 0.3:
            s.eq(recent(), rng.choice(pool))
        k = rng.choice(["and2"] * 4 + ["or2"] * 4 + ["not", "inv", "inv", "implies", "xor", "iff", "and", "or",
                        "G", "F", "Gd", "Fd", "Gu", "Fu", "U", "Ud", "Uu", "alias", "ivald", "ivalu"])
        a, b = recent(), recent()
        if k in ("not", "inv", "G", "F", "alias"):
            pool.append(s.un(k, a))
        elif k in ("and", "or"):
            pool_xs = [recent() for _ in range(rng.choice([0, 1, 2, 2, 3, 5]))]
            h = s.nary(k, pool_xs)
            if len(pool_xs) >= 2:
                pool.append(h)
        elif k[0] in "GF":
            h = s.bounded(k, a, *interval(rng, k[1]))
            if rng.random() < 0.2:
                s.dump(h)
        elif k in ("Ud", "Uu"):
            s.until(k, a, b, *interval(rng, k[1]))
        elif k in ("ivald", "ivalu"):
            if rng.random() < 0.1:
                s.interval("ivaln", 0.0, INF)
            s.interval(k, *interval(rng, k[4]))
        else:
            # the Boolean functions are compared by truth table: few enough atoms
            pool.append(s.bi(k, a, b))
        if len(pool) > 6 and k in ("xor", "iff", "implies"):
            pool = pool[:5] + pool[-1:]
    if rng.random() < 0.02:                     # many operands
        h = s.nary(rng.choice(["and", "or"]), [rng.choice(pool) for _ in range(rng.choice(WIDTHS))])
        s.dump(s.un("not", h))
    elif rng.random() < 0.02:                   # one after another
        k, h = rng.choice(["and2", "or2"]), pool[0]
        ps = [s.pred(rng.choice(names), rng.choice("<>"), float(j % 3)) for j in range(5)]
        for _ in range(rng.choice([20, 40, 70])):
            h = s.bi(k, h, rng.choice(ps))
        s.dump(h)
    for h in rng.sample(pool, min(len(pool), 4)):
        s.dump(h)
    return s


# ------------------------------------------------------------------ C12, C13
WORDS = ["x", "y", "p", "q1", "phi", "_a", "X_9", "trueish", "falsey", "not_p", "notp", "and1", "android",
         "or_", "order", "orange", "always_on", "eventuallyy", "untilx", "impliesq", "iffy", "xor2", "assert1",
         "assertion", "define", "define_formula", "T", "define_f", "e5", "inf", "nan", "X", "P", "p1", "p10",
         "the_position_of_the_vehicle_in_front_x", "the_position_of_the_vehicle_in_front_y",
         "the_position_of_the_vehicle_in_front_", "a" * 15 + "b", "a" * 15 + "c", "a" * 16,
         "w" * 63 + "1", "w" * 63 + "2", "Z" * 255 + "1", "Z" * 255 + "2"]
KEYWORDS = ["true", "false", "not", "and", "or", "implies", "iff", "xor", "always", "eventually", "until",
            "assert"]
BINARY = ["implies", "iff", "xor", "until"]
UNARY = ["not", "always", "eventually"]


def long_numeral(rng):
    """Many digits: leading zeros, small fractions, numbers next to the middle between two doubles."""
    n = rng.choice([20, 40, 70, 130, 300])
    k = rng.choice(["zeros", "small", "large", "middle", "middle", "any"])
    if k == "zeros":
        return "0" * n + rng.choice(["42", "1.5", "7e2"])
    if k == "small":
        return "0." + "0" * n + str(rng.randint(1, 999)) + rng.choice("eE") + rng.choice(["", "+"]) + str(n + 1)
    if k == "large":
        return str(rng.randint(1, 99)) + "0" * n + rng.choice([".0", "", ".5"]) + rng.choice("eE") + "-" + str(n)
    if k == "middle":
        x = rng.choice([1.0, 0.1, 2.0 ** 52 + 1, 123.456, 3e-5, rng.uniform(0.5, 2)])
        m = (Fraction(x) + Fraction(up(x))) / 2
        e = 0
        while m.denominator > 1 and e < 400:    # all of its digits
            m *= 10
            e += 1
        m = str(m.numerator * 10 ** 5 + rng.choice([-1, 0, 0, 1])).zfill(e + 6)
        return m[:-(e + 5)] + "." + m[-(e + 5):]
    return "".join(rng.choice("0123456789") for _ in range(n)) + "." + \
        "".join(rng.choice("0123456789") for _ in range(n))


def numeral(rng):
    if rng.random() < 0.03:
        return long_numeral(rng)
    r = rng.random()
    if r < 0.35:
        return str(rng.choice([0, 1, 2, 7, 10, 42, 100, 12345]))
    if r < 0.6:
        return rng.choice(["0.1", "1.5", "3.14159", "0.30000000000000004", "10.0", "00.5", "007", "2.50", "100.125"])
    if r < 0.7:
        return str(rng.randint(0, 10 ** rng.randint(1, 25)))
    if r < 0.8:
        return f"{rng.randint(0, 999)}.{rng.randint(0, 10 ** rng.randint(1, 18))}"
    if r < 0.95:
        m = rng.choice(["1", "2.5", "0.001", "9", "123.456", "1."])
        return m + rng.choice("eE") + rng.choice(["", "+", "-"]) + str(rng.choice([0, 1, 2, 5, 10, 20, 3, 100]))
    return repr(abs(rng.gauss(0, 1)) * 10 ** rng.randint(-9, 9)).replace("e+", "e")


def word(rng, keywords=0.05):
    return rng.choice(KEYWORDS) if rng.random() < keywords else rng.choice(WORDS)


def sterm(rng, defs, depth):
    """A term as nested lists of tokens."""
    r = rng.random()
    if depth <= 0 or r < 0.25:
        r = rng.random()
        if defs and r < 0.35:
            d = rng.choice(defs)
            return "true" if d in ("true", "false") else d
        if r < 0.5:
            return rng.choice(["true", "false"])
        op = rng.choice(["<", "<=", ">", ">="])
        w, n = word(rng), numeral(rng)
        return [op, w, n] if rng.random() < 0.6 else [op, n, w]
    if r < 0.32:
        return [sterm(rng, defs, depth - 1)]
    k = rng.choice(UNARY + ["and", "or"] * 2 + BINARY)
    n = 1 if k in UNARY else 2 if k in BINARY else rng.choice([2, 2, 3, 3, 5, 8, 13, 20] * 60 + [40, 130, 270])
    return [k] + [sterm(rng, defs, depth - 1 if n < 4 else 0) for _ in range(n)]


LEVELS = {"and": 2, "or": 2, "implies": 4, "iff": 6, "xor": 6}


def levels(t, known):
    """How deep the formula of a term is nested, roughly."""
    n, todo = 0, [(t, 0)]
    while todo:
        u, d = todo.pop()
        if isinstance(u, str):
            n = max(n, d + known.get(u, 1))
        else:
            d += LEVELS.get(u[0] if isinstance(u[0], str) else "", 1)
            todo += [(w, d) for w in (u if len(u) == 1 else u[1:])]
    return n


def spec_tree(rng, size=None, depth=3):
    cmds, fs, as_, known = [], [], [], {}
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6]) if size is None else size):
        kind = rng.choice(["define-formula", "define-formula", "assert"])
        used = fs if kind == "define-formula" else as_
        n = word(rng)
        if n in used:
            continue
        t = sterm(rng, fs, rng.randint(0, depth))
        if rng.random() < 0.06:                  # deeply nested
            ks = rng.choice([UNARY + ["", "and", "until"], UNARY, [""]])
            for _ in range(rng.choice([5, 10, 17, 33, 65, 101, 140, 260, 520])):
                k = rng.choice(ks)
                t = [t] if not k else [k, t] if k in UNARY else [k, rng.choice(["true", "false"]), t]
        if levels(t, known) > 900:
            t = "true"
        if kind == "define-formula":
            known[n] = levels(t, known)
        cmds.append([kind, n, t])
        used.append(n)
    return cmds


def tokens(t):
    if isinstance(t, str):
        return [t]
    return ["("] + [w for u in t for w in tokens(u)] + [")"]


GAPS = [" ", "  ", "\t", "\n", "\r\n", " \n ", "\v", "\f", "; c\n", ";\n", " ;; (not) \"x\n", "\n;a\n;b\n",
        "; crlf\r\n", ";; end\n\n", " ; define-formula\n", "; a lone \r is no end\n", "; \x00 \xff \x85\n",
        "; " + "long " * 60 + "\n", ";(\r(\n", ";\x0b)\n\x0c"]


def glued(a, b):
    """May the tokens stand side by side?"""
    if a in "()" or b in "()":
        return True
    if a in ("<", "<=", ">", ">="):
        return b not in ("<", "<=", ">", ">=", "=")
    return b in ("<", "<=", ">", ">=")


def layout(rng, toks, style=None):
    style = style or rng.choice(["plain", "plain", "tight", "wild", "wild"])
    gap = {"plain": lambda: " ", "tight": lambda: " ", "wild": lambda: rng.choice(GAPS)}[style]
    out = []
    for i, t in enumerate(toks):
        if i:
            if style == "plain":
                out.append("\n" if t == "(" and toks[i - 1] == ")" else
                           "" if toks[i - 1] == "(" or t == ")" else " ")
                if out[-1] == "" and not glued(toks[i - 1], t):
                    out[-1] = " "
            elif glued(toks[i - 1], t) and (style == "tight" or rng.random() < 0.3):
                pass
            else:
                out.append(gap())
                while style == "wild" and rng.random() < 0.2:
                    out.append(rng.choice(GAPS))
        out.append(t)
    s = "".join(out)
    if style == "wild":
        if rng.random() < 0.4:
            s = rng.choice(GAPS) + s
        r = rng.random()
        if r < 0.3:
            s += rng.choice(GAPS)
        elif r < 0.5:
            s += rng.choice([" ", "\n"]) + rng.choice([";", "; end", ";; ) (", "; \r", ";\r)", "; \x00x"])   # comment up to the end
    elif rng.random() < 0.5:
        s += "\n"
    return s


def c12(rng, i):
    s = Session(["parse", "parsef"], "well-formed text")
    toks = [t for c in spec_tree(rng) for t in tokens(c)]
    for _ in range(rng.choice([1, 2])):
        s.parse(layout(rng, toks), only="accept", op="parsef" if rng.random() < 0.25 else "parse")
    if rng.random() < 0.1:                       # the contents of a file change, its length does not
        for _ in range(2):
            t = layout(rng, toks)
            s.parse(t, only="accept", op="parsef")
            digits = [j for j, c in enumerate(t) if c.isdigit()]
            if digits:
                j = rng.choice(digits)
                s.parse(t[:j] + str((int(t[j]) + rng.randint(1, 9)) % 10) + t[j + 1:], only="accept", op="parsef")
    if rng.random() < 0.03:                      # a long file
        t = layout(rng, [t for c in spec_tree(rng, 25, 2) for t in tokens(c)])
        s.parse(t, only="accept")
    if rng.random() < 0.01:                      # a lot of nothing
        n = rng.choice([300, 1100, 4200, 8300])
        gap = rng.choice([" " * n, "\n" * n, ";" + "x" * n + "\n", "; a\n" * (n // 4)])
        j = rng.randint(0, len(toks))
        s.parse(" ".join(toks[:j]) + gap + " ".join(toks[j:]), only="accept")
    return s


def mutate(rng, toks, tree):
    toks = list(toks)
    k = rng.choice(["drop", "drop", "dup", "swap", "replace", "insert", "cut", "tail", "glue", "arity", "arity",
                    "name", "undefined", "undefined", "number", "number", "twice", "bare", "late", "join", "join",
                    "head", "case", "window", "other", "other"])
    at = lambda: rng.randrange(len(toks))
    if not toks:
        return [rng.choice([")", "(", "x", "1", "( )"])]
    if k == "drop":
        del toks[at()]
    elif k == "dup":
        j = at()
        toks.insert(j, toks[j])
    elif k == "swap":
        j = at()
        if j + 1 < len(toks):
            toks[j], toks[j + 1] = toks[j + 1], toks[j]
    elif k == "replace":
        toks[at()] = rng.choice(KEYWORDS + WORDS[:4] + ["(", ")", "<", ">=", "1", "define-formula", "maybe", "==",
                                                        "!", "&", "-1", "nand", "define", "ASSERT", "Not"])
    elif k == "join":                            # no space between two words
        js = [j for j in range(len(toks) - 1) if not glued(toks[j], toks[j + 1])]
        kw = [j for j in js if toks[j] in KEYWORDS or toks[j] == "define-formula"]
        js = kw if kw and rng.random() < 0.5 else js
        if js:
            j = rng.choice(js)
            toks[j:j + 2] = [toks[j] + toks[j + 1]]
        js = [j for j in range(len(toks) - 1) if toks[j] in UNARY + BINARY + ["and", "or"] and toks[j + 1] == "("]
        if js and rng.random() < 0.6:            # (notp): an operator and a name
            j = rng.choice(js)
            d, e = 0, j + 1
            while e < len(toks):
                d += (toks[e] == "(") - (toks[e] == ")")
                e += 1
                if d == 0:
                    break
            toks[j:e] = [toks[j] + rng.choice(WORDS + ["true", "false", "1"])]
    elif k == "case":                            # nearly a keyword
        js = [j for j, t in enumerate(toks) if t in KEYWORDS + ["or", "define-formula"]]
        if js:
            j = rng.choice(js)
            w = toks[j]
            c = rng.randrange(len(w))
            toks[j] = rng.choice([w.upper(), w.capitalize(), w[:c] + w[c].upper() + w[c + 1:], w[:-1], w + "s",
                                  w[0], w + w, w.replace("-", "_"), w[:c] + w[c + 1:]])
    elif k == "window":                          # no intervals in texts
        js = [j for j, t in enumerate(toks) if t in UNARY + BINARY]
        if js:
            j = rng.choice(js) + rng.choice([0, 1, 1, 1])
            toks[j:j] = rng.choice(["[0,1]", "[0, 1]", "[1,2]", "[0.5,1]", "[0,inf]", "[0 1]", "(0 1)", "(0,1)",
                                    "{0,1}", "0 1", "[0,1)", "_[0,1]", "[]", ":0 :1"]).split(" ")
    elif k == "other":                           # as in other languages
        r = rng.random()
        if r < 0.2:
            js = [j for j, t in enumerate(toks) if t in ("<", "<=", ">", ">=")]
            new = ["=", "==", "=<", "=>", "!=", "<>", "<<", ">>", "<==", ">=>", "lt", "ge", "> =", "< <"]
        elif r < 0.5:
            js = [j for j, t in enumerate(toks) if t in KEYWORDS[2:]]
            new = ["&&", "||", "!", "~", "->", "=>", "<->", "G", "F", "U", "globally", "finally", "historically",
                   "once", "next", "release", "nand", "nor", "implies_", "=", "assume", "if", "ite", "eventually!"]
        elif r < 0.6:
            js = [j for j, t in enumerate(toks) if t == "define-formula"]
            new = ["define", "define-fun", "define_formula", "formula", "let", "def", "define-", "defineformula",
                   "declare-const", "define-signal"]
        elif r < 0.7:
            js = [j for j, t in enumerate(toks) if t[:1].isdigit()]
            new = ["inf", "nan", "infinity", "1/2", "0b1", "1'0", "1 000", "(- 1)", "1d", "1L", "1e 5", "- 1", "y",
                   "\"1\"", "true", "$1", "1%"]
        elif r < 0.8:
            js = [j for j, t in enumerate(toks) if t in WORDS and t not in KEYWORDS]
            new = ["|x|", "'x", "x'", "x[0]", "x.y", "x-y", "x:", "$x", "@x", "x y", "x+1", "(x)", "2", "\xe9", "x,"]
        elif r < 0.9:
            js = [j for j, t in enumerate(toks) if t in "()"]
            new = ["[", "]", "{", "}", ")(", "((", "))", "(,", "()"]
        else:
            js = list(range(len(toks) + 1))
            new = ["# c\n", "// c\n", "/* c */", "-- c\n", "% c\n", "{- c -}", "#| c |#", ",", ":", "\xc2\xa0", "\xa0",
                   "\u00ad", "\x85", "\x00", "\x08", "\x1f", "\x7f"]
        if js:
            j = rng.choice(js)
            toks[j:j + (r < 0.9)] = [rng.choice(new)]
    elif k == "insert":
        toks.insert(rng.randint(0, len(toks)), rng.choice(["(", ")", "x", "1.5", "true", "not", "<", "#", "\"", "'",
                                                           "[0,1]", "\\", "\x00", "\xe9", "-", "+"]))
    elif k == "cut":
        toks = toks[:rng.randint(0, len(toks) - 1)]
    elif k == "tail":
        toks += rng.choice([[")"], ["x"], ["("], ["(", ")"], ["true"], ["(", "true", ")"], ["0"],
                            ["(", "not", "true", ")"], ["\x00"], ["\x00", ";"], ["\x1a"], ["\x04", "x"], ["\xff"],
                            ["\xef\xbb\xbf"], ["#"], ["."], ["\x00", "(", "assert", "z", "true", ")"]])
    elif k == "head":
        toks = rng.choice([["\x00"], ["\xef\xbb\xbf"], [")"], ["x"], ["#", "c"], ["\x1a"], ["()"]]) + toks
    elif k == "arity":
        js = [j for j, t in enumerate(toks) if t in UNARY + BINARY + ["and", "or", "define-formula", "assert"]]
        if js:
            j = rng.choice(js) + 1
            if rng.random() < 0.5:
                toks[j:j] = rng.choice([["true"], ["false"], ["(", "<", "x", "1", ")"]])
            else:                                # take one operand away
                e, d = j, 0
                while e < len(toks):
                    d += (toks[e] == "(") - (toks[e] == ")")
                    if d <= 0:
                        break
                    e += 1
                if d == 0 and j < len(toks) and toks[j] != ")":
                    del toks[j:e + 1]
                    if rng.random() < 0.2 and j < len(toks) and toks[j] not in "()":
                        del toks[j]
    elif k == "name":
        js = [j for j, t in enumerate(toks[:-1]) if t in ("define-formula", "assert")]
        if js:
            toks[rng.choice(js) + 1] = rng.choice(["1x", "a-b", "<", "9", "x.y", "(", "\"n\""])
    elif k == "undefined":
        js = [j for j, t in enumerate(toks) if t in ("true", "false")]
        if js:
            toks[rng.choice(js)] = rng.choice(
                ["unknown", "X", "zz", "tru", "truex", "False", "assert", "not"] +
                [c[1] for c in tree if c[0] == "assert"] +
                [rng.choice([c[1] + "_", c[1][:-1] or "zz", c[1].swapcase()]) for c in tree])
    elif k == "number":
        js = [j for j, t in enumerate(toks) if t[:1].isdigit()]
        if js:
            toks[rng.choice(js)] = rng.choice(["1.", ".5", "-1", "+1", "1e", "1e+", "0x10", "1.2.3", "1,5", "1e5.0",
                                               "1_0", "1.e", "--1", "1..2", "e5", "1E", "5.e-", "1f", "1.5.", "٣"
                                               .encode().decode("latin-1")])
    elif k == "twice":
        if tree:
            c = rng.choice(tree)
            again = tokens([c[0], c[1], rng.choice([c[2], "true"])])
            if rng.random() < 0.5:               # with other commands between them
                for j in range(rng.randint(1, 4)):
                    again = tokens([rng.choice(["define-formula", "assert"]), f"between{j}", "true"]) + again
            toks += again
    elif k == "bare":
        j = at()
        if toks[j] == "(":
            toks[j:j + 1] = ["(", "("]
    elif k == "late":                            # used before, or in, its own definition
        n = "later"
        toks += tokens(["assert", "a_late", n]) + tokens(["define-formula", n, rng.choice([n, "true"])])
    return toks


def c13(rng, i):
    s = Session(["parse", "parsef", "parsem"], "ill-formed text")
    for _ in range(3):
        tree = spec_tree(rng, rng.choice([0, 1, 1, 1, 2, 3]))
        toks = [t for c in tree for t in tokens(c)]
        toks = mutate(rng, toks, tree)
        if rng.random() < 0.15:
            toks = mutate(rng, toks, tree)
        t = layout(rng, toks) if toks else ""
        r = rng.random()
        if r < 0.12 and t:                       # an edit of one character
            j = rng.randrange(len(t))
            t = rng.choice([t[:j] + t[j + 1:], t[:j] + rng.choice("()<>=;.0eE-_x \n#\x00\xff") + t[j:],
                            t[:j] + rng.choice("()<>;.0e-_x \n") + t[j + 1:]])
        s.parse(t, only="reject", op="parsef" if r > 0.85 else "parse")
    if rng.random() < 0.05:
        s.parsem(rng.choice(["missing", "directory"]))
    return s


# ------------------------------------------------------------------ C14
def number(rng):
    return rng.choice([0.0, 1.0, -1.0, 2.5, 0.1, 1 / 3, 1e-7, 1e22, 1e23, 123456789.125, -0.30000000000000004,
                       5e-324, 1.7976931348623157e308, 2.0 ** 53, 2.0 ** 53 + 2, 1e16, 1e15, 100000.0, 1e5, 1e-4,
                       1e-5, 3.0000000000000004, rng.gauss(0, 1), rng.gauss(0, 1) * 10 ** rng.randint(-300, 300),
                       float(rng.randint(-10 ** 6, 10 ** 6)), rng.randint(-999, 999) / 100,
                       rng.choice([INF, -INF, 0.0]), float(10 ** rng.randint(0, 24)), 2.0 ** rng.randint(-80, 80)])


def c14(rng, i):
    s = Session(["print", "printos", "prints", "printp"], "printing")
    if rng.random() < 0.35:
        ts = sorted({number(rng) if rng.random() < 0.4 else rng.gauss(0, 100) for _ in range(rng.choice([0, 1, 2, 5, 20, 40, rng.choice([70, 150, 300, 600])]))})
        h = s.signal([(t, number(rng)) for t in ts if abs(t) < INF])
        s.printed(h, "prints")
        for j in {0, len(ts) // 2, len(ts)}:
            s.printp(h, j)
        return s
    names = rng.choice([["x", "y", "long_name_3", "p_q", "a"], ["x", "y", "long_name_3", "p_q", "a"],
                        ["{}", "{0}", "{{x}}", "{", "}", "{:d}", "a{"], ["%s", "%", "%n%d", "\\n", "\"", "a b"],
                        ["", "\xb5", "x\n", "\t", "n" * 300, "a\0b"]])

    def tree(d):
        if d <= 0 or rng.random() < 0.15:
            if rng.random() < 0.15:
                return ("const", rng.random() < 0.5)
            return ("pred", rng.choice(names), rng.choice(["<", "<=", ">", ">="]), number(rng))
        k = rng.choice(["not", "and", "or", "G", "F", "U"])
        if k == "not":
            return (k, tree(d - 1))
        if k in ("and", "or"):
            return (k, [tree(d - 1) for _ in range(rng.choice([2, 2, 3, 4]))])
        if k == "U":
            a, b = tree(d - 1), tree(d - 1)
            if rng.random() < 0.5:
                return (k, a, b)
            lo = rng.choice([0.0, 0.5, abs(number(rng))])
            hi = rng.choice([INF, lo + 1.0, lo * 2 + 0.1])
            return (k, a, b, lo, hi) if lo < hi else (k, a, b)
        r = rng.random()
        if r < 0.3:
            return (k, tree(d - 1))
        if r < 0.5:
            lo = rng.choice([0, 1, 3, 10, 100000, 2 ** 31, 2 ** 32 + 1, 10 ** 15 + 1, 2 ** 53 - 2 * 10 ** 6])
            return (k, tree(d - 1), lo, lo + rng.choice([1, 2, 90, 1000000]))
        lo = rng.choice([0.0, 0.5, 0.1, 1e-7, abs(number(rng)), 1e22])
        hi = rng.choice([INF, lo + 1.0, lo + 0.1, lo * 2 + 1])
        return (k, tree(d - 1), lo, hi) if lo < hi else (k, tree(d - 1))
    if rng.random() < 0.02:
        e = row(rng, names, "grid") if rng.random() < 0.5 else \
            tower(rng, names, "grid", ["not", "G", "F", "U", "Gd", "Fd", "and", "or"])
    else:
        e = tree(rng.choice([0, 1, 1, 2, 3]))
    x = s.build(e)
    s.printed(x)
    if rng.random() < 0.3:
        s.printed(x, "printos")
    return s


# ------------------------------------------------------------------ C17
def c17(rng, i):
    s = Session(["interp", "area", "isect", "order"], "lines of samples")
    style = rng.choice(STYLES)
    x = signal(rng, style) if rng.random() < 0.95 else []
    y = relative(rng, x, style)
    a, b = s.signal(x), s.signal(y)
    if rng.random() < 0.3:                      # samples of derived signals
        a = rng.choice([s.simplify, s.copy])(a)
    for _ in range(rng.randint(3, 6)):
        j, k = rng.randint(0, len(x)), rng.randint(0, len(y))
        s.isect(a, j, b, k)
        s.isect(b, k, a, j)
        s.order(a, j, b, k)
        s.order(a, j, a, rng.randint(0, max(0, len(x) - 1)))
        for t in queries(rng, x, 3):
            if math.isfinite(t) and abs(t) < 1e8:
                s.area(a, t, j)
                s.interp(a, t, j)
    return s


# ------------------------------------------------------------------ C18
def altered(rng, x, style, k, part):
    """x with everything before (after) its k-th sample replaced."""
    t = x[k][0]
    n = rng.randint(0, 5)
    if part == "future":
        ts = sorted(u for u in ({t - rng.choice([0.25, 0.5, 1.0, 1.5, 2.0, 5.0]) for _ in range(n)}) if u < t)
        return list(zip(ts, values(rng, style, len(ts)))) + x[k:]
    ts = sorted(u for u in ({t + rng.choice([0.25, 0.5, 1.0, 1.5, 2.0, 5.0]) for _ in range(n)}) if u > t)
    return x[:k + 1] + list(zip(ts, values(rng, style, len(ts))))


def c18(rng, i):
    s = Session(["law"], "locality")
    kind = ["future", "past", "hold", "same"][i % 4]
    s.tag = "locality: " + kind
    style = rng.choice(EXACT + STYLES)
    names = NAMES[:rng.choice([1, 2, 2, 3])]
    tr = sparse(rng, trace(rng, names, style, big=rng.random() < 0.3, overlap=True))
    if rng.random() < 0.05:
        tr = {n: x[:1] for n, x in tr.items()}
    x0 = tr["x"]
    if kind == "hold":                          # the signals end together
        end = max(x[-1][0] for x in tr.values())
        tr = {n: x if x[-1][0] == end else x + [(end, value(rng, style))] for n, x in tr.items()}
    e = temporal(rng, names, style, rng.choice([1, 1, 2, 2]), ("G", "F") if kind == "past" else ("G", "F", "U"),
                 0.95 if kind == "past" else 0.5, x0, 0.0 if kind == "same" else 0.04)
    if kind == "past" and rng.random() < 0.6:   # windows that end within the signals
        span = max(x0[-1][0] - x0[0][0], 1.0)
        lo = rng.choice([0.0, 0.0, 0.25, 0.5, 1.0])
        hi = lo + rng.choice([0.25, 0.5, 1.0, span / 4])
        p = pred(rng, names, style) if rng.random() < 0.6 else boolean(rng, names, style, 1, 0)
        e = (rng.choice("GF"), p, lo, hi)
        if rng.random() < 0.3:
            e = (rng.choice(["and", "or"]), [e, pred(rng, names, style)])
    a = s.build(e)
    t = put(s, tr)
    r = s.rob(a, t)
    for _ in range(2):
        if kind == "hold":
            end = x0[-1][0]
            d = rng.choice([0.5, 1.0, 4.0, 100.0])
            if end + d <= end:
                break
            u = {n: x + [(end + d, x[-1][1])] for n, x in tr.items()}
            if rng.random() < 0.5:              # with more samples on the way
                u = {n: x[:-1] + [(end + d / 2, x[-1][1]), x[-1]] if rng.random() < 0.6 and
                     end < end + d / 2 < end + d else x for n, x in u.items()}
        elif kind == "same":
            extra = [(n, s.signal(relative(rng, x0, style))) for n in rng.sample(["w", "xx", "", "Y", "z9"], 2)]
            u = t + extra
            rng.shuffle(u)
            s.law("same", r, s.rob(a, u))
            continue
        else:
            u = {}
            m = rng.choice([p[0] for p in x0])  # around here
            for n, x in tr.items():
                near = [j for j, p in enumerate(x) if p[0] >= m] if kind == "future" else \
                       [j for j, p in enumerate(x) if p[0] <= m]
                k = (near[0] if kind == "future" else near[-1]) if near else rng.randrange(len(x))
                u[n] = altered(rng, x, style, k, kind) if rng.random() < 0.8 else x
        q = s.rob(a, put(s, u))
        s.law(kind, r, q)
        s.law(kind, q, r)
    return s


# ------------------------------------------------------------------ C19
def refined(rng, x, style):
    """More samples on the same lines; halves only, so that they are exact."""
    out = []
    for (t, v), nxt in zip(x, x[1:] + [None]):
        out.append((t, v))
        if nxt and rng.random() < 0.5:
            for w in sorted(rng.sample([0.25, 0.5, 0.75], rng.choice([1, 1, 2, 3]))):
                out.append((t + w * (nxt[0] - t), v + w * (nxt[1] - v)))
    return out


def c19(rng, i):
    s = Session(["law"], "redundant samples")
    style = rng.choice(["dyadic", "grid", "tiny"])
    names = NAMES[:rng.choice([1, 1, 2, 2, 3])]
    tr = sparse(rng, trace(rng, names, style, big=False, overlap=True))
    if rng.random() < 0.4:
        tr = {n: straightened(rng, style) if rng.random() < 0.5 else x for n, x in tr.items()}
    for _ in range(30):
        e = monitorable(rng, names, style, rng.choice([0, 1, 1, 2]), tr["x"])
        if "U" not in str(e):
            break
    a = s.build(e)
    t = put(s, tr)
    r = s.rob(a, t)
    for _ in range(3):
        if rng.random() < 0.3:
            u = [(n, s.simplify(h) if rng.random() < 0.7 else h) for n, h in t]
        else:
            u = put(s, {n: refined(rng, x, style) if rng.random() < 0.8 else x for n, x in tr.items()})
        q = s.rob(a, u)
        s.law("refine", r, q)
        if rng.random() < 0.3:
            s.law("refine", q, r)
    return s


# ------------------------------------------------------------------ C20
def written(x):
    """A numeral for a double that is not negative."""
    t = repr(x)
    if "inf" in t or "nan" in t:
        return "1"
    return t.replace("e+", "e")


def mterm(rng, defs, names, style, depth):
    """A term over the signals named: (as written, as a formula tuple)."""
    r = rng.random()
    if depth <= 0 or r < 0.2:
        if defs and rng.random() < 0.45:
            n = rng.choice(list(defs))
            return n, defs[n]
        if rng.random() < 0.04:
            b = rng.random() < 0.5
            return "true" if b else "false", ("const", b)
        op = rng.choice(["<", "<=", ">", ">="])
        w, c = rng.choice(names), abs(threshold(rng, style))
        if style in EXACT and rng.random() < 0.5:
            c = rng.choice([0.0, 1.0, 2.0, 0.5])
        if rng.random() < 0.6:
            return [op, w, written(c)], ("pred", w, op, c)
        flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
        return [op, written(c), w], ("pred", w, flip, c)
    sub = lambda: mterm(rng, defs, names, style, depth - 1)
    if r < 0.25:
        t, e = sub()
        return [t], e
    k = rng.choice(UNARY + ["and", "or"] * 2 + BINARY)
    if k in UNARY:
        t, e = sub()
        return [k, t], ({"not": "not", "always": "G", "eventually": "F"}[k], e)
    if k in BINARY:
        (t, e), (u, f) = sub(), sub()
        return [k, t, u], ("U" if k == "until" else k, e, f)
    parts = [sub() for _ in range(rng.choice([2, 2, 3, 3, 5]) if depth < 2 else 2)]
    return [k] + [t for t, _ in parts], (k, [e for _, e in parts])


def size(e):
    if e[0] in ("const", "pred"):
        return 1
    if e[0] in ("and", "or"):
        return 1 + sum(map(size, e[1]))
    n = sum(size(a) for a in e[1:] if isinstance(a, tuple))
    return 2 * n + 4 if e[0] in ("iff", "xor") else n + 1


def c20(rng, i):
    s = Session(["mon", "law"], "from text to robustness")
    style = rng.choice(EXACT + STYLES)
    names = rng.choice([["x"], ["x", "y"], ["x", "y"], ["x", "y", "z"], ["speed", "speed_front"], ["x", "x1", "x10"],
                        ["p", "q"]])
    tr = sparse(rng, trace(rng, names, style, big=rng.random() < 0.2, empty=0.01, overlap=rng.random() < 0.9))
    defs, cmds, asserted = {}, [], {}
    for j in range(rng.choice([0, 1, 1, 2, 3])):
        t, e = mterm(rng, defs, names, style, rng.choice([0, 1, 1, 2]))
        n = rng.choice(["p", "q", "phi", "p1", "notp", "x", "always_p", "r"])
        if n in defs or size(e) > 25:
            continue
        defs[n] = e
        cmds.append(["define-formula", n, t])
        if rng.random() < 0.2 and n not in asserted:
            asserted[n] = ("not", e)
            cmds.append(["assert", n, ["not", n]])
    for _ in range(10):
        t, e = mterm(rng, defs, names, style, rng.choice([1, 1, 2, 2, 3]))
        if size(e) <= 25:
            break
    else:
        t, e = "true", ("const", True)
    if "a" not in asserted:
        asserted["a"] = e
        cmds.append(["assert", "a", t])
    if rng.random() < 0.3:
        cmds.append(["define-formula", "late", ["not", "true"]])
    text = layout(rng, [w for c in cmds for w in tokens(c)])
    sigs = put(s, tr)
    r = s.mon("a", text, "a", sigs, flag=rng.choice([0, 1, 2]))
    if defs and rng.random() < 0.5:
        s.mon("f", text, rng.choice(list(defs)), sigs, store=False)
    if rng.random() < 0.2:
        s.mon(rng.choice("af"), text, rng.choice(["p", "late", "b", "x"]), sigs, store=False)
    if rng.random() < 0.1:
        s.mon("a", text, "a", sigs[1:] + [("spare", sigs[0][1])], store=False)
    k = rng.random()
    if k < 0.25:                                # the same by hand
        s.law("same", r, s.rob(s.build(e), sigs))
    elif k < 0.5:                               # the same in steps, the text in another layout
        p = s.parse(layout(rng, [w for c in cmds for w in tokens(c)]), store=True,
                    op=rng.choice(["parse", "parsef"]))
        s.law("same", r, s.rob(s.get("geta", p, "a"), sigs))
    elif k < 0.65:                              # the same as a definition
        u = [c if c[1] != "a" or c[0] != "assert" else ["define-formula", "the_assertion", c[2]] for c in cmds]
        s.law("same", r, s.mon("f", layout(rng, [w for c in u for w in tokens(c)]), "the_assertion", sigs))
    return s


# ------------------------------------------------------------------ more samples than 16 bits count
def giant(pid, rng):
    """One session over a signal of some 66000 samples, for the properties that are about signals."""
    n = rng.randint(65540, 67000)
    x = signal(rng, "dyadic", n)
    few = lambda m: signal(rng, "dyadic", m, start=x[0][0] - 0.5)
    along = lambda m: list(zip([x[0][0] + (x[-1][0] - x[0][0]) * j / m for j in range(m + 1)],
                               values(rng, "dyadic", m + 1)))      # over all of x
    late = [x[-3], x[65535], x[65536], x[65537], x[32768]]
    s = Session([], "66000 samples")
    if pid == "C01":
        s.judge = BUILD
        h = s.signal(x) if rng.random() < 0.5 else s.samples([(t, v, 0.0) for t, v in x])
        for k in range(3):
            s.push(h, x[-1][0] + 1.0 + k, 0.5 * k)
        s.obs(s.copy(h))
    elif pid == "C02":
        s.judge = ["at", "idx", "range", "interp", "obs"]
        h = s.signal(x)
        for t in queries(rng, x, 20) + [t for t, _ in late] + [t + 0.125 for t, _ in late]:
            s.at(h, t)
        for j in (n - 1, n, 65535, 65536, 65537):
            s.idx(h, j)
            s.interp(h, x[-2][0] + 0.1, j)
        s.range(h, x[3][0], x[-3][0])
        s.range(h, x[65534][0] + 0.125, x[65537][0])
    elif pid == "C03":
        s.judge = ["resize", "shift", "rshift"]
        h = s.signal(x)
        k = rng.randrange(3)
        if k == 0:
            s.resize(h, x[2][0] + 0.125, x[-2][0] + 0.125, 1.0)
        elif k == 1:
            s.shift(h, 0.5)
        else:
            s.rshift(h, x[0][0] - 1.0, x[-1][0] + 2.0, 0.5, -4.0)
    elif pid == "C04":
        s.judge = ["simplify"]
        s.simplify(s.signal(straightened(rng, "dyadic", n)))
    elif pid == "C05":
        s.judge = ["sync"]
        y = along(rng.choice([3, 700]))
        a, b = s.signal(x), s.signal(y)
        s.sync(a, b) if rng.random() < 0.5 else s.sync(b, a)
    elif pid in ("C06", "C07", "C08"):
        s.judge = ["rob"]
        a, b = s.signal(x), s.signal(along(rng.choice([3, 700])))
        p = s.pred("x", rng.choice([">", "<="]), 0.5)
        q = s.pred("y", rng.choice([">=", "<"]), 0.25)
        if pid == "C06":
            e = s.nary(rng.choice(["and", "or"]), rng.choice([[p, q], [q, p]]))
        elif pid == "C07":
            e = s.bi("U", *rng.choice([[p, q], [q, p]])) if rng.random() < 0.4 else s.un(rng.choice("GF"), p)
        else:
            lo = rng.choice([0.0, 0.5, 3.0])
            e = s.bounded(rng.choice(["Gd", "Fd"]), p, lo, lo + rng.choice([0.5, 7.0, 40.0, 70000.0]))
        s.rob(e, [("x", a), ("y", b)])
    elif pid == "C17":
        s.judge = ["interp", "area", "isect", "order"]
        a, b = s.signal(x), s.signal(few(5))
        for j in (n - 1, n, 65535, 65536, 65537, rng.randrange(n)):
            s.area(a, x[min(j, n - 1)][0] + 0.5, j)
            s.interp(a, x[-1][0], j)
            s.isect(a, j, b, 2)
            s.order(b, 1, a, j)
    elif pid in ("C12", "C13"):
        s = Session(["parse", "parsef"], "66000 characters")
        tree = [["define-formula", f"a{k}", ["or", f"a{k - 1}" if k % 3 and k else "true", [rng.choice(BINARY),
                 [">", f"x{k % 7}", str(k)], "false"]]] for k in range(rng.randint(280, 330))]
        toks = [t for c in tree for t in tokens(c)]
        j = rng.randrange(len(toks))
        text = " ".join(toks[:j]) + rng.choice([" ", "\n", "; a\n", "; remark"]) * 9000 + "\n" + " ".join(toks[j:])
        text += ";" + "x" * max(0, 65600 - len(text) + rng.randint(0, 500)) + "\n"
        if pid == "C12":
            s.parse(text + "(assert last a1)", op=rng.choice(["parse", "parsef"]), only="accept")
        else:
            s.parse(text + rng.choice(["(assert last a1", "(assert last b1)", "(define-formula a2 true)", ")", "?",
                                       "(assert last (not))", "(assert last (> x y))"]), only="reject")
    else:
        return None
    return s
