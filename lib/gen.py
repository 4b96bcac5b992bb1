"""Generators of signals, traces and formulas.

Formulas are tuples: ("const", b) ("pred", name, cmp, c) ("not", e) ("and", [e..])
("or", [e..]) ("G", e[, lo, hi]) ("F", e[, lo, hi]) ("U", e, e[, lo, hi])."""
import math

INF = math.inf
NAN = math.nan


def up(t):
    """The next instant (near 0: not so near that slopes overflow)."""
    return t + 2.0 ** -60 if abs(t) < 2.0 ** -9 else math.nextafter(t, INF)


def down(t):
    return t - 2.0 ** -60 if abs(t) < 2.0 ** -9 else math.nextafter(t, -INF)


STYLES = ["dyadic", "dyadic", "grid", "grid", "decimal", "wild", "close", "far", "tiny"]
EXACT = ["dyadic", "grid", "dyadic", "grid", "tiny"]
TINY = 2.0 ** -32


HUGE = [1030, 1100, 1300, 1600, 2100, 2600, 4200]
_huge = [0]


def huge_next(n):
    """The next length that may be large is n (0: none)."""
    _huge[0] = n


def huge_waiting():
    return _huge[0] > 0


def length(rng, big=True):
    if big and _huge[0]:
        n, _huge[0] = _huge[0], 0
        return n
    r = rng.random()
    if r < 0.06:
        return 1
    if r < 0.16:
        return 2
    if r < 0.90 or not big:
        return rng.randint(3, 8)
    if r < 0.97:
        return rng.randint(9, 40)
    if r < 0.995:
        return rng.randint(60, 140)
    return rng.randint(200, 500)


def times(rng, style, n, start=None):
    if style in ("dyadic", "tiny"):
        t = rng.randint(-8, 8) / 4 if start is None else start
        gap = lambda: rng.choice([0.25, 0.5, 1.0, 1.0, 2.0])
    elif style == "grid":
        t = float(rng.randint(-2, 3)) if start is None else start
        gap = lambda: float(rng.choice([1, 1, 1, 2, 4]))
    elif style == "decimal":
        t = rng.randint(-20, 20) / 10 if start is None else start
        gap = lambda: rng.choice([0.1, 0.1, 0.2, 0.3, 0.7, 1.1])
    elif style == "wild":
        t = rng.uniform(-5, 5) if start is None else start
        gap = lambda: rng.uniform(1e-3, 2) * (1e-3 if rng.random() < 0.1 else 1)
    elif style == "close":
        t = rng.choice([0.0, 0.1, 1.0, -1.0, 7.3]) if start is None else start
        gap = lambda: 0.0 if rng.random() < 0.3 else rng.choice([0.1, 0.5, 1.0])
    else:  # far
        t = rng.choice([-1, 1]) * (1e6 + rng.randint(0, 1000) / 8) if start is None else start
        gap = lambda: rng.choice([0.125, 0.5, 1.0, 0.3])
    ts = [t]
    near = n > 2 and start is None and rng.random() < 0.1    # some instants hardly apart
    bursts, pace = n > 2 and rng.random() < 0.15, 1.0
    for _ in range(n - 1):
        if bursts and rng.random() < 0.15:     # much denser or sparser from here on
            pace = rng.choice([2.0 ** -6, 2.0 ** -3, 1.0, 8.0, 64.0])
        g = gap() * pace
        if near and rng.random() < 0.3:
            g = rng.choice([2.0 ** -14, 2.0 ** -20, 2.0 ** -24, 2.0 ** -30, 1e-7, 1e-9])
        t2 = t + g
        if style == "decimal" and not bursts and not near and rng.random() < 0.7:
            t2 = round(t2, 1)
        for _ in range(rng.randint(1, 3) if t2 <= t else 0):
            t2 = up(max(t, t2))
        t = t2 if t2 > t else up(t)
        ts.append(t)
    return ts


def value(rng, style):
    if style in ("dyadic", "close"):
        return rng.randint(-16, 16) / 4
    if style == "tiny":
        return rng.randint(-16, 16) * TINY
    if style == "grid":
        return float(rng.choice([-4, -2, -1, -1, 0, 0, 1, 1, 2, 4]))
    if style == "decimal":
        return rng.randint(-50, 50) / 10
    if style == "far":
        return rng.randint(-64, 64) / 8
    return rng.gauss(0, 1) * 10 ** rng.uniform(-3, 5)


def values(rng, style, n):
    vs, v = [], value(rng, style)
    shape = rng.random()
    for i in range(n):
        vs.append(v)
        if shape < 0.15:                       # sawtooth
            v = abs(value(rng, style)) * (1 if i % 2 else -1)
        elif shape < 0.25:                     # ramp
            v = v + rng.choice([0.25, 0.5, 1.0]) * (4 * TINY if style == "tiny" else 1)
        elif shape < 0.35:                     # falling ramp
            v = v - rng.choice([0.25, 0.5, 1.0]) * (4 * TINY if style == "tiny" else 1)
        elif rng.random() < 0.25:              # plateau
            pass
        else:
            v = value(rng, style)
    return vs


def signal(rng, style=None, n=None, start=None, big=True):
    style = style or rng.choice(STYLES)
    n = length(rng, big) if n is None else n
    ts = times(rng, style, n, start)
    return list(zip(ts, values(rng, style, n)))


def straightened(rng, style, n=None):
    """A signal with plateaus, collinear runs and corners."""
    n = n or (length(rng) if huge_waiting() else rng.randint(1, 14))
    ts = times(rng, style, n)
    out, v, slope = [], value(rng, style), 0.0
    for j, t in enumerate(ts):
        if j:
            v = v + slope * (t - ts[j - 1])
        out.append((t, v))
        if rng.random() < 0.4:
            slope = rng.choice([0.0, 0.0, 1.0, -1.0, 0.5, -2.0, 4.0])
        if rng.random() < 0.1:
            v = value(rng, style)
    return out


def relative(rng, x, style, big=False):
    """A signal whose time axis is related to that of x."""
    if not x:
        return signal(rng, style, big=big)
    b, e = x[0][0], x[-1][0]
    r = rng.random()
    ts = [t for t, _ in x]
    if r < 0.25:                               # the same instants
        pass
    elif r < 0.40:                             # some of them
        ts = [t for t in ts if rng.random() < 0.6] or ts[:1]
    elif r < 0.55:                             # some of them and others
        extra = times(rng, style, rng.randint(1, 5), b - rng.choice([0, 0.5, 1]))
        ts = sorted(set([t for t in ts if rng.random() < 0.7] + extra))
    elif r < 0.63:                             # one rounding error apart
        ts = sorted(set(rng.choice([t, up(t), down(t)]) for t in ts))
    elif r < 0.75:                             # overlapping later
        ts = times(rng, style, rng.randint(1, 8), rng.choice(ts))
    elif r < 0.80:                             # touching
        ts = times(rng, style, rng.randint(1, 6), e)
    elif r < 0.84:                             # disjoint
        ts = times(rng, style, rng.randint(1, 6), e + 1.0)
    elif r < 0.87:                             # nearly touching
        ts = times(rng, style, rng.randint(1, 6), rng.choice([up(e), down(e)]))
    else:
        ts = times(rng, style, length(rng, big), b - rng.choice([0, 0.5, 1, 2]))
    return list(zip(ts, values(rng, style, len(ts))))


NAMES = ["x", "y", "z"]
_LONG = "the_position_of_the_centre_of_the_vehicle_in_front_"


def names_for(rng, n):
    """Names of signals; some of them easily confused."""
    if rng.random() < 0.7:
        return NAMES[:n]
    return rng.sample(rng.choice([
        ["x", "x1", "x10", "x_"], ["a", "A", "aa", "Aa"], ["speed", "speed_front", "speed_rear", "spee"],
        ["", "x", "X"], [_LONG + "x", _LONG + "y", _LONG + "z", _LONG], ["y", "x", "z"],
        ["true", "not", "G", "F"], ["p.q", "p q", "p\xe9", "p-q"]]), n)


def absent(rng, names):
    """The name of no signal, perhaps nearly that of one."""
    n = rng.choice(names)
    near = [n[:-1], n[1:], n[:1], n + "0", n + n, n.upper(), n.lower(), n.swapcase(), " " + n, n + " ", "", "nope"]
    return rng.choice([x for x in near if x not in names] or ["nope"])


def trace(rng, names, style=None, big=True, empty=0.0, overlap=False):
    """name -> signal."""
    style = style or rng.choice(STYLES)
    out = {}
    first = straightened(rng, style, rng.randint(9, 30)) if rng.random() < 0.12 and not huge_waiting() else \
        signal(rng, style, big=big)
    for i, n in enumerate(names):
        if rng.random() < empty:
            out[n] = []
        elif i == 0 or rng.random() < 0.07:    # (one object under two names)
            out[n] = first
        else:
            out[n] = relative(rng, first, style, big)
            if overlap:
                for _ in range(8):
                    if max(first[0][0], out[n][0][0]) <= min(first[-1][0], out[n][-1][0]):
                        break
                    out[n] = relative(rng, first, style, big)
    return out


def threshold(rng, style):
    if style in ("wild",):
        return rng.choice([0.0, rng.gauss(0, 3), value(rng, style)])
    if style == "decimal":
        return rng.randint(-30, 30) / 10
    if style == "tiny":
        return rng.randint(-6, 6) * TINY
    return rng.choice([0.0, 0.0, 1.0, -1.0, 0.5, 2.0, -0.25])


def pred(rng, names, style):
    return ("pred", rng.choice(names), rng.choice(["<", "<=", ">", ">="]), threshold(rng, style))


def boolean(rng, names, style, depth, const=0.05):
    if depth <= 0 or rng.random() < 0.15:
        if rng.random() < const:
            return ("const", rng.random() < 0.5)
        return pred(rng, names, style)
    k = rng.choice(["not", "and", "and", "or", "or"])
    if k == "not":
        return ("not", boolean(rng, names, style, depth - 1, const))
    n = rng.choice([2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, 17])
    return (k, [boolean(rng, names, style, depth - 1 if n < 4 else 0, const) for _ in range(n)])


HEIGHTS = [12, 20, 33, 40, 65, 70, 101, 130, 180, 260, 520]
WIDTHS = [20, 33, 40, 65, 70, 129, 150, 260, 300, 520]


def tower(rng, names, style, kinds, heights=HEIGHTS):
    """A formula nested very deep."""
    e, joins = pred(rng, names, style), 6
    for _ in range(rng.choice(heights)):
        k = rng.choice(kinds)
        if k in ("and", "or") and joins == 0:   # (the numbers get longer with each)
            k = rng.choice([x for x in kinds if x not in ("and", "or")])
        if k in ("and", "or"):
            joins -= 1
            xs = [e, pred(rng, names, style)]
            e = (k, xs if rng.random() < 0.5 else xs[::-1])
        elif k == "U":
            e = ("U", e, pred(rng, names, style)) if rng.random() < 0.5 else ("U", pred(rng, names, style), e)
        elif k in ("Gd", "Fd"):
            e = (k[0], e, *window(rng, style))
        else:
            e = (k, e)
    return e


def row(rng, names, style, widths=WIDTHS):
    """A formula with very many operands."""
    return (rng.choice(["and", "or"]), [pred(rng, names, style) for _ in range(rng.choice(widths))])


def confusable(rng, e):
    """Some predicates once more, with a constant next to theirs."""
    if e[0] in ("and", "or"):
        xs = [confusable(rng, a) for a in e[1]]
        ps = [a for a in xs if a[0] == "pred"]
        if ps and rng.random() < 0.3:
            p = rng.choice(ps)
            c = rng.choice([up(p[3]), down(p[3]), p[3] + 1e-9, p[3] - 1e-7, p[3] + 1e-5, -p[3], p[3] + 2.0 ** -20])
            xs.insert(rng.randint(0, len(xs)), ("pred", p[1], rng.choice([p[2], p[2], "<", ">="]), c))
        return (e[0], xs)
    return tuple(confusable(rng, a) if isinstance(a, tuple) else a for a in e)


def window(rng, style, x=None):
    """An interval; x: a signal whose instants matter."""
    r = rng.random()
    if r < 0.30:
        a = rng.choice([0, 0, 1, 2, 3])
        return a, a + rng.choice([1, 1, 2, 3, 5, 50])
    if style == "wild":
        a = rng.choice([0.0, rng.uniform(0, 3)])
        b = a + rng.uniform(1e-3, 4)
    elif style == "decimal":
        a = rng.randint(0, 15) / 10
        b = rng.randint(int(a * 10) + 1, 40) / 10
        if b <= a:
            b = a + 1
    else:
        a = rng.choice([0.0, 0.0, 0.25, 0.5, 1.0, 1.0, 2.0, 3.0])
        b = a + rng.choice([0.25, 0.5, 1.0, 1.0, 2.0, 3.0, 4.5])
    if x and len(x) > 1 and rng.random() < 0.4:   # ends that fall on instants
        t = [p[0] for p in x]
        i = rng.randrange(len(t) - 1)
        j = rng.randrange(i + 1, len(t))
        d = t[j] - t[i]
        if d > 0:
            a, b = rng.choice([(0.0, d), (d, d + (b - a)), (min(a, d / 2), d)])
    if rng.random() < 0.06:                       # very narrow
        if rng.random() < 0.3:
            a = rng.choice([1e-4, 0.1, 1e-9, 0.5])
        b = rng.choice([up(a), a + 1e-9, a + 1e-6, a + 2.0 ** -20, a + 1e-3])
    elif rng.random() < 0.03:
        a = rng.choice([1e-4, 1e-9, 2.0 ** -40])
    if rng.random() < 0.17:
        b = INF
    elif rng.random() < 0.08:
        b = a + 1e4
    elif rng.random() < 0.04:                     # the window starts after the end
        a, b = a + 500.0, b + 500.0
    if not (0 <= a < b):
        a, b = 0.0, 1.0
    return float(a), float(b)


def temporal(rng, names, style, depth, ops=("G", "F", "U"), bounded=0.0, x=None, const=0.04):
    """A formula with temporal operators."""
    if depth <= 0:
        return boolean(rng, names, style, 0, const)
    k = rng.choice(list(ops) * 2 + ["not", "and", "or"])
    sub = lambda: temporal(rng, names, style, depth - 1, ops, bounded, x, const)
    if k in ("G", "F"):
        if rng.random() < bounded:
            return (k, sub(), *window(rng, style, x))
        return (k, sub())
    if k == "U":
        return ("U", sub(), sub())
    if k == "not":
        return ("not", sub())
    return (k, [sub() for _ in range(rng.choice([2, 2, 3]))])


def names_of(e):
    if e[0] == "pred":
        return {e[1]}
    if e[0] == "const":
        return set()
    if e[0] in ("and", "or"):
        return set().union(*map(names_of, e[1]))
    return set().union(*(names_of(a) for a in e[1:] if isinstance(a, tuple)))
