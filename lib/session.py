"""Sessions: sequences of API calls, as driver script lines and as the event records of
spec/Session.tla, and the conversion of the driver's reports to results."""
import json, math

BIG = 2 ** 31 - 1


def _int(n):
    return n if -BIG <= n <= BIG else str(n)


def q(x):
    """A number as the exact rational of spec/Rat.tla."""
    if isinstance(x, int):
        return [_int(x), 1]
    if math.isnan(x):
        return [0, 0]
    if math.isinf(x):
        return [1 if x > 0 else -1, 0]
    n, d = x.as_integer_ratio()
    return [_int(n), _int(d)]


def f(x):
    """A number as a driver argument."""
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return x.hex()


def codes(s):
    return list(s.encode("latin-1"))


def hexed(s):
    b = s.encode("latin-1")
    return b.hex() if b else "-"


_LITERAL = {"out", "what", "k", "op"}


def _flat(e):
    """The nodes of a formula, operands first; operands are given by number (see Thawed in TraceSession)."""
    nodes, todo, out = [], [(e, None)], []
    while todo:
        v, n = todo.pop()
        if n is None:
            kids = v["as"] if "as" in v else [v[k] for k in ("a", "b") if k in v and v["k"] not in ("const", "pred")]
            todo.append((v, len(kids)))
            todo += [(w, None) for w in reversed(kids)]
        else:
            ks = out[len(out) - n:]
            del out[len(out) - n:]
            v = dict(v)
            if "as" in v:
                v["as"] = ks
            else:
                v.update(zip(("a", "b"), ks))
            nodes.append(v)
            out.append(len(nodes))
    return nodes


def _deep(e):
    """Is the formula nested deeper than JSON readers like?"""
    n, level = 0, [e]
    while level and n < 60:
        level = [w for v in level for w in v.get("as", []) + [v[k] for k in "ab" if isinstance(v.get(k), dict)]]
        n += 1
    return bool(level)


def convert(r):
    """A driver report as a result record."""
    def go(v, key=None):
        if isinstance(v, dict):
            e = v.get("e")
            if isinstance(e, dict) and "k" in e and _deep(e):
                v = {k: w for k, w in v.items() if k != "e"}
                v["nodes"] = _flat(e)
            return {k: go(w, k) for k, w in v.items() if k != "what"}
        if isinstance(v, list):
            return [go(w, key) for w in v]
        if isinstance(v, str) and key not in _LITERAL:
            return q(float.fromhex(v))
        return v
    return go(r)


class Session:
    """tag says how the session was generated (for evidence and replays)."""

    def __init__(self, judge, tag=""):
        self.judge = list(judge)
        self.tag = tag
        self.lines = ["session"]
        self.evs = [None]
        self.n = 0

    def handle(self):
        self.n += 1
        return self.n

    def add(self, line, ev):
        self.lines.append(line)
        self.evs.append(ev)

    # ---- signals
    def new(self):
        h = self.handle()
        self.add(f"new {h}", dict(op="new", h=h))
        return h

    def points(self, vs, ts):
        h = self.handle()
        self.add(" ".join(["points", str(h), str(len(vs)), *map(f, vs), str(len(ts)), *map(f, ts)]),
                 dict(op="points", h=h, vs=[q(v) for v in vs], ts=[q(t) for t in ts]))
        return h

    def signal(self, x):
        """x: list of (time, value)."""
        return self.points([v for _, v in x], [t for t, _ in x])

    def samples(self, ss, op="samples"):
        h = self.handle()
        self.add(" ".join([op, str(h), str(len(ss))] + [f(c) for s in ss for c in s]),
                 dict(op=op, h=h, ss=[[q(c) for c in s] for s in ss]))
        return h

    def copy(self, x):
        h = self.handle()
        self.add(f"copy {h} {x}", dict(op="copy", h=h, x=x))
        return h

    def assign(self, h, x):
        """The signal h, which exists, becomes what x is."""
        self.add(f"assign {h} {x}", dict(op="assign", h=h, x=x))

    def push(self, x, t, v, d=None):
        if d is None:
            self.add(f"push {x} {f(t)} {f(v)}", dict(op="push", x=x, t=q(t), v=q(v)))
        else:
            self.add(f"pushs {x} {f(t)} {f(v)} {f(d)}", dict(op="pushs", x=x, t=q(t), v=q(v)))

    def obs(self, x):
        self.add(f"obs {x}", dict(op="obs", x=x))

    def at(self, x, t):
        self.add(f"at {x} {f(t)}", dict(op="at", x=x, t=q(t)))

    def idx(self, x, i):
        self.add(f"idx {x} {i}", dict(op="idx", x=x, i=i))

    def range(self, x, s, t):
        self.add(f"range {x} {f(s)} {f(t)}", dict(op="range", x=x, s=q(s), t=q(t)))

    def interp(self, x, t, i):
        self.add(f"interp {x} {f(t)} {i}", dict(op="interp", x=x, t=q(t), i=i))

    def area(self, x, t, i):
        self.add(f"area {x} {f(t)} {i}", dict(op="area", x=x, t=q(t), i=i))

    def isect(self, x, i, y, j):
        self.add(f"isect {x} {i} {y} {j}", dict(op="isect", x=x, i=i, y=y, j=j))

    def order(self, x, i, y, j):
        self.add(f"order {x} {i} {y} {j}", dict(op="order", x=x, i=i, y=y, j=j))

    def simplify(self, x):
        h = self.handle()
        self.add(f"simplify {h} {x}", dict(op="simplify", h=h, x=x))
        return h

    def resize(self, x, s, e, fill):
        h = self.handle()
        self.add(f"resize {h} {x} {f(s)} {f(e)} {f(fill)}",
                 dict(op="resize", h=h, x=x, s=q(s), e=q(e), fill=q(fill)))
        return h

    def shift(self, x, d):
        h = self.handle()
        self.add(f"shift {h} {x} {f(d)}", dict(op="shift", h=h, x=x, d=q(d)))
        return h

    def rshift(self, x, s, e, fill, d):
        h = self.handle()
        self.add(f"rshift {h} {x} {f(s)} {f(e)} {f(fill)} {f(d)}",
                 dict(op="rshift", h=h, x=x, s=q(s), e=q(e), fill=q(fill), d=q(d)))
        return h

    def sync(self, x, y):
        h, g = self.handle(), self.handle()
        self.add(f"sync {h} {g} {x} {y}", dict(op="sync", h=h, h2=g, x=x, y=y))
        return h, g

    # ---- formulas
    def const(self, b):
        h = self.handle()
        self.add(f"const {h} {1 if b else 0}", dict(op="const", h=h, b=bool(b)))
        return h

    def pred(self, n, cmp, c, op="pred"):
        h = self.handle()
        self.add(f"{op} {h} {hexed(n)} {cmp} {f(c)}",
                 dict(op=op, h=h, n=codes(n), cmp=cmp, c=q(c)))
        return h

    def predd(self, n):
        h = self.handle()
        self.add(f"predd {h} {hexed(n)}", dict(op="predd", h=h, n=codes(n)))
        return h

    def drop(self, x):
        self.add(f"drop {x}", dict(op="drop", x=x))

    def un(self, op, x):
        h = self.handle()
        self.add(f"{op} {h} {x}", dict(op=op, h=h, x=x))
        return h

    def bi(self, op, x, y):
        h = self.handle()
        self.add(f"{op} {h} {x} {y}", dict(op=op, h=h, x=x, y=y))
        return h

    def nary(self, op, xs):
        h = self.handle()
        self.add(" ".join([op, str(h), str(len(xs)), *map(str, xs)]), dict(op=op, h=h, xs=list(xs)))
        return h

    def bounded(self, op, x, lo, hi):
        """op: Gd Fd (doubles) or Gu Fu (integers)."""
        h = self.handle()
        a = (f(lo), f(hi)) if op[1] == "d" else (str(lo), str(hi))
        self.add(f"{op} {h} {x} {a[0]} {a[1]}", dict(op=op, h=h, x=x, lo=q(lo), hi=q(hi)))
        return h

    def until(self, op, x, y, lo, hi):
        h = self.handle()
        a = (f(lo), f(hi)) if op[1] == "d" else (str(lo), str(hi))
        self.add(f"{op} {h} {x} {y} {a[0]} {a[1]}",
                 dict(op=op, h=h, x=x, y=y, lo=q(lo), hi=q(hi)))
        return h

    def interval(self, op, lo, hi):
        a = (str(lo), str(hi)) if op == "ivalu" else (f(lo), f(hi))
        self.add(op if op == "ivaln" else f"{op} {a[0]} {a[1]}", dict(op=op, lo=q(lo), hi=q(hi)))

    def dump(self, x):
        self.add(f"dump {x}", dict(op="dump", x=x))

    def eq(self, x, y):
        self.add(f"eq {x} {y}", dict(op="eq", x=x, y=y))

    def build(self, e):
        """A formula given as a tuple: see gen.py."""
        k = e[0]
        if k == "const":
            return self.const(e[1])
        if k == "pred":
            return self.pred(e[1], e[2], e[3])
        if k == "not":
            return self.un("not", self.build(e[1]))
        if k in ("and", "or"):
            return self.nary(k, [self.build(a) for a in e[1]])
        if k in ("G", "F"):
            x = self.build(e[1])
            if len(e) == 2:
                return self.un(k, x)
            lo, hi = e[2], e[3]
            return self.bounded(k + ("u" if isinstance(lo, int) and isinstance(hi, int) else "d"),
                                x, lo, hi)
        if k == "U":
            a, b = self.build(e[1]), self.build(e[2])
            if len(e) == 3:
                return self.bi("U", a, b)
            return self.until("Ud", a, b, e[3], e[4])
        if k in ("implies", "iff", "xor"):
            return self.bi(k, self.build(e[1]), self.build(e[2]))
        raise ValueError(k)

    # ---- printing
    def printed(self, x, op="print"):
        self.add(f"{op} {x}", dict(op=op, x=x))

    def printp(self, x, i):
        self.add(f"printp {x} {i}", dict(op="printp", x=x, i=i))

    # ---- robustness
    def _rob(self, h, x, trace, flag):
        return " ".join(["rob", str(h), str(x), str(flag), str(len(trace))] +
                        [w for n, s in trace for w in (hexed(n), str(s))])

    def rob(self, x, trace, by="value", flag=2, store=True, keep=False):
        """trace: list of (name, handle)."""
        h = self.handle() if store else -1
        ev = dict(op="rob", h=h, x=x, fl=flag, by=by,
                  tr=[dict(n=codes(n), x=s) for n, s in trace])
        if keep:
            ev["keep"] = True
        self.add(self._rob(h, x, trace, flag), ev)
        return h

    @staticmethod
    def _mon(h, w, text, n, trace, flag, by="value"):
        return dict(op="mon", h=h, w=w, t=codes(text), n=codes(n), fl=flag, by=by,
                    tr=[dict(n=codes(m), x=x) for m, x in trace])

    def mon(self, w, text, n, trace, by="value", flag=2, store=True):
        """The robustness of a formula (w: f, a) that a text names."""
        h = self.handle() if store else -1
        ev = self._mon(h, w, text, n, trace, flag, by)
        self.add(line_of(ev), ev)
        return h

    def law(self, kind, x, y, d=0):
        self.evs.append(dict(op="law", kind=kind, x=x, y=y, d=q(d)))
        self.lines.append(None)

    # ---- specification texts
    def parse(self, text, op="parse", store=False, only=None):
        h = self.handle() if store else -1
        ev = dict(op=op, h=h, t=codes(text))
        if only:
            ev["only"] = only
        self.add(f"{op} {h} {hexed(text)}", ev)
        return h

    def parsem(self, kind):
        """A file that cannot be read."""
        self.add(f"parsem {kind}", dict(op="parsem", kind=kind))

    def get(self, op, x, n):
        h = self.handle()
        self.add(f"{op} {h} {x} {hexed(n)}", dict(op=op, h=h, x=x, n=codes(n)))
        return h

    def dumpsp(self, x):
        self.add(f"dumpsp {x}", dict(op="dumpsp", x=x))

    # ---- repeated and concurrent calls
    def keep(self):
        """Remember the last call's result."""
        self.evs[-1]["keep"] = True
        return sum(1 for e in self.evs if e and e.get("keep"))

    def again(self, line, k):
        """A call that must give the k-th remembered result."""
        self.add(line, dict(op="again", k=k))

    def par(self, threads, reps, calls):
        """calls: list of (line, k)."""
        self.add(f"par {threads} {reps} {len(calls)}", None)
        for line, k in calls:
            self.again(line, k)

    def script(self):
        return [l for l in self.lines if l is not None]


# ---------------------------------------------------------------- calls of the specification
def _num(r):
    """A rational of spec/Rat.tla as a double (or an integer argument)."""
    n, d = int(r[0]), int(r[1])
    if d == 0:
        return math.nan if n == 0 else math.inf if n > 0 else -math.inf
    x = n / d
    assert math.isnan(x) or x.as_integer_ratio() == (n // math.gcd(n, d), d // math.gcd(n, d)), r
    return x


def _text(cs):
    return "".join(map(chr, cs))


def line_of(ev):
    """The driver's line for a call as the specification writes it (None: no call of its own)."""
    op = ev["op"]
    g = lambda *ks: " ".join(f(_num(ev[k])) for k in ks)
    u = lambda *ks: " ".join(str(int(ev[k][0])) for k in ks)
    h, x, y = ev.get("h"), ev.get("x"), ev.get("y")
    if op == "new":
        return f"new {h}"
    if op == "points":
        return " ".join(["points", str(h), str(len(ev["vs"])), *(f(_num(v)) for v in ev["vs"]),
                         str(len(ev["ts"])), *(f(_num(t)) for t in ev["ts"])])
    if op in ("samples", "list"):
        return " ".join([op, str(h), str(len(ev["ss"])), *(f(_num(c)) for p in ev["ss"] for c in p)])
    if op == "push":
        return f"push {x} {g('t', 'v')}"
    if op in ("obs", "dump", "print", "printos", "prints", "dumpsp"):
        return f"{op} {x}"
    if op == "at":
        return f"at {x} {g('t')}"
    if op in ("idx", "printp"):
        return f"{op} {x} {ev['i']}"
    if op == "range":
        return f"range {x} {g('s', 't')}"
    if op in ("interp", "area"):
        return f"{op} {x} {g('t')} {ev['i']}"
    if op == "eq":
        return f"eq {x} {y}"
    if op in ("isect", "order"):
        return f"{op} {x} {ev['i']} {y} {ev['j']}"
    if op == "resize":
        return f"resize {h} {x} {g('s', 'e', 'fill')}"
    if op == "shift":
        return f"shift {h} {x} {g('d')}"
    if op == "rshift":
        return f"rshift {h} {x} {g('s', 'e', 'fill', 'd')}"
    if op == "sync":
        return f"sync {h} {ev['h2']} {x} {y}"
    if op in ("copy", "assign", "simplify", "not", "inv", "G", "F", "alias"):
        return f"{op} {h} {x}"
    if op == "const":
        return f"const {h} {1 if ev['b'] else 0}"
    if op in ("pred", "predn"):
        return f"{op} {h} {hexed(_text(ev['n']))} {ev['cmp']} {g('c')}"
    if op in ("and2", "or2", "implies", "xor", "iff", "U"):
        return f"{op} {h} {x} {y}"
    if op in ("and", "or"):
        return " ".join([op, str(h), str(len(ev["xs"])), *map(str, ev["xs"])])
    if op in ("Gd", "Fd"):
        return f"{op} {h} {x} {g('lo', 'hi')}"
    if op in ("Gu", "Fu"):
        return f"{op} {h} {x} {u('lo', 'hi')}"
    if op == "Ud":
        return f"{op} {h} {x} {y} {g('lo', 'hi')}"
    if op == "Uu":
        return f"{op} {h} {x} {y} {u('lo', 'hi')}"
    if op == "ivald":
        return f"{op} {g('lo', 'hi')}"
    if op == "ivalu":
        return f"{op} {u('lo', 'hi')}"
    if op == "rob":
        return " ".join(["rob", str(h), str(x), str(ev["fl"]), str(len(ev["tr"])),
                         *(w for p in ev["tr"] for w in (hexed(_text(p["n"])), str(p["x"])))])
    if op == "mon":
        return " ".join(["mon", str(h), ev["w"], hexed(_text(ev["t"])), hexed(_text(ev["n"])), str(ev["fl"]),
                         str(len(ev["tr"])),
                         *(w for p in ev["tr"] for w in (hexed(_text(p["n"])), str(p["x"])))])
    if op in ("parse", "parsef"):
        return f"{op} {h} {hexed(_text(ev['t']))}"
    if op == "law":
        return None
    raise ValueError(op)


def from_calls(calls, judge, tag):
    s = Session(judge, tag)
    for ev in calls:
        s.add(line_of(ev), ev)
    return s


def dumps(o):
    return json.dumps(o, separators=(",", ":"))
