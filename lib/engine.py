"""Runs sessions on the real code and validates the recordings with TLC."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, tempfile, time

import build
from session import convert, dumps

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=65:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66", LC_ALL="C")
REUSE = dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"] + ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0")


class Trouble(Exception):
    """The check itself failed: no verdict."""


def scratch():
    d = os.path.join(build.OUT, "run")
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(dir=d)


# ---------------------------------------------------------------- driver
def _drive(driver, sessions, tmp, limit, env=ENV):
    """Results per session: a list parallel to session.evs (None = not executed)."""
    path = os.path.join(tmp, "script")
    lines, where = [], []
    for si, s in enumerate(sessions):
        for k, l in enumerate(s.lines):
            if l is not None:
                lines.append(l)
                where.append((si, k))
    with open(path, "w") as o:
        o.write("\n".join(lines) + "\n")
    res = [[None] * len(s.lines) for s in sessions]
    notes = {}
    start, deaths = 0, 0
    t0 = time.time()
    while start < len(lines) and deaths < 8:
        out = os.path.join(tmp, "out")
        err = os.path.join(tmp, "err")
        with open(out, "wb") as o, open(err, "wb") as e:
            try:
                p = subprocess.run([driver, path, str(start)], stdout=o, stderr=e, env=env, cwd=tmp,
                                   timeout=max(5, limit - (time.time() - t0)))
                code = p.returncode
            except subprocess.TimeoutExpired:
                raise Trouble("the driver ran out of time")
        n = start
        with open(out, "rb") as o:
            for raw in o:
                if not raw.endswith(b"\n"):
                    break
                si, k = where[n]
                res[si][k] = json.loads(raw)
                n += 1
        if n >= len(lines):
            if code not in (0,):
                # died after its last call (a sanitizer report at exit)
                si, k = where[-1]
                res[si][k] = {"out": "crash"}
                notes[si] = open(err, errors="replace").read()[-3000:]
            break
        if code == 77 or code == 0:
            raise Trouble("driver: " + open(err, errors="replace").read()[-2000:])
        si, k = where[n]
        res[si][k] = {"out": "hang" if code == -14 else "crash"}
        notes[si] = open(err, errors="replace").read()[-3000:]
        deaths += 1
        while n < len(lines) and where[n][0] == si:
            n += 1
        start = n
    return res, notes


def record(driver, sessions, jobs=8, limit=600):
    """Runs the sessions; returns recordings (lists of {c, r}) and notes on crashes."""
    tmp = scratch()
    try:
        parts = [list(range(j, len(sessions), jobs)) for j in range(jobs)]
        parts = [p for p in parts if p]

        def one(j):
            d = os.path.join(tmp, str(j))
            os.mkdir(d)
            # half of the processes reuse the memory of dead objects at once
            return _drive(driver, [sessions[i] for i in parts[j]], d, limit, REUSE if j % 2 else ENV)

        recs, notes = [None] * len(sessions), {}
        with cf.ThreadPoolExecutor(jobs) as ex:
            for j, (res, nt) in enumerate(ex.map(one, range(len(parts)))):
                for k, i in enumerate(parts[j]):
                    recs[i] = _recording(sessions[i], res[k])
                    if k in nt:
                        notes[i] = nt[k]
        return recs, notes
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _recording(s, res):
    evs = []
    for line, ev, r in zip(s.lines, s.evs, res):
        if ev is None:          # "session", "par"
            if line is not None and r is None and evs:
                break
            continue
        if line is None:        # a law: no call of its own
            evs.append(dict(c=ev, r=[{"out": "ok"}]))
            continue
        if r is None:
            break
        rs = []                 # (messages of errors, which name files, are not compared)
        for a in map(convert, r.get("alts", [r])):
            if a not in rs:
                rs.append(a)
        evs.append(dict(c=ev, r=rs))
        if rs[0].get("out") in ("crash", "hang"):
            break
    return evs


# ---------------------------------------------------------------- TLC
class Late(Trouble):
    """Out of time; out: what was printed until then."""

    def __init__(self, why, out):
        super().__init__(why)
        self.out = out


def JVM(workers):
    """One worker per process and short runs: the fast compiler and no GC threads."""
    if "STL_JVM" in os.environ:
        return os.environ["STL_JVM"].split()
    return ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if workers == 1 else ["-XX:+UseParallelGC"]


def tlc(module, cfg=None, env=None, workers=1, heap="2500m", limit=600, extra=(), cwd=SPEC):
    meta = scratch()
    cmd = ["java", *JVM(workers), "-Xss256m",
           f"-Xmx{heap}", "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:stl.RatOverrides",
           f"-Djava.io.tmpdir={meta}",
           "-cp", f"{build.overrides()}:{build.JARS}", "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or f"{module}.cfg", *extra, module]
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
    except subprocess.TimeoutExpired as e:
        raise Late(f"TLC ran out of time on {module}", (e.stdout or b"").decode(errors="replace"))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    p.stdout = "\n".join(l for l in p.stdout.splitlines()
                         if not l.startswith(("Parsing file", "Semantic processing")))
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout)
    gen, distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return p.returncode, p.stdout, gen, distinct


_ABA = re.compile(r'<<\s*"ABANDONED",\s*(\d+),\s*(\d+)\s*>>')
_REJ = re.compile(r'<<\s*"REJECTED",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>', re.S)


def _validate(recs, judges, tmp, limit):
    path = os.path.join(tmp, "sessions.ndjson")
    with open(path, "w") as o:
        for evs, j in zip(recs, judges):
            o.write(dumps(dict(judge=j, evs=evs)) + "\n")
    read = lambda out: {int(a) - 1: (int(b) - 1, " ".join(c.split())) for a, b, c in _REJ.findall(out)}
    try:
        code, out, gen, distinct = tlc("TraceSession", env={"SESSIONS": path}, limit=limit)
    except Late as e:           # what was rejected so far is rejected
        return read(e.out), 0, 0, {0: str(e)}
    rej = read(out)
    aba = {int(a) - 1: int(b) - 1 for a, b in _ABA.findall(out)}
    if code != 0:
        if len(recs) > 1:       # find the recordings that the specification cannot read
            h = len(recs) // 2
            a = _validate(recs[:h], judges[:h], tmp, limit)
            b = _validate(recs[h:], judges[h:], tmp, limit)
            return ({**a[0], **{k + h: v for k, v in b[0].items()}}, a[1] + b[1], a[2] + b[2],
                    {**a[3], **{k + h: v for k, v in b[3].items()}})
        why = "\n".join(l for l in out.splitlines() if "REJECTED" not in l)[-3000:]
        return {}, 0, 0, {0: why}
    stop = {**{i: k for i, (k, _) in rej.items()}, **aba}
    want = len(recs) + sum(stop[i] + 1 if i in stop else len(r) for i, r in enumerate(recs))
    if distinct != want:
        raise Trouble(f"TLC saw {distinct} states, expected {want}:\n{out[-1500:]}")
    return rej, gen, distinct, {}


def validate(recs, judges, jobs=8, limit=600):
    """Validates recordings; returns {index: (event, faults)}, states generated, distinct,
    {index: TLC's complaint} for those it could not evaluate."""
    tmp = scratch()
    try:
        order = sorted(range(len(recs)), key=lambda i: -_weight(recs[i]))
        parts = [[] for _ in range(jobs)]
        load = [0] * jobs
        for i in order:
            j = load.index(min(load))
            parts[j].append(i)
            load[j] += _weight(recs[i])
        parts = [p for p in parts if p]

        def one(j):
            d = os.path.join(tmp, str(j))
            os.mkdir(d)
            return _validate([recs[i] for i in parts[j]], [judges[i] for i in parts[j]], d, limit)

        rej, gen, distinct, bad = {}, 0, 0, {}
        with cf.ThreadPoolExecutor(jobs) as ex:
            for j, (r, g, n, b) in enumerate(ex.map(one, range(len(parts)))):
                gen += g
                distinct += n
                for k, v in r.items():
                    rej[parts[j][k]] = v
                for k, v in b.items():
                    bad[parts[j][k]] = v
        return rej, gen, distinct, bad
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def explore(scope, wide=False, workers=8, limit=600):
    """All behaviours of a scope of Explore.tla, checked on the specification: a list of
    lists of calls, and the numbers of states generated and distinct."""
    code, out, gen, distinct = tlc("Explore", env={"SCOPE": scope, "WIDE": "1" if wide else "0"},
                                   workers=workers, heap="8g", limit=limit)
    runs = [json.loads(json.loads(l)[4:]) for l in out.splitlines() if l.startswith('"RUN ')]
    if code != 0 or not runs:
        raise Trouble(f"exploration of the specification, scope {scope}:\n" + "\n".join(
            l for l in out.splitlines() if not l.startswith('"RUN '))[-3000:])
    return runs, gen, distinct


def _weight(evs):
    return 20 + sum(len(str(e)) for e in evs)
