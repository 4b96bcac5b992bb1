"""Decides one property.

  1. The specification itself: RatSelfTest (the number overrides) and the property's scope of
     Explore.tla, in TLC.
  2. Its behaviours, replayed on the real code; random sessions of calls on the real code.
  3. The recordings of both, validated by TLC against Session.tla (TraceSession).
"""
import collections, concurrent.futures as cf, json, os, random, shutil, sys, time

import build, engine, props
from engine import Trouble
from gen import HUGE, huge_next
from session import from_calls

VERIF = build.VERIF
FINDINGS = os.path.join(VERIF, "known-findings.txt")

P = collections.namedtuple("P", "gens parser judge cap quick deep")
# gens: (generator, sanitizer, share); judge: calls judged of the specification's behaviours;
# cap: behaviours replayed in the quick tier; quick, deep: random sessions per round


def _judge(gen):
    js = set()
    for i in range(60):
        js |= set(gen(random.Random(i), i).judge)
    return sorted(js)


def plan(pid):
    one = lambda g, quick, cap=4000, parser=False: P([(g, "asan", quick)], parser, None, cap, quick, 8 * quick)
    return {
        "C01": lambda: one(props.c01, 4000),
        "C02": lambda: one(props.c02, 4000),
        "C03": lambda: one(props.c03, 4000),
        "C04": lambda: one(props.c04, 4000),
        "C05": lambda: one(props.c05, 4000),
        "C06": lambda: one(props.c06, 3000),
        "C07": lambda: one(props.c07, 3000),
        "C08": lambda: one(props.c08, 3500),
        "C09": lambda: one(props.c09, 2500),
        "C10": lambda: P([(props.c10, "asan", 1500), (props.c10_threads, "tsan", 400)], True, None, 1500,
                         700, 3000),
        "C11": lambda: one(props.c11, 4000),
        "C12": lambda: one(props.c12, 2000, parser=True),
        "C13": lambda: one(props.c13, 2500, parser=True),
        "C14": lambda: one(props.c14, 4000),
        "C15": lambda: one(props.c15, 3000),
        "C16": lambda: one(props.c16, 2500),
        "C17": lambda: one(props.c17, 3000),
        "C18": lambda: one(props.c18, 2500, cap=648),
        "C19": lambda: one(props.c19, 2500, cap=700),
        "C20": lambda: one(props.c20, 2500, parser=True),
    }[pid]()


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.plan = plan(pid)
        self.judge = _judge(self.plan.gens[0][0])
        self.calls = collections.Counter()      # judged calls by name and outcome
        self.exact = collections.Counter()
        self.kinds = collections.Counter()      # sessions by kind
        self.shapes = set()
        self.states = self.transitions = self.traces = self.skipped = 0
        self.abandoned = 0
        self.model = {}
        self.samples = []
        self.violations = []                    # (session, event, faults, result, note)
        self.known = collections.Counter()
        self.unread = []
        self.findings = self.load_findings()

    def load_findings(self):
        """Open findings: 'finding: property=<id> call=<call as JSON> fault=<text>'."""
        out = []
        if os.path.exists(FINDINGS):
            for l in open(FINDINGS):
                if l.startswith(f"finding: property={self.pid} call="):
                    call, _, fault = l.split(" call=", 1)[1].rstrip("\n").rpartition(" fault=")
                    out.append((json.dumps(json.loads(call), sort_keys=True), fault))
        return out

    # ---- the specification
    def explore(self, wide):
        t = time.time()
        runs, gen, distinct = engine.explore(self.pid, wide, limit=700)
        self.states += distinct
        self.transitions += gen
        self.model = dict(scope=self.pid, wide=wide, behaviours=len(runs), states=distinct,
                          calls=sum(map(len, runs)), wall_s=round(time.time() - t, 1))
        return runs

    def selftest(self):
        """The number overrides against their definitions (RatDef: Rat without overrides)."""
        d = engine.scratch()
        try:
            for n in ("Rat.tla", "RatSelfTest.tla", "RatSelfTest.cfg"):
                shutil.copy(os.path.join(engine.SPEC, n), d)
            with open(os.path.join(engine.SPEC, "Rat.tla")) as f, \
                    open(os.path.join(d, "RatDef.tla"), "w") as o:
                o.write(f.read().replace("MODULE Rat ", "MODULE RatDef ", 1))
            code, out, gen, distinct = engine.tlc("RatSelfTest", limit=300, cwd=d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if code != 0:
            raise Trouble("RatSelfTest:\n" + out[-2000:])
        self.states += distinct
        self.transitions += gen

    # ---- the real code
    def go(self, drivers, sessions):
        """sessions: list of (sanitizer, session)."""
        recs = [None] * len(sessions)
        notes = {}
        for san, driver in drivers.items():
            ix = [i for i, (k, _) in enumerate(sessions) if k == san]
            if not ix:
                continue
            r, n = engine.record(driver, [sessions[i][1] for i in ix], jobs=8 if san == "asan" else 3)
            for j, i in enumerate(ix):
                recs[i] = r[j]
                if j in n:
                    notes[i] = n[j]
        left = 600 if self.tier == "thorough" else max(60, 760 - (time.time() - self.t0))
        rej, gen, distinct, bad = engine.validate(recs, [s.judge for _, s in sessions], limit=left)
        self.states += distinct
        self.transitions += gen
        for i, (san, s) in enumerate(sessions):
            if not recs[i]:
                self.skipped += 1
                continue
            self.traces += 1
            self.kinds[s.tag + (" (threads, tsan)" if san == "tsan" else "")] += 1
            self.shapes.add(hash("\n".join(s.script())))
            for e in recs[i]:
                if e["c"]["op"] in s.judge:
                    self.calls[e["c"]["op"] + ":" + e["r"][0].get("out", "?")] += 1
                    if "ex" in e["r"][0]:
                        self.exact[e["r"][0]["ex"]] += 1
        for i, why in bad.items():
            self.unread.append((sessions[i][1], why))
        for i, (k, faults) in sorted(rej.items()):
            self.rejected(drivers, sessions[i], recs[i], k, faults, notes.get(i, ""))
        if not self.samples and sessions:
            for i in sorted({0, len(sessions) // 2, len(sessions) - 1}):
                if recs[i]:
                    self.samples.append(dict(kind=sessions[i][1].tag, script=[l[:300] for l in sessions[i][1].script()[:12]],
                                             last_result=json.dumps(recs[i][-1])[:600]))

    def rejected(self, drivers, san_s, rec, k, faults, note):
        if len(self.violations) >= 12:
            return
        san, s = san_s
        call = json.dumps(rec[k]["c"], sort_keys=True)
        for c, f in self.findings:
            if c == call and f in faults:
                self.known[(c, f)] += 1
                return
        # once more, alone
        again = None
        for _ in range(3 if san == "tsan" else 1):
            if self.tier == "quick" and time.time() - self.t0 > 780:
                break
            r, n = engine.record(drivers[san], [s], jobs=1)
            v = engine.validate(r, [s.judge], jobs=1, limit=60)[0]
            if 0 in v:
                again = v[0]
                break
        if again is None and '"hang"' in faults:
            return                              # the machine was busy
        self.violations.append(dict(session=s, san=san, event=k, call=rec[k]["c"], result=rec[k]["r"],
                                    faults=faults, note=note, reproduced=again is not None))

    # ---- all of it
    def run(self):
        wide = self.tier == "thorough"
        build.overrides()
        sans = sorted({san for _, san, _ in self.plan.gens})
        with cf.ThreadPoolExecutor(4) as ex:
            d = {san: ex.submit(build.driver, san, self.plan.parser) for san in sans}
            m = ex.submit(self.explore, wide)
            t = ex.submit(self.selftest)
            drivers = {san: f.result() for san, f in d.items()}
            runs = m.result()
            t.result()
        self.built = round(time.time() - self.t0, 1)
        cap = self.plan.cap if not wide else 60000
        chosen = runs if len(runs) <= cap else random.Random(self.seed).sample(runs, cap)
        self.model["replayed"] = len(chosen)
        batch = [("asan", from_calls(c, self.judge, "behaviour of the specification")) for c in chosen]
        batch += self.random(0, 1)
        self.go(drivers, batch)
        rounds = 1
        budget = float(os.environ.get("STL_BUDGET", "600"))
        while wide and not self.violations and not self.unread and time.time() - self.t0 < budget:
            t = time.time()
            self.go(drivers, self.random(rounds, 4))
            rounds += 1
            if time.time() - self.t0 + 1.2 * (time.time() - t) > budget:
                break
        self.rounds = rounds

    def random(self, k, times):
        out = []
        for gen, san, n in self.plan.gens:
            for i in range(n * times):
                rng = random.Random(f"{self.pid}/{gen.__name__}/{self.seed}/{k}/{i}")
                huge = san == "asan" and i % 250 == 101
                huge_next(rng.choice(HUGE) if huge else 0)
                out.append((san, gen(rng, i)))
                huge_next(0)
        if "asan" in [san for _, san, _ in self.plan.gens]:
            s = props.giant(self.pid, random.Random(f"{self.pid}/giant/{self.seed}/{k}"))
            out += [("asan", s)] if s else []
        return out

    def evidence(self):
        judged = sum(self.calls.values())
        return dict(
            property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
            coverage=dict(
                states=self.states, transitions=self.transitions,
                traces_validated_against_impl=self.traces,
                distinct_traces=len(self.shapes), calls_judged=judged,
                calls_by_outcome=dict(sorted(self.calls.items())),
                results_exact=self.exact[True], results_rounded=self.exact[False],
                sessions_by_kind=dict(self.kinds), sessions_not_executed=self.skipped,
                exploration=self.model, random_rounds=getattr(self, "rounds", 0),
                samples=self.samples),
            assumptions=[
                "the driver (harness/driver.cc) reports what the library returned",
                "TLC and the number overrides (RatSelfTest compares them with their definitions)",
                "random sessions sample an unbounded space; the exploration is exhaustive only in its scope"],
            wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))


def main(pid, tier, seed):
    c = Check(pid, tier, seed)
    try:
        c.run()
    except (Trouble, build.BuildError) as e:
        print(f"check {pid}: no verdict: {e}", file=sys.stderr)
        return 2
    os.makedirs(os.path.join(VERIF, "evidence/replay"), exist_ok=True)
    with open(os.path.join(VERIF, f"evidence/{pid}.json"), "w") as o:
        json.dump(c.evidence(), o, indent=1)
    for (call, fault), n in c.known.items():
        print(f"KNOWN-FINDING: property={pid} {fault} {call} ({n} times)")
    print(f"{pid} {tier} seed {seed}: {c.model['behaviours']} behaviours of the specification explored, "
          f"{c.traces} sessions on the real code validated, {sum(c.calls.values())} calls judged, "
          f"{c.states} states; built {c.built}s, total {time.time() - c.t0:.1f}s")
    for n, v in enumerate(c.violations):
        path = f"evidence/replay/{pid}-{n + 1}.json"
        with open(os.path.join(VERIF, path), "w") as o:
            s = v["session"]
            json.dump(dict(property=pid, kind=s.tag, sanitizer=v["san"], faults=v["faults"],
                           call=v["call"], result=v["result"], reproduced_alone=v["reproduced"],
                           note=v["note"], event=v["event"], judge=s.judge, script=s.script(),
                           events=s.evs), o, indent=1)
        print(f"  {v['faults']} at call {json.dumps(v['call'])[:300]} -> {json.dumps(v['result'])[:300]}")
        print(f"VIOLATION property={pid} replay={path}")
    if c.violations:
        return 1
    if c.unread:
        print(f"check {pid}: no verdict: {len(c.unread)} recordings could not be evaluated:\n"
              f"{c.unread[0][1]}\n" + "\n".join(c.unread[0][0].script()[:40]), file=sys.stderr)
        return 2
    if c.skipped > 0.2 * (c.traces + c.skipped):
        print(f"check {pid}: no verdict: {c.skipped} sessions not executed (crashes in other calls)",
              file=sys.stderr)
        return 2
    return 0
