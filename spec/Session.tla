-------------------------------- MODULE Session --------------------------------
(***************************************************************************)
(* A client's session with the library: a state machine whose state is     *)
(* everything the client can reach, and whose actions are the calls of the *)
(* public API.                                                             *)
(*                                                                         *)
(*   sigs   signals,         handle -> sequence of <<time, value, slope>>  *)
(*   exprs  formulas,        handle -> formula                             *)
(*   specs  specifications,  handle -> [f |-> formulas, a |-> assertions]  *)
(*   how    robustness signals: handle -> [e, tr, ex] they came from       *)
(*   hist   printed results of the calls so far (for repeated calls)       *)
(*                                                                         *)
(* A call is a record ev with ev.op and its arguments; its result is a     *)
(* record res with res.out = "ok" or "error" and what it returned.         *)
(*                                                                         *)
(*   Ready(ev, st)          the objects the call works on exist            *)
(*   Result(ev, st)         the result the specification computes          *)
(*   Faults(ev, res, st)    the clauses of the specification that a result *)
(*                          violates; a result is admissible if there are  *)
(*                          none (admissible results may differ in         *)
(*                          sampling instants and by rounding)             *)
(*   After(ev, res, st)     the state after the call returned res          *)
(*                                                                         *)
(* Call(ev, res) is the action.  Every call changes the object it is asked *)
(* to change or to make, and nothing else.                                 *)
(***************************************************************************)
EXTENDS Locality, SpecLang, Printing, TLC

Empty == [sigs |-> <<>>, exprs |-> <<>>, specs |-> <<>>, how |-> <<>>, hist |-> <<>>]

Put(m, h, v) == [x \in DOMAIN m \cup {h} |-> IF x = h THEN v ELSE m[x]]
Drop(m, h)   == [x \in DOMAIN m \ {h} |-> m[x]]

(***************************************************************************)
(* Signals with slopes.                                                    *)
(***************************************************************************)
WithSlopes(x) == TLCEval([i \in DOMAIN x |-> <<x[i][1], x[i][2], Slope(x, i)>>])
Extended(x, t, v) ==     \* x with a sample appended
  IF x = <<>> THEN <<<<t, v, RZero>>>>
  ELSE LET n == Len(x)
           y == Append(x, <<t, v, RZero>>)
       IN [y EXCEPT ![n] = <<y[n][1], y[n][2], Slope(y, n)>>]

Huge(r) == RLe(RPow2(1000), RAbs(r))
Tiny(r) == RLe(RAbs(r), RPow2(-1000))
Rel(a, b, k) == \/ RSame(a, b)
                \/ Huge(a) /\ Huge(b) /\ RSign(a) = RSign(b)
                \/ Tiny(a) /\ Tiny(b)
                \/ RLe(RAbs(RSub(a, b)), RMul(RPow2(-k), RMax(RAbs(a), RAbs(b))))
SlopeClose(a, b) == Rel(a, b, 40)

\* Every slope a result reports is that of the line to the next sample.
SlopesRight(x) == \A i \in DOMAIN x : SlopeClose(x[i][3], Slope(x, i))

\* After times were moved the slopes are those of the lines up to the rounding of times.
SlopesRightMoved(x) ==
  \A i \in DOMAIN x :
    \/ SlopeClose(x[i][3], Slope(x, i))
    \/ /\ i < Len(x)
       /\ LET dt == RSub(x[i + 1][1], x[i][1])
              dv == RSub(x[i + 1][2], x[i][2])
          IN RLe(RAbs(RSub(RMul(x[i][3], dt), dv)),
                 RAdd(RMul(RPow2(-40), RAbs(dv)),
                      RMul(RAbs(x[i][3]), RMul(RPow2(-49), RMax(RAbs(x[i][1]), RAbs(x[i + 1][1]))))))

SameTriples(x, y) ==
  SameSamples(x, y) /\ \A i \in DOMAIN x : SlopeClose(x[i][3], y[i][3])

TripleIs(p, q) == RSame(p[1], q[1]) /\ RSame(p[2], q[2]) /\ SlopeClose(p[3], q[3])

(***************************************************************************)
(* Results.                                                                *)
(***************************************************************************)
Ok(r)    == [out |-> "ok", ex |-> TRUE] @@ r
OkOnly   == [out |-> "ok", ex |-> TRUE]
Error    == [out |-> "error"]
Signal(x) == Ok([s |-> WithSlopes(x)])
Formula(e) == Ok([e |-> e])

TraceOf(ev, st) == [i \in DOMAIN ev.tr |-> [n |-> ev.tr[i].n, s |-> st.sigs[ev.tr[i].x]]]
\* A constant has no span in a trace without samples, and a trace in which some
\* signal is empty is left open.
OpenTrace(e, tr) == HasConst(e) /\ (tr = <<>> \/ \E i \in DOMAIN tr : tr[i].s = <<>>)

\* The formula that a text gives a name (ev.w: "f" by definition, "a" by assertion).
Named(ev) ==
  LET d == Denotation(ev.t)
      m == IF d.verdict # "accept" THEN <<>> ELSE IF ev.w = "f" THEN d.f ELSE d.a
  IN [open |-> d.verdict = "open", ok |-> Defined(m, ev.n),
      e |-> IF Defined(m, ev.n) THEN Definition(m, ev.n) ELSE True]
\* An operator that the library expands: into which formula is its own business.
RECURSIVE Expands(_)
Expands(e) ==
  CASE e.k \in {"const", "pred"} -> FALSE
    [] e.k \in {"not", "G", "F"} -> Expands(e.a)
    [] e.k \in {"and", "or"} -> \E i \in DOMAIN e.as : Expands(e.as[i])
    [] e.k = "U" -> Expands(e.a) \/ Expands(e.b)
    [] OTHER -> TRUE

SignalReads == {"obs", "at", "idx", "range", "interp", "area", "prints", "printp"}
TwoSamples  == {"isect", "order"}
SignalMakes == {"simplify", "resize", "shift", "rshift", "copy", "assign"}
Copies      == {"copy", "assign"}      \* (assign: into a signal that exists)
ExprUnary   == {"not", "inv", "G", "F", "Gd", "Fd", "Gu", "Fu", "alias"}
ExprBinary  == {"and2", "or2", "implies", "xor", "iff", "U", "Ud", "Uu"}
ExprReads   == {"dump", "print", "printos"}
LawKinds    == {"same", "neg", "shift", "scale", "leq", "lip", "future", "past", "hold", "refine"}

Ready(ev, st) ==
  CASE ev.op = "assign" -> {ev.h, ev.x} \subseteq DOMAIN st.sigs
    [] ev.op \in {"push", "pushs"} \cup SignalReads \cup SignalMakes -> ev.x \in DOMAIN st.sigs
    [] ev.op \in {"sync"} \cup TwoSamples -> {ev.x, ev.y} \subseteq DOMAIN st.sigs
    [] ev.op \in ExprUnary \cup ExprReads -> ev.x \in DOMAIN st.exprs
    [] ev.op \in ExprBinary \cup {"eq"} -> {ev.x, ev.y} \subseteq DOMAIN st.exprs
    [] ev.op \in {"and", "or"} -> \A i \in DOMAIN ev.xs : ev.xs[i] \in DOMAIN st.exprs
    [] ev.op = "rob" -> /\ ev.x \in DOMAIN st.exprs
                        /\ \A i \in DOMAIN ev.tr : ev.tr[i].x \in DOMAIN st.sigs
    [] ev.op = "mon" -> \A i \in DOMAIN ev.tr : ev.tr[i].x \in DOMAIN st.sigs
    [] ev.op \in {"getf", "geta", "dumpsp"} -> ev.x \in DOMAIN st.specs
    [] ev.op = "law" -> {ev.x, ev.y} \subseteq DOMAIN st.how
    [] OTHER -> TRUE

(***************************************************************************)
(* The result the specification computes.                                  *)
(***************************************************************************)
Zipped(ts, vs) == TLCEval([i \in DOMAIN ts |-> <<ts[i], vs[i]>>])
Firsts(ss)  == TLCEval([i \in DOMAIN ss |-> <<ss[i][1], ss[i][2]>>])

\* The value of the line that leaves sample i, anywhere.
Extrapolated(x, i, t) == RAdd(x[i][2], RMul(Slope(x, i), RSub(t, x[i][1])))

\* The area under that line, from the sample to t; nothing before it.
AreaFrom(x, i, t) ==
  IF RLe(t, x[i][1]) THEN RZero
  ELSE RMul(RMul(R(1, 2), RAdd(x[i][2], Extrapolated(x, i, t))), RSub(t, x[i][1]))

\* When the lines that leave sample i of x and sample j of y meet (if not parallel).
MeetingTime(x, i, y, j) ==
  LET a == Slope(x, i)
      b == Slope(y, j)
  IN RDiv(RAdd(RSub(x[i][2], y[j][2]), RSub(RMul(b, y[j][1]), RMul(a, x[i][1]))), RSub(b, a))
Oblique(x, i, y, j) ==    \* clearly not parallel
  LET a == Slope(x, i)
      b == Slope(y, j)
  IN /\ RIsFin(a) /\ RIsFin(b) /\ RIsFin(x[i][2]) /\ RIsFin(y[j][2])
     /\ RLt(RMul(RPow2(-30), RAdd(RAbs(a), RAbs(b))), RAbs(RSub(a, b)))
\* The rounding error of that time.
MeetingTol(x, i, y, j) ==
  LET a == Slope(x, i)
      b == Slope(y, j)
      n == RAdd(RAdd(RAbs(x[i][2]), RAbs(y[j][2])),
                RAdd(RAbs(RMul(a, x[i][1])), RAbs(RMul(b, y[j][1]))))
      d == RMul(RAbs(MeetingTime(x, i, y, j)), RAdd(RAbs(a), RAbs(b)))
  IN RMul(RPow2(-44), RDiv(RAdd(n, d), RAbs(RSub(a, b))))

Result(ev, st) ==
  CASE ev.op = "new" -> Signal(<<>>)
    [] ev.op = "points" ->
         IF Len(ev.ts) = Len(ev.vs) /\ CanBuild(Zipped(ev.ts, ev.vs))
         THEN Signal(Zipped(ev.ts, ev.vs)) ELSE Error
    [] ev.op \in {"samples", "list"} ->
         IF CanBuild(ev.ss) THEN Signal(Firsts(ev.ss)) ELSE Error
    [] ev.op \in Copies -> Signal(Firsts(st.sigs[ev.x]))
    [] ev.op = "drop" -> OkOnly
    [] ev.op \in {"push", "pushs"} -> IF CanAppend(st.sigs[ev.x], ev.t) THEN OkOnly ELSE Error
    [] ev.op = "obs" -> Ok([s |-> st.sigs[ev.x]])
    [] ev.op = "at" ->
         LET x == st.sigs[ev.x] IN
         IF InSpan(x, ev.t)
         THEN Ok([p |-> <<ev.t, ValueAt(x, ev.t), Slope(x, IndexAtOrBefore(x, ev.t))>>]) ELSE Error
    [] ev.op = "idx" ->
         LET x == st.sigs[ev.x] IN
         IF ev.i < Len(x) THEN Ok([p |-> x[ev.i + 1]]) ELSE Error
    [] ev.op = "range" ->
         LET x == st.sigs[ev.x] IN
         Ok([i |-> CountBefore(x, ev.s), j |-> CountAtOrBefore(x, ev.t)])
    [] ev.op = "interp" ->
         LET x == st.sigs[ev.x] IN
         IF ev.i < Len(x) THEN Ok([v |-> Extrapolated(x, ev.i + 1, ev.t)]) ELSE Error
    [] ev.op = "area" ->
         LET x == st.sigs[ev.x] IN
         IF ev.i < Len(x) THEN Ok([v |-> AreaFrom(x, ev.i + 1, ev.t)]) ELSE Error
    [] ev.op = "isect" ->
         LET x == st.sigs[ev.x]
             y == st.sigs[ev.y]
         IN IF ev.i < Len(x) /\ ev.j < Len(y)
            THEN Ok([v |-> MeetingTime(x, ev.i + 1, y, ev.j + 1)]) ELSE Error
    [] ev.op = "order" ->
         LET x == st.sigs[ev.x]
             y == st.sigs[ev.y]
         IN IF ev.i < Len(x) /\ ev.j < Len(y)
            THEN LET p == x[ev.i + 1]
                     q == y[ev.j + 1]
                 IN Ok([lt |-> RLt(p[2], q[2]), gt |-> RLt(q[2], p[2]),
                        le |-> RLe(p[2], q[2]), ge |-> RLe(q[2], p[2]),
                        neg |-> <<p[1], RNeg(p[2]), RNeg(p[3])>>])
            ELSE Error
    [] ev.op = "eq" ->
         LET e == st.exprs[ev.x]
             f == st.exprs[ev.y]
         IN Ok([eq |-> SameExpr(e, f), ne |-> ~SameExpr(e, f)])
    [] ev.op = "simplify" -> Signal(Simplified(Firsts(st.sigs[ev.x])))
    [] ev.op = "resize" -> Signal(Resized(Firsts(st.sigs[ev.x]), ev.s, ev.e, ev.fill))
    [] ev.op = "shift" -> Signal(Shifted(st.sigs[ev.x], ev.d))
    [] ev.op = "rshift" ->
         Signal(Shifted(Resized(Firsts(st.sigs[ev.x]), ev.s, ev.e, ev.fill), ev.d))
    [] ev.op = "sync" ->
         LET r == Synchronized(st.sigs[ev.x], st.sigs[ev.y])
         IN Ok([s |-> WithSlopes(r[1]), s2 |-> WithSlopes(r[2])])
    \* formulas
    [] ev.op = "const" -> Formula([k |-> "const", b |-> ev.b])
    [] ev.op \in {"pred", "predn"} -> Formula(MkPred(ev.n, ev.cmp, ev.c))
    [] ev.op = "predd" -> Formula(MkPred(ev.n, ">=", RZero))
    [] ev.op \in {"not", "inv"} -> Formula(Negation(st.exprs[ev.x]))
    [] ev.op = "alias" -> Formula(st.exprs[ev.x])
    [] ev.op = "and2" -> Formula(Conj(st.exprs[ev.x], st.exprs[ev.y]))
    [] ev.op = "or2" -> Formula(Disj(st.exprs[ev.x], st.exprs[ev.y]))
    [] ev.op = "implies" -> Formula(Implication(st.exprs[ev.x], st.exprs[ev.y]))
    [] ev.op = "xor" -> Formula(ExclusiveOr(st.exprs[ev.x], st.exprs[ev.y]))
    [] ev.op = "iff" -> Formula(Equivalence(st.exprs[ev.x], st.exprs[ev.y]))
    [] ev.op \in {"and", "or"} ->
         IF Len(ev.xs) < 2 THEN Error
         ELSE Formula([k |-> ev.op, as |-> [i \in DOMAIN ev.xs |-> st.exprs[ev.xs[i]]]])
    [] ev.op = "G" -> Formula(MkG(st.exprs[ev.x], RZero, RInf))
    [] ev.op = "F" -> Formula(MkF(st.exprs[ev.x], RZero, RInf))
    [] ev.op = "U" -> Formula(MkU(st.exprs[ev.x], st.exprs[ev.y], RZero, RInf))
    [] ev.op \in {"Gd", "Gu"} ->
         IF ValidInterval(ev.lo, ev.hi) THEN Formula(MkG(st.exprs[ev.x], ev.lo, ev.hi)) ELSE Error
    [] ev.op \in {"Fd", "Fu"} ->
         IF ValidInterval(ev.lo, ev.hi) THEN Formula(MkF(st.exprs[ev.x], ev.lo, ev.hi)) ELSE Error
    [] ev.op \in {"Ud", "Uu"} ->
         IF ValidInterval(ev.lo, ev.hi)
         THEN Formula(MkU(st.exprs[ev.x], st.exprs[ev.y], ev.lo, ev.hi)) ELSE Error
    [] ev.op \in {"ivald", "ivalu", "ivaln"} ->      \* (ivaln: the default one, [0, inf])
         IF ValidInterval(ev.lo, ev.hi)
         THEN Ok([lo |-> ev.lo, hi |-> ev.hi,
                  all |-> REq(ev.lo, RZero) /\ REq(ev.hi, RInf),
                  has |-> ~(REq(ev.lo, RZero) /\ REq(ev.hi, RInf))])
         ELSE Error
    [] ev.op = "dump" -> Formula(st.exprs[ev.x])
    [] ev.op = "rob" ->
         LET e == st.exprs[ev.x]  tr == TraceOf(ev, st) IN
         IF ~Evaluable(e, tr) THEN Error
         ELSE IF OpenTrace(e, tr) THEN Signal(<<>>)
         ELSE Signal(Rob(e, tr))
    [] ev.op = "mon" ->
         LET f == TLCEval(Named(ev)) IN
         IF ~f.ok THEN Error
         ELSE LET e == TLCEval(Built(f.e))  tr == TraceOf(ev, st) IN
              IF ~Evaluable(e, tr) THEN Error
              ELSE IF OpenTrace(e, tr) THEN Signal(<<>>)
              ELSE Signal(Rob(e, tr))
    [] ev.op \in {"parse", "parsef"} ->
         LET d == Denotation(ev.t) IN
         IF d.verdict = "accept"
         THEN LET b(m) == [i \in DOMAIN m |-> [n |-> m[i].n, e |-> Built(m[i].e)]]
              IN Ok([sp |-> [f |-> b(d.f), a |-> b(d.a)]])
         ELSE Error
    [] ev.op = "parsem" -> Error       \* a file that cannot be read
    [] ev.op = "dumpsp" -> Ok([sp |-> st.specs[ev.x]])
    [] ev.op \in {"getf", "geta"} ->
         LET m == IF ev.op = "getf" THEN st.specs[ev.x].f ELSE st.specs[ev.x].a IN
         IF Defined(m, ev.n) THEN Formula(Definition(m, ev.n)) ELSE Error

(***************************************************************************)
(* Admissible results.                                                     *)
(***************************************************************************)
\* Rounding of an interpolated value between finite samples of x.
PointTol(x) == RMul(RPow2(-48), RAdd(RPow2(-1000), Magnitude(x)))
Tol(exact, x) == IF exact THEN RZero ELSE PointTol(x)

\* Clauses <<name, holds>>; the names of those that do not hold.  A clause is only
\* evaluated if those before it hold.
RECURSIVE FirstFault(_, _)
FirstFault(cs, i) == IF i > Len(cs) THEN {} ELSE IF ~cs[i][2] THEN {cs[i][1]} ELSE FirstFault(cs, i + 1)

\* What a client sees of a result (not: whether the arithmetic was exact).
Seen(res) == ToString(IF "ex" \in DOMAIN res THEN [res EXCEPT !.ex = TRUE] ELSE res)

OutcomeFault(want, res) ==
  CASE res.out \in {"crash", "hang"} -> {res.out}
    [] want = "ok" /\ res.out # "ok" -> {"refused, but is to be accepted"}
    [] want = "error" /\ res.out # "error" -> {"accepted, but is to be refused"}
    [] OTHER -> {}

SpecSame(p, q) ==
  LET sub(a, b) == /\ Len(a) = Len(b)
                   /\ \A i \in DOMAIN a : \E j \in DOMAIN b :
                        a[i].n = b[j].n /\ SameExpr(a[i].e, b[j].e)
  IN sub(p.f, q.f) /\ sub(p.a, q.a)

\* Faults in what an accepted call returned.
ValueFaults(ev, res, st, want) ==
  CASE ev.op \in {"new", "points", "samples", "list"} \cup Copies ->
         FirstFault(<<
           <<"holds exactly the samples given", SameSamples(res.s, want.s)>>,
           <<"times strictly increase", StrictlyIncreasing(res.s)>>,
           <<"slopes are those of the lines to the next samples",
             IF ev.op \in Copies THEN SlopesRightMoved(res.s) ELSE SlopesRight(res.s)>>>>, 1)
    [] ev.op \in {"push", "pushs", "drop"} -> {}
    [] ev.op = "obs" ->
         LET x == st.sigs[ev.x] IN
         FirstFault(<<
           <<"holds exactly the samples of the history", SameTriples(res.s, x)>>,
           <<"size and emptiness", res.n = Len(x) /\ (res.empty <=> x = <<>>)>>,
           <<"begin and end", x # <<>> => REq(res.b, Begin(x)) /\ REq(res.e, End(x))>>,
           <<"reverse iteration", SameTriples(res.rev, Reverse(x))>>,
           <<"indexed access", SameTriples(res.idx, x)>>,
           <<"front and back", x # <<>> => TripleIs(res.front, x[1])
                                           /\ TripleIs(res.back, x[Len(x)])>>>>, 1)
    [] ev.op = "at" ->
         FirstFault(<<
           <<"stamped with the time asked for", RSame(res.p[1], ev.t)>>,
           <<"value on the signal",
             Near(res.p[2], want.p[2], Tol(res.ex, st.sigs[ev.x]))>>,
           <<"slope of the signal there",
             \/ SlopeClose(res.p[3], want.p[3])
             \/ LET x == st.sigs[ev.x] IN SlopeClose(res.p[3], x[IndexAtOrBefore(x, ev.t)][3])>>>>, 1)
    [] ev.op = "idx" ->
         FirstFault(<< <<"the sample at the index", TripleIs(res.p, want.p)>> >>, 1)
    [] ev.op = "range" ->
         FirstFault(<< <<"first sample at or after", res.i = want.i>>,
                       <<"after the last sample at or before", res.j = want.j>> >>, 1)
    [] ev.op = "interp" ->
         LET x == st.sigs[ev.x]
             reach == RAbs(RMul(Slope(x, ev.i + 1), RSub(ev.t, x[ev.i + 1][1])))
         IN FirstFault(<< <<"on the line from the sample",
              Near(res.v, want.v, IF res.ex THEN RZero
                                  ELSE RMul(RPow2(-44), RAdd(reach, Magnitude(x))))>> >>, 1)
    [] ev.op = "area" ->
         LET x == st.sigs[ev.x]
             w == RSub(ev.t, x[ev.i + 1][1])
             h == RAdd(RAbs(RMul(Slope(x, ev.i + 1), w)), Magnitude(x))
         IN FirstFault(<< <<"area under the line from the sample",
              Near(res.v, want.v, IF res.ex THEN RZero ELSE RMul(RPow2(-43), RMul(h, RAbs(w))))>> >>, 1)
    [] ev.op = "isect" ->
         LET x == st.sigs[ev.x]
             y == st.sigs[ev.y]
         IN FirstFault(<< <<"the time at which the lines meet",
              Oblique(x, ev.i + 1, y, ev.j + 1) =>
                Near(res.v, want.v, IF res.ex THEN RZero
                                    ELSE MeetingTol(x, ev.i + 1, y, ev.j + 1))>> >>, 1)
    [] ev.op = "order" ->
         FirstFault(<<
           <<"samples are ordered by value",
             res.lt = want.lt /\ res.gt = want.gt /\ res.le = want.le /\ res.ge = want.ge>>,
           <<"the negative of a sample", TripleIs(res.neg, want.neg)>> >>, 1)
    [] ev.op = "eq" ->
         LET e == st.exprs[ev.x]
             f == st.exprs[ev.y]
         IN FirstFault(<< <<"atoms are equal if they are the same, other formulas only if both are of one kind",
              (e.k # f.k \/ e.k \in {"const", "pred"}) => res.eq = want.eq>>,
              <<"unequal if not equal", res.ne = ~res.eq>> >>, 1)
    [] ev.op = "simplify" ->
         LET x == st.sigs[ev.x]
             tol == IF res.ex THEN RZero ELSE RMul(RPow2(-40), Magnitude(x))
             near(a, b) == Near(a, b, tol)
         IN FirstFault(<<
              <<"times strictly increase", StrictlyIncreasing(res.s)>>,
              <<"keeps both ends", SameSpan(res.s, x)>>,
              <<"keeps only samples of the original",
                \A i \in DOMAIN res.s :
                  LET j == IndexAtOrBefore(x, res.s[i][1])
                  IN j > 0 /\ RSame(x[j][1], res.s[i][1]) /\ RSame(x[j][2], res.s[i][2])>>,
              <<"the same function of time", SameFunction(res.s, x, near)>>,
              <<"drops the inner samples of straight stretches",
                res.ex => Len(res.s) = Len(want.s)>>>>, 1)
    [] ev.op = "resize" ->
         LET x == st.sigs[ev.x]
             tol == IF res.ex THEN RZero
                    ELSE RMul(RPow2(-46), RAdd(Magnitude(x), RAbs(ev.fill)))
             near(a, b) == Near(a, b, tol)
         IN FirstFault(<<
              <<"times strictly increase", StrictlyIncreasing(res.s)>>,
              <<"starts and ends as asked", SameSpan(res.s, want.s)>>,
              <<"agrees with the original, filled where undefined",
                SameFunction(res.s, want.s, near)>>>>, 1)
    [] ev.op = "shift" ->
         LET x == st.sigs[ev.x] IN
         FirstFault(<<
           <<"every sample, moved", Len(res.s) = Len(x) /\ \A i \in DOMAIN x :
               Near(res.s[i][1], want.s[i][1],
                    IF res.ex THEN RZero ELSE RMul(RPow2(-52), RAbs(want.s[i][1])))>>,
           <<"values kept", \A i \in DOMAIN x : RSame(res.s[i][2], x[i][2])>>,
           <<"slopes kept", \A i \in DOMAIN x : SlopeClose(res.s[i][3], x[i][3])
                                                \/ SlopesRightMoved(res.s)>>>>, 1)
    [] ev.op = "rshift" ->
         LET x   == st.sigs[ev.x]
             w   == want.s
             T   == RAdd(TimeScale(w), RAbs(ev.d))
             tol == IF res.ex THEN RZero
                    ELSE RAdd(RMul(RPow2(-46), RAdd(Magnitude(x), RAbs(ev.fill))),
                              RMul(RMul(RPow2(-49), T), Steepness(w)))
             tt  == IF res.ex THEN RZero ELSE RMul(RPow2(-51), T)
             vals(a, b) == Near(a, b, tol)
         IN FirstFault(<<
              <<"starts and ends as asked",
                res.s # <<>> /\ Near(Begin(res.s), Begin(w), tt) /\ Near(End(res.s), End(w), tt)>>,
              <<"resized and then shifted",
                IF res.ex THEN StrictlyIncreasing(res.s) /\ SameFunction(res.s, w, RSame)
                ELSE IF Len(res.s) = Len(w)
                THEN \A i \in DOMAIN w : Near(res.s[i][1], w[i][1], tt)
                                         /\ vals(res.s[i][2], w[i][2])
                ELSE TRUE>>>>, 1)
    [] ev.op = "sync" ->
         LET x == st.sigs[ev.x]
             y == st.sigs[ev.y]
             agree(r, w, o) ==
               Len(r) = Len(w) /\ \A i \in DOMAIN r :
                 RSame(r[i][1], w[i][1]) /\ Near(r[i][2], w[i][2], Tol(res.ex, o))
         IN FirstFault(<<
              <<"sampled at the instants of either one in the common span",
                /\ Len(res.s) = Len(want.s) /\ Len(res.s2) = Len(want.s2)
                /\ \A i \in DOMAIN want.s : RSame(res.s[i][1], want.s[i][1])
                                            /\ RSame(res.s2[i][1], want.s[i][1])>>,
              <<"the first keeps its values", agree(res.s, want.s, x)>>,
              <<"the second keeps its values", agree(res.s2, want.s2, y)>>>>, 1)
    [] ev.op \in {"const", "pred", "predn", "predd", "G", "F", "U", "Gd", "Fd", "Ud", "Gu", "Fu", "Uu"} ->
         FirstFault(<< <<"the formula asked for", SameExpr(res.e, want.e)>> >>, 1)
    [] ev.op \in {"alias", "dump", "getf", "geta"} ->
         FirstFault(<< <<"the formula as it was built", SameExpr(res.e, want.e)>> >>, 1)
    [] ev.op \in {"not", "inv", "and", "or", "and2", "or2"} ->
         FirstFault(<< <<"the formula asked for, up to folding",
                         SameUpToFolding(res.e, want.e)>> >>, 1)
    [] ev.op \in {"implies", "xor", "iff"} ->
         FirstFault(<< <<"the Boolean function asked for",
                         SameExpr(res.e, want.e) \/ PropEquivalent(res.e, want.e)>> >>, 1)
    [] ev.op \in {"ivald", "ivalu", "ivaln"} ->
         FirstFault(<< <<"bounds as given", REq(res.lo, want.lo) /\ REq(res.hi, want.hi)>>,
                       <<"knows whether it is [0, inf]",
                         res.all = want.all /\ res.has = want.has>> >>, 1)
    [] ev.op \in {"print", "printos"} ->
         FirstFault(<< <<"printed form", Matches(res.t, Pieces(st.exprs[ev.x]))>> >>, 1)
    [] ev.op = "prints" ->
         FirstFault(<< <<"printed form", Matches(res.t, SignalPieces(st.sigs[ev.x]))>> >>, 1)
    [] ev.op = "printp" ->
         FirstFault(<< <<"printed form",
                         Matches(res.t, SamplePieces(st.sigs[ev.x][ev.i + 1]))>> >>, 1)
    [] ev.op = "dumpsp" ->
         FirstFault(<< <<"the specification as it was parsed",
                         SpecSame(res.sp, st.specs[ev.x])>> >>, 1)

(***************************************************************************)
(* Robustness, judged in several ways (ev.by): "value" against Rob,        *)
(* "form" for totality, span and well-formedness only, "sign" against the  *)
(* Boolean semantics.                                                      *)
(***************************************************************************)
RobFaults(by, e, tr, res, exact) ==
  IF OpenTrace(e, tr) THEN OutcomeFault("open", res)
  ELSE IF ~Evaluable(e, tr) THEN OutcomeFault("error", res)
  ELSE IF res.out # "ok" THEN OutcomeFault("ok", res)
  ELSE CASE by = "value" ->
              FirstFault(<< <<"robustness as defined",
                              AcceptableRobustness(e, tr, res.s, exact)>> >>, 1)
         [] by = "form" ->
              FirstFault(<<
                <<"well-formed result", WellFormedResult(res.s)>>,
                <<"defined on the common span", SameSpan(res.s, SpanOf(e, tr))>>>>, 1)
         [] by = "sign" ->
              FirstFault(<<
                <<"well-formed result", WellFormedResult(res.s)>>,
                <<"sign agrees with truth",
                  (res.s # <<>> /\ Monitorable(e)) => SignSound(e, tr, res.s, exact)>>>>, 1)

\* A text in, the robustness of a formula that it names out.
MonFaults(ev, res, st) ==
  LET f == TLCEval(Named(ev)) IN
  IF f.open THEN OutcomeFault("open", res)
  ELSE IF ~f.ok THEN OutcomeFault("error", res)
  ELSE RobFaults(ev.by, TLCEval(Built(f.e)), TraceOf(ev, st), res,
                 res.out = "ok" /\ res.ex /\ ~Expands(f.e))

(***************************************************************************)
(* Laws between the results of two evaluations, with handles ev.x, ev.y.   *)
(***************************************************************************)
LawFaults(ev, st) ==
  LET x  == st.sigs[ev.x]
      y  == st.sigs[ev.y]
      hx == st.how[ev.x]
      hy == st.how[ev.y]
      exact == hx.ex /\ hy.ex
      tol == IF exact THEN RZero ELSE RAdd(Tolerance(hx.e, hx.tr), Tolerance(hy.e, hy.tr))
      c   == IF exact THEN {"fixed"} ELSE {Class(hx.e), Class(hy.e)}
      whole == c \subseteq {"fixed", "function"}
      some  == "none" \notin c
      as == Anchors(hx.e, hx.tr, x)
      near(a, b) == Near(a, b, tol)
      close(u, w) ==
        IF whole THEN SameFunction(u, w, near)
        ELSE SameSpan(u, w) /\
             (some => \A i \in DOMAIN as : near(ValueAt(u, as[i]), ValueAt(w, as[i])))
      moved == [i \in DOMAIN y |-> <<RSub(y[i][1], ev.d), y[i][2]>>]
      scaled == [i \in DOMAIN y |-> <<y[i][1], RDiv(y[i][2], ev.d)>>]
      atAnchors(P(_, _)) ==
        SameSpan(x, y) /\ \A i \in DOMAIN as : P(ValueAt(x, as[i]), ValueAt(y, as[i]))
      \* equal at the sampling instants both are defined at and that when selects
      AgreeAt(when(_)) ==
        /\ SameExpr(hx.e, hy.e)
        /\ \A i \in DOMAIN as :
             (when(as[i]) /\ InSpan(y, as[i])) => near(ValueAt(x, as[i]), ValueAt(y, as[i]))
  IN CASE ev.kind = "same" -> FirstFault(<< <<"equal robustness", close(x, y)>> >>, 1)
       [] ev.kind = "neg" -> FirstFault(<< <<"opposite robustness", close(x, Negated(y))>> >>, 1)
       [] ev.kind = "shift" ->
            FirstFault(<< <<"moves with its signals", close(x, moved)>> >>, 1)
       [] ev.kind = "scale" ->
            FirstFault(<< <<"scales with its signals", close(x, scaled)>> >>, 1)
       [] ev.kind = "leq" ->
            FirstFault(<< <<"raising a signal lowers nothing",
              atAnchors(LAMBDA a, b : RLe(a, b) \/ RLe(RSub(a, b), tol))>> >>, 1)
       [] ev.kind = "lip" ->
            FirstFault(<< <<"changes by at most as much as the signals",
              atAnchors(LAMBDA a, b : RSame(a, b) \/ RLe(RAbs(RSub(a, b)), RAdd(ev.d, tol)))>> >>, 1)
       \* traces that agree in the part that matters
       [] ev.kind = "future" ->
            LET m == TLCEval(AgreeFrom(hx.e, hx.tr, hy.tr))
            IN FirstFault(<< <<"depends on the present and the future only",
                 some => AgreeAt(LAMBDA t : RLe(m, t))>>,
                 <<"the end depends on the ends only",
                   (RIsFin(m) /\ x # <<>> /\ y # <<>>) => REq(End(x), End(y))>> >>, 1)
       [] ev.kind = "past" ->
            LET m == TLCEval(AgreeUpTo(hx.e, hx.tr, hy.tr))
                r == TLCEval(Reach(hx.e, TLCEval(RMax(Gap(hx.e, hx.tr), Gap(hy.e, hy.tr)))))
            IN FirstFault(<< <<"depends on no more than its windows reach",
                 some => AgreeAt(LAMBDA t : RLe(RAdd(t, r), m))>> >>, 1)
       [] ev.kind = "hold" ->
            FirstFault(<< <<"signals keep their last value",
              (some /\ Prolonged(hx.e, hx.tr, hy.tr)) =>
                AgreeAt(LAMBDA t : TRUE)>> >>, 1)
       [] ev.kind = "refine" ->
            FirstFault(<< <<"samples on a line carry no information",
              (/\ Monitorable(hx.e) /\ ~HasUntil(hx.e)
               /\ SameTraceFunctions(hx.e, hx.tr, hy.tr)) =>
                AgreeAt(LAMBDA t : Sampled(hx.e, hx.tr, t) /\ Sampled(hx.e, hy.tr, t))>> >>, 1)

Faults(ev, res, st) ==
  CASE ev.op = "rob" -> RobFaults(ev.by, st.exprs[ev.x], TraceOf(ev, st), res, res.out = "ok" /\ res.ex)
    [] ev.op = "mon" -> MonFaults(ev, res, st)
    [] ev.op = "law" -> LawFaults(ev, st)
    [] ev.op = "again" ->
         FirstFault(<< <<"the same result as before", Seen(res) = st.hist[ev.k]>> >>, 1)
    [] ev.op \in {"parse", "parsef"} ->
         LET d == Denotation(ev.t)
             w == CASE d.verdict = "accept" -> "ok" [] d.verdict = "reject" -> "error"
                    [] OTHER -> "open"
             o == OutcomeFault(w, res)
         IN IF "only" \in DOMAIN ev /\ d.verdict # ev.only THEN {}
            ELSE IF o # {} THEN o
            ELSE IF res.out = "ok" /\ w = "ok"
            THEN FirstFault(<<
                   <<"the formulas written", FaithfulMap(d.f, res.sp.f)>>,
                   <<"the assertions written", FaithfulMap(d.a, res.sp.a)>>>>, 1)
            ELSE {}
    [] ev.op \in {"print", "printos", "prints"} ->
         IF res.out # "ok" THEN OutcomeFault("ok", res) ELSE ValueFaults(ev, res, st, OkOnly)
    [] ev.op = "printp" ->
         IF ev.i >= Len(st.sigs[ev.x]) THEN OutcomeFault("error", res)
         ELSE IF res.out # "ok" THEN OutcomeFault("ok", res)
         ELSE ValueFaults(ev, res, st, OkOnly)
    [] OTHER ->
         LET want == Result(ev, st)
             o == OutcomeFault(want.out, res)
         IN IF o # {} THEN o
            ELSE IF res.out = "ok" THEN ValueFaults(ev, res, st, want) ELSE {}

(***************************************************************************)
(* Effect of a call that returned res.                                     *)
(***************************************************************************)
After(ev, res, st) ==
  IF res.out # "ok" THEN st
  ELSE CASE ev.op \in {"new", "points", "samples", "list"} \cup SignalMakes ->
              [st EXCEPT !.sigs = Put(@, ev.h, res.s), !.how = Drop(@, ev.h)]
         [] ev.op \in {"push", "pushs"} ->
              [st EXCEPT !.sigs = Put(@, ev.x, Extended(@[ev.x], ev.t, ev.v)),
                         !.how = Drop(@, ev.x)]
         [] ev.op = "sync" ->
              [st EXCEPT !.sigs = Put(Put(@, ev.h, res.s), ev.h2, res.s2),
                         !.how = Drop(Drop(@, ev.h), ev.h2)]
         [] ev.op \in {"const", "pred", "predn", "predd", "and", "or", "getf", "geta"}
                      \cup ExprUnary \cup ExprBinary ->
              [st EXCEPT !.exprs = Put(@, ev.h, res.e)]
         [] ev.op = "rob" ->
              IF ev.h < 0 THEN st
              ELSE [st EXCEPT !.sigs = Put(@, ev.h, res.s),
                              !.how = Put(@, ev.h, [e |-> st.exprs[ev.x],
                                                    tr |-> TraceOf(ev, st), ex |-> res.ex])]
         [] ev.op = "mon" ->
              IF ev.h < 0 THEN st
              ELSE LET f == TLCEval(Named(ev)) IN
                   [st EXCEPT !.sigs = Put(@, ev.h, res.s),
                              !.how = IF ~f.ok THEN Drop(@, ev.h)
                                      ELSE Put(@, ev.h, [e |-> Built(f.e), tr |-> TraceOf(ev, st),
                                                         ex |-> res.ex /\ ~Expands(f.e)])]
         [] ev.op = "drop" ->      \* the client lets go of an object
              [st EXCEPT !.sigs = Drop(@, ev.x), !.how = Drop(@, ev.x),
                         !.exprs = Drop(@, ev.x), !.specs = Drop(@, ev.x)]
         [] ev.op \in {"parse", "parsef"} ->
              IF ev.h < 0 THEN st ELSE [st EXCEPT !.specs = Put(@, ev.h, res.sp)]
         [] OTHER -> st
=============================================================================
