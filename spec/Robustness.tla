------------------------------ MODULE Robustness ------------------------------
(***************************************************************************)
(* The quantitative semantics of formulas over traces, and the Boolean     *)
(* semantics it refines.                                                   *)
(*                                                                         *)
(* A trace is a sequence of [n |-> name, s |-> signal].                    *)
(***************************************************************************)
EXTENDS Signals, Formulas

InTrace(n, tr)  == \E i \in DOMAIN tr : tr[i].n = n
Lookup(n, tr)   == tr[CHOOSE i \in DOMAIN tr : tr[i].n = n].s

\* The span of the constants true and false.
NonEmpty(tr)    == SelectSeq(tr, LAMBDA p : p.s # <<>>)
TraceBegin(tr) ==
  FoldLeft(LAMBDA b, p : RMin(b, Begin(p.s)), RInf, NonEmpty(tr))
TraceEnd(tr) ==
  FoldLeft(LAMBDA b, p : RMax(b, End(p.s)), RNegInf, NonEmpty(tr))

(***************************************************************************)
(* The operators on robustness signals.                                    *)
(***************************************************************************)
PredicateSignal(x, op, c) ==
  TLCEval([i \in DOMAIN x |->
     <<x[i][1], IF op \in {">", ">="} THEN RSub(x[i][2], c) ELSE RSub(c, x[i][2])>>])

Negated(x) == TLCEval([i \in DOMAIN x |-> <<x[i][1], RNeg(x[i][2])>>])

\* Pointwise min (max): both operands at all sampling instants of either one, and
\* at the instants strictly between two of these where they cross.
Optimum(x, y, pick(_, _)) ==
  LET s == Synchronized(x, y)
      p == s[1]
      q == s[2]
      at(i) == <<p[i][1], pick(p[i][2], q[i][2])>>
      cross(i) ==  \* of segment i
        \/ RLt(p[i][2], q[i][2]) /\ RLt(q[i + 1][2], p[i + 1][2])
        \/ RLt(q[i][2], p[i][2]) /\ RLt(p[i + 1][2], q[i + 1][2])
      meet(i) ==
        LET d0 == RSub(p[i][2], q[i][2])
            d1 == RSub(p[i + 1][2], q[i + 1][2])
            t  == RAdd(p[i][1], RMul(RSub(p[i + 1][1], p[i][1]), RDiv(d0, RSub(d0, d1))))
        IN <<t, LineAt(p[i], p[i + 1], t)>>
      step(acc, i) ==
        Append(IF i > 1 /\ cross(i - 1) THEN Append(acc, meet(i - 1)) ELSE acc, at(i))
  IN FoldLeft(step, <<>>, Seq1(Len(p)))

\* Suffix optimum at the sampling instants.
Suffix(x, pick(_, _)) ==
  Reverse(FoldLeft(
    LAMBDA acc, s :
      Append(acc, <<s[1], IF acc = <<>> THEN s[2] ELSE pick(s[2], acc[Len(acc)][2])>>),
    <<>>, Reverse(x)))

\* Optimum over the window [t + a, t + b] at the sampling instants t.
Window(x, a, b, pick(_, _)) ==
  TLCEval([k \in DOMAIN x |->
     LET lo == RAdd(x[k][1], a)
         hi == RAdd(x[k][1], b)
         i  == CountBefore(x, lo) + 1
         j  == CountAtOrBefore(x, hi)
         ends == pick(ValueHeld(x, lo), ValueHeld(x, hi))
     IN <<x[k][1],
          FoldLeft(LAMBDA v, s : pick(v, s[2]), ends,
                   IF i > j THEN <<>> ELSE SubSeq(x, i, j))>>])

\* u(k) = max(y(k), min(x(k), u(k+1))) at the common sampling instants.
UntilSignal(x, y) ==
  LET s == Synchronized(x, y)
      p == Reverse(s[1])
      q == Reverse(s[2])
      step(acc, i) ==
        LET next == IF acc = <<>> THEN RNegInf ELSE acc[Len(acc)][2]
        IN Append(acc, <<p[i][1], RMax(q[i][2], RMin(p[i][2], next))>>)
  IN Reverse(FoldLeft(step, <<>>, Seq1(Len(p))))

(***************************************************************************)
(* Robustness of a formula over a trace that has its signals.              *)
(***************************************************************************)
Evaluable(e, tr) == (\A n \in Names(e) : InTrace(n, tr)) /\ ~HasBoundedUntil(e)

FoldFirst(op(_, _), xs) == FoldLeft(op, xs[1], Tail(xs))

RECURSIVE Rob(_, _)
Rob(e, tr) ==
  CASE e.k = "const" ->
         LET v == IF e.b THEN RInf ELSE RNegInf
             b == TraceBegin(tr)
             z == TraceEnd(tr)
         IN IF REq(b, z) THEN <<<<b, v>>>> ELSE <<<<b, v>>, <<z, v>>>>
    [] e.k = "pred" -> PredicateSignal(Lookup(e.n, tr), e.op, e.c)
    [] e.k = "not" -> Negated(Rob(e.a, tr))
    [] e.k = "and" -> FoldFirst(LAMBDA x, y : Optimum(x, y, RMin),
                                [i \in DOMAIN e.as |-> Rob(e.as[i], tr)])
    [] e.k = "or" -> FoldFirst(LAMBDA x, y : Optimum(x, y, RMax),
                               [i \in DOMAIN e.as |-> Rob(e.as[i], tr)])
    [] e.k = "G" -> IF Unbounded(e) THEN Suffix(Rob(e.a, tr), RMin)
                    ELSE Window(Rob(e.a, tr), e.lo, e.hi, RMin)
    [] e.k = "F" -> IF Unbounded(e) THEN Suffix(Rob(e.a, tr), RMax)
                    ELSE Window(Rob(e.a, tr), e.lo, e.hi, RMax)
    [] e.k = "U" -> UntilSignal(Rob(e.a, tr), Rob(e.b, tr))

(***************************************************************************)
(* Rounding.  The code computes with doubles.  Where a computation was not *)
(* exact its result may differ from Rob by rounding errors, and Rob is a   *)
(* continuous function of its inputs only as far as Class says:            *)
(*   "fixed"     the sampling instants of the result are exact copies      *)
(*   "function"  the result is robust as a function of time, its sampling  *)
(*               instants (crossings) are computed                         *)
(*   "anchors"   the result is robust at the sampling instants of the      *)
(*               trace, but not in between                                 *)
(*   "none"      not even there (a discontinuous operator over computed    *)
(*               instants): only span and well-formedness are claimed      *)
(***************************************************************************)
RECURSIVE Class(_)
Class(e) ==
  CASE e.k \in {"const", "pred"} -> "fixed"
    [] e.k = "not" -> Class(e.a)
    [] e.k \in {"and", "or"} ->
         LET c == {Class(e.as[i]) : i \in DOMAIN e.as}
         IN IF c \subseteq {"fixed", "function"} THEN "function"
            ELSE IF "none" \in c THEN "none" ELSE "anchors"
    [] e.k \in {"G", "F"} ->
         CASE Class(e.a) = "fixed" -> "fixed"
           [] Class(e.a) = "function" -> "anchors"
           [] OTHER -> "none"
    [] e.k = "U" -> IF Class(e.a) = "fixed" /\ Class(e.b) = "fixed" THEN "fixed" ELSE "none"

\* Largest finite magnitude of value, time and slope in a signal.
FinAbs(r) == IF RIsFin(r) THEN RAbs(r) ELSE RZero
MaxOf(rs) == FoldLeft(RMax, RZero, rs)
Magnitude(x)  == MaxOf([i \in DOMAIN x |-> FinAbs(x[i][2])])
TimeScale(x)  == MaxOf([i \in DOMAIN x |-> FinAbs(x[i][1])])
Steepness(x)  == MaxOf([i \in DOMAIN x |-> FinAbs(Slope(x, i))])

\* The largest steepness of any robustness signal computed for e.
RECURSIVE SteepnessIn(_, _)
SteepnessIn(e, tr) ==
  LET own == Steepness(Rob(e, tr)) IN
  CASE e.k \in {"const", "pred"} -> own
    [] e.k \in {"not", "G", "F"} -> RMax(own, SteepnessIn(e.a, tr))
    [] e.k \in {"and", "or"} ->
         RMax(own, MaxOf([i \in DOMAIN e.as |-> SteepnessIn(e.as[i], tr)]))
    [] e.k = "U" -> RMax(own, RMax(SteepnessIn(e.a, tr), SteepnessIn(e.b, tr)))

RECURSIVE Bounds(_)   \* magnitudes of the constants and of finite interval bounds
Bounds(e) ==
  CASE e.k = "const" -> <<RZero, RZero>>
    [] e.k = "pred" -> <<FinAbs(e.c), RZero>>
    [] e.k = "not" -> Bounds(e.a)
    [] e.k \in {"G", "F"} ->
         LET b == Bounds(e.a) IN <<b[1], RMax(b[2], RMax(FinAbs(e.lo), FinAbs(e.hi)))>>
    [] e.k \in {"and", "or"} ->
         LET bs == [i \in DOMAIN e.as |-> Bounds(e.as[i])]
         IN <<MaxOf([i \in DOMAIN bs |-> bs[i][1]]), MaxOf([i \in DOMAIN bs |-> bs[i][2]])>>
    [] e.k = "U" ->
         LET b == Bounds(e.a)  c == Bounds(e.b) IN <<RMax(b[1], c[1]), RMax(b[2], c[2])>>

Tolerance(e, tr) ==
  LET M == RAdd(MaxOf([i \in DOMAIN tr |-> Magnitude(tr[i].s)]), Bounds(e)[1])
      T == RAdd(MaxOf([i \in DOMAIN tr |-> TimeScale(tr[i].s)]), Bounds(e)[2])
      S == SteepnessIn(e, tr)
  IN RMul(RMul(RPow2(-46), RInt(1 + ExprSize(e))), RAdd(M, RMul(S, T)))

Near(a, b, tol) ==
  RSame(a, b) \/ (RIsFin(a) /\ RIsFin(b) /\ RLe(RAbs(RSub(a, b)), tol))

\* The sampling instants of the trace's signals for e that lie in the span of x.
Anchors(e, tr, x) ==
  LET used == SelectSeq(tr, LAMBDA p : p.n \in Names(e))
  IN IF x = <<>> THEN <<>>
     ELSE Within(FoldLeft(LAMBDA acc, p : MergeTimes(acc, Times(p.s)), <<>>, used),
                 Begin(x), End(x))

WellFormedResult(x) ==
  /\ StrictlyIncreasing(x)
  /\ \A i \in DOMAIN x : RIsFin(x[i][1]) /\ ~RIsNaN(x[i][2])

(***************************************************************************)
(* The minimum of three or more operands does not depend on the order in   *)
(* which they are taken, but the crossings met on the way do, and so do    *)
(* the sampling instants of the result.  Settled: no operand of a temporal *)
(* operator is sampled at instants that depend on such an order.           *)
(***************************************************************************)
\* The operands of a conjunction (disjunction), those of its operands of the same kind included.
RECURSIVE OperandsOf(_, _)
OperandsOf(k, e) ==
  IF e.k # k THEN <<e>> ELSE FlattenSeq([i \in DOMAIN e.as |-> OperandsOf(k, e.as[i])])

\* The instants between samples at which x and y cross.
Crossings(x, y) ==
  LET s == Synchronized(x, y)
      own == Times(s[1])
      opt == Times(Optimum(x, y, RMin))
  IN {opt[i] : i \in DOMAIN opt} \ {own[i] : i \in DOMAIN own}

\* x has an inner sample at t that is not on the line between its neighbours.
Bends(x, t) ==
  \E i \in 2..(Len(x) - 1) : REq(x[i][1], t) /\ ~REq(LineAt(x[i - 1], x[i + 1], t), x[i][2])

OrderMatters(e, tr) ==
  LET es == OperandsOf(e.k, e) IN
  /\ Len(es) > 2
  /\ \/ Len(es) > 8
     \/ LET xs == TLCEval([i \in DOMAIN es |-> Rob(es[i], tr)])
            opt == TLCEval(IF e.k = "and" THEN FoldFirst(LAMBDA x, y : Optimum(x, y, RMin), xs)
                           ELSE FoldFirst(LAMBDA x, y : Optimum(x, y, RMax), xs))
            own == UNION {{xs[i][j][1] : j \in DOMAIN xs[i]} : i \in DOMAIN xs}
        IN \E i, j \in DOMAIN xs :
             i < j /\ \E t \in Crossings(xs[i], xs[j]) :
                        opt # <<>> /\ RLe(Begin(opt), t) /\ RLe(t, End(opt)) /\ t \notin own /\ ~Bends(opt, t)

RECURSIVE Ordered(_, _)   \* some conjunction or disjunction in e depends on the order
Ordered(e, tr) ==
  CASE e.k \in {"const", "pred"} -> FALSE
    [] e.k \in {"not", "G", "F"} -> Ordered(e.a, tr)
    [] e.k \in {"and", "or"} -> OrderMatters(e, tr) \/ \E i \in DOMAIN e.as : Ordered(e.as[i], tr)
    [] e.k = "U" -> Ordered(e.a, tr) \/ Ordered(e.b, tr)

RECURSIVE Settled(_, _)
Settled(e, tr) ==
  CASE e.k \in {"const", "pred"} -> TRUE
    [] e.k = "not" -> Settled(e.a, tr)
    [] e.k \in {"and", "or"} -> \A i \in DOMAIN e.as : Settled(e.as[i], tr)
    [] e.k \in {"G", "F"} -> ~Ordered(e.a, tr)
    [] e.k = "U" -> ~Ordered(e.a, tr) /\ ~Ordered(e.b, tr)

RECURSIVE NoTemporal(_)
NoTemporal(e) ==
  CASE e.k \in {"const", "pred"} -> TRUE
    [] e.k = "not" -> NoTemporal(e.a)
    [] e.k \in {"and", "or"} -> \A i \in DOMAIN e.as : NoTemporal(e.as[i])
    [] OTHER -> FALSE
RECURSIVE OneOperator(_)   \* Always or Eventually of a formula without temporal operators
OneOperator(e) ==
  CASE e.k = "not" -> OneOperator(e.a)
    [] e.k \in {"G", "F"} -> NoTemporal(e.a)
    [] OTHER -> FALSE

(***************************************************************************)
(* obs is an acceptable result of evaluating e over tr; exact tells        *)
(* whether the code's arithmetic was exact.                                *)
(***************************************************************************)
AcceptableRobustness(e, tr, obs, exact) ==
  LET want == TLCEval(Rob(e, tr))
      c == Class(e)
      tol == IF exact THEN RZero ELSE Tolerance(e, tr)
      near(a, b) == IF exact THEN RSame(a, b) ELSE Near(a, b, tol)
      atAnchors == LET as == Anchors(e, tr, want)
                   IN \A i \in DOMAIN as : near(ValueAt(obs, as[i]), ValueAt(want, as[i]))
  IN /\ WellFormedResult(obs)
     /\ SameSpan(obs, want)
     /\ \/ (exact \/ c \in {"fixed", "function"}) /\ SameFunction(obs, want, near)
        \/ ~exact /\ c = "anchors" /\ atAnchors
        \/ ~exact /\ c = "none"
        \/ ~Settled(e, tr) /\ (OneOperator(e) => atAnchors)

\* The span a result must have, whatever its values.

SpanOf(e, tr) ==
  LET r == Rob(e, tr) IN IF r = <<>> THEN <<>> ELSE <<<<Begin(r), RZero>>, <<End(r), RZero>>>>

(***************************************************************************)
(* Boolean semantics over the signals' values, independent of Rob.         *)
(*                                                                         *)
(* Boolean combinations are evaluated at any time.  A temporal operator    *)
(* over a Boolean combination quantifies over all times; since predicates  *)
(* over piecewise-linear signals change truth only where a signal crosses  *)
(* its threshold, it is enough to look at the critical times (sampling     *)
(* instants, threshold crossings, window ends) and between them.           *)
(***************************************************************************)
RECURSIVE BoolOnly(_)
BoolOnly(e) ==
  CASE e.k \in {"const", "pred"} -> TRUE
    [] e.k = "not" -> BoolOnly(e.a)
    [] e.k \in {"and", "or"} -> \A i \in DOMAIN e.as : BoolOnly(e.as[i])
    [] OTHER -> FALSE

Literal(e) == e.k = "pred" \/ (e.k = "not" /\ e.a.k = "pred")

RECURSIVE Chain(_)      \* unbounded temporal operators over a Boolean combination
Chain(e) ==
  e.k \in {"G", "F"} /\ Unbounded(e) /\ (BoolOnly(e.a) \/ Chain(e.a))

RECURSIVE Monitorable(_)
Monitorable(e) ==
  CASE e.k \in {"const", "pred"} -> TRUE
    [] e.k = "not" -> Monitorable(e.a)
    [] e.k \in {"and", "or"} -> \A i \in DOMAIN e.as : Monitorable(e.as[i])
    [] e.k \in {"G", "F"} -> Chain(e) \/ BoolOnly(e.a)
    [] e.k = "U" -> Unbounded(e) /\ Literal(e.a) /\ Literal(e.b)

Holds(v, op, c) ==
  CASE op = ">" -> RLt(c, v) [] op = ">=" -> RLe(c, v)
    [] op = "<" -> RLt(v, c) [] op = "<=" -> RLe(v, c)

RECURSIVE BoolAt(_, _, _)
BoolAt(e, tr, t) ==
  CASE e.k = "const" -> e.b
    [] e.k = "pred" -> Holds(ValueHeld(Lookup(e.n, tr), t), e.op, e.c)
    [] e.k = "not" -> ~BoolAt(e.a, tr, t)
    [] e.k = "and" -> \A i \in DOMAIN e.as : BoolAt(e.as[i], tr, t)
    [] e.k = "or"  -> \E i \in DOMAIN e.as : BoolAt(e.as[i], tr, t)

RECURSIVE Predicates(_)
Predicates(e) ==
  CASE e.k = "const" -> <<>>
    [] e.k = "pred" -> <<e>>
    [] e.k \in {"not", "G", "F"} -> Predicates(e.a)
    [] e.k \in {"and", "or"} -> FlattenSeq([i \in DOMAIN e.as |-> Predicates(e.as[i])])
    [] e.k = "U" -> Predicates(e.a) \o Predicates(e.b)

\* Times strictly inside a segment at which x takes the value c.
Thresholds(x, c) ==
  FoldLeft(LAMBDA acc, i :
      IF (RLt(x[i][2], c) /\ RLt(c, x[i + 1][2])) \/ (RLt(c, x[i][2]) /\ RLt(x[i + 1][2], c))
      THEN Append(acc, RAdd(x[i][1], RMul(RSub(x[i + 1][1], x[i][1]),
                  RDiv(RSub(c, x[i][2]), RSub(x[i + 1][2], x[i][2])))))
      ELSE acc,
    <<>>, Seq1(Len(x) - 1))

CriticalTimes(e, tr) ==
  FoldLeft(LAMBDA acc, p :
      LET x == Lookup(p.n, tr)
      IN MergeTimes(MergeTimes(acc, Times(x)), Thresholds(x, p.c)),
    <<>>, Predicates(e))

\* Critical times in [lo, hi], its ends, and a time between any two of these.
Probe(e, tr, lo, hi) ==
  LET ts == MergeTimes(Within(CriticalTimes(e, tr), lo, hi),
                       IF REq(lo, hi) THEN <<lo>> ELSE <<lo, hi>>)
  IN ts \o [i \in 1..(Len(ts) - 1) |-> RMul(R(1, 2), RAdd(ts[i], ts[i + 1]))]

\* All signals of e cover [b, z]; Satisfies is claimed at sampling instants in it.
RECURSIVE Satisfies(_, _, _, _)
Satisfies(e, tr, t, z) ==
  CASE e.k \in {"const", "pred"} -> BoolAt(e, tr, t)
    [] e.k = "not" -> ~Satisfies(e.a, tr, t, z)
    [] e.k = "and" -> \A i \in DOMAIN e.as : Satisfies(e.as[i], tr, t, z)
    [] e.k = "or"  -> \E i \in DOMAIN e.as : Satisfies(e.as[i], tr, t, z)
    [] e.k \in {"G", "F"} ->
         LET hi0 == RAdd(t, e.hi)
             lo  == RAdd(t, e.lo)
             \* beyond its end the operand keeps its last value
             hi  == IF RLt(z, hi0) THEN RMax(lo, z) ELSE hi0
             ps  == Probe(e.a, tr, lo, hi)
             held(u) == IF RLt(z, u) THEN z ELSE u
         IN IF e.k = "G" THEN \A i \in DOMAIN ps : Satisfies(e.a, tr, held(ps[i]), z)
            ELSE \E i \in DOMAIN ps : Satisfies(e.a, tr, held(ps[i]), z)
    [] e.k = "U" ->
         LET ts == Within(FoldLeft(LAMBDA acc, p : MergeTimes(acc, Times(Lookup(p.n, tr))),
                                   <<>>, Predicates(e)), t, z)
         IN \E i \in DOMAIN ts :
              /\ BoolAt(e.b, tr, ts[i])
              /\ \A j \in 1..(i - 1) : BoolAt(e.a, tr, ts[j])

\* t is a sampling instant of the operands of every temporal operator in e.
RECURSIVE Sampled(_, _, _)
Sampled(e, tr, t) ==
  CASE e.k \in {"const", "pred"} -> TRUE
    [] e.k = "not" -> Sampled(e.a, tr, t)
    [] e.k \in {"and", "or"} -> \A i \in DOMAIN e.as : Sampled(e.as[i], tr, t)
    [] OTHER -> \/ Names(e) = {}
                \/ \E n \in Names(e) :
                     LET x == Lookup(n, tr)
                         i == IndexAtOrBefore(x, t)
                     IN i > 0 /\ REq(x[i][1], t)

\* The sign of an observed robustness agrees with the truth of the formula at the
\* sampling instants (a value within the rounding tolerance decides nothing).
SignSound(e, tr, obs, exact) ==
  LET tol == IF exact THEN RZero ELSE Tolerance(e, tr)
      as  == Anchors(e, tr, obs)
      z   == End(obs)
  IN \A i \in DOMAIN as :
       LET v == ValueAt(obs, as[i])
       IN Sampled(e, tr, as[i]) =>
          /\ RLt(tol, v) => Satisfies(e, tr, as[i], z)
          /\ RLt(v, RNeg(tol)) => ~Satisfies(e, tr, as[i], z)
=============================================================================
