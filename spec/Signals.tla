------------------------------- MODULE Signals -------------------------------
(***************************************************************************)
(* Piecewise-linear signals.                                               *)
(*                                                                         *)
(* A signal is a sequence of samples <<time, value>> (rationals) with      *)
(* strictly increasing times.  It denotes the function on                  *)
(* [Begin(x), End(x)] that is linear between neighbouring samples.  The    *)
(* empty signal is defined nowhere.                                        *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, SequencesExt, TLC

TimeOf(s) == s[1]
ValueOf(s) == s[2]

Begin(x) == x[1][1]
End(x)   == x[Len(x)][1]

StrictlyIncreasing(x) == \A i \in 1..(Len(x) - 1) : RLt(x[i][1], x[i + 1][1])

\* What every signal reachable through the API satisfies.
IsSignal(x) == StrictlyIncreasing(x) /\ \A i \in DOMAIN x : ~RIsNaN(x[i][1])

InSpan(x, t) == x # <<>> /\ RLe(Begin(x), t) /\ RLe(t, End(x))

(***************************************************************************)
(* Position of a time among the samples: the largest i with x[i].time <= t *)
(* (0 if there is none), by bisection.                                     *)
(***************************************************************************)
RECURSIVE Bisect(_, _, _, _)
Bisect(x, t, lo, hi) ==  \* x[lo].time <= t (or lo = 0), x[hi].time > t (or hi = Len+1)
  IF hi - lo = 1 THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF RLe(x[m][1], t) THEN Bisect(x, t, m, hi) ELSE Bisect(x, t, lo, m)
IndexAtOrBefore(x, t) == Bisect(x, t, 0, Len(x) + 1)

\* Number of samples strictly before t; number of samples at or before t.
CountBefore(x, t) ==
  LET i == IndexAtOrBefore(x, t)
  IN IF i > 0 /\ REq(x[i][1], t) THEN i - 1 ELSE i
CountAtOrBefore(x, t) == IndexAtOrBefore(x, t)

\* The line through two samples, at t.  A flat line is flat at infinite values too.
LineAt(p, q, t) ==
  IF REq(p[2], q[2]) THEN p[2]
  ELSE RAdd(p[2], RMul(RDiv(RSub(q[2], p[2]), RSub(q[1], p[1])), RSub(t, p[1])))

\* The value of x at t in its span.
ValueAt(x, t) ==
  LET i == IndexAtOrBefore(x, t)
  IN IF REq(x[i][1], t) THEN x[i][2] ELSE LineAt(x[i], x[i + 1], t)

\* The value of x at t >= Begin(x), where x keeps its last value after its end.
ValueHeld(x, t) == IF RLe(End(x), t) THEN x[Len(x)][2] ELSE ValueAt(x, t)

\* The slope of the segment that starts at sample i; 0 for the last sample.
Slope(x, i) ==
  IF i = Len(x) \/ REq(x[i][2], x[i + 1][2]) THEN RZero
  ELSE RDiv(RSub(x[i + 1][2], x[i][2]), RSub(x[i + 1][1], x[i][1]))

(***************************************************************************)
(* Sequences of times.                                                     *)
(***************************************************************************)
Times(x) == TLCEval([i \in DOMAIN x |-> x[i][1]])

Seq1(n) == [i \in 1..n |-> i]

\* Ordered union of two strictly increasing sequences of times.
MergeTimes(a, b) ==
  LET step(s, k) ==
        LET i == s[1]  j == s[2] IN
        IF i > Len(a) /\ j > Len(b) THEN s
        ELSE IF j > Len(b) THEN <<i + 1, j, Append(s[3], a[i])>>
        ELSE IF i > Len(a) THEN <<i, j + 1, Append(s[3], b[j])>>
        ELSE IF REq(a[i], b[j]) THEN <<i + 1, j + 1, Append(s[3], a[i])>>
        ELSE IF RLt(a[i], b[j]) THEN <<i + 1, j, Append(s[3], a[i])>>
        ELSE <<i, j + 1, Append(s[3], b[j])>>
  IN FoldLeft(step, <<1, 1, <<>>>>, Seq1(Len(a) + Len(b)))[3]

Within(ts, lo, hi) == SelectSeq(ts, LAMBDA t : RLe(lo, t) /\ RLe(t, hi))

Sample(x, ts) == TLCEval([i \in DOMAIN ts |-> <<ts[i], ValueAt(x, ts[i])>>])

(***************************************************************************)
(* Construction.                                                           *)
(***************************************************************************)
CanAppend(x, t) == ~RIsNaN(t) /\ (x # <<>> => RLt(End(x), t))
Appended(x, s)  == Append(x, s)

\* A sequence of samples can be made a signal.
CanBuild(ss) == StrictlyIncreasing(ss) /\ (ss # <<>> => ~RIsNaN(ss[1][1]))

(***************************************************************************)
(* Restriction, extension, shift.                                          *)
(***************************************************************************)
\* [s, e] with s < e: the samples inside, plus one at each end (on the signal if
\* it is defined there, else with the fill value).
Resized(x, s, e, fill) ==
  LET edge(t) == <<t, IF InSpan(x, t) THEN ValueAt(x, t) ELSE fill>>
      inner   == SelectSeq(x, LAMBDA p : RLt(s, p[1]) /\ RLt(p[1], e))
  IN <<edge(s)>> \o inner \o <<edge(e)>>

Shifted(x, d) == TLCEval([i \in DOMAIN x |-> <<RAdd(x[i][1], d), x[i][2]>>])

(***************************************************************************)
(* Simplification: drop a sample when value and slope continue those of    *)
(* the last one kept; keep both ends.                                      *)
(***************************************************************************)
Simplified(x) ==
  IF Len(x) <= 2 THEN x
  ELSE LET keep(acc, i) ==
             LET p == acc[Len(acc)]
             IN IF REq(LineAt(p, x[i + 1], x[i][1]), x[i][2]) THEN acc ELSE Append(acc, x[i])
       IN Append(FoldLeft(keep, <<x[1]>>, [k \in 1..(Len(x) - 2) |-> k + 1]), x[Len(x)])

(***************************************************************************)
(* Synchronization.                                                        *)
(***************************************************************************)
Overlap(x, y) ==
  x # <<>> /\ y # <<>> /\ RLe(RMax(Begin(x), Begin(y)), RMin(End(x), End(y)))

Synchronized(x, y) ==
  IF ~Overlap(x, y) THEN <<<<>>, <<>>>>
  ELSE LET ts == Within(MergeTimes(Times(x), Times(y)),
                        RMax(Begin(x), Begin(y)), RMin(End(x), End(y)))
       IN <<Sample(x, ts), Sample(y, ts)>>

(***************************************************************************)
(* Equality as functions of time.  NearAt decides whether two values       *)
(* agree; with near = RSame this is exact equality.                        *)
(***************************************************************************)
SameSpan(x, y) ==
  (x = <<>> /\ y = <<>>) \/
  (x # <<>> /\ y # <<>> /\ REq(Begin(x), Begin(y)) /\ REq(End(x), End(y)))

SameFunction(x, y, near(_, _)) ==
  /\ SameSpan(x, y)
  /\ x # <<>> =>
       /\ \A i \in DOMAIN x : near(x[i][2], ValueAt(y, x[i][1]))
       /\ \A i \in DOMAIN y : near(ValueAt(x, y[i][1]), y[i][2])

\* The same sequence of samples.
SameSamples(x, y) ==
  /\ Len(x) = Len(y)
  /\ \A i \in DOMAIN x : RSame(x[i][1], y[i][1]) /\ RSame(x[i][2], y[i][2])
=============================================================================
