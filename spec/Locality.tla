------------------------------- MODULE Locality -------------------------------
(***************************************************************************)
(* Which part of a trace the robustness of a formula refers to.            *)
(*                                                                         *)
(*   - It looks ahead only: traces that agree from some time on have the   *)
(*     same robustness from then on (AgreeFrom).                           *)
(*   - It looks ahead no further than the windows of its operators reach:  *)
(*     traces that agree up to some time have the same robustness at       *)
(*     times from which the formula does not reach beyond it (AgreeUpTo,   *)
(*     Reach).                                                             *)
(*   - Signals keep their last value after their end: prolonging all of    *)
(*     them that way changes nothing before their end (Prolonged).         *)
(*   - Samples on the line between their neighbours carry no information:  *)
(*     traces of the same functions have the same robustness at the        *)
(*     instants both sample (SameTraceFunctions).                          *)
(*                                                                         *)
(* Operators over robustness signals read these between their samples as   *)
(* straight lines, so the statements hold as soon as the segments of the   *)
(* trace involved are the same: from a sample that both traces have, and   *)
(* with one sampling gap to spare per nested window.                       *)
(***************************************************************************)
EXTENDS Robustness

\* The number of samples at the end (start) of x and y that are the same.
RECURSIVE SameEnds(_, _, _)
SameEnds(x, y, k) ==
  IF k < Len(x) /\ k < Len(y)
     /\ RSame(x[Len(x) - k][1], y[Len(y) - k][1]) /\ RSame(x[Len(x) - k][2], y[Len(y) - k][2])
  THEN SameEnds(x, y, k + 1) ELSE k
RECURSIVE SameStarts(_, _, _)
SameStarts(x, y, k) ==
  IF k < Len(x) /\ k < Len(y)
     /\ RSame(x[k + 1][1], y[k + 1][1]) /\ RSame(x[k + 1][2], y[k + 1][2])
  THEN SameStarts(x, y, k + 1) ELSE k

\* The signals of a trace that a formula refers to: a constant refers to all.
Used(e, tr) == SelectSeq(tr, LAMBDA p : HasConst(e) \/ p.n \in Names(e))
Has(tr, n) == \E i \in DOMAIN tr : tr[i].n = n
Comparable(e, tr, us) ==
  LET u == Used(e, tr)  v == Used(e, us) IN
  /\ u # <<>>
  /\ \A i \in DOMAIN u : Has(v, u[i].n) /\ u[i].s # <<>>
  /\ \A i \in DOMAIN v : Has(u, v[i].n) /\ v[i].s # <<>>

\* The earliest time from (the latest up to) which the traces agree, if there is one.
AgreeFrom(e, tr, us) ==
  IF ~Comparable(e, tr, us) THEN RInf
  ELSE FoldLeft(LAMBDA m, p :
         LET k == SameEnds(p.s, Lookup(p.n, us), 0)
         IN RMax(m, IF k = 0 THEN RInf ELSE p.s[Len(p.s) + 1 - k][1]),
       RNegInf, Used(e, tr))
AgreeUpTo(e, tr, us) ==
  IF ~Comparable(e, tr, us) THEN RNegInf
  ELSE FoldLeft(LAMBDA m, p :
         LET k == SameStarts(p.s, Lookup(p.n, us), 0)
         IN RMin(m, IF k = 0 THEN RNegInf ELSE p.s[k][1]),
       RInf, Used(e, tr))

\* The widest gap between samples of the trace's signals for e.
Gap(e, tr) ==
  FoldLeft(LAMBDA m, p :
      FoldLeft(LAMBDA g, i : RMax(g, RSub(p.s[i + 1][1], p.s[i][1])), m, Seq1(Len(p.s) - 1)),
    RZero, Used(e, tr))

RECURSIVE Reach(_, _)
Reach(e, gap) ==
  CASE e.k = "const" -> RInf        \* its span is that of the trace
    [] e.k = "pred" -> RZero
    [] e.k = "not" -> Reach(e.a, gap)
    [] e.k \in {"and", "or"} -> MaxOf([i \in DOMAIN e.as |-> Reach(e.as[i], gap)])
    [] e.k \in {"G", "F"} -> RAdd(RAdd(e.hi, gap), Reach(e.a, gap))
    [] OTHER -> RInf

\* us is tr with every signal prolonged by its last value, and all ended together.
Prolonged(e, tr, us) ==
  /\ Comparable(e, tr, us)
  /\ LET u == Used(e, tr) IN
     \A i \in DOMAIN u :
       LET x == u[i].s  y == Lookup(u[i].n, us) IN
       /\ SameStarts(x, y, 0) = Len(x)
       /\ \A k \in DOMAIN y : k > Len(x) => RSame(y[k][2], x[Len(x)][2])
       /\ REq(End(x), End(u[1].s)) /\ REq(End(y), End(Lookup(u[1].n, us)))

\* Both traces are of the same functions of time.
SameTraceFunctions(e, tr, us) ==
  /\ Comparable(e, tr, us)
  /\ \A i \in DOMAIN Used(e, tr) :
       LET p == Used(e, tr)[i] IN SameFunction(p.s, Lookup(p.n, us), RSame)

RECURSIVE HasUntil(_)
HasUntil(e) ==
  CASE e.k \in {"const", "pred"} -> FALSE
    [] e.k \in {"not", "G", "F"} -> HasUntil(e.a)
    [] e.k \in {"and", "or"} -> \E i \in DOMAIN e.as : HasUntil(e.as[i])
    [] OTHER -> TRUE
=============================================================================
