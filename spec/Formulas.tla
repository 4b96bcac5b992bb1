------------------------------- MODULE Formulas -------------------------------
(***************************************************************************)
(* Formulas of signal temporal logic, their construction and the meaning   *)
(* of that construction.                                                   *)
(*                                                                         *)
(*  [k |-> "const", b |-> BOOLEAN]                                         *)
(*  [k |-> "pred",  n |-> name, op |-> "<" "<=" ">" ">=", c |-> rational]  *)
(*  [k |-> "not",   a |-> formula]                                         *)
(*  [k |-> "and" or "or", as |-> sequence of >= 2 formulas]                *)
(*  [k |-> "G" or "F", a |-> formula, lo |-> rational, hi |-> rational]    *)
(*  [k |-> "U", a |-> formula, b |-> formula, lo |-> .., hi |-> ..]        *)
(*                                                                         *)
(* A name is a sequence of character codes.  The interval [0, inf] stands  *)
(* for the unbounded operator.                                             *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, SequencesExt

True  == [k |-> "const", b |-> TRUE]
False == [k |-> "const", b |-> FALSE]
MkPred(n, op, c) == [k |-> "pred", n |-> n, op |-> op, c |-> c]
MkNot(a)     == [k |-> "not", a |-> a]
MkAnd(as)    == [k |-> "and", as |-> as]
MkOr(as)     == [k |-> "or", as |-> as]
MkG(a, l, h) == [k |-> "G", a |-> a, lo |-> l, hi |-> h]
MkF(a, l, h) == [k |-> "F", a |-> a, lo |-> l, hi |-> h]
MkU(a, b, l, h) == [k |-> "U", a |-> a, b |-> b, lo |-> l, hi |-> h]

IsConst(e, b) == e.k = "const" /\ e.b = b
Unbounded(e)  == REq(e.lo, RZero) /\ REq(e.hi, RInf)

ValidInterval(l, h) == RLe(RZero, l) /\ RLt(l, h)

(***************************************************************************)
(* What each constructor builds (the library's own folding).               *)
(***************************************************************************)
Negation(a) == IF a.k = "const" THEN [k |-> "const", b |-> ~a.b] ELSE MkNot(a)

Conj(a, b) ==   \* a & b
  IF a.k = "const" THEN (IF a.b THEN b ELSE a)
  ELSE IF a.k # "and" THEN MkAnd(<<a, b>>)
  ELSE IF b.k = "const" THEN (IF b.b THEN a ELSE b)
  ELSE IF b.k = "and" THEN MkAnd(a.as \o b.as)
  ELSE MkAnd(Append(a.as, b))

Disj(a, b) ==   \* a | b
  IF a.k = "const" THEN (IF a.b THEN a ELSE b)
  ELSE IF a.k # "or" THEN MkOr(<<a, b>>)
  ELSE IF b.k = "const" THEN (IF b.b THEN b ELSE a)
  ELSE IF b.k = "or" THEN MkOr(a.as \o b.as)
  ELSE MkOr(Append(a.as, b))

Implication(a, b) == Disj(Negation(a), b)
ExclusiveOr(a, b) == Conj(Disj(a, b), Disj(Negation(a), Negation(b)))
Equivalence(a, b) == Disj(Conj(a, b), Conj(Negation(a), Negation(b)))

(***************************************************************************)
(* Equality of formulas (numbers are compared with REq).                   *)
(***************************************************************************)
RECURSIVE SameExpr(_, _)
SameExpr(e, f) ==
  /\ e.k = f.k
  /\ CASE e.k = "const" -> e.b = f.b
       [] e.k = "pred" -> e.n = f.n /\ e.op = f.op /\ RSame(e.c, f.c)
       [] e.k = "not" -> SameExpr(e.a, f.a)
       [] e.k \in {"and", "or"} ->
            Len(e.as) = Len(f.as) /\ \A i \in DOMAIN e.as : SameExpr(e.as[i], f.as[i])
       [] e.k \in {"G", "F"} ->
            REq(e.lo, f.lo) /\ REq(e.hi, f.hi) /\ SameExpr(e.a, f.a)
       [] e.k = "U" ->
            REq(e.lo, f.lo) /\ REq(e.hi, f.hi) /\ SameExpr(e.a, f.a) /\ SameExpr(e.b, f.b)
       [] OTHER -> FALSE

(***************************************************************************)
(* Normal form: directly nested connectives of one kind flattened, neutral *)
(* constants dropped, absorbing constants absorb, constants negated.  Two  *)
(* formulas with the same normal form differ only in simplifications that  *)
(* keep the operands and their order.                                      *)
(***************************************************************************)
RECURSIVE NF(_)
NF(e) ==
  CASE e.k \in {"const", "pred"} -> e
    [] e.k = "not" -> Negation(NF(e.a))
    [] e.k \in {"and", "or"} ->
         LET unit == (e.k = "and")
             parts == FlattenSeq([i \in DOMAIN e.as |->
                        LET f == NF(e.as[i]) IN IF f.k = e.k THEN f.as ELSE <<f>>])
             real  == SelectSeq(parts, LAMBDA f : ~IsConst(f, unit))
         IN IF \E i \in DOMAIN real : IsConst(real[i], ~unit) THEN [k |-> "const", b |-> ~unit]
            ELSE IF real = <<>> THEN [k |-> "const", b |-> unit]
            ELSE IF Len(real) = 1 THEN real[1]
            ELSE [k |-> e.k, as |-> real]
    [] e.k \in {"G", "F"} -> [e EXCEPT !.a = NF(e.a)]
    [] e.k = "U" -> [e EXCEPT !.a = NF(e.a), !.b = NF(e.b)]

SameUpToFolding(e, f) == SameExpr(e, f) \/ SameExpr(NF(e), NF(f))

(***************************************************************************)
(* Propositional equivalence: predicates and temporal formulas are atoms   *)
(* (the same atom when they are equal up to folding).                      *)
(***************************************************************************)
RECURSIVE Atoms(_)
Atoms(e) ==      \* a sequence, with repetitions
  CASE e.k = "const" -> <<>>
    [] e.k = "not" -> Atoms(e.a)
    [] e.k \in {"and", "or"} -> FlattenSeq([i \in DOMAIN e.as |-> Atoms(e.as[i])])
    [] OTHER -> <<e>>

\* No repetitions (up to folding).
Distinct(as) ==
  FoldLeft(LAMBDA acc, a : IF \E i \in DOMAIN acc : SameUpToFolding(acc[i], a)
                           THEN acc ELSE Append(acc, a), <<>>, as)

\* e with its atoms replaced by their indices in atoms.
RECURSIVE Skeleton(_, _)
Skeleton(e, atoms) ==
  CASE e.k = "const" -> e
    [] e.k = "not" -> [k |-> "not", a |-> Skeleton(e.a, atoms)]
    [] e.k \in {"and", "or"} -> [k |-> e.k, as |-> TLCEval([i \in DOMAIN e.as |-> Skeleton(e.as[i], atoms)])]
    [] OTHER -> [k |-> "atom", i |-> CHOOSE i \in DOMAIN atoms : SameUpToFolding(atoms[i], e)]

RECURSIVE TruthIn(_, _)
TruthIn(e, v) ==   \* v: indices of the atoms that are true
  CASE e.k = "const" -> e.b
    [] e.k = "atom" -> e.i \in v
    [] e.k = "not" -> ~TruthIn(e.a, v)
    [] e.k = "and" -> \A i \in DOMAIN e.as : TruthIn(e.as[i], v)
    [] e.k = "or"  -> \E i \in DOMAIN e.as : TruthIn(e.as[i], v)

\* All valuations of n atoms, or, if they are many, some.
Valuations(n) ==
  IF n <= 9 THEN SUBSET (1..n)
  ELSE LET N == 1..n
           few == {{}} \cup {{i} : i \in N} \cup {{i, j} : i \in N, j \in N} \cup {1..i : i \in N}
           mixed == {{i \in N : (i * i * k + i * m + k) % 7 < c} : k \in 1..6, m \in 0..6, c \in {1, 3, 5}}
       IN few \cup {N \ v : v \in few} \cup mixed

PropEquivalent(e, f) ==
  LET atoms == TLCEval(Distinct(Atoms(e) \o Atoms(f)))
      x == TLCEval(Skeleton(e, atoms))
      y == TLCEval(Skeleton(f, atoms))
  IN \A v \in Valuations(Len(atoms)) : TruthIn(x, v) <=> TruthIn(y, v)

(***************************************************************************)
(* Syntax queries.                                                         *)
(***************************************************************************)
RECURSIVE Names(_)
Names(e) ==
  CASE e.k = "const" -> {}
    [] e.k = "pred" -> {e.n}
    [] e.k \in {"not", "G", "F"} -> Names(e.a)
    [] e.k \in {"and", "or"} -> UNION {Names(e.as[i]) : i \in DOMAIN e.as}
    [] e.k = "U" -> Names(e.a) \cup Names(e.b)

RECURSIVE HasConst(_)
HasConst(e) ==
  CASE e.k = "const" -> TRUE
    [] e.k = "pred" -> FALSE
    [] e.k \in {"not", "G", "F"} -> HasConst(e.a)
    [] e.k \in {"and", "or"} -> \E i \in DOMAIN e.as : HasConst(e.as[i])
    [] e.k = "U" -> HasConst(e.a) \/ HasConst(e.b)

RECURSIVE HasBoundedUntil(_)
HasBoundedUntil(e) ==
  CASE e.k \in {"const", "pred"} -> FALSE
    [] e.k \in {"not", "G", "F"} -> HasBoundedUntil(e.a)
    [] e.k \in {"and", "or"} -> \E i \in DOMAIN e.as : HasBoundedUntil(e.as[i])
    [] e.k = "U" -> ~Unbounded(e) \/ HasBoundedUntil(e.a) \/ HasBoundedUntil(e.b)

RECURSIVE ExprSize(_)
ExprSize(e) ==
  CASE e.k \in {"const", "pred"} -> 1
    [] e.k \in {"not", "G", "F"} -> 1 + ExprSize(e.a)
    [] e.k \in {"and", "or"} -> FoldLeft(LAMBDA n, f : n + ExprSize(f), 1, e.as)
    [] e.k = "U" -> 1 + ExprSize(e.a) + ExprSize(e.b)
=============================================================================
