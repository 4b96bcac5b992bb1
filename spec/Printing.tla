------------------------------- MODULE Printing -------------------------------
(***************************************************************************)
(* The printed form of formulas, samples and signals: a sequence of pieces,*)
(* each a literal text or a number.  A text has that form if it consists   *)
(* of the literals and, for each number, a decimal numeral that reads back *)
(* as the same double.                                                     *)
(***************************************************************************)
EXTENDS Chars, Formulas

Lit(s)   == <<[t |-> "lit", s |-> Codes(s)]>>
Word(n)  == <<[t |-> "lit", s |-> n]>>
Num(r)   == <<[t |-> "num", r |-> r]>>

Join(ps, sep) ==
  FoldLeft(LAMBDA acc, p : IF acc = <<>> THEN p ELSE acc \o sep \o p, <<>>, ps)

\* The bounds of an interval; close is how an infinite upper bound is closed.
IntervalPieces(e, close) ==
  IF Unbounded(e) THEN <<>>
  ELSE Lit("[") \o Num(e.lo) \o
       (IF REq(e.hi, RInf) THEN Lit(", inf") \o Lit(close)
        ELSE Lit(",") \o Num(e.hi) \o Lit("]"))

RECURSIVE Pieces(_)
Pieces(e) ==
  CASE e.k = "const" -> Lit(IF e.b THEN "true" ELSE "false")
    [] e.k = "pred" -> Lit("(") \o Word(e.n) \o Lit(" ") \o Lit(e.op) \o Lit(" ")
                       \o Num(e.c) \o Lit(")")
    [] e.k = "not" -> Lit("~") \o Pieces(e.a)
    [] e.k \in {"and", "or"} ->
         Lit("(") \o Join([i \in DOMAIN e.as |-> Pieces(e.as[i])],
                          Lit(IF e.k = "and" THEN " & " ELSE " | ")) \o Lit(")")
    [] e.k = "G" -> Lit("G") \o IntervalPieces(e, ")") \o Lit(" ") \o Pieces(e.a)
    [] e.k = "F" -> Lit("F") \o IntervalPieces(e, "]") \o Lit(" ") \o Pieces(e.a)
    [] e.k = "U" -> Pieces(e.a) \o Lit(" U") \o IntervalPieces(e, ")") \o Lit(" ")
                    \o Pieces(e.b)

SamplePieces(p) == Lit("(") \o Num(p[1]) \o Lit(", ") \o Num(p[2]) \o Lit(")")
SignalPieces(x) ==
  Lit("[") \o Join([i \in DOMAIN x |-> SamplePieces(x[i])], Lit(", ")) \o Lit("]")

NumeralChar(c) == c \in 48..57 \/ c \in {43, 45, 46, 101, 105, 110, 102, 97}

RECURSIVE NumEnd(_, _)
NumEnd(s, i) == IF i <= Len(s) /\ NumeralChar(s[i]) THEN NumEnd(s, i + 1) ELSE i - 1

\* s has the form of the pieces.
Matches(s, ps) ==
  LET step(i, p) ==      \* i: next position, 0: mismatch
        IF i = 0 THEN 0
        ELSE IF p.t = "lit"
        THEN IF i + Len(p.s) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p.s) - 1) = p.s
             THEN i + Len(p.s) ELSE 0
        ELSE LET e == NumEnd(s, i)
                 w == SubSeq(s, i, e)
             IN IF e >= i /\ RDecOk(w) /\ RSame(RDec(w), p.r) THEN e + 1 ELSE 0
  IN FoldLeft(step, 1, ps) = Len(s) + 1
=============================================================================
