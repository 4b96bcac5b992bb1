------------------------------- MODULE SpecLang -------------------------------
(***************************************************************************)
(* The specification language: which texts are specifications, and which   *)
(* formulas and assertions a specification defines.                        *)
(*                                                                         *)
(*   Spec    ::= Command*                                                  *)
(*   Command ::= "(" "define-formula" word Term ")"                        *)
(*            |  "(" "assert" word Term ")"                                *)
(*   Term    ::= "true" | "false" | word | "(" Expr ")"                    *)
(*   Expr    ::= ("<" | "<=" | ">" | ">=") (word number | number word)     *)
(*            |  "not" Term | "always" Term | "eventually" Term            *)
(*            |  "and" Term Term+ | "or" Term Term+                        *)
(*            |  "implies" Term Term | "iff" Term Term | "xor" Term Term   *)
(*            |  "until" Term Term                                         *)
(*            |  Term                                                      *)
(*                                                                         *)
(* with white space and comments (from ";" to the end of the line or text) *)
(* between tokens.  A word in a Term is the formula defined earlier under  *)
(* that name.  No two formulas and no two assertions have the same name.   *)
(*                                                                         *)
(* Denotation(text).verdict is "accept", "reject" or "open" (texts the     *)
(* language leaves open: a word written directly after a number, numbers   *)
(* outside the range of normal doubles).                                   *)
(***************************************************************************)
EXTENDS Chars, Formulas

(***************************************************************************)
(* Lexer.  Tokens are [t |-> kind, v |-> codes].                           *)
(***************************************************************************)
Tok(k, v) == [t |-> k, v |-> v]

Digits   == 48..57
WordSet  == Digits \cup 65..90 \cup {95} \cup 97..122
Spaces   == 9..13 \cup {32}
InLine   == (0..255) \ {10}
NoExp    == (0..255) \ {69, 101}

\* The largest j such that codes i..j of s are all in the set C (i-1 if none).
RECURSIVE Span(_, _, _)
Span(s, i, C) ==
  IF i + 31 <= Len(s) /\ \A k \in i..(i + 31) : s[k] \in C THEN Span(s, i + 32, C)
  ELSE LET RECURSIVE one(_)
           one(j) == IF j <= Len(s) /\ s[j] \in C THEN one(j + 1) ELSE j - 1
       IN one(i)

At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

WDefine == Codes("define-formula")

\* [ok, end]: the numeral that starts at i.
Numeral(s, i) ==
  LET int  == Span(s, i, Digits)
      frac == IF At(s, int + 1) = 46 /\ IsDigit(At(s, int + 2))
              THEN Span(s, int + 2, Digits) ELSE int
      \* "1." may be followed by an exponent
      dot  == IF frac = int /\ At(s, int + 1) = 46 /\ At(s, int + 2) \in {69, 101}
              THEN int + 1 ELSE frac
  IN IF At(s, dot + 1) \in {69, 101}
     THEN LET sgn == IF At(s, dot + 2) \in {43, 45} THEN dot + 2 ELSE dot + 1
              ex  == Span(s, sgn + 1, Digits)
          IN [ok |-> ex > sgn, end |-> ex]
     ELSE [ok |-> TRUE, end |-> frac]

\* The tokens of s: a walk over its characters, where i is the start of the next
\* token.  open: a number runs into a word, which the language leaves open.
Lex(s) ==
  LET skip(st, i) == [st EXCEPT !.i = i]
      take(st, i, t) == [st EXCEPT !.i = i, !.toks = Append(@, t)]
      bad(st) == [st EXCEPT !.ok = FALSE]
      next(st, i) ==
        LET c == s[i] IN
        CASE IsSpace(c) -> skip(st, Span(s, i, Spaces) + 1)
          [] c = 59 -> skip(st, Span(s, i, InLine) + 2)
          [] c = 40 -> take(st, i + 1, Tok("(", <<>>))
          [] c = 41 -> take(st, i + 1, Tok(")", <<>>))
          [] c \in {60, 62} ->
               LET k == IF c = 60 THEN "<" ELSE ">" IN
               IF At(s, i + 1) = 61 THEN take(st, i + 2, Tok(k \o "=", <<>>))
               ELSE IF At(s, i + 1) = c THEN bad(st)
               ELSE take(st, i + 1, Tok(k, <<>>))
          [] IsDigit(c) ->
               LET n == Numeral(s, i) IN
               IF ~n.ok THEN bad(st)
               ELSE [take(st, n.end + 1, Tok("num", SubSeq(s, i, n.end)))
                     EXCEPT !.open = @ \/ IsWordStart(At(s, n.end + 1))]
          [] IsWordStart(c) ->
               LET e == Span(s, i, WordSet)
                   d == i + Len(WDefine) - 1
               IN IF d <= Len(s) /\ SubSeq(s, i, d) = WDefine /\ ~IsWordChar(At(s, d + 1))
                  THEN take(st, d + 1, Tok("define", <<>>))
                  ELSE take(st, e + 1, Tok("word", SubSeq(s, i, e)))
          [] OTHER -> bad(st)
      step(st, i) == IF ~st.ok \/ i # st.i THEN st ELSE next(st, i)
  IN FoldLeft(step, [ok |-> TRUE, open |-> FALSE, i |-> 1, toks |-> <<>>], [i \in 1..Len(s) |-> i])

(***************************************************************************)
(* Numbers.                                                                *)
(***************************************************************************)
SmallestNormal == RPow2(-1022)
\* The numeral's double is finite and normal, or the numeral is zero.
Mantissa(s) == SubSeq(s, 1, Span(s, 1, NoExp))
InRange(s) ==
  LET v == RDec(s) IN
  IF REq(v, RZero) THEN \A i \in DOMAIN Mantissa(s) : Mantissa(s)[i] \notin 49..57
  ELSE RIsFin(v) /\ RLe(SmallestNormal, v)

(***************************************************************************)
(* Parser: recursive descent over the tokens.  A result is                 *)
(* [ok, open, i (next token), e (formula as written), x (formula built)].  *)
(*                                                                         *)
(* The formula as written keeps implies, iff and xor as nodes of their     *)
(* own; the built one is what the constructors of Formulas make of it.     *)
(***************************************************************************)
WTrue == Codes("true")     WFalse == Codes("false")
WNot == Codes("not")       WAnd == Codes("and")       WOr == Codes("or")
WImplies == Codes("implies")  WIff == Codes("iff")    WXor == Codes("xor")
WAlways == Codes("always") WEventually == Codes("eventually")
WUntil == Codes("until")   WAssert == Codes("assert")

Fail == [ok |-> FALSE, open |-> FALSE]
Done(e, i) == [ok |-> TRUE, open |-> FALSE, e |-> e, i |-> i]

Kind(ts, i) == IF i <= Len(ts) THEN ts[i].t ELSE "end"

Comparison == {"<", "<=", ">", ">="}
Flip(op) == CASE op = "<" -> ">" [] op = "<=" -> ">=" [] op = ">" -> "<" [] op = ">=" -> "<="

\* defs: sequence of [n |-> name, e |-> formula]
Defined(defs, n) == \E i \in DOMAIN defs : defs[i].n = n
Definition(defs, n) == defs[CHOOSE i \in DOMAIN defs : defs[i].n = n].e

RECURSIVE Term(_, _, _), Expr(_, _, _), Operands(_, _, _, _)

Term(ts, i, defs) ==
  CASE Kind(ts, i) = "word" ->
         LET w == ts[i].v IN
         IF w = WTrue THEN Done(True, i + 1)
         ELSE IF w = WFalse THEN Done(False, i + 1)
         ELSE IF Defined(defs, w) THEN Done(Definition(defs, w), i + 1) ELSE Fail
    [] Kind(ts, i) = "(" ->
         LET r == Expr(ts, i + 1, defs) IN
         IF ~r.ok THEN r
         ELSE IF Kind(ts, r.i) = ")" THEN [r EXCEPT !.i = r.i + 1] ELSE Fail
    [] OTHER -> Fail

\* The Terms up to the next ")": [ok, open, i, es]
Operands(ts, i, defs, acc) ==
  IF Kind(ts, i) = ")" THEN [ok |-> TRUE, open |-> FALSE, i |-> i, es |-> acc]
  ELSE LET r == Term(ts, i, defs) IN
       IF ~r.ok THEN r ELSE Operands(ts, r.i, defs, Append(acc, r.e))

Apply(w, es) ==
  CASE w = WNot -> [k |-> "not", a |-> es[1]]
    [] w = WAlways -> MkG(es[1], RZero, RInf)
    [] w = WEventually -> MkF(es[1], RZero, RInf)
    [] w = WUntil -> MkU(es[1], es[2], RZero, RInf)
    [] w = WAnd -> MkAnd(es)
    [] w = WOr -> MkOr(es)
    [] w = WImplies -> [k |-> "implies", a |-> es[1], b |-> es[2]]
    [] w = WIff -> [k |-> "iff", a |-> es[1], b |-> es[2]]
    [] w = WXor -> [k |-> "xor", a |-> es[1], b |-> es[2]]

Operators == {WNot, WAlways, WEventually, WUntil, WAnd, WOr, WImplies, WIff, WXor}
ArityOk(w, n) ==
  CASE w \in {WNot, WAlways, WEventually} -> n = 1
    [] w \in {WAnd, WOr} -> n >= 2
    [] OTHER -> n = 2

Expr(ts, i, defs) ==
  CASE Kind(ts, i) \in Comparison ->
         LET op == ts[i].t IN
         IF Kind(ts, i + 1) = "word" /\ Kind(ts, i + 2) = "num"
         THEN LET v == ts[i + 2].v
              IN [Done(MkPred(ts[i + 1].v, op, RDec(v)), i + 3) EXCEPT !.open = ~InRange(v)]
         ELSE IF Kind(ts, i + 1) = "num" /\ Kind(ts, i + 2) = "word"
         THEN LET v == ts[i + 1].v
              IN [Done(MkPred(ts[i + 2].v, Flip(op), RDec(v)), i + 3) EXCEPT !.open = ~InRange(v)]
         ELSE Fail
    [] Kind(ts, i) = "word" /\ ts[i].v \in Operators ->
         LET r == Operands(ts, i + 1, defs, <<>>) IN
         IF ~r.ok THEN r
         ELSE IF ArityOk(ts[i].v, Len(r.es)) THEN Done(Apply(ts[i].v, r.es), r.i) ELSE Fail
    [] OTHER -> Term(ts, i, defs)

RECURSIVE Commands(_, _, _, _)
Commands(ts, i, fs, as) ==
  IF i > Len(ts) THEN [ok |-> TRUE, f |-> fs, a |-> as]
  ELSE
    LET kind == IF Kind(ts, i) # "(" THEN "none"
                ELSE IF Kind(ts, i + 1) = "define" THEN "f"
                ELSE IF Kind(ts, i + 1) = "word" /\ ts[i + 1].v = WAssert THEN "a" ELSE "none"
    IN IF kind = "none" \/ Kind(ts, i + 2) # "word" THEN Fail
       ELSE LET n == ts[i + 2].v
                r == Term(ts, i + 3, fs)
            IN IF ~r.ok THEN Fail
               ELSE IF Kind(ts, r.i) # ")" THEN Fail
               ELSE IF Defined(IF kind = "f" THEN fs ELSE as, n) THEN Fail
               ELSE IF kind = "f" THEN Commands(ts, r.i + 1, Append(fs, [n |-> n, e |-> r.e]), as)
               ELSE Commands(ts, r.i + 1, fs, Append(as, [n |-> n, e |-> r.e]))

\* Some numeral of the text is outside the range of doubles.
OpenNumeral(ts) == \E i \in DOMAIN ts : ts[i].t = "num" /\ ~InRange(ts[i].v)

Denotation(text) ==
  LET l == Lex(text) IN
  IF ~l.ok THEN [verdict |-> "reject"]
  ELSE LET r == Commands(l.toks, 1, <<>>, <<>>) IN
       IF ~r.ok THEN [verdict |-> "reject"]
       ELSE IF l.open \/ OpenNumeral(l.toks) THEN [verdict |-> "open"]
       ELSE [verdict |-> "accept", f |-> r.f, a |-> r.a]

(***************************************************************************)
(* What a written formula builds, and when a built one is as written.      *)
(***************************************************************************)
RECURSIVE Built(_)
Built(e) ==
  CASE e.k \in {"const", "pred"} -> e
    [] e.k = "not" -> Negation(Built(e.a))
    [] e.k \in {"and", "or"} -> [e EXCEPT !.as = [i \in DOMAIN e.as |-> Built(e.as[i])]]
    [] e.k \in {"G", "F"} -> [e EXCEPT !.a = Built(e.a)]
    [] e.k = "U" -> [e EXCEPT !.a = Built(e.a), !.b = Built(e.b)]
    [] e.k = "implies" -> Implication(Built(e.a), Built(e.b))
    [] e.k = "iff" -> Equivalence(Built(e.a), Built(e.b))
    [] e.k = "xor" -> ExclusiveOr(Built(e.a), Built(e.b))

Derived == {"implies", "iff", "xor"}

\* The predicates and temporal formulas among the propositional parts of a written formula.
RECURSIVE Parts(_)
Parts(e) ==
  CASE e.k = "const" -> <<>>
    [] e.k = "not" -> Parts(e.a)
    [] e.k \in {"and", "or"} -> FlattenSeq([i \in DOMAIN e.as |-> Parts(e.as[i])])
    [] e.k \in Derived -> Parts(e.a) \o Parts(e.b)
    [] OTHER -> <<e>>

\* The number of the part that q renders (0: of none).
RECURSIVE Faithful(_, _)
NumberOf(q, parts) ==
  FoldLeft(LAMBDA n, i : IF n = 0 /\ Faithful(parts[i], q) THEN i ELSE n, 0, [i \in DOMAIN parts |-> i])

\* e with its parts (written ones, or renderings) replaced by their numbers.
RECURSIVE Numbered(_, _, _)
Numbered(e, parts, written) ==
  CASE e.k = "const" -> e
    [] e.k = "not" -> [k |-> "not", a |-> Numbered(e.a, parts, written)]
    [] e.k \in {"and", "or"} ->
         [k |-> e.k, as |-> TLCEval([i \in DOMAIN e.as |-> Numbered(e.as[i], parts, written)])]
    [] e.k \in Derived ->
         [k |-> e.k, a |-> Numbered(e.a, parts, written), b |-> Numbered(e.b, parts, written)]
    [] OTHER -> [k |-> "part", i |-> NumberOf(IF written THEN Built(e) ELSE e, parts)]

RECURSIVE AllKnown(_)
AllKnown(e) ==
  CASE e.k = "const" -> TRUE
    [] e.k = "part" -> e.i # 0
    [] e.k = "not" -> AllKnown(e.a)
    [] OTHER -> \A i \in DOMAIN e.as : AllKnown(e.as[i])

\* Is e true where exactly the parts v are?
RECURSIVE TrueIn(_, _)
TrueIn(e, v) ==
  CASE e.k = "const" -> e.b
    [] e.k = "part" -> e.i \in v
    [] e.k = "not" -> ~TrueIn(e.a, v)
    [] e.k = "and" -> \A i \in DOMAIN e.as : TrueIn(e.as[i], v)
    [] e.k = "or" -> \E i \in DOMAIN e.as : TrueIn(e.as[i], v)
    [] e.k = "implies" -> TrueIn(e.a, v) => TrueIn(e.b, v)
    [] e.k = "iff" -> TrueIn(e.a, v) <=> TrueIn(e.b, v)
    [] e.k = "xor" -> ~(TrueIn(e.a, v) <=> TrueIn(e.b, v))

\* x is a faithful rendering of the written e: the same structure, where implies, iff and
\* xor may be any formula over faithful renderings of the parts that has their truth table.
ByTable(e, x) ==
  LET parts == TLCEval(FoldLeft(LAMBDA acc, p : IF NumberOf(Built(p), acc) # 0 THEN acc ELSE Append(acc, p),
                                <<>>, Parts(e)))
      ours == TLCEval(Numbered(e, parts, TRUE))
      theirs == TLCEval(Numbered(x, parts, FALSE))
  IN AllKnown(theirs) /\ \A v \in Valuations(Len(parts)) : TrueIn(ours, v) <=> TrueIn(theirs, v)

Faithful(e, x) ==
  \/ SameExpr(Built(e), x)
  \/ /\ e.k = x.k
     /\ CASE e.k = "not" -> Faithful(e.a, x.a)
          [] e.k \in {"and", "or"} ->
               Len(e.as) = Len(x.as) /\ \A i \in DOMAIN e.as : Faithful(e.as[i], x.as[i])
          [] e.k \in {"G", "F"} -> Unbounded(x) /\ Faithful(e.a, x.a)
          [] e.k = "U" -> Unbounded(x) /\ Faithful(e.a, x.a) /\ Faithful(e.b, x.b)
          [] OTHER -> FALSE
  \/ e.k \in Derived /\ ByTable(e, x)
  \/ e.k = "not" /\ x.k = "const" /\ ByTable(e, x)

FaithfulMap(want, got) ==   \* names are unique on both sides
  /\ Len(want) = Len(got)
  /\ \A i \in DOMAIN want :
       \E j \in DOMAIN got : got[j].n = want[i].n /\ Faithful(want[i].e, got[j].e)
=============================================================================
