-------------------------------- MODULE Explore --------------------------------
(***************************************************************************)
(* Small-scope exploration of Session.                                     *)
(*                                                                         *)
(* A behaviour is a choice of base objects (the moves, one step each)      *)
(* followed by a program of calls on them.  TLC enumerates all choices of  *)
(* a scope.  For each one it                                               *)
(*   - runs the program on the specification, checking that the result     *)
(*     the specification computes for each call is admissible (so every    *)
(*     clause of Session, the sign theorem and the laws included, is       *)
(*     checked as a theorem about Result), that the heap stays well formed *)
(*     and that a call changes only the objects it makes (NoFaults, Frame, *)
(*     HeapWellFormed);                                                    *)
(*   - prints the calls, to be replayed on the real code.                  *)
(*                                                                         *)
(* The environment variable SCOPE names the scope; WIDE widens some.       *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Scope == IOEnv.SCOPE
Wide  == IOEnv.WIDE = "1"

VARIABLES log       \* the moves so far
vars == <<log>>

(***************************************************************************)
(* Calls.                                                                  *)
(***************************************************************************)
N(s) == Codes(s)
CPoints(h, x)      == [op |-> "points", h |-> h, vs |-> [i \in DOMAIN x |-> x[i][2]],
                       ts |-> [i \in DOMAIN x |-> x[i][1]]]
CVectors(h, vs, ts) == [op |-> "points", h |-> h, vs |-> vs, ts |-> ts]
CSamples(op, h, x) == [op |-> op, h |-> h, ss |-> [i \in DOMAIN x |-> <<x[i][1], x[i][2], RZero>>]]
CNew(h)            == [op |-> "new", h |-> h]
CPush(x, t, v)     == [op |-> "push", x |-> x, t |-> t, v |-> v]
CObs(x)            == [op |-> "obs", x |-> x]
CAt(x, t)          == [op |-> "at", x |-> x, t |-> t]
CIdx(x, i)         == [op |-> "idx", x |-> x, i |-> i]
CRange(x, s, t)    == [op |-> "range", x |-> x, s |-> s, t |-> t]
CInterp(x, t, i)   == [op |-> "interp", x |-> x, t |-> t, i |-> i]
CArea(x, t, i)     == [op |-> "area", x |-> x, t |-> t, i |-> i]
CLines(op, x, i, y, j) == [op |-> op, x |-> x, i |-> i, y |-> y, j |-> j]   \* isect, order
CMake(op, h, x)    == [op |-> op, h |-> h, x |-> x]       \* copy, simplify, not, G, ...
CBin(op, h, x, y)  == [op |-> op, h |-> h, x |-> x, y |-> y]
CResize(h, x, s, e, f) == [op |-> "resize", h |-> h, x |-> x, s |-> s, e |-> e, fill |-> f]
CShift(h, x, d)    == [op |-> "shift", h |-> h, x |-> x, d |-> d]
CRShift(h, x, s, e, f, d) ==
  [op |-> "rshift", h |-> h, x |-> x, s |-> s, e |-> e, fill |-> f, d |-> d]
CSync(h, g, x, y)  == [op |-> "sync", h |-> h, h2 |-> g, x |-> x, y |-> y]
CConst(h, b)       == [op |-> "const", h |-> h, b |-> b]
CPred(h, n, c, r)  == [op |-> "pred", h |-> h, n |-> N(n), cmp |-> c, c |-> r]
CNary(op, h, xs)   == [op |-> op, h |-> h, xs |-> xs]
CIval(op, h, x, l, u) == [op |-> op, h |-> h, x |-> x, lo |-> l, hi |-> u]
CUntil(op, h, x, y, l, u) == [op |-> op, h |-> h, x |-> x, y |-> y, lo |-> l, hi |-> u]
CBounds(op, l, u)  == [op |-> op, lo |-> l, hi |-> u]
CRob(h, x, by, xy) == [op |-> "rob", h |-> h, x |-> x, fl |-> 2, by |-> by,
                       tr |-> [i \in DOMAIN xy |-> [n |-> N(xy[i][1]), x |-> xy[i][2]]]]
CMon(h, w, t, n, xy) == [op |-> "mon", h |-> h, w |-> w, t |-> t, n |-> N(n), fl |-> 2, by |-> "value",
                         tr |-> [i \in DOMAIN xy |-> [n |-> N(xy[i][1]), x |-> xy[i][2]]]]
CLaw(kind, x, y, d) == [op |-> "law", kind |-> kind, x |-> x, y |-> y, d |-> d]
CEq(x, y)          == [op |-> "eq", x |-> x, y |-> y]
CParse(t, only)    == [op |-> "parse", h |-> -1, t |-> t, only |-> only]
CRead(op, x)       == [op |-> op, x |-> x]                 \* dump, print

(***************************************************************************)
(* Small signals.                                                          *)
(***************************************************************************)
Ints(S) == {RInt(i) : i \in S}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE t \in S : \A u \in S : RLe(t, u)
                  IN <<m>> \o Sorted(S \ {m})
SignalsAt(ts, V) == {[i \in DOMAIN ts |-> <<ts[i], f[i]>>] : f \in [DOMAIN ts -> V]}
\* All signals with sampling instants in T (at least lo of them) and values in V.
SignalsOver(T, V, lo) ==
  UNION {SignalsAt(Sorted(S), V) : S \in {S \in SUBSET T : Cardinality(S) >= lo}}

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
H(n) == R(n, 2)
Flat(ss) == FlattenSeq(ss)
AsSeq(S) == SetToSeq(S)
Map(s, f(_)) == TLCEval([i \in DOMAIN s |-> f(s[i])])
FlatMap(s, f(_)) == FlattenSeq(TLCEval([i \in DOMAIN s |-> f(s[i])]))

XY == <<<<"x", 1>>, <<"y", 2>>>>
X1 == <<<<"x", 1>>>>

Xs(s) == s   \* readability
Got(h) == \E i \in DOMAIN log : "h" \in DOMAIN log[i] /\ log[i].h = h

\* Terms of the specification language.
Terms ==
  Map(<<"true", "false", "p", "q", "(< x 1)", "(>= 2.50 y)", "(((q)))", "(not p)", "(and p q)",
        "(until q (> x 0))", "(implies p (<= 1e3 x))", "(always p)", "(xor q p)", "(iff true q)",
        "(eventually (or q p true))", "(> x.y_1 00.5)">>, Codes)

\* Specifications, as words, that use every construct.
Phrases ==
  Map(<<<<"(", "assert", "a", "(", "not", "(", "<", "x", "1", ")", ")", ")">>,
        <<"(", "define-formula", "f", "(", "and", "true", "(", ">=", "2.5", "y", ")", ")", ")",
          "(", "assert", "b", "f", ")">>,
        <<"(", "assert", "a", "(", "until", "(", "<=", "x", "1e3", ")", "(", ">", "0.5", "x", ")", ")", ")">>,
        <<"(", "assert", "a", "(", "implies", "true", "(", "always", "false", ")", ")", ")">>,
        <<"(", "assert", "a", "(", "iff", "true", "(", "eventually", "(", "xor", "true", "false", ")", ")", ")", ")">>,
        <<"(", "define-formula", "g", "(", "or", "true", "false", "true", ")", ")", "(", "assert", "g", "(", "g", ")", ")">>>>,
      LAMBDA p : Map(p, Codes))
Places == FlatMap([b \in DOMAIN Phrases |-> b], LAMBDA b : [i \in DOMAIN Phrases[b] |-> <<b, i>>])

\* Words of the language, words that resemble them, and words of other languages.
Words ==
  Map(<<"(", ")", "true", "false", "not", "and", "or", "implies", "iff", "xor", "always", "eventually", "until",
        "x", "f", "<", "<=", ">", ">=", "1", "0.5", "1e3", "assert", "define-formula", ";", "()", "( )",
        "NOT", "And", "OR", "Implies", "Until", "TRUE", "False", "ASSERT", "Define-Formula", "define_formula",
        "define", "defineformula", "define-formul", "define-formulas", "asser", "asserts", "nott", "no", "nor", "nand",
        "an", "andd", "implie", "imply", "xnor", "equiv", "alway", "eventual", "unti", "release", "next", "once",
        "historically", "since", "globally", "finally", "weak-until", "G", "F", "U", "X", "let", "if", "ite",
        "tru", "True", "t", "nil", "inf", "nan", "infinity", "1.", ".5", "-1", "+1", "- 1", "1e", "1e+", "1E-", "0x1F", "0b1",
        "1,5", "1_0", "1.2.3", "1..2", "1e5.0", "1/2", "--1", "1f", "2y", "x.y", "x-y", "x'", "x[0]", "x[", "$x",
        "@x", "#x", ":x", "x:", "|x|", "x+1", "=", "==", "=<", "=>", "!=", "<>", "<<", ">>", "<==", "<=>", "->", "<->", "!",
        "~", "&", "&&", "|", "||", "^", "[0,1]", "[0, 1]", "[1,2)", "[0 1]", "[0,inf]", "(0,1)", "(0 1)",
        "{0,1}", "_[0,1]", "0 1", "[", "]", "{", "}", "[]", ",", ".", ":", "\"", "\"x\"", "'", "`", "\\", "/", "//", "/* */", "--",
        "# c", "%", "*", "-", "+", "?">>, Codes)
  \o <<<<0>>, <<8>>, <<26>>, <<27>>, <<31>>, <<127>>, <<133>>, <<160>>, <<194, 160>>, <<173>>, <<233>>, <<239, 187, 191>>,
       <<255>>, <<226, 128, 139>>, <<35, 10>>, <<194, 172>>>>

\* A text in which every single character is replaced, removed and preceded by others.
Specimen == Codes("(define-formula p_1(<= x 1.5e3))(assert A ; c") \o <<10>> \o Codes("(and p_1 true))")
Letters == IF Wide THEN 0..255
           ELSE {0, 8, 9, 10, 11, 12, 13, 14, 27, 28, 31, 32, 127, 128, 133, 160, 224, 255} \cup 33..47 \cup 58..64 \cup 91..96
                \cup 123..126 \cup {48, 57, 65, 69, 90, 97, 101, 120, 122}

(***************************************************************************)
(* The moves of a scope: sequence of sets of calls, one is chosen of each. *)
(***************************************************************************)
Times3 == Ints({0, 1, 2})
PushMoves == {CPush(1, t, v) : t \in Times3 \cup {RNaN}, v \in Ints({0, 3})}

HeapMoves ==
  {CPush(1, RInt(9), RInt(1)), CPush(2, RInt(9), RInt(2)), CPush(3, RInt(9), RInt(5)),
   CPush(4, RInt(9), RInt(6)), CPush(1, RInt(0), RInt(7))}
  \cup {CMake("copy", 3, 1), CMake("simplify", 3, 1), CMake("simplify", 3, 2),
        CMake("assign", 1, 2), CMake("assign", 2, 3), CMake("assign", 3, 3),
        CResize(3, 1, RInt(0), RInt(2), RZero), CResize(3, 1, RInt(-1), RInt(5), RZero),
        CShift(3, 1, RZero), CShift(3, 1, RInt(1)), CRShift(3, 1, RInt(0), RInt(2), RZero, RZero),
        CSync(3, 4, 1, 2), CSync(3, 4, 2, 2), CSync(4, 3, 1, 3)}
  \cup {CRob(3, 11, "value", XY), CRob(3, 15, "value", XY), CRob(4, 13, "value", XY)}
  \cup {CBin("and2", 15, 13, 12), CBin("and2", 15, 13, 13), CBin("or2", 15, 14, 11),
        CBin("or2", 15, 14, 14), CBin("and2", 13, 13, 11), CMake("inv", 15, 13),
        CBin("iff", 15, 13, 14), CMake("alias", 15, 13)}

Ops2 == {"and2", "or2", "implies", "xor", "iff"}
Start11 == <<CPred(20, "p", ">", RInt(1)), CPred(21, "p", ">", RInt(2)), CPred(22, "p", ">=", RInt(1)),
             CPred(23, "q", ">", RInt(1)), CConst(24, TRUE),
             CConst(1, TRUE), CConst(2, FALSE), CPred(3, "p", ">", RInt(1)),
             CPred(4, "q", "<=", RZero), CBin("and2", 5, 3, 4), CBin("or2", 6, 3, 4),
             CNary("and", 7, <<4, 3, 1>>), CMake("not", 8, 3)>>

Bases ==
  CASE Scope = "C01" ->
         <<{CNew(1)} \cup {CVectors(1, vs, ts) : vs \in Seqs(Ints({0, 3}), 2), ts \in Seqs(Times3, 3)}
           \cup {CSamples(op, 1, s) : op \in {"samples", "list"},
                 s \in Seqs({<<t, RInt(1)>> : t \in Times3}, 3)}>>
         \o [i \in 1..(IF Wide THEN 4 ELSE 3) |-> PushMoves]
    [] Scope = "C02" ->
         <<{CPoints(1, x) : x \in SignalsOver(Ints({0, 1, 2, 4}), Ints({0, 1, 3}), 0)}>>
    [] Scope = "C03" ->
         <<{CPoints(1, x) : x \in SignalsOver(Ints({0, 1, 2}), Ints({0, 1, 3}), 0)}>>
    [] Scope = "C04" ->
         <<{CPoints(1, x) : x \in SignalsOver(Ints({0, 1, 2, 3, 4}), Ints({0, 1, 2}), 0)
                                  \cup SignalsOver(Ints({0, 1, 3, 4, 6}), Ints({0, 1, 3}), 3)}>>
    [] Scope = "C05" ->
         <<{CPoints(1, x) : x \in SignalsOver(Ints({0, 1, 2}), Ints({0, 4}), 0)}>>
    [] Scope = "C06" ->
         <<{CPoints(1, x) : x \in SignalsOver(Ints({0, 1, 3}), Ints({-1, 0, 2}), 1)},
           {CPoints(2, y) : y \in SignalsOver(Ints({0, 2, 3}), Ints({-1, 1}), IF Wide THEN 1 ELSE 2)}>>
    [] Scope \in {"C07", "C15"} ->
         <<{CPoints(1, x) : x \in SignalsOver(Ints({0, 1, 2}), Ints({-1, 0, 2}), 2)},
           {CPoints(2, y) : y \in SignalsOver(Ints({0, 1, 2} \cup (IF Scope = "C07" THEN {3} ELSE {})),
                                              Ints({-1, 1}), IF Wide THEN 2 ELSE 3)}>>
    [] Scope = "C08" ->
         <<{CPoints(1, x) : x \in SignalsOver(Ints({0, 1, 3, 4}), Ints({-1, 0, 2}), 1)}>>
    [] Scope = "C09" ->
         <<{CPoints(1, x) : x \in {<<<<RInt(0), RInt(1)>>, <<RInt(1), RInt(-1)>>, <<RInt(3), RInt(2)>>>>,
                                   <<<<RInt(1), RInt(-1)>>>>}},
           {CPoints(2, y) : y \in {<<<<RInt(0), RInt(0)>>, <<RInt(2), RInt(2)>>, <<RInt(4), RInt(-1)>>>>,
                                   <<<<RInt(3), RInt(0)>>, <<RInt(5), RInt(3)>>>>,
                                   <<<<RInt(7), RInt(0)>>, <<RInt(8), RInt(3)>>>>,
                                   <<<<RInt(1), RInt(2)>>>>}},
           {CRead("left", i) : i \in 11..40}>>
    [] Scope = "C10" ->
         <<{CNew(9)}>> \o [i \in 1..(IF Wide THEN 4 ELSE 3) |-> HeapMoves]
    [] Scope = "C11" ->
         <<{CBin(op, 9, x, y) : op \in Ops2, x \in 1..8, y \in 1..8}
           \cup {CMake(op, 9, x) : op \in {"inv", "not", "G", "F"}, x \in 1..8}>>
    [] Scope = "C12" -> <<{CRead("terms", i) : i \in DOMAIN Terms}
                          \cup {CRead("prefix", i) : i \in IF Wide THEN 1..36 ELSE {13}}
                          \cup {CRead("letters", i) : i \in DOMAIN Specimen}
                          \cup {CRead("edit", i) : i \in IF Wide THEN DOMAIN Places ELSE {}}
                          \cup {CRead("names", i) : i \in 1..3}>>
    [] Scope = "C13" -> <<{CRead("prefix", i) : i \in 1..36}
                          \cup {CRead("edit", i) : i \in DOMAIN Places} \cup {CRead("names", i) : i \in 1..3}
                          \cup {CRead("letters", i) : i \in DOMAIN Specimen}>>
    [] Scope = "C14" -> <<{CRead("left", i) : i \in 11..40}>>
    [] Scope = "C16" ->
         <<{CPoints(1, x) : x \in SignalsOver(Ints({0, 1, 3}), Ints({-1, 0, 2}), 3)},
           {CPoints(2, y) : y \in SignalsOver(Ints({0, 2, 3}), Ints({-1, 1}), 2)}>>
    [] Scope = "C17" ->
         <<{CPoints(1, x) : x \in SignalsOver(Ints({0, 1, 2, 4}), Ints({0, 1, 3}), 0)}>>
    [] Scope = "C18" ->
         <<{CPoints(1, x) : x \in SignalsOver(Ints({0, 1, 2, 4}), Ints({-1, 0, 2}), IF Wide THEN 3 ELSE 4)},
           {CPoints(2, y) : y \in SignalsOver(Ints({0, 2, 4}), Ints({-1, 1}), IF Wide THEN 2 ELSE 3)}>>
    [] Scope = "C19" ->
         <<{CPoints(1, x) : x \in SignalsOver(Ints({0, 1, 2, 4}), Ints({-1, 0, 2}), IF Wide THEN 2 ELSE 3)},
           {CPoints(2, y) : y \in SignalsOver(Ints({0, 2, 4}), Ints({-1, 1}), IF Wide THEN 2 ELSE 3)}>>
    [] Scope = "C20" ->
         <<{CRead("terms", i) : i \in DOMAIN Terms},
           {CPoints(1, x) : x \in SignalsOver(Ints({0, 1, 3}), Ints({0, 3}), IF Wide THEN 2 ELSE 3)},
           {CPoints(2, y) : y \in {<<<<RInt(0), RInt(4)>>, <<RInt(2), RInt(1)>>, <<RInt(3), RInt(3)>>>>}
                                  \cup (IF Wide THEN SignalsOver(Ints({0, 1, 3}), Ints({1, 4}), 3) ELSE {})}>>

(***************************************************************************)
(* The program of a scope, on the chosen objects.                          *)
(***************************************************************************)
Half(lo, hi) == [i \in 1..(hi - lo + 1) |-> H(lo + i - 1)]    \* lo/2 .. hi/2
Pairs(n) == FlatMap([i \in 1..n |-> i], LAMBDA i : [j \in 1..n |-> <<i, j>>])
PairsUp(n) == SelectSeq(Pairs(n), LAMBDA p : p[1] < p[2])

Program01 == <<CObs(1), CMake("copy", 2, 1), CPush(2, RInt(2), RInt(1)), CObs(2), CObs(1),
               CMake("assign", 1, 2), CPush(2, RInt(3), RInt(4)), CObs(1),
               CPush(1, RInt(3), RInt(2)), CObs(2), CObs(1)>>

Program02 ==
  LET q == Half(-1, 9)
      r == <<H(-1), RInt(0), H(1), RInt(1), RInt(2), RInt(3), RInt(4), RInt(5)>>
  IN Map(q, LAMBDA t : CAt(1, t))
     \o [i \in 1..6 |-> CIdx(1, i - 1)]
     \o Map(Pairs(Len(r)), LAMBDA p : CRange(1, r[p[1]], r[p[2]]))
     \o Map(<<0, 1, 2, 3, 4>>, LAMBDA i : CInterp(1, H(3), i))
     \o <<CObs(1)>>

Program03 ==
  LET q == Half(-2, 6)
  IN FlatMap(PairsUp(Len(q)), LAMBDA p :
       <<CResize(2, 1, q[p[1]], q[p[2]], RInt(5)), CRShift(2, 1, q[p[1]], q[p[2]], RInt(5), H(1))>>)
     \o <<CShift(2, 1, RZero), CShift(2, 1, H(-3)), CShift(3, 2, RInt(2))>>

Program04 == <<CMake("simplify", 2, 1), CMake("simplify", 3, 2), CObs(1)>>

Program05 ==
  FlatMap(AsSeq(SignalsOver(IF Wide THEN {RInt(-1), RZero, H(1), RInt(1), RInt(2), RInt(3)}
                            ELSE {RZero, H(1), RInt(1), RInt(2), RInt(3)}, Ints({0, 1}), 0)),
          LAMBDA y : <<CPoints(2, y), CSync(3, 4, 1, 2), CSync(3, 4, 2, 1)>>)
  \o <<CSync(3, 4, 1, 1)>>

Atoms2 == <<CPred(11, "x", ">", RZero), CPred(12, "y", "<=", RZero)>>

Program06 ==
  Atoms2 \o
  <<CPred(13, "x", "<", H(1)), CConst(14, TRUE), CMake("not", 15, 12),
    CNary("and", 20, <<11, 12>>), CNary("or", 21, <<11, 12>>), CNary("and", 22, <<15, 13>>),
    CNary("or", 23, <<12, 11, 13>>), CNary("and", 24, <<14, 11, 15>>), CNary("or", 25, <<20, 13>>),
    CBin("xor", 26, 11, 12), CNary("and", 27, <<11, 11>>),
    CPred(16, "y", ">=", H(1)), CNary("or", 28, <<11, 15, 16, 12, 13>>),
    CNary("and", 29, <<12, 13, 15, 11, 16, 13, 11>>)>>
  \o Map(<<11, 12, 13, 14, 15, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29>>, LAMBDA e : CRob(-1, e, "value", XY))

Program07 ==
  Atoms2 \o
  <<CMake("not", 13, 11), CMake("G", 20, 11), CMake("F", 21, 11), CBin("U", 22, 11, 12),
    CBin("U", 23, 12, 11), CBin("U", 24, 13, 12), CMake("F", 25, 20), CMake("G", 26, 21),
    CNary("and", 30, <<11, 12>>), CMake("F", 31, 30), CNary("or", 32, <<11, 12>>), CMake("G", 33, 32),
    CBin("U", 34, 11, 21), CBin("U", 35, 33, 12), CBin("U", 36, 11, 11), CMake("not", 37, 22)>>
  \o Map(<<20, 21, 22, 23, 24, 25, 26, 31, 33, 34, 35, 36, 37>>, LAMBDA e : CRob(-1, e, "value", XY))

Windows8 == <<<<RZero, H(1)>>, <<RZero, RInt(1)>>, <<RZero, RInt(2)>>, <<H(1), RInt(1)>>,
              <<RInt(1), RInt(2)>>, <<RInt(1), RInf>>, <<RZero, RInf>>, <<RInt(2), RInt(5)>>,
              <<RInt(3), RInt(4)>>, <<RInt(5), RInt(6)>>, <<H(1), H(7)>>, <<RInt(4), RInf>>>>
Program08 ==
  <<CPred(11, "x", ">=", RZero), CPred(12, "x", "<", RInt(1))>>
  \o FlatMap(Windows8, LAMBDA w :
       <<CIval("Gd", 20, 11, w[1], w[2]), CRob(-1, 20, "value", X1),
         CIval("Fd", 21, 12, w[1], w[2]), CRob(-1, 21, "value", X1)>>)
  \o <<CIval("Gu", 22, 11, RInt(1), RInt(3)), CRob(-1, 22, "value", X1),
       CIval("Fd", 23, 22, RZero, RInt(1)), CRob(-1, 23, "value", X1),
       CUntil("Ud", 24, 11, 12, RZero, RInt(1)), CRob(-1, 24, "value", X1),
       CMake("not", 25, 24), CNary("or", 26, <<11, 25>>), CRob(-1, 26, "value", X1)>>

\* 30 formulas with at most one operator.
Formulas1 ==
  <<CPred(11, "x", ">", RZero), CPred(12, "y", "<=", RInt(1)), CConst(13, TRUE),
    CMake("not", 14, 11), CMake("G", 15, 11), CMake("F", 16, 11),
    CIval("Gd", 17, 11, RInt(1), RInt(2)), CIval("Fd", 18, 12, RZero, H(3)),
    CMake("not", 19, 12), CMake("G", 20, 12), CMake("F", 21, 12), CMake("not", 22, 13),
    CMake("G", 23, 13), CIval("Fd", 24, 13, RInt(1), RInf), CNary("and", 25, <<11, 12>>),
    CNary("and", 26, <<11, 13>>), CNary("and", 27, <<12, 12>>), CNary("or", 28, <<11, 12>>),
    CNary("or", 29, <<22, 12>>), CNary("or", 30, <<11, 11>>), CBin("U", 31, 11, 12),
    CBin("U", 32, 12, 11), CBin("U", 33, 13, 11), CBin("U", 34, 11, 13), CBin("U", 35, 12, 22),
    CNary("and", 36, <<14, 12, 11>>), CNary("or", 37, <<12, 19, 11>>),
    CBin("xor", 38, 11, 12), CIval("Gu", 39, 12, RZero, RInt(3)), CUntil("Uu", 40, 11, 12, RZero, RInt(3))>>

\* Every operator over the chosen formula and every other one.
Level2(left, last(_)) ==
  LET un == <<CMake("not", 50, left), CMake("G", 50, left), CMake("F", 50, left),
              CIval("Gd", 50, left, H(1), RInt(2)), CIval("Fd", 50, left, RZero, RInt(1))>>
      bin(r) == <<CNary("and", 50, <<left, r>>), CNary("or", 50, <<left, r>>), CBin("U", 50, left, r)>>
  IN FlatMap(un, LAMBDA c : <<c>> \o last(50))
     \o FlatMap([i \in 1..30 |-> 10 + i], LAMBDA r : FlatMap(bin(r), LAMBDA c : <<c>> \o last(50)))

Program09 ==
  LET left == log[3].x
  IN Formulas1 \o <<CRob(-1, left, "form", XY)>>
     \o Level2(left, LAMBDA h : <<CRob(-1, h, "form", XY)>>)

Program14 ==
  LET left == log[1].x
  IN Formulas1 \o <<CRead("print", left)>> \o Level2(left, LAMBDA h : <<CRead("print", h)>>)

Heap0 ==
  <<CPoints(1, <<<<RInt(0), RInt(1)>>, <<RInt(1), RInt(1)>>, <<RInt(2), RInt(-1)>>>>),
    CPoints(2, <<<<RInt(0), RInt(0)>>, <<RInt(1), RInt(2)>>, <<RInt(2), RInt(1)>>>>),
    CPred(11, "x", ">", RZero), CPred(12, "y", "<=", RZero),
    CBin("and2", 13, 11, 12), CBin("or2", 14, 11, 12), CMake("alias", 16, 13), CMake("alias", 17, 14),
    CMake("G", 18, 13)>>
Program10 ==
  Map(<<1, 2, 3, 4>>, CObs) \o Map(<<11, 12, 13, 14, 15, 16, 17, 18>>, LAMBDA h : CRead("dump", h))

Program11 ==
  LET hs == [i \in 1..9 |-> i]
      atoms == <<1, 2, 3, 4, 20, 21, 22, 23, 24>>
  IN Flat(<<FlatMap(atoms, LAMBDA h : Map(atoms, LAMBDA g : CEq(h, g))),
            FlatMap(AsSeq(Ops2), LAMBDA op :
              FlatMap(hs, LAMBDA h : <<CBin(op, 10, 9, h), CBin(op, 10, h, 9)>>)),
            <<CMake("inv", 10, 9), CMake("not", 10, 9), CNary("and", 10, <<9, 3>>),
              CNary("or", 10, <<4, 9, 9>>), CNary("and", 10, <<9>>), CNary("or", 10, <<>>)>>,
            Map(hs, LAMBDA h : CRead("dump", h)),
            FlatMap(hs, LAMBDA h : <<CEq(9, h), CEq(h, 9), CEq(10, h)>>)>>)
     \o (IF log[1].op # "and2" \/ log[1].x # 3 THEN <<>>
         ELSE LET q == <<RInt(-1), RZero, H(1), RInt(1), RInt(2), RInf, RNegInf, RNaN, RNeg(RPow2(-60))>>
                  u == <<RZero, RInt(1), RInt(2), RInt(7)>>
              IN FlatMap(Pairs(Len(q)), LAMBDA p :
                   <<CBounds("ivald", q[p[1]], q[p[2]]), CIval("Gd", 10, 9, q[p[1]], q[p[2]]),
                     CIval("Fd", 10, 9, q[p[1]], q[p[2]]), CUntil("Ud", 10, 9, 3, q[p[1]], q[p[2]])>>)
                 \o FlatMap(Pairs(Len(u)), LAMBDA p :
                   <<CBounds("ivalu", u[p[1]], u[p[2]]), CIval("Gu", 10, 9, u[p[1]], u[p[2]]),
                     CIval("Fu", 10, 9, u[p[1]], u[p[2]]), CUntil("Uu", 10, 9, 3, u[p[1]], u[p[2]])>>))

(***************************************************************************)
(* Texts: short sequences of words, in a context.                          *)
(***************************************************************************)
Vocabulary == Map(<<"(", ")", "true", "not", "and", "until", "x", "p", "<", "1", "assert", "implies">>, Codes)
Contexts == <<<<Codes("(define-formula p (> x 0))(assert a "), Codes(")")>>,
              <<Codes("(define-formula p true)(define-formula q (or p "), Codes("))")>>,
              <<Codes("(assert p true) "), <<>>>>>>
Wrap(c, ws) == c[1] \o Join(ws, <<32>>) \o c[2]

\* All texts of up to n words that start with the chosen one, in the chosen context,
\* and that the language does (not) contain.
TextsOfWords(only) ==
  LET i == log[1].x - 1
      c == Contexts[1 + (i \div 12)]
      w == Vocabulary[1 + (i % 12)]
      n == IF Wide THEN 3 ELSE 2
      tails == Seqs(1..12, n)
      deep == \* longer ones, bracketed
        {<<5, a, b, 2>> : a \in 1..12, b \in 1..12} \cup {<<a, b, 2>> : a \in 1..12, b \in 1..12}
        \cup {<<4, 1, 9, 7, 10, 2>> \o t : t \in Seqs(1..12, 1)}
        \cup {<<9, 10, 7>> \o t : t \in Seqs({1, 2, 3}, 3)} \cup {<<9, 7, 10>> \o t : t \in Seqs({1, 2, 3}, 3)}
        \cup {<<k>> \o t \o <<2>> : k \in {4, 5, 6, 12}, t \in Seqs({3, 7, 8}, 3)}
      text(t) == Wrap(c, <<w>> \o [k \in DOMAIN t |-> Vocabulary[t[k]]])
  IN AsSeq({s \in {text(t) : t \in tails \cup deep} : Denotation(s).verdict = only})

\* Every operator over the chosen term and every other one.
Remark == Codes(" ; (not a comment) )")
Opening == Codes("(define-formula p (> x 2))(define-formula q (always (or p false)))(assert a")
Code == [op \in {"not", "always", "eventually", "and", "or", "until", "implies", "iff", "xor"} |-> Codes(op)]
TextsOfTerms ==
  LET l == Terms[log[1].x]
      space(i) == CASE i % 3 = 0 -> <<32>> [] i % 3 = 1 -> Remark \o <<10>>
                    [] OTHER -> <<9, 13, 10, 32>>
      apply(op, ts, i) == <<40>> \o op \o FlatMap(ts, LAMBDA t : space(i) \o t) \o <<41>>
      whole(t, i) == Opening \o space(i) \o t \o <<41>>
      un == Map(<<Code["not"], Code["always"], Code["eventually"], <<>>>>,
                LAMBDA op : IF op = <<>> THEN l ELSE apply(op, <<l>>, 0))
      bin(k, r) == Map(<<"and", "or", "until", "implies", "iff", "xor">>, LAMBDA op : apply(Code[op], <<l, r>>, k))
                   \o Map(<<"and", "or">>, LAMBDA op : apply(Code[op], <<r, l, r>>, k))
      all == TLCEval(un \o Flat([k \in 1..(IF Wide THEN Len(Terms) ELSE 9) |-> bin(k, Terms[k])]))
  IN TLCEval([k \in DOMAIN all |-> whole(all[k], k)])

\* Every edit of one word.
TextsOfEdits ==
  LET b == Places[log[1].x][1]  i == Places[log[1].x][2]  p == Phrases[b]
      before == SubSeq(p, 1, i - 1)  after == SubSeq(p, i + 1, Len(p))
      text(ws) == Join(ws, <<32>>)
      next == IF after = <<>> THEN <<>> ELSE after[1]
  IN {text(before \o after), text(before \o <<p[i], p[i]>> \o after), text(before),
      text(before \o <<next, p[i]>> \o Tail(after \o <<<<>>>>)),
      text(before \o <<p[i] \o next>> \o Tail(after \o <<<<>>>>))}
     \cup {text(before \o <<w>> \o after) : w \in Range(Words)}
     \cup {text(before \o <<w, p[i]>> \o after) : w \in Range(Words)}
     \cup (IF after = <<>> THEN {text(p \o <<w>>) : w \in Range(Words)} ELSE {})

\* Every edit of one character.
TextsOfLetters ==
  LET i == log[1].x
      before == SubSeq(Specimen, 1, i - 1)  after == SubSeq(Specimen, i + 1, Len(Specimen))
  IN {before \o after, before \o <<Specimen[i]>> \o <<Specimen[i]>> \o after}
     \cup {before \o <<c>> \o after : c \in Letters} \cup {before \o <<c, Specimen[i]>> \o after : c \in Letters}

\* Every word as a name.
TextsOfNames ==
  LET k == log[1].x
      text(w) == LET sp == <<32>> \o w IN
        CASE k = 1 -> Codes("(define-formula") \o sp \o Codes(" (<") \o sp \o Codes(" 1))(assert") \o sp \o sp \o <<41>>
          [] k = 2 -> Codes("(define-formula f true)(define-formula") \o sp \o Codes(" f)(assert f (and f (>= 2") \o sp
                      \o Codes(")") \o sp \o Codes("))")
          [] k = 3 -> Codes("(assert") \o sp \o Codes(" (until true(<") \o sp \o Codes(" 1)))(define-formula") \o sp
                      \o Codes(" (not(") \o w \o Codes(")))")
  IN {text(w) : w \in Range(Words)}

Saying(ss, only) == AsSeq({s \in ss : Denotation(s).verdict = only})
ProgramText(only) ==
  Map(CASE log[1].op = "terms" -> TextsOfTerms [] log[1].op = "edit" -> Saying(TextsOfEdits, only)
        [] log[1].op = "names" -> Saying(TextsOfNames, only)
        [] log[1].op = "letters" -> Saying(TextsOfLetters, only) [] OTHER -> TextsOfWords(only),
      LAMBDA s : CParse(s, only))

(***************************************************************************)
(* The sign of the robustness, and the laws.                               *)
(***************************************************************************)
Program15 ==
  Atoms2 \o
  <<CPred(13, "x", "<", H(1)), CMake("not", 14, 12), CNary("and", 15, <<11, 14>>),
    CNary("or", 16, <<13, 12>>), CMake("G", 20, 11), CMake("F", 21, 13), CMake("G", 22, 16),
    CMake("F", 23, 15), CMake("F", 24, 22), CIval("Gd", 25, 16, H(1), RInt(1)),
    CIval("Fd", 26, 15, RInt(1), H(3)), CIval("Fd", 27, 11, H(3), RInf), CBin("U", 28, 11, 12),
    CBin("U", 29, 14, 13), CNary("or", 30, <<28, 20, 12>>), CMake("not", 31, 26),
    CIval("Gd", 32, 16, RInt(1), RInf), CIval("Gd", 33, 11, H(1), RInf), CMake("not", 34, 27)>>
  \o Map(<<11, 13, 15, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34>>,
         LAMBDA e : CRob(-1, e, "sign", XY))

Shift16(h, g, d) == CShift(g, h, d)
Program16 ==
  LET \* the same signals, moved, doubled, raised (x only), and perturbed
      x == log[1]  y == log[2]
      up(s, f(_, _)) == [i \in DOMAIN s.ts |-> <<s.ts[i], f(i, s.vs[i])>>]
      more == <<CShift(3, 1, H(3)), CShift(4, 2, H(3)),
                CPoints(5, up(x, LAMBDA i, v : RAdd(v, v))), CPoints(6, up(y, LAMBDA i, v : RAdd(v, v))),
                CPoints(7, up(x, LAMBDA i, v : RAdd(v, RInt(i % 2)))),
                CPoints(8, up(y, LAMBDA i, v : RAdd(v, RInt((i % 3) - 1))))>>
      tr(a, b) == <<<<"x", a>>, <<"y", b>>>>
      fs == Atoms2 \o
        <<CMake("not", 13, 11), CMake("not", 14, 12),
          CNary("and", 20, <<11, 12>>), CNary("and", 21, <<12, 11>>), CNary("or", 22, <<13, 14>>),
          CNary("and", 23, <<20, 13>>), CNary("and", 24, <<11, 12, 13>>), CNary("or", 25, <<11, 11>>),
          CMake("G", 30, 11), CMake("F", 31, 13), CIval("Gd", 32, 20, H(1), RInt(2)),
          CIval("Fd", 33, 22, H(1), RInt(2)), CBin("U", 34, 11, 12),
          CPred(40, "x", ">", RInt(2)), CPred(41, "x", ">", RInt(4)),
          CPred(42, "y", "<=", RInt(1)), CPred(43, "y", "<=", RInt(2)),
          CBin("U", 44, 40, 42), CBin("U", 45, 41, 43),
          CNary("or", 46, <<40, 42>>), CNary("or", 47, <<41, 43>>),
          CIval("Fd", 48, 40, H(1), RInt(1)), CIval("Fd", 49, 41, H(1), RInt(1))>>
      rob(h, e) == CRob(h, e, "value", tr(1, 2))
      two(kind, a, b) == <<rob(60, a), rob(61, b), CLaw(kind, 60, 61, RZero)>>
      on(kind, a, p, q, d) == <<rob(60, a), CRob(61, a, "value", tr(p, q)), CLaw(kind, 60, 61, d)>>
  IN more \o fs
     \o two("same", 20, 21) \o two("neg", 20, 22) \o two("same", 23, 24) \o two("same", 11, 25)
     \o two("neg", 30, 31) \o two("neg", 32, 33)
     \o on("shift", 20, 3, 4, H(3)) \o on("shift", 34, 3, 4, H(3)) \o on("shift", 32, 3, 4, H(3))
     \o <<rob(60, 44), CRob(61, 45, "value", tr(5, 6)), CLaw("scale", 60, 61, RInt(2)),
          rob(60, 46), CRob(61, 47, "value", tr(5, 6)), CLaw("scale", 60, 61, RInt(2)),
          rob(60, 48), CRob(61, 49, "value", tr(5, 6)), CLaw("scale", 60, 61, RInt(2))>>
     \o on("leq", 20, 7, 2, RZero) \o on("leq", 34, 7, 2, RZero) \o on("leq", 30, 7, 2, RZero)
     \o on("lip", 20, 7, 8, RInt(1)) \o on("lip", 34, 7, 8, RInt(1)) \o on("lip", 48, 7, 8, RInt(1))
     \o on("lip", 46, 7, 8, RInt(1))

(***************************************************************************)
(* The lines of samples, and their order.                                  *)
(***************************************************************************)
Program17 ==
  LET q  == Half(-1, 9)
      i4 == <<0, 1, 2, 3, 4>>
      others == << <<<<RZero, RInt(2)>>, <<RInt(1), RZero>>, <<RInt(4), RInt(1)>>>>,
                   <<<<H(1), RInt(1)>>, <<RInt(2), RInt(3)>>>> >>
  IN FlatMap(i4, LAMBDA i : FlatMap(q, LAMBDA t : <<CArea(1, t, i), CInterp(1, t, i)>>))
     \o FlatMap(others, LAMBDA y :
          <<CPoints(2, y)>>
          \o FlatMap(i4, LAMBDA i : FlatMap(<<0, 1, 2>>, LAMBDA j :
               <<CLines("isect", 1, i, 2, j), CLines("isect", 2, j, 1, i),
                 CLines("order", 1, i, 2, j), CLines("order", 2, j, 1, i)>>)))
     \o FlatMap(i4, LAMBDA i : Map(i4, LAMBDA j : CLines("order", 1, i, 1, j)))

(***************************************************************************)
(* Which part of the trace matters.                                        *)
(***************************************************************************)
Fs18 == Atoms2 \o
  <<CPred(13, "x", "<", H(1)), CMake("not", 14, 12), CNary("and", 15, <<11, 12>>),
    CNary("or", 16, <<13, 14>>), CMake("G", 20, 16), CMake("F", 21, 15), CBin("U", 22, 13, 12),
    CIval("Gd", 23, 11, H(1), RInt(1)), CIval("Fd", 24, 15, RInt(1), H(3)),
    CIval("Gd", 25, 24, RZero, H(1)), CNary("or", 26, <<23, 14>>), CIval("Fd", 27, 11, RInt(1), RInf),
    CBin("U", 28, 23, 11), CConst(29, TRUE), CNary("and", 30, <<29, 23>>)>>
\* a signal as a sequence
Drawn(m) == [i \in DOMAIN m.ts |-> <<m.ts[i], m.vs[i]>>]
After18(s, t) == SelectSeq(s, LAMBDA p : RLe(t, p[1]))
UpTo18(s, t) == SelectSeq(s, LAMBDA p : RLe(p[1], t))
Lasting(s, d) == s \o <<<<RAdd(End(s), d), s[Len(s)][2]>>>>

Program18 ==
  LET x == Drawn(log[1])  y == Drawn(log[2])
      one == RInt(1)
      news == << \* other pasts
                 <<"future", <<<<RInt(-1), RInt(3)>>>> \o After18(x, one), y>>,
                 <<"future", After18(x, RInt(2)), <<<<RZero, RInt(-2)>>, <<one, RInt(2)>>>> \o After18(y, RInt(2))>>,
                 \* other futures
                 <<"past", UpTo18(x, RInt(2)) \o <<<<RInt(3), RInt(-3)>>, <<RInt(5), RInt(3)>>>>, y>>,
                 <<"past", x, UpTo18(y, RInt(2)) \o <<<<RInt(3), RInt(3)>>>> >>,
                 \* the last value held
                 <<"hold", Lasting(x, one), Lasting(y, one)>>,
                 <<"hold", Lasting(Lasting(x, H(1)), RInt(9)), Lasting(y, H(19))>> >>
      es == <<11, 15, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30>>
      trOf(a, b) == <<<<"x", a>>, <<"y", b>>>>
  IN Fs18 \o Map(es, LAMBDA e : CRob(40 + e, e, "value", XY))
     \o FlatMap(news, LAMBDA n :
          <<CPoints(3, n[2]), CPoints(4, n[3])>>
          \o FlatMap(es, LAMBDA e : <<CRob(9, e, "value", trOf(3, 4)), CLaw(n[1], 40 + e, 9, RZero),
                                     CLaw(n[1], 9, 40 + e, RZero)>>))
     \* signals that the formula does not mention
     \o <<CPoints(5, <<<<RInt(-9), RInt(7)>>, <<RInt(99), RInt(-7)>>>>), CNew(6)>>
     \o FlatMap(<<11, 15, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28>>, LAMBDA e :
          <<CRob(9, e, "value", <<<<"z", 5>>, <<"x", 1>>, <<"xx", 6>>, <<"y", 2>>>>),
            CLaw("same", 40 + e, 9, RZero)>>)

\* With a sample halfway in each segment of odd (even) index.
Refined(s, r) ==
  FlattenSeq([i \in DOMAIN s |->
    IF i < Len(s) /\ i % 2 = r
    THEN LET t == RMul(H(1), RAdd(s[i][1], s[i + 1][1]))
         IN <<s[i], <<t, LineAt(s[i], s[i + 1], t)>>>>
    ELSE <<s[i]>>])
Program19 ==
  LET x == Drawn(log[1])  y == Drawn(log[2])
      es == <<11, 15, 16, 20, 21, 23, 24, 26, 27, 30, 31, 32, 33>>
      trOf(a, b) == <<<<"x", a>>, <<"y", b>>>>
      more == <<CPoints(3, Refined(x, 0)), CPoints(4, Refined(y, 1)), CPoints(5, Refined(Refined(x, 1), 1)),
                CMake("simplify", 6, 1), CMake("simplify", 7, 2)>>
  IN SubSeq(Fs18, 1, 8)
     \o <<CIval("Gd", 23, 16, H(1), RInt(1)), CIval("Fd", 24, 15, RInt(1), H(3)),
          CNary("or", 26, <<23, 14>>), CIval("Fd", 27, 11, RInt(1), RInf), CConst(29, TRUE),
          CNary("and", 30, <<29, 21>>), CIval("Gd", 31, 11, RZero, RInt(2)),
          CMake("F", 32, 20), CMake("not", 33, 24)>>
     \o more
     \o Map(es, LAMBDA e : CRob(40 + e, e, "value", XY))
     \o FlatMap(<<<<3, 2>>, <<1, 4>>, <<3, 4>>, <<5, 2>>, <<6, 7>>, <<6, 4>>>>, LAMBDA p :
          FlatMap(es, LAMBDA e : <<CRob(9, e, "value", trOf(p[1], p[2])), CLaw("refine", 40 + e, 9, RZero)>>))

(***************************************************************************)
(* From a text and a trace to a robustness.                                *)
(***************************************************************************)
Program20 ==
  FlatMap(TextsOfTerms, LAMBDA t : <<CMon(-1, "a", t, "a", XY)>>)
  \o LET t == TextsOfTerms[5] IN
     \* the formulas defined on the way, names that are not, and signals that are not there
     <<CMon(3, "f", t, "p", XY), CMon(4, "f", t, "q", XY), CMon(-1, "f", t, "a", XY), CMon(-1, "a", t, "p", XY),
       CMon(-1, "a", t, "b", XY), CMon(-1, "f", t, "q", <<<<"y", 2>>>>),
       CPred(11, "x", ">", RInt(2)), CConst(12, FALSE), CNary("or", 13, <<11, 12>>), CMake("G", 14, 13),
       CRob(5, 11, "value", X1), CLaw("same", 3, 5, RZero), CRob(6, 14, "value", X1), CLaw("same", 4, 6, RZero)>>

Prefix == CASE Scope = "C10" -> Heap0 [] Scope = "C11" -> Start11 [] OTHER -> <<>>
Program ==
  CASE Scope = "C01" -> Program01 [] Scope = "C02" -> Program02 [] Scope = "C03" -> Program03
    [] Scope = "C04" -> Program04 [] Scope = "C05" -> Program05 [] Scope = "C06" -> Program06
    [] Scope = "C07" -> Program07 [] Scope = "C08" -> Program08 [] Scope = "C09" -> Program09
    [] Scope = "C10" -> Program10 [] Scope = "C11" -> Program11
    [] Scope = "C12" -> ProgramText("accept") [] Scope = "C13" -> ProgramText("reject")
    [] Scope = "C14" -> Program14 [] Scope = "C15" -> Program15 [] Scope = "C16" -> Program16
    [] Scope = "C17" -> Program17 [] Scope = "C18" -> Program18 [] Scope = "C19" -> Program19
    [] Scope = "C20" -> Program20

\* A last step runs the program: a step of its own, so that TLC's workers share the runs.
Ended == log # <<>> /\ log[Len(log)].op = "end"
Moves == IF Ended THEN SubSeq(log, 1, Len(log) - 1) ELSE log

\* A behaviour: moves that only select something are no calls.
Calls ==
  SelectSeq(Prefix \o Moves, LAMBDA c : c.op \notin {"left", "prefix", "terms", "edit", "letters", "names"}) \o Program

(***************************************************************************)
(* The state machine.                                                      *)
(***************************************************************************)
Init == log = <<>>
Next ==
  /\ ~Ended
  /\ \/ /\ Len(log) < Len(Bases)
        /\ \E c \in Bases[Len(log) + 1] :
             /\ (Scope = "C01" /\ Len(log) > 0) => (log[1].op = "new" \/ Len(log) = 1)
             /\ log' = Append(log, c)
     \* whole behaviours; those of C01 are reported at every length
     \/ /\ Len(log) = Len(Bases) \/ (Scope = "C01" /\ Len(log) > 0)
        /\ log' = Append(log, [op |-> "end"])

(***************************************************************************)
(* What is checked of a behaviour on the specification.                    *)
(***************************************************************************)
Texts == {"print", "printos", "prints", "printp"}
Changes(ev) ==   \* the handles a call may change
  LET of(k) == IF k \in DOMAIN ev THEN {ev[k]} ELSE {}
  IN of("h") \cup of("h2") \cup (IF ev.op \in {"push", "pushs"} THEN {ev.x} ELSE {})
Refused(ev) == ev.op = "parse" /\ ev.only = "reject"   \* by choice of its text
Kept(m, n, hs) == \A h \in DOMAIN m \ hs : h \in DOMAIN n /\ n[h] = m[h]

Wrong(ev, st) ==
  IF ~Ready(ev, st) \/ ev.op \in Texts \/ Refused(ev) THEN {}
  ELSE LET res == IF ev.op = "law" THEN OkOnly ELSE TLCEval(Result(ev, st))
           now == TLCEval(After(ev, res, st))
           obs == IF ev.op = "obs"
                  THEN LET x == st.sigs[ev.x]
                       IN res @@ [n |-> Len(x), empty |-> x = <<>>, rev |-> Reverse(x), idx |-> x,
                                  b |-> IF x = <<>> THEN RZero ELSE Begin(x),
                                  e |-> IF x = <<>> THEN RZero ELSE End(x),
                                  front |-> IF x = <<>> THEN <<>> ELSE x[1],
                                  back |-> IF x = <<>> THEN <<>> ELSE x[Len(x)]]
                  ELSE res
       IN Faults(ev, obs, st)
          \cup (IF /\ Kept(st.sigs, now.sigs, Changes(ev))
                   /\ Kept(st.exprs, now.exprs, Changes(ev))
                   /\ Kept(st.specs, now.specs, Changes(ev))
                THEN {} ELSE {"changes another object"})
          \cup (IF \A h \in DOMAIN now.sigs : IsSignal(now.sigs[h]) THEN {} ELSE {"ill-formed heap"})

Run(calls) ==
  FoldLeft(LAMBDA acc, ev :
             IF acc.bad # {} THEN acc
             ELSE LET w == Wrong(ev, acc.st) IN
                  IF w # {} THEN [acc EXCEPT !.bad = w, !.at = ev]
                  ELSE IF ~Ready(ev, acc.st) \/ ev.op \in Texts \cup {"law"} \/ Refused(ev)
                  THEN [acc EXCEPT !.n = @ + 1]
                  ELSE [acc EXCEPT !.st = TLCEval(After(ev, TLCEval(Result(ev, acc.st)), acc.st)), !.n = @ + 1],
           [st |-> Empty, bad |-> {}, at |-> <<>>, n |-> 0], calls)

Checked ==
  Ended =>
    LET calls == TLCEval(Calls)
        r     == IF Scope = "C13" THEN [bad |-> {}] ELSE Run(calls)
    IN IF r.bad = {} THEN PrintT("RUN " \o ToJson(calls))
       ELSE PrintT(<<"WRONG", r.bad, r.at>>) /\ FALSE
=============================================================================
